"""contracts for src/walk.rs -> 50_walk.vrs"""
O = []
def o(s): O.append(s)
def dec(T, pre, post, ok, res, rd='reader'):
    return ['%s ==> took(decf(%s::fmt(), %s.rem()), %s.rem(), %s.rem(), %s)' % (ok, T, pre, pre, post, res),
            '%s.reliable() ==> %s.reliable() && (%s <==> decf(%s::fmt(), %s.rem()) is Some)' % (pre, post, ok, T, pre)]
def skp(T, pre, post, ok):
    return ['%s ==> skipped(%s::fmt(), %s.rem(), %s.rem())' % (ok, T, pre, post),
            '%s.reliable() ==> %s.reliable() && (decf(%s::fmt(), %s.rem()) is Some ==> %s)' % (pre, post, T, pre, ok)]
def fn(key, ens, req=(), begin=None, props='C11'):
    o('//!! fn %s : %s' % (key, props))
    if req: o('requires'); o('    ' + ',\n    '.join(req) + ',')
    if ens: o('ensures'); o('    ' + ',\n    '.join(ens) + ',')
    if begin: o('//!! begin %s\n    %s' % (key, begin))
USE = 'proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals(); }'
for d in 'LeafWalker OptionWalker ResultWalker SeqWalker SeqItem MapWalker MapCursor MapEntry StructWalker EnumWalker'.split(): o('//!! data %s' % d)
A, Z = '(*self_.reader)', '(*final(self_.reader))'
# a by-value self whose mutable fields are reborrowed: `old(self.reader)` is the state at the call
PRE, POST = '(*old(self.reader))', '(*final(self.reader))'
held = lambda w, r='$0': '*%s.reader == *old(%s) && *final(%s.reader) == *final(%s)' % (w, r, w, r)
OKR = '__r->Ok_0'

W = 'LeafWalker<T,R>::'
fn(W + 'new', [held('__r')])
fn(W + 'decode', dec('T', PRE, POST, '__r is Ok', '(%s).model()' % OKR))
fn(W + 'skip', skp('T', PRE, POST, '__r is Ok'))
fn(W + 'reader', ['*__r == *old(self).reader', '*final(__r) == *final(self).reader', '*final(old(self).reader) == *final(final(self).reader)'])
fn(W + 'into_reader', ['*__r == *old(self.reader)', '*final(__r) == *final(self.reader)'])

def prefixed(pre, post, ok, call):
    """closure over the length-prefixed payload, then past it"""
    return ['%s ==> match decf(Fmt::Bytes, %s.rem()) { Some((v, n)) => %s.rem() == %s.rem().skip(n as int) && (exists|s: &[u8]| #[trigger] s@ == v->B_0 && %s), None => false }' % (ok, pre, post, pre, call),
            '%s.reliable() ==> %s.reliable() && (%s <==> decf(Fmt::Bytes, %s.rem()) is Some)' % (pre, post, ok, pre)]
BY = 'proof { broadcast use {group_vx, group_fmt}; p256_vals(); uint_facts(8, %s.rem(), Seq::empty()); }'
fn('walk::with_length_prefixed_bytes', prefixed('(*old($0))', '(*final($0))', '__r is Ok', '$1.ensures((s,), %s)' % OKR), ['forall|s: &[u8]| #[trigger] $1.requires((s,))'], BY % '(*old($0))')
fn(W + 'with_bytes', prefixed(PRE, POST, '__r is Ok', '$0.ensures((s,), %s)' % OKR), ['forall|s: &[u8]| #[trigger] $0.requires((s,))'])

W = 'OptionWalker<T,R>::'
o1 = '(*old($0)).rem()'
fn(W + 'new', ['__r is Ok ==> %s.len() > 0 && (%s).tag == %s[0] && (%s).tag <= 1 && (*(%s).reader).rem() == %s.skip(1) && *final((%s).reader) == *final($0)' % (o1, OKR, o1, OKR, OKR, o1, OKR),
               '(*old($0)).reliable() ==> (__r is Ok <==> %s.len() > 0 && %s[0] <= 1) && (__r is Ok ==> (*(%s).reader).reliable())' % (o1, o1, OKR)], begin=USE)
fn(W + 'is_some', ['__r <==> self.tag == 1'])
fn(W + 'is_none', ['__r <==> self.tag == 0'])
fn(W + 'decode', ['self.tag == 0 ==> __r is Ok && %s is None && %s == %s' % (OKR, POST, PRE),
                  'self.tag == 1 && __r is Ok ==> %s is Some' % OKR] +
   ['self.tag == 1 ==> (%s)' % x for x in dec('T', PRE, POST, '__r is Ok', '(%s->0).model()' % OKR)], ['self.tag <= 1'])
fn(W + 'skip', ['self.tag == 0 ==> __r is Ok && %s == %s' % (POST, PRE)] + ['self.tag == 1 ==> (%s)' % x for x in skp('T', PRE, POST, '__r is Ok')], ['self.tag <= 1'])

W = 'ResultWalker<T,E,R>::'
fn(W + 'new', ['__r is Ok ==> took(decf(Fmt::UInt(4), %s), %s, (*(%s).reader).rem(), Val::N((%s).tag as int)) && (%s).tag <= 1 && *final((%s).reader) == *final($0)' % (o1, o1, OKR, OKR, OKR, OKR),
               '(*old($0)).reliable() ==> (__r is Ok <==> decf(Fmt::UInt(4), %s) is Some && 0 <= v_of(decf(Fmt::UInt(4), %s))->N_0 <= 1) && (__r is Ok ==> (*(%s).reader).reliable())' % (o1, o1, OKR)], begin=USE)
fn(W + 'is_ok', ['__r <==> self.tag == 0'])
fn(W + 'is_err', ['__r <==> self.tag == 1'])
fn(W + 'decode', ['__r is Ok ==> (%s is Ok <==> self.tag == 0)' % OKR] +
   ['self.tag == 0 ==> (%s)' % x for x in dec('T', PRE, POST, '__r is Ok', '(%s->Ok_0).model()' % OKR)] +
   ['self.tag == 1 ==> (%s)' % x for x in dec('E', PRE, POST, '__r is Ok', '(%s->Err_0).model()' % OKR)], ['self.tag <= 1'])
fn(W + 'skip', ['self.tag == 0 ==> (%s)' % x for x in skp('T', PRE, POST, '__r is Ok')] + ['self.tag == 1 ==> (%s)' % x for x in skp('E', PRE, POST, '__r is Ok')], ['self.tag <= 1'])

# ------------------------------------------------------------------ sequences
W = 'SeqWalker<T,R>::'
newlen = ['__r is Ok ==> took(decf(Fmt::UInt(8), %s), %s, (*(%s).reader).rem(), Val::N((%s).remaining as int)) && *final((%s).reader) == *final($0)' % (o1, o1, OKR, OKR, OKR),
          '(*old($0)).reliable() ==> (__r is Ok <==> decf(Fmt::UInt(8), %s) is Some) && (__r is Ok ==> (*(%s).reader).reliable())' % (o1, OKR)]
fn(W + 'new', newlen, begin=USE)
fn(W + 'remaining', ['__r == self.remaining'])
item = lambda i: ['__r is Some <==> old(self).remaining > 0', '__r is Some ==> *(__r->0).walker == *old(self) && *final((__r->0).walker) == *final(self)' + i, '__r is None ==> *final(self) == *old(self)']
fn(W + 'next_item', item(''))
def skip_rest(w, g):
    k = w + 'skip_remaining'
    fn(k, ['__r is Ok ==> match szn(%s, self.remaining as nat, %s.rem()) { Some(n) => n <= %s.rem().len() && %s.rem() =~= %s.rem().skip(n as int), None => false }' % (g, PRE, PRE, POST, PRE),
           '%s.reliable() ==> %s.reliable() && (decn(%s, self.remaining as nat, %s.rem()) is Some ==> __r is Ok)' % (PRE, POST, g, PRE)])
    return k
def loops(k, g, facts):
    o('//!! begin %s\n    let ghost n0 = self.remaining as nat; let ghost s1 = (*self.reader).rem(); let ghost fin = *final(self.reader); let ghost rel = (*self.reader).reliable();' % k)
    o('//!! loop %s\ninvariant\n    0 <= __self.remaining <= n0, *final(__self.reader) == fin, rel ==> (*__self.reader).reliable(),\n'
      '    szn(%s, (n0 - __self.remaining) as nat, s1) is Some, szn(%s, (n0 - __self.remaining) as nat, s1)->0 <= s1.len(),\n'
      '    (*__self.reader).rem() =~= s1.skip(szn(%s, (n0 - __self.remaining) as nat, s1)->0 as int),\ndecreases __self.remaining' % (k, g, g, g))
    o('//!! loopbefore %s\n    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(%s, 0, s1); }' % (k, g))
    o('//!! loopbegin %s\n    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};\n        let k = (n0 - __self.remaining) as nat;\n'
      '        szn_step(%s, k, s1); decn_step(%s, k, s1); thm_szn(%s, k, s1); thm_szn(%s, k + 1, s1);\n        decn_prefix(%s, k + 1, n0, s1); szn_prefix(%s, k + 1, n0, s1); %s }' % (k, g, g, g, g, g, g, facts))
g = 'T::fmt()'
loops(skip_rest(W, g), g, '')
W = 'SeqItem<T,R>::'
IP, IQ = '(*old(self.walker).reader)', '(*final(self.walker).reader)'
one = '__r is Ok ==> final(self.walker).remaining == old(self.walker).remaining - 1'
same = '*final(final(self.walker).reader) == *final(old(self.walker).reader)'
need = ['self.walker.remaining > 0']
fn(W + 'decode', [one, same] + dec('T', IP, IQ, '__r is Ok', '(%s).model()' % OKR), need)
fn(W + 'skip', [one, same] + skp('T', IP, IQ, '__r is Ok'), need)
fn(W + 'with_bytes', [one, same] + prefixed(IP, IQ, '__r is Ok', '$0.ensures((s,), %s)' % OKR), need + ['forall|s: &[u8]| #[trigger] $0.requires((s,))'])

# ------------------------------------------------------------------ maps
W = 'MapWalker<K,V,R>::'
fn(W + 'new', newlen, begin=USE)
fn(W + 'remaining', ['__r == self.remaining'])
fn(W + 'next_entry', item(' && (__r->0).cursor == MapCursor::BeforeKey'))
g = 'crate::__vxwk::kvf::<K, V>()'
loops(skip_rest(W, g), g, 'crate::__vxwk::szf_kv::<K, V>((*__self.reader).rem());')

def find(k, ans, arg, extra, facts):
    a = '(|i: nat, o: Ordering| crate::__vxwk::%s::<F, K, V>(%%s, s1, i, o))' % ans
    A = lambda f, s: a.replace('%s', f).replace('s1', s)
    s0 = PRE + '.rem()'
    fn(k, ['__r is Ok && %s is Some ==> crate::__vxwk::found::<K, V>(%s, %s, self.remaining as nat, (*(%s->0).reader).rem()) && *final((%s->0).reader) == *final(self.reader)' % (OKR, A('$0', s0), s0, OKR, OKR),
           '__r is Ok && %s is None ==> crate::__vxwk::missed::<K, V>(%s, %s, self.remaining as nat, %s.rem())' % (OKR, A('$0', s0), s0, POST),
           '%s.reliable() && decn(%s, self.remaining as nat, %s) is Some ==> __r is Ok' % (PRE, g, s0)],
       extra + ['forall|s: %s| #[trigger] $0.requires((s,))' % arg])
    o('//!! attr %s\n#[verifier::spinoff_prover]' % k)
    o('//!! begin %s\n    let ghost n0 = self.remaining as nat; let ghost s1 = (*self.reader).rem(); let ghost fin = *final(self.reader); let ghost rel = (*self.reader).reliable(); let ghost pr = $0;\n    let ghost a = %s;' % (k, A('pr', 's1')))
    inv = ('    0 <= __self.remaining <= n0, *final(__self.reader) == fin, rel ==> (*__self.reader).reliable(), pr == $0, a == %s,\n'
      '    crate::__vxwk::at::<K, V>(s1, (n0 - __self.remaining) as nat),\n'
      '    (*__self.reader).rem() =~= s1.skip(szn(%s, (n0 - __self.remaining) as nat, s1)->0 as int),\n' % (A('pr', 's1'), g))
    step = ('    proof { broadcast use {group_vx, thm_sz_auto};\n        let k = (n0 - __self.remaining) as nat;\n'
      '        szn_step(%s, k, s1); decn_step(%s, k, s1); thm_szn(%s, k, s1); thm_szn(%s, k + 1, s1);\n        decn_prefix(%s, k + 1, n0, s1); szn_prefix(%s, k + 1, n0, s1); crate::__vxwk::decf_kv::<K, V>((*__self.reader).rem()); %%s }' % (g, g, g, g, g, g))
    o('//!! loop %s\ninvariant\n%s    crate::__vxwk::lessers(a, (n0 - __self.remaining) as nat), forall|s: %s| #[trigger] $0.requires((s,)),\ndecreases __self.remaining' % (k, inv, arg))
    o('//!! loopbefore %s\n    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(%s, 0, s1); }' % (k, g))
    o('//!! loopbegin %s\n    let ghost k0 = (n0 - __self.remaining) as nat;\n%s' % (k, step % facts))
    o('//!! loop %s\ninvariant\n%s    k0 < n0, crate::__vxwk::lessers(a, k0), a(k0, Ordering::Greater),\ndecreases __self.remaining' % (k, inv))
    o('//!! loopbegin %s\n%s' % (k, step % ''))
find(W + 'find', 'ans', '&K', [], '')
find(W + 'find_bytes', 'ansb', '&[u8]', ['K::fmt() == Fmt::Bytes'], 'crate::__vxwk::decf_b((*__self.reader).rem());')
W = 'MapEntry<K,V,R>::'
fn(W + 'expect_cursor', ['__r is Ok <==> self.cursor == $0'], begin='proof { crate::__vxwk::cursor_eq(); }')
walker_same = '*final(final(old(self).walker).reader) == *final(old(self).walker.reader)'
EP, EQ = '(*(*old(self)).walker.reader)', '(*(*final(self)).walker.reader)'
framek = ['__r is Ok ==> (*final(self)).cursor == MapCursor::BeforeValue', '(*final(self)).walker.remaining == (*old(self)).walker.remaining',
          '*final((*final(self)).walker) == *final((*old(self)).walker)', '*final((*final(self)).walker.reader) == *final((*old(self)).walker.reader)',
          '(*old(self)).cursor != MapCursor::BeforeKey ==> __r is Err && *final(self) == *old(self)']
bk = lambda xs: ['(*old(self)).cursor == MapCursor::BeforeKey ==> (%s)' % x for x in xs]
fn(W + 'decode_key', framek + bk(dec('K', EP, EQ, '__r is Ok', '(%s).model()' % OKR)))
fn(W + 'skip_key', framek + bk(skp('K', EP, EQ, '__r is Ok')))
fn(W + 'with_key_bytes', framek + bk(prefixed(EP, EQ, '__r is Ok', '$0.ensures((s,), %s)' % OKR)), ['forall|s: &[u8]| #[trigger] $0.requires((s,))'])
bv = lambda xs: ['self.cursor == MapCursor::BeforeValue ==> (%s)' % x for x in xs]
framev = [one, same, 'self.cursor != MapCursor::BeforeValue ==> __r is Err']
fn(W + 'decode_value', framev + bv(dec('V', IP, IQ, '__r is Ok', '(%s).model()' % OKR)), need)
fn(W + 'skip_value', framev + bv(skp('V', IP, IQ, '__r is Ok')), need)
fn(W + 'with_value_bytes', framev + bv(prefixed(IP, IQ, '__r is Ok', '$0.ensures((s,), %s)' % OKR)), need + ['forall|s: &[u8]| #[trigger] $0.requires((s,))'])
bb = lambda xs: ['self.cursor == MapCursor::BeforeKey ==> (%s)' % x for x in xs]
framep = [one, same, 'self.cursor != MapCursor::BeforeKey ==> __r is Err']
PU = 'proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; }'
fn(W + 'decode_pair', framep + bb([x.replace('kvf()', 'kvf::<K, V>()') for x in
   ['__r is Ok ==> took(decf(crate::__vxwk::kvf(), %s.rem()), %s.rem(), %s.rem(), vpair((%s).0.model(), (%s).1.model()))' % (IP, IP, IQ, OKR, OKR),
    '%s.reliable() ==> %s.reliable() && (__r is Ok <==> decf(crate::__vxwk::kvf(), %s.rem()) is Some)' % (IP, IQ, IP)]]), need, PU)
fn(W + 'skip_pair', framep + bb([x.replace('kvf()', 'kvf::<K, V>()') for x in
   ['__r is Ok ==> skipped(crate::__vxwk::kvf(), %s.rem(), %s.rem())' % (IP, IQ),
    '%s.reliable() ==> %s.reliable() && (decf(crate::__vxwk::kvf(), %s.rem()) is Some ==> __r is Ok)' % (IP, IQ, IP)]]), need, PU)

# ------------------------------------------------------------------ structs and enums
W = 'StructWalker<R>::'
fn(W + 'new', [held('__r'), '__r.revision == $1', '__r.position == 0'])
fn(W + 'revision', ['__r == self.revision'])
fn(W + 'position', ['__r == self.position'])
SP, SQ = '(*(*old(self)).reader)', '(*(*final(self)).reader)'
sfr = ['__r is Ok ==> (*final(self)).position == (*old(self)).position + 1', '(*final(self)).revision == (*old(self)).revision', '*final((*final(self)).reader) == *final((*old(self)).reader)']
fn(W + 'decode', sfr + dec('T', SP, SQ, '__r is Ok', '(%s).model()' % OKR), ['old(self).position < u32::MAX'])
fn(W + 'skip', sfr + skp('T', SP, SQ, '__r is Ok'), ['old(self).position < u32::MAX'])
fn(W + 'reader', ['*__r == *old(self).reader', '*final(__r) == *final(self).reader', '*final(old(self).reader) == *final(final(self).reader)'])
fn(W + 'into_reader', ['*__r == *old(self.reader)', '*final(__r) == *final(self.reader)'])
W = 'EnumWalker<R>::'
fn(W + 'new', ['__r is Ok ==> (%s).revision == $1 && took(decf(Fmt::UInt(4), %s), %s, (*(%s).reader).rem(), Val::N((%s).discriminant as int)) && *final((%s).reader) == *final($0)' % (OKR, o1, o1, OKR, OKR, OKR),
               '(*old($0)).reliable() ==> (__r is Ok <==> decf(Fmt::UInt(4), %s) is Some) && (__r is Ok ==> (*(%s).reader).reliable())' % (o1, OKR)], begin=USE)
fn(W + 'revision', ['__r == self.revision'])
fn(W + 'discriminant', ['__r == self.discriminant'])
fn(W + 'decode', dec('T', PRE, POST, '__r is Ok', '(%s).model()' % OKR))
fn(W + 'skip', skp('T', PRE, POST, '__r is Ok'))
fn(W + 'reader', ['*__r == *old(self).reader', '*final(__r) == *final(self).reader', '*final(old(self).reader) == *final(final(self).reader)'])
fn(W + 'into_reader', ['*__r == *old(self.reader)', '*final(__r) == *final(self.reader)'])
fn('walk::read_enum_discriminant', ['__r is Ok ==> took(decf(Fmt::UInt(4), %s), %s, (*final($0)).rem(), Val::N(%s as int))' % (o1, o1, OKR),
    '(*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> decf(Fmt::UInt(4), %s) is Some)' % o1], begin=USE)
o(open(__file__.replace('gen_walk.py', 'walk_tail.txt')).read())
open(__file__.replace('gen_walk.py', '50_walk.vrs'), 'w').write('\n'.join(O))
