#!/usr/bin/env python3
"""Writes vd/decls.rs (revisioned declarations handed to the derive macro) and vd/50_derived.vrs (their
contracts, computed here from the declared history alone).  Deterministic."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
D, O = [], []
d, o = D.append, O.append
SPEC = []          # text of the ghost module
ABS = ['F0', 'F1', 'F2', 'F3']          # arbitrary field types: any wire format, any value
FIX = {'u32': ('n', 4), 'i32': ('z', 4), 'u64': ('n', 8), 'i64': ('z', 8), 'u128': ('n', 16), 'i128': ('z', 16)}
DFLT = {'u32': 'Val::N(0)', 'u8': 'Val::N(0)', 'u64': 'Val::N(0)', 'i64': 'Val::N(0)', 'i32': 'Val::N(0)', 'u128': 'Val::N(0)', 'String': None, 'bool': 'Val::N(0)'}

class F:
    def __init__(s, ty, start=None, end=None, ov=None, dfn=False, name=None):
        s.ty, s.start, s.end, s.ov, s.dfn, s.name = ty, start, end, ov, dfn, name
    def at(s, r): return (s.start or 0) <= r and (s.end is None or s.end > r)
    def fmt(s, opt):
        if s.ov == 'fixed' and not opt:
            k, w = FIX[s.ty]
            return 'Fmt::Raw(%d)' % w if k == 'n' else 'fixed_z(%d)' % w
        if s.ov == 'specialised' and not opt: return '<%s as SpecialisedSpec>::sfmt()' % s.ty
        if s.ov and s.ov.startswith('indexed') and opt: return '<%s as I%sSpec>::xfmt()' % (s.ty, s.ov[8:].capitalize())
        return '<%s as RevSpec>::fmt()' % s.ty
    def default(s): return DFLT.get(s.ty) or 'dflt_%s()' % s.ty
class V:
    def __init__(s, name, kind, fields=(), start=None, end=None, over=None, size=None):
        s.name, s.kind, s.fields, s.start, s.end, s.over, s.size = name, kind, list(fields), start, end, over or {}, size
    at = F.at
class T:
    def __init__(s, name, enc, kind, fields=None, variants=None, syntax=0):
        s.name, s.enc, s.kind, s.fields, s.variants, s.syntax = name, enc, kind, fields, variants, syntax
        s.L = len(enc)

def attrs_item(t):
    def entry(i, e): return 'revision(%d%s)' % (i + 1, {'l': '', 'o': ', optimised', 'x': ', optimised, indexed_struct'}[e])
    ents = [entry(i, e) for i, e in enumerate(t.enc)]
    plain = all(e == 'l' for e in t.enc)
    if plain and t.syntax == 0: return ['#[revisioned(revision = %d)]' % t.L]
    if plain and t.syntax == 1: return ['#[revisioned()]', '#[revision(revision = %d)]' % t.L]
    if t.syntax == 2: ents = ents[::-1]
    if t.syntax == 3: return ['#[revisioned()]', '#[revision(%s)]' % ', '.join(ents)]
    return ['#[revisioned(%s)]' % ', '.join(ents)]
def life(x, extra):
    a = []
    if x.start is not None: a.append('start = %d' % x.start)
    if x.end is not None: a.append('end = %d' % x.end)
    a += extra
    return '#[revision(%s)] ' % ', '.join(a) if a else ''
def fattrs(f, cfn, dfn):
    e = []
    if f.end is not None: e.append('convert_fn = "%s"' % cfn)
    if f.dfn: e.append('default_fn = "%s"' % dfn)
    if f.ov: e.append(f.ov)
    return life(f, e)
def fat(fs, r): return [(i, f) for i, f in enumerate(fs) if f.at(r)]
def nestf(xs):
    if not xs: return 'Fmt::Unit'
    if len(xs) == 1: return xs[0]
    return 'Fmt::Pair(Box::new(%s), Box::new(%s))' % (xs[0], nestf(xs[1:]))
def nestv(xs):
    if not xs: return 'unit()'
    if len(xs) == 1: return xs[0]
    return 'vpair(%s, %s)' % (xs[0], nestv(xs[1:]))
def comp(base, k, n):
    """k-th component of an n-component right-nested value"""
    if n == 1: return base
    s = base
    for _ in range(k): s = '(%s)->V_1[1]' % s
    return '(%s)->V_1[0]' % s if k < n - 1 else s
HINT = 'broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts(); '

def fields_up(n, pre, fs, r, L, base, latref):
    """expression Option<Val>: the latest value of fields fs stored at r as `base`; conversions of removed fields in order"""
    at, lat = fat(fs, r), fat(fs, L)
    pos = {i: k for k, (i, _) in enumerate(at)}
    vals = []
    for i, f in lat:
        if i in pos: vals.append(comp(base, pos[i], len(at)))
        elif f.dfn: vals.append('%s_d_%s%d(%d)->0' % (n, pre, i, r))
        else: vals.append(f.default())
    conds = ['%s_d_%s%d(%d) is Some' % (n, pre, i, r) for i, f in lat if i not in pos and f.dfn]
    e = 'Some(%s)' % nestv(vals)
    for i, f in at:
        if not f.at(L):
            e = 'conv_step(%s, |m: Val| %s_c_%s%d(m, %d, %s))' % (e, n, pre, i, r, comp(base, pos[i], len(at)))
    if conds: e = '(if %s { %s } else { None })' % (' && '.join(conds), e)
    return e

def common(t):
    n, L = t.name, t.L
    props = 'C17 C18 C20' if 'o' not in t.enc and 'x' not in t.enc else 'C17 C18 C19 C20'
    fs = t.fields if t.fields is not None else [f for v in t.variants for f in v.fields]
    if any(f.ov for f in fs): props += ' C21'
    SPEC.append('impl RevSpecImpl for %s {\n    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::Sum(Box::new(Fmt::UInt(2)), %s_bodies())), |v: Val| %s_up(v), |v: Val| Val::V(%d, seq![v])) }\n    open spec fn model(&self) -> Val { %s_model(self) }\n}' % (n, n, n, L, n))
    for x in ('data %sWalker' % n, 'data %sWalkerRepr' % n, 'impl WalkRevisioned for %s' % n, 'impl %sWalker<R>' % n): o('//!! drop %s' % x)
    o('//!! data %s' % n)
    o('//!! fn Revisioned for %s::revision : C17\nensures __r == %d,' % (n, L))
    k = 'SerializeRevisioned for %s::serialize_revisioned' % n
    o('//!! fn %s : %s C03 C12' % (k, ' '.join(p for p in props.split() if p in ('C17', 'C19', 'C21'))))
    o('//!! begin %s\n    proof { %s }' % (k, HINT + t.serhint))
    k = '%s::__deserialize_after_header' % n
    o('//!! fn %s : %s C08 C09 C12' % (k, ' '.join(p for p in props.split() if p != 'C17' and p != 'C20')))
    o('''ensures
    __r is Ok ==> took(dec_body(%s_bodies(), |v: Val| %s_up(v), $1, (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), RevSpec::model(&(__r->Ok_0))),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> dec_body(%s_bodies(), |v: Val| %s_up(v), $1, (*old($0)).rem()) is Some),''' % (n, n, n, n))
    o('//!! begin %s\n    proof { %s }' % (k, HINT + t.dehint))
    o('//!! attr %s\n#[verifier::rlimit(60)]' % k)
    for k, p in (('DeserializeRevisioned for %s::deserialize_revisioned', props.replace('C20', '').replace('C17', '') + ' C08 C09 C12'),
                 ('SkipRevisioned for %s::skip_revisioned', 'C20' + (' C21' if 'C21' in props else '') + ' C12'), ('SkipRevisioned for %s::skip_revisioned_slice', 'C20' + (' C21' if 'C21' in props else '')),
                 ('SkipCheckRevisioned for %s::skip_check_revisioned', 'C20' + (' C21' if 'C21' in props else '') + ' C12')):
        k = k % n
        o('//!! fn %s : %s' % (k, ' '.join(p.split())))
        o('//!! begin %s\n    proof { %s }' % (k, HINT))
        if 'deserialize' not in k and 'check' not in k: o('//!! attr %s\n#[verifier::rlimit(60)]' % k)
    return props

def user_fns(n, pre, fs, L, selfty, cprops, method):
    for i, f in enumerate(fs):
        if f.dfn:
            d('    fn d_%s%d(rev: u16) -> Result<%s, Error> { unimplemented!() }' % (pre, i, f.ty))
            SPEC.append('pub uninterp spec fn %s_d_%s%d(rev: int) -> Option<Val>;' % (n, pre, i))
            o('//!! axiom %s::d_%s%d : C17\nensures __r is Ok <==> %s_d_%s%d($0 as int) is Some, __r is Ok ==> RevSpec::model(&(__r->Ok_0)) == %s_d_%s%d($0 as int)->0,' % (n, pre, i, n, pre, i, n, pre, i))
        if f.end is not None:
            SPEC.append('pub uninterp spec fn %s_c_%s%d(m: Val, rev: int, old: Val) -> Option<Val>;' % (n, pre, i))
            if method:
                d('    fn c_%s%d(&mut self, rev: u16, prev: %s) -> Result<(), Error> { unimplemented!() }' % (pre, i, f.ty))
                o('''//!! axiom %s::c_%s%d : C17
ensures __r is Ok <==> %s_c_%s%d(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1)) is Some, __r is Ok ==> RevSpec::model(&*final(self)) == %s_c_%s%d(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1))->0,''' % ((n, pre, i) * 3))
            else:
                d('    fn c_%s%d(x: &mut %s, rev: u16, prev: %s) -> Result<(), Error> { unimplemented!() }' % (pre, i, selfty, f.ty))
                o('''//!! axiom %s::c_%s%d : C17
ensures __r is Ok <==> %s_c_%s%d(%s_model(&*old($0)), $1 as int, RevSpec::model(&$2)) is Some, __r is Ok ==> %s_model(&*final($0)) == %s_c_%s%d(%s_model(&*old($0)), $1 as int, RevSpec::model(&$2))->0,''' % (n, pre, i, n, pre, i, selfty, selfty, n, pre, i, selfty))

def body_fmt(e, fs, r):
    at = fat(fs, r)
    g = nestf([f.fmt(e != 'l') for _, f in at])
    if e == 'o': return 'Fmt::Env(Box::new(%s))' % g
    if e == 'x': return 'Fmt::Env(Box::new(Fmt::Offs(%d, Box::new(%s))))' % (len(at), g)
    return g

def emit_struct(t):
    n, L, named = t.name, t.L, t.kind == 'named'
    fs = t.fields
    for i, f in enumerate(fs):
        if not f.name: f.name = 'f%d' % i
    lat = fat(fs, L)
    for a in attrs_item(t): d(a)
    decl = [fattrs(f, 'c_%d' % i, 'd_%d' % i) + (('pub %s: ' % f.name) if named else 'pub ') + f.ty for i, f in enumerate(fs)]
    if t.kind == 'unit': d('pub struct %s;' % n)
    elif named: d('pub struct %s { %s }' % (n, ', '.join(decl)))
    else: d('pub struct %s(%s);' % (n, ', '.join(decl)))
    d('impl %s {' % n)
    t.serhint, t.dehint = 'broadcast use group_put; ' if t.enc[-1] == 'x' else '', ''
    common(t)
    user_fns(n, '', fs, L, n, '', True)
    d('}')
    mem = [f.name if named else str(k) for k, (i, f) in enumerate(lat)]
    SPEC.append('pub open spec fn %s_model(x: &%s) -> Val { %s }' % (n, n, nestv(['RevSpec::model(&x.%s)' % m for m in mem])))
    SPEC.append('pub open spec fn %s_bodies() -> Seq<Fmt> { seq![Fmt::Fail, %s] }' % (n, ', '.join(body_fmt(t.enc[r - 1], fs, r) for r in range(1, L + 1))))
    ups = ''
    for r in range(1, L): ups += 'if v->V_0 == %d { %s } else ' % (r, fields_up(n, '', fs, r, L, 'b', n))
    SPEC.append('pub open spec fn %s_up(v: Val) -> Option<Val> { let b = v->V_1[0]; %s{ Some(b) } }' % (n, ups))

def discs(t, r):
    dd, usedd = {}, set()
    for v in t.variants:
        if v.at(r) and r in v.over: dd[v.name] = v.over[r]; usedd.add(v.over[r])
    nx = 0
    for v in t.variants:
        if not v.at(r) or v.name in dd: continue
        while nx in usedd: nx += 1
        dd[v.name] = nx; usedd.add(nx); nx += 1
    return dd
def kind_of(size): return -1 if size == 'inline' else -2 if size == 'varlen' else int(size[6:-1])

def emit_enum(t):
    n, L = t.name, t.L
    for v in t.variants:
        for i, f in enumerate(v.fields):
            if not f.name: f.name = 'f%d' % i
        v.lat = fat(v.fields, L)
    for a in attrs_item(t): d(a)
    d('pub enum %s {' % n)
    for vi, v in enumerate(t.variants):
        e = []
        if v.end is not None: e.append('convert_fn = "cv_%d"' % vi)
        if v.size: e.append('size = "%s"' % v.size)
        for r, x in v.over.items(): e.append('override(revision = %d, discriminant = %d)' % (r, x))
        decl = [fattrs(f, 'c_%d_%d' % (vi, i), 'd_%d_%d' % (vi, i)) + ('%s: ' % f.name if v.kind == 'named' else '') + f.ty for i, f in enumerate(v.fields)]
        body = {'unit': '', 'named': ' { %s }' % ', '.join(decl), 'tuple': '(%s)' % ', '.join(decl)}[v.kind]
        d('    %s%s%s,' % (life(v, e), v.name, body))
    d('}')
    d('impl %s {' % n)
    t.serhint, t.dehint = '', ''
    common(t)
    for vi, v in enumerate(t.variants):
        fst = '%s%sFields' % (n, v.name)
        if v.end is not None or v.kind != 'unit' or True: o('//!! data %s' % fst)
        mem = [f.name if v.kind == 'named' else str(k) for k, (i, f) in enumerate(v.lat)]
        SPEC.append('pub open spec fn %s_model(x: &%s) -> Val { %s }' % (fst, fst, nestv(['RevSpec::model(&x.%s)' % m for m in mem])))
        user_fns(n, '%d_' % vi, v.fields, L, fst, '', False)
        if v.end is not None:
            d('    fn cv_%d(x: %s, rev: u16) -> Result<Self, Error> { unimplemented!() }' % (vi, fst))
            SPEC.append('pub uninterp spec fn %s_cv_%d(m: Val, rev: int) -> Option<Val>;' % (n, vi))
            o('//!! axiom %s::cv_%d : C17\nensures __r is Ok <==> %s_cv_%d(%s_model(&$0), $1 as int) is Some, __r is Ok ==> RevSpec::model(&(__r->Ok_0)) == %s_cv_%d(%s_model(&$0), $1 as int)->0,' % (n, vi, n, vi, fst, n, vi, fst))
    d('}')
    dl = discs(t, L)
    arms = []
    for v in t.variants:
        if not v.at(L): continue
        xs = ['x%d' % k for k in range(len(v.lat))]
        pat = {'unit': '', 'named': ' { %s }' % ', '.join('%s: %s' % (f.name, x) for (i, f), x in zip(v.lat, xs)), 'tuple': '(%s)' % ', '.join(xs)}[v.kind]
        arms.append('%s::%s%s => Val::V(%d, seq![%s])' % (n, v.name, pat, dl[v.name], nestv(['RevSpec::model(%s)' % x for x in xs])))
    SPEC.append('pub open spec fn %s_model(x: &%s) -> Val { match x { %s } }' % (n, n, ', '.join(arms)))
    bodies = []
    for r in range(1, L + 1):
        dr = discs(t, r)
        m = max(dr.values()) + 1 if dr else 0
        by = {x: [v for v in t.variants if v.name == nm][0] for nm, x in dr.items()}
        e = t.enc[r - 1]
        g = [nestf([f.fmt(e != 'l') for _, f in fat(by[k].fields, r)]) if k in by else 'Fmt::Fail' for k in range(m)]
        if e == 'l': bodies.append('Fmt::Sum(Box::new(Fmt::UInt(4)), seq![%s])' % ', '.join(g))
        else: bodies.append('Fmt::Tag(seq![%s], seq![%s])' % (', '.join('%dint' % kind_of(by[k].size) if k in by else '-1int' for k in range(m)), ', '.join(g)))
    SPEC.append('pub open spec fn %s_bodies() -> Seq<Fmt> { seq![Fmt::Fail, %s] }' % (n, ', '.join(bodies)))
    ups = ''
    for r in range(1, L):
        dr = discs(t, r)
        inner = ''
        for vi, v in enumerate(t.variants):
            if not v.at(r): continue
            fu = fields_up(n, '%d_' % vi, v.fields, r, L, 'b', None)
            if v.at(L): x = 'wrap(%d, %s)' % (dl[v.name], fu)
            else: x = 'conv_step(%s, |m: Val| %s_cv_%d(m, %d))' % (fu, n, vi, r)
            inner += 'if k == %d { %s } else ' % (dr[v.name], x)
        ups += 'if v->V_0 == %d { let k = (v->V_1[0])->V_0; let b = (v->V_1[0])->V_1[0]; %s{ None } } else ' % (r, inner)
    SPEC.append('pub open spec fn %s_up(v: Val) -> Option<Val> { %s{ Some(v->V_1[0]) } }' % (n, ups))

TYPES = [
    T('Da', 'l', 'unit', []),
    T('Db', 'lll', 'named', [F('F0'), F('F1', start=2, dfn=True), F('F2', end=3), F('F3', start=3)]),
    T('Dc', 'lll', 'tuple', [F('F0', end=2), F('F1', start=2), F('F2'), F('F3', start=2, end=3)], syntax=3),
    T('Dd', 'll', 'enum', variants=[V('X', 'unit'), V('Y', 'tuple', [F('F0')], end=2), V('Z', 'named', [F('F1'), F('F2', start=2), F('F3', end=2)])]),
    T('De', 'lll', 'enum', variants=[V('P', 'tuple', [F('F0', end=3), F('F1')]), V('Q', 'named', [F('F2'), F('F3', start=3, dfn=True)], start=2), V('R', 'unit', end=3), V('S', 'tuple', [F('F0')], over={3: 4})], syntax=2),
    T('Df', 'lo', 'named', [F('F0'), F('F1', start=2), F('F2', end=2)]),
    T('Dg', 'lox', 'named', [F('F0'), F('F1', ov='indexed_seq'), F('F2', start=2, ov='indexed_map')], syntax=2),
    T('Dh', 'll', 'named', [F('u64', ov='fixed'), F('i32', ov='fixed', end=2), F('F0', ov='specialised'), F('F1', ov='specialised', end=2)]),
    T('Di', 'oo', 'enum', variants=[V('A', 'unit', size='inline'), V('B', 'tuple', [F('f32'), F('u8')], size='fixed(5)'), V('C', 'named', [F('F0'), F('F1')], size='varlen'), V('D', 'tuple', [F('F2')], size='varlen', start=2)]),
    T('Dj', 'lo', 'enum', variants=[V('A', 'unit', size='inline'), V('B', 'tuple', [F('F0'), F('F1', start=2)], size='varlen'), V('C', 'tuple', [F('F2')], size='varlen', end=2)]),
    T('Dn', 'ooo', 'enum', variants=[V('A', 'named', [F('F0', end=2), F('F1', start=2, dfn=True), F('F2')], size='varlen'), V('B', 'unit', size='inline', end=3), V('C', 'tuple', [F('f32')], size='fixed(4)', over={2: 9}), V('E', 'tuple', [F('F3')], size='varlen', end=2), V('G', 'tuple', [F('F3', start=3), F('F1', end=3)], size='varlen', start=2)]),
    T('Do', 'oxo', 'named', [F('F0', end=3), F('F1', start=2, dfn=True), F('F2', end=2), F('F3', start=3)]),
    T('Dl', 'xx', 'tuple', [F('F0'), F('F1', start=2, dfn=True)]),
    T('Dm', 'x', 'named', [F('F0', ov='indexed_map')]),
    T('Dk', 'lxo', 'tuple', [F('u64', ov='fixed', end=3), F('F0', ov='indexed_set'), F('F1', start=2, dfn=True)]),
]
d('use revision_derive::revisioned;')
d('use crate::Error;')
for a in ABS: d('pub struct %s(u8);' % a)
for a in ABS: o('//!! data %s\n#[verifier::external_body]' % a)
for t in TYPES:
    (emit_enum if t.kind == 'enum' else emit_struct)(t)
tail = []
for a in ABS:
    tail.append('''pub uninterp spec fn fmt_@() -> Fmt;
pub uninterp spec fn sfmt_@() -> Fmt;
pub uninterp spec fn xsfmt_@() -> Fmt;
pub uninterp spec fn xmfmt_@() -> Fmt;
pub uninterp spec fn xtfmt_@() -> Fmt;
pub uninterp spec fn model_@(x: &@) -> Val;
pub uninterp spec fn dflt_@() -> Val;
impl RevSpecImpl for @ {
    open spec fn fmt() -> Fmt { fmt_@() }
    open spec fn model(&self) -> Val { model_@(self) }
}
impl Default for @ { #[verifier::external_body] fn default() -> (r: @) ensures RevSpec::model(&r) == dflt_@() { unimplemented!() } }
impl Revisioned for @ { #[verifier::external_body] fn revision() -> u16 { unimplemented!() } }
impl SerializeRevisioned for @ { #[verifier::external_body] fn serialize_revisioned<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() } }
impl DeserializeRevisioned for @ { #[verifier::external_body] fn deserialize_revisioned<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() } }
impl SkipRevisioned for @ {
    #[verifier::external_body] fn skip_revisioned<R: io::Read>(r: &mut R) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn skip_revisioned_slice(r: &mut SliceReader<'_>) -> Result<(), Error> { unimplemented!() }
}
impl SkipCheckRevisioned for @ { #[verifier::external_body] fn skip_check_revisioned<R: io::Read>(r: &mut R) -> Result<(), Error> { unimplemented!() } }
impl SpecialisedSpecImpl for @ { open spec fn sfmt() -> Fmt { sfmt_@() } }
impl SerializeRevisionedSpecialised for @ { #[verifier::external_body] fn serialize_revisioned_specialised<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() } }
impl DeSpecialisedSpecImpl for @ { open spec fn dsfmt() -> Fmt { sfmt_@() } }
impl DeserializeRevisionedSpecialised for @ { #[verifier::external_body] fn deserialize_revisioned_specialised<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() } }
impl ISeqSpecImpl for @ { open spec fn xfmt() -> Fmt { xsfmt_@() } open spec fn xmodel(&self) -> Val { model_@(self) } }
impl IMapSpecImpl for @ { open spec fn xfmt() -> Fmt { xmfmt_@() } open spec fn xmodel(&self) -> Val { model_@(self) } }
impl ISetSpecImpl for @ { open spec fn xfmt() -> Fmt { xtfmt_@() } open spec fn xmodel(&self) -> Val { model_@(self) } }
impl IndexedSeqEncoded for @ {
    type Item = u8;
    #[verifier::external_body] fn serialize_indexed_seq<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn deserialize_indexed_seq<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() }
    #[verifier::external_body] fn skip_indexed_seq<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { unimplemented!() }
}
impl IndexedMapEncoded for @ {
    type Key = u8;
    type Value = u8;
    #[verifier::external_body] fn serialize_indexed_map<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn deserialize_indexed_map<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() }
    #[verifier::external_body] fn skip_indexed_map<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { unimplemented!() }
}
impl IndexedSetEncoded for @ {
    type Item = u8;
    #[verifier::external_body] fn serialize_indexed_set<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn deserialize_indexed_set<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() }
    #[verifier::external_body] fn skip_indexed_set<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { unimplemented!() }
}
'''.replace('@', a))
HEAD = open(os.path.join(HERE, 'vdecls_head.vrs')).read()
out = '\n'.join(O) + '\n' + HEAD.replace('//@@TYPES', '\n'.join(tail) + '\n' + '\n'.join(SPEC))
dst = os.path.join(HERE, '..', 'vd')
open(os.path.join(dst, 'decls.rs'), 'w').write('\n'.join(D) + '\n')
open(os.path.join(dst, '50_derived.vrs'), 'w').write(out)
