#!/usr/bin/env python3
"""Generate the derive corpus: revisioned type declarations, each with its reference model.

The model is written from the documentation of the derive macro; nothing in the output calls generated
code to decide what is right.  Deterministic: same output on every run."""
import random, sys
R = random.Random(20250117)

LEAF = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128', 'bool', 'f32', 'f64', 'char', 'String', 'Option<u32>', 'Option<String>', 'Vec<String>', 'Vec<u32>', 'Vec<u8>',
        'BTreeMap<u8, String>', '(u16, String)', '[u8; 5]', 'Box<u32>', 'BTreeSet<i64>', 'Result<u64, String>', 'Vec<Option<u32>>', 'Duration']
COMMON = ['u8', 'u16', 'u32', 'i64', 'String', 'Option<u32>', 'Vec<String>', 'bool', 'BTreeMap<u8, String>']
NODEF = {'Result<u64, String>'}
FIXEDT = ['u32', 'i32', 'u64', 'i64', 'u128', 'i128']
BULKT = ['Vec<u8>', 'Vec<i8>', 'Vec<bool>', 'Vec<u16>', 'Vec<i16>', 'Vec<u32>', 'Vec<i32>', 'Vec<u64>', 'Vec<i64>', 'Vec<u128>', 'Vec<i128>', 'Vec<f32>', 'Vec<f64>']
IMAP = ['BTreeMap<u8, String>', 'BTreeMap<String, u64>']
ISEQ = ['Vec<String>', 'Vec<u32>', 'Vec<Option<u32>>']
ISET = ['BTreeSet<i64>', 'BTreeSet<String>']
SIZES = {'u8': 1, 'i8': 1, 'bool': 1, 'f32': 4, 'f64': 8, '[u8; 5]': 5}
used_leaf, used_nest = set(), set()
out = []
def w(s=''): out.append(s)

class F:
    """field: type, override, life time"""
    def __init__(s, ty, start=None, end=None, ov=None, dfn=False, name=None, fail=False):
        s.ty, s.start, s.end, s.ov, s.dfn, s.name, s.fail = ty, start, end, ov, dfn, name, fail
    def at(s, r): return (s.start or 0) <= r and (s.end is None or s.end > r)
    def codec(s, opt):
        if s.ov in ('fixed', 'specialised') and not opt: return {'fixed': 'Fixed', 'specialised': 'Bulk'}[s.ov]
        if s.ov in ('indexed_map', 'indexed_seq', 'indexed_set') and opt: return 'Index'
        return 'Plain'
class V:
    def __init__(s, name, kind, fields=(), start=None, end=None, over=None, size=None, fname=None, fail=False):
        s.name, s.kind, s.fields, s.start, s.end, s.over, s.size, s.fname, s.fail = name, kind, list(fields), start, end, over or {}, size, fname, fail
    def at(s, r): return (s.start or 0) <= r and (s.end is None or s.end > r)
class T:
    def __init__(s, name, enc, kind, fields=None, variants=None, syntax=0, tags=()):
        s.name, s.enc, s.kind, s.fields, s.variants, s.syntax, s.tags = name, enc, kind, fields, variants, syntax, set(tags)
        s.L = len(enc)
def snake(s):
    o = ''
    for i, ch in enumerate(s):
        if ch.isupper() and i: o += '_'
        o += ch.lower()
    return o
def note(ty):
    base = ty
    for p in ('Option<', 'Vec<', 'Box<', 'BTreeMap<u8, '):
        if ty.startswith(p) and ty[len(p):-1] in NAMES: used_nest.add((p, ty[len(p):-1])); return
    if ty not in NAMES: used_leaf.add(ty)
NAMES = {}

def attrs_item(t):
    def entry(i, e): return 'revision(%d%s)' % (i + 1, {'l': '', 'o': ', optimised', 'x': ', optimised, indexed_struct'}[e])
    ents = [entry(i, e) for i, e in enumerate(t.enc)]
    plain = all(e == 'l' for e in t.enc)
    s = t.syntax
    if plain and s == 0: return ['#[revisioned(revision = %d)]' % t.L]
    if plain and s == 1: return ['#[revisioned()]', '#[revision(revision = %d)]' % t.L]
    if s == 2: ents = ents[::-1]
    if s == 3: return ['#[revisioned()]', '#[revision(%s)]' % ', '.join(ents)]
    if s == 4: return ['#[revisioned()]'] + ['#[revision(%s)]' % e for e in ents[::-1]]
    if s == 5: ents = ents[1::2] + ents[0::2]
    return ['#[revisioned(%s)]' % ', '.join(ents)]
def life(x, extra):
    a = []
    if x.start is not None: a.append('start = %d' % x.start)
    if x.end is not None: a.append('end = %d' % x.end)
    a += extra
    if len(a) > 1 and R.random() < .3: a.reverse()
    if not a: return ''
    if len(a) > 1 and R.random() < .2: return ' '.join('#[revision(%s)]' % y for y in a) + ' '
    return '#[revision(%s)] ' % ', '.join(a)
def fattrs(f, cfn, dfn):
    e = []
    if f.end is not None: e.append('convert_fn = "%s"' % cfn)
    if f.dfn: e.append('default_fn = "%s"' % dfn)
    if f.ov: e.append(f.ov)
    return life(f, e)
def fname(t_named, i, f): return f.name or ('f%d' % i)

def fields_at(fs, r): return [(i, f) for i, f in enumerate(fs) if f.at(r)]
def dflt_expr(f, r, key):
    return 'dflt::<%s>(%d, %d)' % (f.ty, r, key) if f.dfn else '<%s as Default>::default()' % f.ty
def mixl(acc, r, f, i): return '%s = mix(%s, %d, &f%d.bytes());' % (acc, acc, r, i)
FAIL = 'f%d.bytes().len() %% 3 == 0'

def emit_struct(t):
    n, L, named = t.name, t.L, t.kind == 'named'
    fs = t.fields
    for i, f in enumerate(fs):
        if not f.name: f.name = 'f%d' % i
        note(f.ty)
    lat = fields_at(fs, L)
    lidx = {i: k for k, (i, _) in enumerate(lat)}
    acc = {i: k for i, k in lidx.items() if fs[i].name == 'acc'}
    def mem(i): return fs[i].name if named else str(lidx[i])
    conv = any(f.end is not None for f in fs)
    for a in attrs_item(t): w(a)
    w('#[derive(Debug, Clone)]')
    decl = [fattrs(f, 'c_%d' % i, 'd_%d' % i) + (('pub %s: ' % f.name) if named else 'pub ') + f.ty for i, f in enumerate(fs)]
    if t.kind == 'unit': w('pub struct %s;' % n)
    elif named: w('pub struct %s { %s }' % (n, ', '.join(decl)))
    else: w('pub struct %s(%s);' % (n, ', '.join(decl)))
    w('impl %s {' % n)
    for i, f in enumerate(fs):
        if f.dfn:
            w('    fn d_%d(rev: u16) -> Result<%s, Error> { Ok(dflt::<%s>(rev, %d)) }' % (i, f.ty, f.ty, i))
        if f.end is not None:
            fail = 'if v.bytes().len() %% 3 == 0 { return Err(Error::Conversion("no".into())) } ' if f.fail else ''
            fail = fail.replace('%%', '%')
            ai = [i2 for i2 in acc][0]
            w('    fn c_%d(&mut self, rev: u16, v: %s) -> Result<(), Error> { %sself.%s = mix(self.%s, rev, &v.bytes()); Ok(()) }' % (i, f.ty, fail, mem(ai), mem(ai)))
    w('}')
    def construct(names):
        if t.kind == 'unit': return n
        if named: return '%s { %s }' % (n, ', '.join('%s: %s' % (fs[i].name, x) for i, x in names))
        return '%s(%s)' % (n, ', '.join(x for _, x in names))
    # Spec
    w('impl Spec for %s {' % n)
    w('    fn enc(&self, o: &mut Vec<u8>) {')
    w('        %du16.enc(o);' % L)
    e = t.enc[-1]
    fe = ['enc1::<%s, %s>(&self.%s)' % (f.codec(e != 'l'), f.ty, mem(i)) for i, f in lat]
    if e == 'l':
        for x in fe: w('        o.extend(%s);' % x)
    else: w('        put_payload(o, &with_offsets(&[%s], %s));' % (', '.join(fe), 'true' if e == 'x' else 'false'))
    w('    }')
    w('    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }')
    w('    fn same(&self, o: &Self) -> bool { %s }' % (' && '.join('self.%s.same(&o.%s)' % (mem(i), mem(i)) for i, _ in lat) or 'true'))
    w('    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; %s }) }' % construct([(i, '<%s as Spec>::random(g)' % f.ty) for i, f in lat]))
    w('}')
    w('impl Hist for %s {' % n)
    w('    const LATEST: u16 = %d;' % L)
    w('    const REVISION: u16 = %s::REVISION;' % n)
    w('    const INDEXED: bool = %s;' % ('true' if any(f.ov and f.ov.startswith('indexed') for f in fs) and any(e != 'l' for e in t.enc) else 'false'))
    w('    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {')
    w('        let _ = &g; rev.enc(o);')
    w('        match rev {')
    for r in range(1, L + 1):
        e = t.enc[r - 1]
        ge = ['gen1::<%s, %s>(g)' % (f.codec(e != 'l'), f.ty) for i, f in fields_at(fs, r)]
        if e == 'l': body = ' '.join('o.extend(%s);' % x for x in ge)
        else: body = 'put_payload(o, &with_offsets(&[%s], %s));' % (', '.join(ge), 'true' if e == 'x' else 'false')
        w('            %d => { %s }' % (r, body))
    w('            _ => unreachable!(),')
    w('        }')
    w('    }')
    w('    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {')
    w('        let rev = <u16 as Spec>::dec(c)?;')
    w('        let mut sh = Shape::new(rev, %d, %d);' % (L, len(lat)))
    if conv: w('        sh.conv = rev != %d;' % L)
    w('        match rev {')
    for r in range(1, L + 1):
        e = t.enc[r - 1]
        w('            %d => {' % r)
        alive = fields_at(fs, r)
        if e != 'l':
            w('                sh.opt = true;')
            w('                let (mut sub, end) = payload(c)?;')
            w('                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;')
            if e == 'x':
                w('                sh.any_order = !sh.conv;')
                w('                let offs = c.take(%d)?; let _ = offs;' % (4 * len(alive)))
        k = 0
        for i, f in enumerate(fs):
            if f.at(r):
                if e == 'x':
                    w('                sh.odd |= idx::u32at(offs, %d) as usize != c.pos - base;' % k)
                k += 1
                w('                let f%d = rd::<%s, %s>(c, &mut sh, %s)?;' % (i, f.codec(e != 'l'), f.ty, 'Some(%d)' % lidx[i] if i in lidx else 'None'))
            elif i in lidx:
                w('                let f%d = %s;' % (i, dflt_expr(f, r, i)))
        w('                #[allow(unused_mut)]')
        w('                let mut v = %s;' % construct([(i, 'f%d' % i) for i, _ in lat]))
        for i, f in alive:
            if i not in lidx:
                if f.fail: w('                if f%d.bytes().len() %% 3 == 0 { return Err(Bad::Other) }' % i)
                a = mem([x for x in acc][0])
                w('                v.%s = mix(v.%s, %d, &f%d.bytes());' % (a, a, r, i))
        if e != 'l':
            w('                sh.odd |= c.pos != end; outer.pos = end;')
        w('                Ok((v, sh))')
        w('            }')
    w('            _ => Err(Bad::Other),')
    w('        }')
    w('    }')
    w('    fn tables() -> Result<(), String> {')
    for r in range(1, L + 1):
        names = [f.name if named else str(i) for i, f in fields_at(fs, r)]
        w('        if %s::walk_revisioned_field_names(%d) != [%s] as [&str; %d] { return Err("field names at revision %d".into()) }' % (n, r, ', '.join('"%s"' % x for x in names), len(names), r))
    w('        if !%s::walk_revisioned_field_names(0).is_empty() || !%s::walk_revisioned_field_names(%d).is_empty() { return Err("field names of an unknown revision".into()) }' % (n, n, L + 1))
    w('        Ok(())')
    w('    }')
    w('}')
    # walker
    base = {i: (fs[i].name if named else 'field_%d' % k) for i, k in lidx.items()}
    w('impl W for %s {' % n)
    w('    #[allow(unused_mut, unused_variables)]')
    w('    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<\'_, R>, g: &mut Gen) -> Res {')
    w('        let start = c.pos;')
    w('        let (v, sh) = match Self::parse(c) {')
    w('            Ok((v, sh)) if !sh.odd => (v, sh),')
    w('            p => {')
    w('                lenient();')
    if lat:
        w('                if g.below(2) == 0 {')
        w('                    let all = %s;' % ' && '.join('w.decode_%s().is_ok()' % base[i] for i, _ in lat))
        w('                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[%s]) { return bad("every field of a truncated value was decoded") }' % ', '.join('false' if e == 'x' else 'true' for e in t.enc))
        w('                    return Err(Stop::Expected);')
        w('                }')
        w('                for _ in 0..g.below(6) { match g.below(%d) {' % (3 * len(lat)))
        for k, (i, _) in enumerate(lat):
            w('                    %d => { let _ = w.decode_%s(); } %d => { let _ = w.skip_%s(); } %d => { let _ = w.walk_%s(); }' % (3 * k, base[i], 3 * k + 1, base[i], 3 * k + 2, base[i]))
        w('                    _ => {} } }')
        w('                match g.below(%d) {' % (2 * len(lat) + 1))
        for k, (i, _) in enumerate(lat):
            w('                    %d => { let _ = w.into_walk_%s(); } %d => { let _ = w.into_%s_bytes(); }' % (2 * k, base[i], 2 * k + 1, base[i]))
        w('                    _ => {} }')
    w('                return Err(Stop::Expected);')
    w('            }')
    w('        };')
    w('        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }')
    w('        for i in order(g, %d, sh.any_order) {' % len(lat))
    w('            match i {')
    for i, f in lat:
        k, b = lidx[i], base[i]
        kind = 'index' if f.ov and f.ov.startswith('indexed') else 'plain'
        cd = f.codec(t.enc[-1] != 'l')
        ovr = 'true' if f.ov else 'false'
        w('                %d => sfield!(%s w c g v sh R; %d, %s, %s, %s, %s, decode_%s, skip_%s, walk_%s, into_walk_%s, into_%s_bytes),' % (k, kind, k, f.ty, cd, ovr, mem(i), b, b, b, b, b))
    w('                _ => {}')
    w('            }')
    w('        }')
    w('        Ok(())')
    w('    }')
    w('}')
    w()

def discs(t, r):
    d, usedd = {}, set()
    for v in t.variants:
        if v.at(r) and r in v.over: d[v.name] = v.over[r]; usedd.add(v.over[r])
    nx = 0
    for v in t.variants:
        if not v.at(r) or v.name in d: continue
        while nx in usedd: nx += 1
        d[v.name] = nx; usedd.add(nx); nx += 1
    return d

def emit_enum(t):
    n, L = t.name, t.L
    optlatest = t.enc[-1] != 'l'
    conv = any(v.end is not None or any(f.end is not None for f in v.fields) for v in t.variants)
    for v in t.variants:
        for i, f in enumerate(v.fields):
            if not f.name: f.name = 'f%d' % i
            note(f.ty)
        v.lat = fields_at(v.fields, L)
        v.lidx = {i: k for k, (i, _) in enumerate(v.lat)}
        v.fn = v.fname or '%s%sFields' % (n, v.name)
    for a in attrs_item(t): w(a)
    w('#[derive(Debug, Clone)]')
    w('pub enum %s {' % n)
    for vi, v in enumerate(t.variants):
        e = []
        if v.end is not None: e.append('convert_fn = "cv_%d"' % vi)
        if v.fname: e.append('fields_name = "%s"' % v.fname)
        if v.size: e.append('size = "%s"' % v.size)
        for r, d in v.over.items(): e.append('override(revision = %d, discriminant = %d)' % (r, d))
        decl = [fattrs(f, 'c_%d_%d' % (vi, i), 'd_%d_%d' % (vi, i)) + ('%s: ' % f.name if v.kind == 'named' else '') + f.ty for i, f in enumerate(v.fields)]
        body = {'unit': '', 'named': ' { %s }' % ', '.join(decl), 'tuple': '(%s)' % ', '.join(decl)}[v.kind]
        w('    %s%s%s,' % (life(v, e), v.name, body))
    w('}')
    def cons(v, head, xs):
        if v.kind == 'unit': return head
        if v.kind == 'named': return '%s { %s }' % (head, ', '.join('%s: %s' % (v.fields[i].name, x) if v.fields[i].name != x else x for i, x in xs))
        return '%s(%s)' % (head, ', '.join(x for _, x in xs))
    def acc(v): return [i for i, _ in v.lat if v.fields[i].name == 'acc'][0]
    def mem(v, i): return v.fields[i].name if v.kind == 'named' else str(v.lidx[i])
    w('impl %s {' % n)
    for vi, v in enumerate(t.variants):
        for i, f in enumerate(v.fields):
            if f.dfn: w('    fn d_%d_%d(rev: u16) -> Result<%s, Error> { Ok(dflt::<%s>(rev, %d)) }' % (vi, i, f.ty, f.ty, 100 * vi + i))
            if f.end is not None:
                m = mem(v, acc(v))
                w('    fn c_%d_%d(x: &mut %s, rev: u16, v: %s) -> Result<(), Error> { x.%s = mix(x.%s, rev, &v.bytes()); Ok(()) }' % (vi, i, v.fn, f.ty, m, m))
        if v.end is not None:
            fail = 'if rev % 2 == 1 { return Err(Error::Conversion("no".into())) } ' if v.fail else ''
            w('    fn cv_%d(x: %s, rev: u16) -> Result<Self, Error> { let _ = &x; %s#[allow(unused_mut)] let mut h = mix(%d, rev, &[]); %sOk(%s::Acc(h)) }' % (vi, v.fn, fail, vi, ''.join('h = mix(h, rev, &x.%s.bytes()); ' % mem(v, i) for i, _ in v.lat), n))
    w('    fn vname(&self) -> &\'static str { match self { %s } }' % ', '.join('%s::%s { .. } => "%s"' % (n, v.name, v.name) for v in t.variants if v.at(L)))
    w('}')
    dl = discs(t, L)
    def encv(v, xs, opt, d):
        """payload bytes from encoded fields"""
        if not opt: return '(%du32).enc(o); %s' % (d, ' '.join('o.extend(%s);' % x for x in xs))
        sz = v.size
        sc = 0 if sz == 'inline' else 1 if sz.startswith('fixed') else 2
        s = 'o.push(%d);' % (d | sc << 5)
        if sc == 1: s += ' ' + ' '.join('o.extend(%s);' % x for x in xs)
        if sc == 2: s += ' put_payload(o, &with_offsets(&[%s], false));' % ', '.join(xs)
        return s
    w('impl Spec for %s {' % n)
    w('    fn enc(&self, o: &mut Vec<u8>) {')
    w('        %du16.enc(o);' % L)
    w('        match self {')
    for v in t.variants:
        if not v.at(L): continue
        xs = ['enc1::<%s, %s>(f%d)' % (f.codec(optlatest), f.ty, i) for i, f in v.lat]
        pat = cons(v, '%s::%s' % (n, v.name), [(i, 'f%d' % i) for i, _ in v.lat])
        w('            %s => { %s }' % (pat, encv(v, xs, optlatest, dl[v.name])))
    w('        }')
    w('    }')
    w('    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }')
    arms = []
    for v in t.variants:
        if not v.at(L): continue
        a = cons(v, '%s::%s' % (n, v.name), [(i, 'a%d' % i) for i, _ in v.lat]); b = cons(v, '%s::%s' % (n, v.name), [(i, 'b%d' % i) for i, _ in v.lat])
        arms.append('(%s, %s) => %s,' % (a, b, ' && '.join('a%d.same(b%d)' % (i, i) for i, _ in v.lat) or 'true'))
    w('    #[allow(unreachable_patterns)]')
    w('    fn same(&self, o: &Self) -> bool { match (self, o) { %s _ => false } }' % ' '.join(arms))
    alive = [v for v in t.variants if v.at(L)]
    w('    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(%d) { %s }) }' % (len(alive), ' '.join('%s => %s,' % (k if k < len(alive) - 1 else '_', cons(v, '%s::%s' % (n, v.name), [(i, '<%s as Spec>::random(g)' % f.ty) for i, f in v.lat])) for k, v in enumerate(alive))))
    w('}')
    w('impl Hist for %s {' % n)
    w('    const LATEST: u16 = %d;' % L)
    w('    const REVISION: u16 = %s::REVISION;' % n)
    w('    const INDEXED: bool = false;')
    w('    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {')
    w('        rev.enc(o);')
    w('        match rev {')
    for r in range(1, L + 1):
        al = [v for v in t.variants if v.at(r)]
        d = discs(t, r)
        w('            %d => match g.below(%d) {' % (r, len(al)))
        for k, v in enumerate(al):
            xs = ['gen1::<%s, %s>(g)' % (f.codec(t.enc[r - 1] != 'l'), f.ty) for i, f in fields_at(v.fields, r)]
            w('                %s => { %s }' % (k if k < len(al) - 1 else '_', encv(v, xs, t.enc[r - 1] != 'l', d[v.name])))
        w('            },')
    w('            _ => unreachable!(),')
    w('        }')
    w('    }')
    w('    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {')
    w('        let rev = <u16 as Spec>::dec(c)?;')
    w('        let mut sh = Shape::new(rev, %d, %d);' % (L, max(len(v.lat) for v in t.variants)))
    if conv: w('        sh.conv = rev != %d;' % L)
    w('        let v = match rev {')
    for r in range(1, L + 1):
        opt = t.enc[r - 1] != 'l'
        d = discs(t, r)
        w('            %d => {' % r)
        if opt:
            w('                sh.opt = true;')
            w('                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }')
            w('                match (tag & 31, tag >> 5) {')
        else:
            w('                match <u32 as Spec>::dec(c)? {')
        for vi, v in enumerate(t.variants):
            if not v.at(r): continue
            if opt:
                sz = v.size
                sc = 0 if sz == 'inline' else 1 if sz.startswith('fixed') else 2
                w('                (%d, %d) => {' % (d[v.name], sc))
                if sc == 0: w('                    let (mut sub, end) = window(c, 0)?;')
                if sc == 1: w('                    let (mut sub, end) = window(c, %d)?;' % int(sz[6:-1]))
                if sc == 2: w('                    let (mut sub, end) = payload(c)?;')
                w('                    let outer = &mut *c; let c = &mut sub;')
            else:
                w('                %d => {' % d[v.name])
            w('                    let a = c.pos;')
            for i, f in enumerate(v.fields):
                if f.at(r): w('                    #[allow(unused_mut)] let mut f%d = rd::<%s, %s>(c, &mut sh, %s)?;' % (i, f.codec(opt), f.ty, 'Some(%d)' % v.lidx[i] if i in v.lidx else 'None'))
                elif i in v.lidx: w('                    #[allow(unused_mut)] let mut f%d = %s;' % (i, dflt_expr(f, r, 100 * vi + i)))
            if opt: w('                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;')
            else: w('                    sh.body = (a, c.pos);')
            for i, f in enumerate(v.fields):
                if f.at(r) and i not in v.lidx:
                    w('                    f%d = mix(f%d, %d, &f%d.bytes());' % (acc(v), acc(v), r, i))
            if v.at(L): w('                    %s' % cons(v, '%s::%s' % (n, v.name), [(i, 'f%d' % i) for i, _ in v.lat]))
            else:
                if v.fail and r % 2 == 1: w('                    %sreturn Err(Bad::Other)' % ''.join('let _ = f%d; ' % i for i, _ in v.lat))
                else:
                    w('                    #[allow(unused_mut)] let mut h = mix(%d, %d, &[]);' % (vi, r))
                    for i, _ in v.lat: w('                    h = mix(h, %d, &f%d.bytes());' % (r, i))
                    w('                    %s::Acc(h)' % n)
            w('                }')
        w('                _ => return Err(Bad::Other),')
        w('                }')
        w('            }')
    w('            _ => return Err(Bad::Other),')
    w('        };')
    w('        sh.variant = v.vname();')
    w('        Ok((v, sh))')
    w('    }')
    w('    fn tables() -> Result<(), String> {')
    for r in range(1, L + 1):
        d = discs(t, r)
        want = ', '.join('("%s", %d)' % (v.name, d[v.name]) for v in t.variants if v.at(r))
        w('        let want: &[(&str, u32)] = &[%s];' % want)
        w('        if %s::walk_revisioned_variant_table(%d) != want { return Err(format!("variant table at revision %d: {:?}", %s::walk_revisioned_variant_table(%d))) }' % (n, r, r, n, r))
        w('        for d in 0..%d { if %s::walk_revisioned_variant_name(%d, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision %d")) } }' % (max(d.values()) + 3, n, r, r))
    w('        if !%s::walk_revisioned_variant_table(%d).is_empty() { return Err("variants of an unknown revision".into()) }' % (n, L + 1))
    w('        Ok(())')
    w('    }')
    w('}')
    w('impl W for %s {' % n)
    w('    #[allow(unused_mut, unused_variables)]')
    w('    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<\'_, R>, g: &mut Gen) -> Res {')
    ops = []   # (fuzz, checked)
    for v in alive:
        s = snake(v.name)
        is_v = 'sh.variant == "%s"' % v.name
        wrong = 'if !ok { return if r.is_ok() { bad("%s of another variant succeeded") } else { Err(Stop::Expected) } }'
        mi = 'let ok = %s; ' % is_v
        if v.kind == 'unit':
            for m in ('into_' + s, 'decode_' + s):
                ops.append(('let _ = w.%s();' % m, mi + 'let r = w.%s(); ' % m + wrong % m + ' must("%s", r)?; Ok(())' % m))
            continue
        pat = cons(v, '%s::%s' % (n, v.name), [(i, 'f%d' % i) for i, _ in v.lat])
        single = v.kind == 'tuple' and len(v.lat) == 1
        if single:
            i, f = v.lat[0]
            get = 'let %s = &v else { unreachable!() };' % pat if len(alive) > 1 else 'let %s = &v;' % pat
            cd = f.codec(optlatest)
            encs = '[f%d.bytes(), enc1::<%s, %s>(f%d)]' % (i, cd, f.ty, i)
            here = 'sh.f[0].filter(|_| !sh.conv)'
            ops.append(('let _ = w.into_%s();' % s, mi + 'let r = w.into_%s(); ' % s + wrong % ('into_' + s) +
                        ' let here = %s; let want = here.is_some() && !sh.opt && <%s as W>::WALKABLE && %s; if nested::<%s, R>("into_%s", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) }' % (here, f.ty, 'false' if f.ov else 'true', f.ty, s)))
            ops.append(('let _ = w.decode_%s();' % s, mi + 'let r = w.decode_%s(); ' % s + wrong % ('decode_' + s) + ' ' + get +
                        ' if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_%s", f%d, r)' % (s, i)))
            ops.append(('let _ = w.%s_view();' % s, mi + 'let r = w.%s_view().map(|x| x.as_bytes().to_vec()); ' % s + wrong % (s + '_view') + ' ' + get +
                        ' let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("%s_view", r, raw, sh.opt && !sh.conv, &%s)' % (s, encs)))
        else:
            get = 'let %s = &v else { unreachable!() };' % pat if len(alive) > 1 else 'let %s = &v;' % pat
            encs = 'with_offsets(&[%s], false)' % ', '.join('enc1::<%s, %s>(f%d)' % (f.codec(optlatest), f.ty, i) for i, f in v.lat)
            ops.append(('let _ = w.%s_view();' % s, mi + 'let r = w.%s_view().map(|x| x.as_bytes().to_vec()); ' % s + wrong % (s + '_view') + ' ' + get +
                        ' let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [%s]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("%s_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("%s_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected)' % (encs, s, s)))
    w('        let p = Self::parse(c);')
    w('        let (v, sh) = match p {')
    w('            Ok((v, sh)) if !sh.odd => (v, sh),')
    w('            _ => {')
    w('                lenient(); let _ = w.revision(); let _ = w.discriminant();')
    w('                match g.below(%d) {' % len(ops))
    for k, (fz, _) in enumerate(ops): w('                    %d => { %s }' % (k, fz))
    w('                    _ => {}')
    w('                }')
    w('                return Err(Stop::Expected);')
    w('            }')
    w('        };')
    w('        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }')
    w('        if %s::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }' % n)
    w('        for (name, is) in [%s] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }' % ', '.join('("%s", w.is_%s())' % (v.name, snake(v.name)) for v in alive))
    w('        // prefer the operations of the stored variant')
    w('        let mut k = g.below(%d);' % len(ops))
    own = {}
    kk = 0
    for v in alive:
        nops = 2 if v.kind == 'unit' else 3 if (v.kind == 'tuple' and len(v.lat) == 1) else 1
        own[v.name] = (kk, nops); kk += nops
    w('        if g.below(5) != 0 { k = match sh.variant { %s _ => 0 } }' % ' '.join('"%s" => %d + g.below(%d),' % (a, b, c2) for a, (b, c2) in own.items()))
    w('        match k {')
    for k, (_, ck) in enumerate(ops): w('            %d => { %s }' % (k, ck))
    w('            _ => unreachable!(),')
    w('        }')
    w('    }')
    w('}')
    w()

def emit(t):
    NAMES[t.name] = t
    (emit_struct if t.kind != 'enum' else emit_enum)(t)

def nest_ty():
    c = [n for n, t in NAMES.items() if len(n) < 4]
    n = R.choice(c)
    k = R.random()
    return n if k < .45 else 'Option<%s>' % n if k < .6 else 'Vec<%s>' % n if k < .8 else 'Box<%s>' % n if k < .9 else 'BTreeMap<u8, %s>' % n
def pick_ty(nest=.2):
    if NAMES and R.random() < nest: return nest_ty()
    return R.choice(COMMON if R.random() < .5 else LEAF)
def is_nested(ty): return any(x in ty for x in NAMES)
def rand_life(L):
    s = e = None
    if L > 1 and R.random() < .45: s = R.randint(2, L)
    elif R.random() < .1: s = 1
    lo = (s or 1) + 1
    if lo <= L and R.random() < .35: e = R.randint(lo, L)
    return s, e
def rand_encs(flavor, L):
    if flavor == 'legacy': return 'l' * L
    while True:
        e = ''.join(R.choice('lox' if flavor != 'ovr' else 'llox') for _ in range(L))
        if flavor == 'opt' and R.random() < .7: e = ''.join(sorted(e, key=lambda c: c != 'l'))
        if flavor != 'opt' or e.strip('l'): return e
def rand_struct(i, flavor):
    L = R.choice([1, 2, 2, 3, 3, 4, 5]) if flavor != 'legacy' else R.choice([1, 2, 3, 4, 5, 6])
    enc = rand_encs(flavor, L)
    conv = R.random() < .6
    fs = []
    for k in range(R.choice([1, 2, 3, 3, 4, 5, 6])):
        ty, ov = pick_ty(), None
        if flavor == 'ovr' and R.random() < .75:
            ov = R.choice(['fixed', 'specialised', 'indexed_map', 'indexed_seq', 'indexed_set'])
            ty = R.choice({'fixed': FIXEDT, 'specialised': BULKT, 'indexed_map': IMAP, 'indexed_seq': ISEQ, 'indexed_set': ISET}[ov])
        elif flavor == 'opt' and R.random() < .25:
            ov = R.choice(['indexed_map', 'indexed_seq', 'indexed_set'])
            ty = R.choice({'indexed_map': IMAP, 'indexed_seq': ISEQ, 'indexed_set': ISET}[ov])
        s, e = rand_life(L)
        if not conv: e = None
        dfn = s is not None and (ty in NODEF or is_nested(ty) or R.random() < .6)
        fs.append(F(ty, s, e, ov, dfn, fail=R.random() < .08))
    if any(f.end for f in fs): fs.insert(R.randint(0, len(fs)), F('u64', name='acc'))
    kind = R.choice(['named', 'named', 'tuple'])
    emit(T('S%d' % i, enc, kind, fs, syntax=R.randint(0, 5)))
def rand_enum(i, flavor):
    L = R.choice([1, 2, 3, 3, 4])
    enc = rand_encs(flavor, L)
    enc = enc.replace('x', 'o')
    opt = 'o' in enc
    conv = R.random() < .6
    vs = []
    for k in range(R.choice([1, 2, 3, 4, 5, 6])):
        kind = R.choice(['unit', 'tuple', 'tuple', 'named'])
        nf = 0 if kind == 'unit' else R.choice([1, 1, 1, 2, 3])
        fs = []
        for j in range(nf):
            ty, ov, s, e, dfn = pick_ty(), None, None, None, False
            if flavor == 'ovr' and R.random() < .7:
                ov = R.choice(['fixed', 'specialised'])
                ty = R.choice(FIXEDT if ov == 'fixed' else BULKT)
            s, e = rand_life(L)
            if not conv: e = None
            dfn = s is not None and (ty in NODEF or is_nested(ty) or R.random() < .6)
            fs.append(F(ty, s, e, ov, dfn))
        if any(f.end for f in fs): fs.insert(R.choice([0, len(fs)]), F('u64', name='acc'))
        s, e = rand_life(L)
        if not conv: e = None
        size = None
        if opt:
            if kind == 'unit': size = R.choice(['inline', 'inline', 'varlen', 'fixed(0)'])
            else:
                if R.random() < .4:
                    for f in fs: f.ty = R.choice(list(SIZES)); f.ov = None; f.start = f.end = None; f.dfn = False
                size = 'fixed(%d)' % sum(SIZES[f.ty] for f in fs) if all(f.ty in SIZES and f.start is None and f.end is None for f in fs) and R.random() < .8 else 'varlen'
        vs.append(V('%s%d' % (R.choice(['V', 'Item', 'FooBar']), k), kind, fs, s, e, size=size, fail=R.random() < .15, fname=('E%dX%dNamed' % (i, k)) if R.random() < .15 else None))
    if any(v.end for v in vs) or not all(any(v.at(r) for v in vs) for r in range(1, L + 1)):
        vs.insert(R.randint(0, len(vs)), V('Acc', 'tuple', [F('u64')], size='varlen' if opt else None))
    t = T('E%d' % i, enc, 'enum', variants=vs, syntax=R.randint(0, 5))
    if R.random() < .5:
        for r in range(1, L + 1):
            al = [v for v in vs if v.at(r)]
            for v in al:
                if R.random() < .35: 
                    taken = {x.over[r] for x in al if r in x.over}
                    cand = [x for x in (list(range(0, 12)) + ([31, 30] if opt else [250, 251, 70000, 4294967295])) if x not in taken]
                    v.over[r] = R.choice(cand)
    emit(t)

HEAD = '''// @generated by /verif/gen/corpus.py - do not edit
#![allow(dead_code, unused_imports, clippy::all)]
use super::rt::*;
use super::w::*;
use crate::spec::*;
use crate::*;
use replay::idx;
use replay::rep::Rep;
use revision::*;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;
'''
def main():
    # hand written shapes
    emit(T('H1', 'l', 'unit', []))
    emit(T('H2', 'lll', 'named', [F('u32'), F('String', start=2, dfn=True), F('u16', end=3), F('u64', name='acc'), F('Option<u32>', start=3)], syntax=0))
    emit(T('H3', 'lll', 'named', [F('u32'), F('String', start=2, dfn=True), F('u16', end=3), F('u64', name='acc'), F('Option<u32>', start=3)], syntax=2))
    emit(T('H4', 'lll', 'named', [F('u32'), F('String', start=2, dfn=True), F('u16', end=3), F('u64', name='acc'), F('Option<u32>', start=3)], syntax=1))
    emit(T('H5', 'lll', 'named', [F('u32'), F('String', start=2, dfn=True), F('u16', end=3), F('u64', name='acc'), F('Option<u32>', start=3)], syntax=4))
    emit(T('H6', 'lllll', 'tuple', [F('u8'), F('u8', end=2), F('u8', end=3), F('u8', start=2, end=4), F('u64', name='acc'), F('u8', start=3, end=5), F('u8', start=5, dfn=True), F('u8', start=4)]))
    emit(T('H7', 'l' * 300, 'named', [F('u16', start=7), F('String', start=251, dfn=True), F('u32', end=252), F('u64', name='acc')]))
    emit(T('H8', 'lox', 'named', [F('u32'), F('String', start=2), F('Vec<String>', ov='indexed_seq'), F('BTreeMap<u8, String>', ov='indexed_map', start=3), F('BTreeSet<i64>', ov='indexed_set')], syntax=4))
    emit(T('H9', 'xxl', 'named', [F('u32', end=2), F('String', start=2, dfn=True), F('Vec<u32>', ov='indexed_seq', end=3), F('u64', name='acc'), F('u8')], syntax=5))
    emit(T('I1', 'xx', 'named', [F('u8', start=2, dfn=True), F('String'), F('u32', start=2), F('Vec<String>', ov='indexed_seq'), F('i64')]))
    emit(T('I2', 'xxx', 'tuple', [F('String'), F('u8', start=2), F('Vec<u32>', ov='indexed_seq', start=3, dfn=True), F('BTreeMap<String, u64>', ov='indexed_map')], syntax=2))
    emit(T('I3', 'x', 'unit', []))
    emit(T('I4', 'lxo', 'unit', []))
    emit(T('I5', 'xo', 'named', [F('u64', name='acc'), F('BTreeMap<u8, String>', ov='indexed_map', end=2), F('BTreeSet<String>', ov='indexed_set')]))
    emit(T('I6', 'x', 'named', [F('u8'), F('Vec<String>', ov='indexed_seq'), F('String'), F('BTreeSet<i64>', ov='indexed_set'), F('BTreeMap<u8, String>', ov='indexed_map'), F('(u16, String)')], syntax=3))
    emit(T('O1', 'll', 'named', [F('u32', ov='fixed'), F('Vec<u16>', ov='specialised', end=2), F('u64', name='acc'), F('Vec<bool>', ov='specialised'), F('i128', ov='fixed', end=2)]))
    emit(T('O2', 'll', 'tuple', [F('u64', ov='fixed'), F('Vec<f64>', ov='specialised'), F('i32', ov='fixed', start=2, dfn=True), F('Vec<u8>', ov='specialised', start=2), F('String')], syntax=2))
    emit(T('O3', 'lo', 'named', [F('u64', ov='fixed'), F('Vec<u32>', ov='specialised'), F('Vec<String>', ov='indexed_seq'), F('BTreeMap<u8, String>', ov='indexed_map'), F('BTreeSet<i64>', ov='indexed_set'), F('u8')], syntax=2))
    emit(T('O4', 'lx', 'named', [F('Vec<u32>', ov='indexed_seq'), F('i64', ov='fixed'), F('BTreeMap<u8, String>', ov='indexed_map'), F('u8'), F('Vec<bool>', ov='specialised')]))
    emit(T('O5', 'lll', 'named', [F('u128', ov='fixed', start=2, end=3), F('u64', name='acc'), F('Vec<i32>', ov='specialised', end=2), F('String'), F('Vec<i32>', ov='specialised', start=2)]))
    emit(T('N1', 'll', 'enum', variants=[V('A', 'unit'), V('B', 'tuple', [F('u32')]), V('C', 'named', [F('u8'), F('String', start=2)]), V('D', 'tuple', [F('String', start=2, dfn=True)]), V('E', 'tuple', [F('u8'), F('u16', start=2)])]))
    emit(T('N2', 'lll', 'enum', variants=[V('Old', 'tuple', [F('u32')], end=2), V('Acc', 'tuple', [F('u64')]), V('Mid', 'named', [F('u64', name='acc'), F('String', end=3), F('u8', start=2)]), V('New', 'unit', start=3), V('Gone', 'unit', start=2, end=3)], syntax=2))
    emit(T('N3', 'oo', 'enum', variants=[V('Unit', 'unit', size='inline'), V('Num', 'tuple', [F('f64')], size='fixed(8)'), V('Text', 'tuple', [F('String')], size='varlen', start=2, over={2: 1}), V('Pair', 'tuple', [F('u8'), F('String')], size='varlen'), V('Rec', 'named', [F('u8'), F('[u8; 5]')], size='fixed(6)')]))
    emit(T('N4', 'loo', 'enum', variants=[V('Gone', 'tuple', [F('String')], size='varlen', end=3), V('Acc', 'tuple', [F('u64')], size='varlen'), V('Flag', 'unit', size='inline', over={3: 31}), V('Early', 'unit', size='inline', end=2), V('Pt', 'named', [F('u8'), F('Vec<u32>')], size='varlen')], syntax=2))
    emit(T('N5', 'oo', 'enum', variants=[V('Zed', 'unit', size='inline', start=2, over={2: 5}), V('One', 'tuple', [F('u8')], size='fixed(1)', over={1: 7}), V('Two', 'tuple', [F('String')], size='varlen'), V('Three', 'unit', size='varlen')]))
    emit(T('N6', 'l', 'enum', variants=[V('V%d' % k, 'unit' if k % 3 else 'tuple', [] if k % 3 else [F('u16')]) for k in range(260)]))
    emit(T('N7', 'o', 'enum', variants=[V('V%d' % k, 'unit' if k % 3 else 'tuple', [] if k % 3 else [F('u16')], size='inline' if k % 3 else 'varlen') for k in range(32)]))
    emit(T('N8', 'll', 'enum', variants=[V('Fx', 'tuple', [F('u64', ov='fixed')]), V('Bk', 'tuple', [F('Vec<u16>', ov='specialised')]), V('Both', 'named', [F('i128', ov='fixed'), F('Vec<bool>', ov='specialised'), F('u8', start=2)])]))
    emit(T('N9', 'l', 'enum', variants=[V('Only', 'tuple', [F('String')])]))
    emit(T('P1', 'l', 'named', [F('N1'), F('Vec<H2>'), F('Option<N3>'), F('Box<N2>'), F('BTreeMap<u8, I1>'), F('I6')]))
    emit(T('P2', 'x', 'tuple', [F('N4'), F('Vec<N3>'), F('O1'), F('Option<H8>')]))
    emit(T('N10', 'oool', 'enum', variants=[V('Cell', 'tuple', [F('u32', end=2), F('u32', start=2), F('u64', name='acc')], size='varlen'), V('Row', 'named', [F('u64', name='acc'), F('String', end=3), F('Vec<u8>', start=3, dfn=True), F('u8', start=2, end=4)], size='varlen', over={2: 20}), V('Acc', 'tuple', [F('u64')], size='varlen'), V('Gone', 'named', [F('u8', end=2), F('u64', name='acc'), F('String', start=3)], size='varlen', end=3)], syntax=1))
    emit(T('P3', 'l', 'enum', variants=[V('A', 'tuple', [F('H6')]), V('B', 'tuple', [F('Vec<N2>')]), V('C', 'named', [F('I2'), F('N5')]), V('D', 'tuple', [F('N9')])]))
    emit(T('P4', 'o', 'enum', variants=[V('A', 'tuple', [F('H6')], size='varlen'), V('B', 'tuple', [F('Vec<N2>')], size='varlen'), V('C', 'named', [F('I2'), F('N5')], size='varlen')]))
    i = 0
    for flavor, ns, ne in (('legacy', 14, 12), ('opt', 12, 10), ('ovr', 10, 6)):
        for _ in range(ns): i += 1; rand_struct(i, flavor)
        for _ in range(ne): i += 1; rand_enum(i, flavor)
    groups = {'legacy': [], 'opt': [], 'ovr': []}
    for n, t in NAMES.items():
        fs = t.fields if t.kind != 'enum' else [f for v in t.variants for f in v.fields]
        g = 'ovr' if any(f.ov for f in fs) else None
        if g: groups['ovr'].append(n)
        groups['opt' if t.enc.strip('l') else 'legacy'].append(n)
    for g, ns in groups.items():
        w('pub fn %s(rep: &mut Rep, k: crate::What) {' % g)
        for n in ns: w('    crate::check::<%s>(rep, "%s", k);' % (n, n))
        w('}')
    names = ', '.join(NAMES)
    w('hist!(%s);' % names)
    w('plain!(%s);' % ', '.join(sorted(used_leaf)))
    by = {}
    for p, n in sorted(used_nest): by.setdefault(p, []).append(n)
    w('nest_opt!(%s);' % ', '.join(by.get('Option<', [])))
    w('nest_vec!(%s);' % ', '.join(by.get('Vec<', [])))
    w('vecs!(%s);' % ', '.join(by.get('Vec<', [])))
    w('nest_box!(%s);' % ', '.join(by.get('Box<', [])))
    w('transparent!(%s);' % ', '.join('Box<%s> => %s' % (n, n) for n in by.get('Box<', [])))
    w('nest_map!(%s);' % ', '.join(by.get('BTreeMap<u8, ', [])))
    text = HEAD + '\n'.join(out) + '\n'
    open(sys.argv[1], 'w').write(text)
main()
