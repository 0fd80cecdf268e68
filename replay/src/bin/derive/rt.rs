//! Support for the derive corpus: what a derived type must do, stated from the documentation.
use crate::spec::*;
use crate::w::*;
use replay::idx;
use revision::*;
use std::collections::{BTreeMap, BTreeSet};

/// where the pieces of one stored value are
pub struct Shape {
    pub rev: u16,
    pub latest: u16,
    /// decoding applies a conversion or the type has one: walkers work on the re-encoded value
    pub conv: bool,
    /// fields may be visited in any order
    pub any_order: bool,
    /// stored in an optimised revision
    pub opt: bool,
    /// bytes no writer produces (trailing payload, wrong offsets)
    pub odd: bool,
    /// byte range of each latest field, when it is stored
    pub f: Vec<Option<(usize, usize)>>,
    /// enum payload
    pub body: (usize, usize),
    pub variant: &'static str,
    /// how many stored fields the variant had
    pub stored: usize,
}
impl Shape {
    pub fn new(rev: u16, latest: u16, n: usize) -> Self {
        Shape { rev, latest, conv: false, any_order: false, opt: false, odd: false, f: vec![None; n], body: (0, 0), variant: "", stored: 0 }
    }
    pub fn wire(&self) -> bool {
        !self.conv && !self.any_order
    }
    pub fn raw<'a>(&self, c: &Cur<'a>, i: usize) -> Option<&'a [u8]> {
        self.f.get(i).copied().flatten().map(|(a, b)| &c.b[a..b])
    }
}
pub trait Codec<T> {
    const PLAIN: bool = false;
    fn enc(v: &T, o: &mut Vec<u8>);
    fn dec(c: &mut Cur) -> Result<T, Bad>;
    fn generate(g: &mut Gen, o: &mut Vec<u8>);
}
pub struct Plain;
pub struct Fixed;
pub struct Bulk;
pub struct Index;
impl<T: GenAny> Codec<T> for Plain {
    const PLAIN: bool = true;
    fn enc(v: &T, o: &mut Vec<u8>) {
        v.enc(o)
    }
    fn dec(c: &mut Cur) -> Result<T, Bad> {
        T::dec(c)
    }
    fn generate(g: &mut Gen, o: &mut Vec<u8>) {
        T::gen_any(g, o)
    }
}
/// bytes of some value at some (nested) revision
pub trait GenAny: Spec {
    fn gen_any(g: &mut Gen, o: &mut Vec<u8>);
}
#[macro_export]
macro_rules! plain {
    ($($t:ty),* $(,)?) => {$( impl GenAny for $t { fn gen_any(g: &mut Gen, o: &mut Vec<u8>) { <$t as Spec>::random(g).enc(o) } } )*};
}
#[macro_export]
macro_rules! hist {
    ($($t:ty),* $(,)?) => {$( impl GenAny for $t { fn gen_any(g: &mut Gen, o: &mut Vec<u8>) { let r = 1 + g.below(<$t as Hist>::LATEST as usize) as u16; <$t as Hist>::gen_rev(g, r, o) } } )*};
}
#[macro_export]
macro_rules! nest_opt {
    ($($t:ty),* $(,)?) => {$( impl GenAny for Option<$t> { fn gen_any(g: &mut Gen, o: &mut Vec<u8>) { if g.below(3) == 0 { o.push(0) } else { o.push(1); <$t>::gen_any(g, o) } } } )*};
}
#[macro_export]
macro_rules! nest_vec {
    ($($t:ty),* $(,)?) => {$( impl GenAny for Vec<$t> { fn gen_any(g: &mut Gen, o: &mut Vec<u8>) { let n = g.below(4); enc_len(o, n); for _ in 0..n { <$t>::gen_any(g, o) } } } )*};
}
#[macro_export]
macro_rules! nest_box {
    ($($t:ty),* $(,)?) => {$( impl GenAny for Box<$t> { fn gen_any(g: &mut Gen, o: &mut Vec<u8>) { <$t>::gen_any(g, o) } } )*};
}
#[macro_export]
macro_rules! nest_map {
    ($($t:ty),* $(,)?) => {$( impl GenAny for BTreeMap<u8, $t> { fn gen_any(g: &mut Gen, o: &mut Vec<u8>) {
        let n = g.below(4); enc_len(o, n); for i in 0..n { (i as u8 * 40 + g.below(40) as u8).enc(o); <$t>::gen_any(g, o) } } } )*};
}
macro_rules! fx {
    ($($t:ty, $w:expr);*) => {$(
        impl Codec<$t> for Fixed {
            fn enc(v: &$t, o: &mut Vec<u8>) { o.extend_from_slice(&v.to_le_bytes()) }
            fn dec(c: &mut Cur) -> Result<$t, Bad> { Ok(<$t>::from_le_bytes(c.take($w)?.try_into().unwrap())) }
            fn generate(g: &mut Gen, o: &mut Vec<u8>) { <Self as Codec<$t>>::enc(&<$t as Spec>::random(g), o) }
        }
    )*};
}
fx!(u32, 4; i32, 4; u64, 8; i64, 8; u128, 16; i128, 16);
macro_rules! bk {
    ($($t:ty, $w:expr);*) => {$(
        impl Codec<Vec<$t>> for Bulk {
            fn enc(v: &Vec<$t>, o: &mut Vec<u8>) { enc_len(o, v.len()); for x in v { o.extend_from_slice(&x.to_le_bytes()) } }
            fn dec(c: &mut Cur) -> Result<Vec<$t>, Bad> {
                let n = dec_len(c)?;
                (0..n).map(|_| Ok(<$t>::from_le_bytes(c.take($w)?.try_into().unwrap()))).collect()
            }
            fn generate(g: &mut Gen, o: &mut Vec<u8>) { <Self as Codec<Vec<$t>>>::enc(&<Vec<$t> as Spec>::random(g), o) }
        }
    )*};
}
bk!(u8, 1; i8, 1; u16, 2; i16, 2; u32, 4; i32, 4; u64, 8; i64, 8; u128, 16; i128, 16; f32, 4; f64, 8);
impl Codec<Vec<bool>> for Bulk {
    fn enc(v: &Vec<bool>, o: &mut Vec<u8>) {
        enc_len(o, v.len());
        let mut buf = vec![0u8; v.len().div_ceil(8)];
        for (i, b) in v.iter().enumerate() {
            buf[i / 8] |= (*b as u8) << (i % 8)
        }
        o.extend(buf)
    }
    fn dec(c: &mut Cur) -> Result<Vec<bool>, Bad> {
        let n = dec_len(c)?;
        let b = c.take(n.div_ceil(8))?;
        Ok((0..n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect())
    }
    fn generate(g: &mut Gen, o: &mut Vec<u8>) {
        Self::enc(&<Vec<bool> as Spec>::random(g), o)
    }
}
fn ix_head(c: &mut Cur) -> Result<(bool, usize), Bad> {
    let fl = c.u8()?;
    if fl > 1 {
        return Err(Bad::Huge);
    }
    let (n, w) = idx::dec_ivar(&c.b[c.pos..]).ok_or(Bad::Huge)?;
    if n > HUGE as usize {
        return Err(Bad::Huge);
    }
    c.pos += w;
    Ok((fl == 1, n))
}
fn ix_seq<T: Spec>(c: &mut Cur) -> Result<Vec<T>, Bad> {
    let (ix, n) = ix_head(c)?;
    if ix {
        c.take(4 * n)?;
    }
    (0..n).map(|_| T::dec(c)).collect()
}
/// enough entries to be written with an offset table about half of the time
fn ix_len(g: &mut Gen) -> usize {
    if g.below(2) == 0 { 8 + g.below(5) } else { g.below(8) }
}
impl<K: Spec + Ord, V: Spec> Codec<BTreeMap<K, V>> for Index {
    fn enc(v: &BTreeMap<K, V>, o: &mut Vec<u8>) {
        let p: Vec<_> = v.iter().map(|(k, v)| (k.bytes(), v.bytes())).collect();
        o.extend(idx::enc_map(&p))
    }
    fn dec(c: &mut Cur) -> Result<BTreeMap<K, V>, Bad> {
        let (ix, n) = ix_head(c)?;
        if !ix {
            return (0..n).map(|_| Ok((K::dec(c)?, V::dec(c)?))).collect();
        }
        c.take(8 * n)?;
        c.take(8)?;
        let k: Vec<K> = (0..n).map(|_| K::dec(c)).collect::<Result<_, _>>()?;
        let v: Vec<V> = (0..n).map(|_| V::dec(c)).collect::<Result<_, _>>()?;
        Ok(k.into_iter().zip(v).collect())
    }
    fn generate(g: &mut Gen, o: &mut Vec<u8>) {
        let m: BTreeMap<K, V> = (0..ix_len(g)).map(|_| (K::random(g), V::random(g))).collect();
        Self::enc(&m, o)
    }
}
impl<T: Spec> Codec<Vec<T>> for Index {
    fn enc(v: &Vec<T>, o: &mut Vec<u8>) {
        o.extend(idx::enc_seq(&v.iter().map(|x| x.bytes()).collect::<Vec<_>>()))
    }
    fn dec(c: &mut Cur) -> Result<Vec<T>, Bad> {
        ix_seq(c)
    }
    fn generate(g: &mut Gen, o: &mut Vec<u8>) {
        let m: Vec<T> = (0..ix_len(g)).map(|_| T::random(g)).collect();
        Self::enc(&m, o)
    }
}
impl<T: Spec + Ord> Codec<BTreeSet<T>> for Index {
    fn enc(v: &BTreeSet<T>, o: &mut Vec<u8>) {
        o.extend(idx::enc_set(&v.iter().map(|x| x.bytes()).collect::<Vec<_>>()))
    }
    fn dec(c: &mut Cur) -> Result<BTreeSet<T>, Bad> {
        Ok(ix_seq::<T>(c)?.into_iter().collect())
    }
    fn generate(g: &mut Gen, o: &mut Vec<u8>) {
        let m: BTreeSet<T> = (0..ix_len(g)).map(|_| T::random(g)).collect();
        Self::enc(&m, o)
    }
}
pub trait Hist: GenAny + W + SkipCheckRevisioned + Revisioned {
    const LATEST: u16;
    /// has fields whose stored form is validated only where it is used
    const INDEXED: bool;
    const REVISION: u16;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>);
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad>;
    /// introspection tables against the declaration
    fn tables() -> Result<(), String>;
}
pub fn rd<C: Codec<T>, T>(c: &mut Cur, sh: &mut Shape, i: Option<usize>) -> Result<T, Bad> {
    let a = c.pos;
    let v = C::dec(c)?;
    sh.stored += 1;
    if let Some(i) = i {
        sh.f[i] = Some((a, c.pos))
    }
    Ok(v)
}
pub fn mix(h: u64, rev: u16, b: &[u8]) -> u64 {
    let mut h = (h ^ rev as u64).wrapping_mul(0x100_0000_01b3) ^ 0x9e37_79b9;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3)
    }
    h
}
pub fn dflt<T: Spec>(rev: u16, k: u64) -> T {
    let mut g = Gen::new(1000 * rev as u64 + k);
    g.depth = 1;
    T::random(&mut g)
}
pub fn u32le(c: &mut Cur) -> Result<usize, Bad> {
    Ok(u32::from_le_bytes(c.take(4)?.try_into().unwrap()) as usize)
}
/// `u32_le length || payload`: a cursor over the payload, and its end
pub fn payload<'a>(c: &mut Cur<'a>) -> Result<(Cur<'a>, usize), Bad> {
    let n = u32le(c)?;
    window(c, n)
}
pub fn window<'a>(c: &mut Cur<'a>, n: usize) -> Result<(Cur<'a>, usize), Bad> {
    if c.b.len() - c.pos < n {
        return Err(if n > 1 << 24 { Bad::Huge } else { Bad::Eof });
    }
    let end = c.pos + n;
    Ok((Cur { b: &c.b[..end], pos: c.pos }, end))
}
pub fn put_payload(o: &mut Vec<u8>, p: &[u8]) {
    o.extend_from_slice(&(p.len() as u32).to_le_bytes());
    o.extend_from_slice(p)
}
/// fields of an optimised struct with the offset table in front
pub fn with_offsets(fields: &[Vec<u8>], indexed: bool) -> Vec<u8> {
    let mut p = vec![];
    if indexed {
        let mut at = 4 * fields.len();
        for f in fields {
            p.extend_from_slice(&(at as u32).to_le_bytes());
            at += f.len()
        }
    }
    for f in fields {
        p.extend_from_slice(f)
    }
    p
}
pub fn enc1<C: Codec<T>, T>(v: &T) -> Vec<u8> {
    let mut o = vec![];
    C::enc(v, &mut o);
    o
}
pub fn gen1<C: Codec<T>, T>(g: &mut Gen) -> Vec<u8> {
    let mut o = vec![];
    C::generate(g, &mut o);
    o
}
pub fn same_res<T: Spec>(what: &str, want: &T, got: Result<T, Error>) -> Res {
    match got {
        Ok(g) if want.same(&g) => Ok(()),
        Ok(g) => bad(format!("{what}: yields {} instead of {}", replay::rep::hex(&g.bytes()), replay::rep::hex(&want.bytes()))),
        Err(e) => bad(format!("{what}: failed on valid bytes: {e}")),
    }
}
pub fn must<T>(what: &str, got: Result<T, Error>) -> Result<T, Stop> {
    match got {
        Ok(x) => Ok(x),
        Err(e) => bad(format!("{what}: failed on valid bytes: {e}")),
    }
}
/// a nested walker over a field stored at `range` (None: not stored as such)
pub fn nested<T: W, R: BorrowedReader>(what: &str, c: &Cur, range: Option<(usize, usize)>, must: bool, got: Result<T::Walker<'_, R>, Error>, g: &mut Gen) -> Result<bool, Stop> {
    match got {
        Ok(w) => {
            let Some((a, b)) = range else { return bad(format!("{what}: walked into a field that is not stored")) };
            let mut n = Cur { b: c.b, pos: a };
            match T::drive_w::<R>(&mut n, w, g) {
                Ok(()) => {}
                Err(Stop::Expected) => return Err(Stop::Expected),
                Err(Stop::Bad(m)) => return bad(format!("{what}: {m}")),
            }
            if n.pos != b {
                return bad(format!("{what}: the nested value ends at {}, the field at {b}", n.pos));
            }
            Ok(true)
        }
        Err(e) if must => bad(format!("{what}: refused a stored field: {e}")),
        Err(_) => Ok(false),
    }
}
/// raw bytes of a field: as stored, or (for a converted value) any encoding of it
pub fn bytes_ok<T: Spec>(what: &str, want: &T, got: Result<Vec<u8>, Error>, raw: Option<&[u8]>, conv: bool, encs: &[Vec<u8>]) -> Res {
    match got {
        Ok(b) => match raw {
            Some(r) if !conv => {
                if b == r { Ok(()) } else { bad(format!("{what}: {} instead of the stored {}", replay::rep::hex(&b), replay::rep::hex(r))) }
            }
            _ if encs.contains(&b) => Ok(()),
            _ => bad(format!("{what}: {} is not an encoding of {}", replay::rep::hex(&b), replay::rep::hex(&want.bytes()))),
        },
        Err(e) if raw.is_some() && !conv => bad(format!("{what}: failed on a stored field: {e}")),
        Err(_) => Ok(()),
    }
}
/// an enum payload view: as stored, or an encoding of the payload
pub fn view_ok(what: &str, got: Result<Vec<u8>, Error>, raw: Option<&[u8]>, exact: bool, encs: &[Vec<u8>]) -> Res {
    match got {
        Ok(b) if raw == Some(&b[..]) || (!exact && encs.contains(&b)) => Ok(()),
        Ok(b) => bad(format!("{what}: {} instead of {}", replay::rep::hex(&b), replay::rep::hex(raw.unwrap_or(&encs[0])))),
        Err(e) if exact => bad(format!("{what}: failed on a stored payload: {e}")),
        Err(_) => Err(Stop::Expected),
    }
}
/// an indexed view holds the indexed encoding of the field
pub fn ix_ok<T>(what: &str, want: &T, got: Result<(Vec<u8>, bool), Error>, must: bool) -> Result<bool, Stop>
where
    Index: Codec<T>,
{
    match got {
        Ok((b, w)) => {
            if b != enc1::<Index, T>(want) {
                return bad(format!("{what}: view holds {} instead of the indexed encoding {}", replay::rep::hex(&b), replay::rep::hex(&enc1::<Index, T>(want))));
            }
            if !w {
                return bad(format!("{what}: the view does not open"));
            }
            Ok(true)
        }
        Err(e) if must => bad(format!("{what}: refused a stored field: {e}")),
        Err(_) => Ok(false),
    }
}
/// the order in which fields are visited
pub fn order(g: &mut Gen, n: usize, any: bool) -> Vec<usize> {
    if !any {
        return (0..n).collect();
    }
    (0..if n == 0 { 0 } else { g.below(2 * n + 1) }).map(|_| g.below(n)).collect()
}
#[macro_export]
macro_rules! sfield {
    (plain $w:ident $c:ident $g:ident $v:ident $sh:ident $R:ident; $i:literal, $ty:ty, $cd:ty, $ovr:expr, $f:tt, $dec:ident, $skip:ident, $walk:ident, $into:ident, $bytes:ident) => {
        match $g.below(9) {
            0 => must(stringify!($skip), $w.$skip())?,
            1 | 2 => {
                let here = $sh.f[$i].filter(|_| !$sh.conv);
                let want = here.is_some() && $sh.wire() && <$ty as W>::WALKABLE && !$ovr;
                if !nested::<$ty, $R>(stringify!($walk), $c, here, want, $w.$walk(), $g)? {
                    same_res(concat!(stringify!($dec), " after a refused walk"), &$v.$f, $w.$dec())?
                }
            }
            3 if $g.below(2) == 0 => {
                let here = $sh.f[$i].filter(|_| !$sh.conv);
                let want = here.is_some() && $sh.wire() && <$ty as W>::WALKABLE && !$ovr;
                nested::<$ty, $R>(stringify!($into), $c, here, want, $w.$into(), $g)?;
                return Err(Stop::Expected);
            }
            4 if $g.below(2) == 0 => {
                let encs = [$v.$f.bytes(), enc1::<$cd, $ty>(&$v.$f)];
                bytes_ok(stringify!($bytes), &$v.$f, $w.$bytes().map(|b| b.into_owned()), $sh.raw($c, $i), $sh.conv, &encs)?;
                return Err(Stop::Expected);
            }
            _ => same_res(stringify!($dec), &$v.$f, $w.$dec())?,
        }
    };
    (index $w:ident $c:ident $g:ident $v:ident $sh:ident $R:ident; $i:literal, $ty:ty, $cd:ty, $ovr:expr, $f:tt, $dec:ident, $skip:ident, $walk:ident, $into:ident, $bytes:ident) => {
        match $g.below(9) {
            0 => must(stringify!($skip), $w.$skip())?,
            1 | 2 => {
                let want = $sh.f[$i].is_some() && !$sh.conv && $sh.opt;
                let r = $w.$walk().map(|v| (v.as_bytes().to_vec(), v.walker().is_ok()));
                if !ix_ok::<$ty>(stringify!($walk), &$v.$f, r, want)? {
                    same_res(concat!(stringify!($dec), " after a refused walk"), &$v.$f, $w.$dec())?
                }
            }
            3 if $g.below(2) == 0 => {
                let want = $sh.f[$i].is_some() && !$sh.conv && $sh.opt;
                let r = $w.$into().map(|v| (v.as_bytes().to_vec(), v.walker().is_ok()));
                ix_ok::<$ty>(stringify!($into), &$v.$f, r, want)?;
                return Err(Stop::Expected);
            }
            4 if $g.below(2) == 0 => {
                let encs = [$v.$f.bytes(), enc1::<$cd, $ty>(&$v.$f)];
                bytes_ok(stringify!($bytes), &$v.$f, $w.$bytes().map(|b| b.into_owned()), $sh.raw($c, $i), $sh.conv, &encs)?;
                return Err(Stop::Expected);
            }
            _ => same_res(stringify!($dec), &$v.$f, $w.$dec())?,
        }
    };
}
