//! `walk`: replay the walker contracts - every walker visits exactly what decode would produce.
use replay::rep::{guard, seed, thorough, Rep};
use replay::spec::*;
#[path = "../w.rs"]
#[macro_use]
mod w;
pub use replay::{checks, rep, spec, SPECV};
use w::*;
use revision::walk::*;
use revision::*;
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

macro_rules! each {
    ($rep:expr; $($t:ty),* $(,)?) => {$( each::<$t>($rep, stringify!($t)); )*};
}
macro_rules! finds {
    ($rep:expr; $($t:ty),* $(,)?) => {$( <$t as Finds>::go($rep, stringify!($t)); )*};
}
#[cfg(feature = "libs")]
mod libs {
    use super::*;
    pub fn all(rep: &mut Rep) {
        each!(rep; uuid::Uuid, rust_decimal::Decimal, regex::Regex, chrono::DateTime<chrono::Utc>, chrono::NaiveDate, chrono::NaiveTime, chrono::Duration, geo::Coord, geo::Point, geo::LineString, geo::Polygon,
            geo::MultiPoint, geo::MultiLineString, geo::MultiPolygon, roaring::RoaringBitmap, roaring::RoaringTreemap, bytes::Bytes, Vec<bytes::Bytes>, Vec<uuid::Uuid>, Vec<rust_decimal::Decimal>,
            ordered_float::NotNan<f64>, imbl::Vector<String>, imbl::Vector<u32>, imbl::OrdSet<String>, imbl::HashSet<i32>, imbl::OrdMap<u32, String>, imbl::HashMap<String, u64>, Option<bytes::Bytes>, Vec<regex::Regex>, Vec<chrono::Duration>);
        finds!(rep; BTreeMap<bytes::Bytes, u32>);
    }
}
/// searching a sorted map by decoded / borrowed key
fn finds<K: W + Ord + Clone, V: W + Clone>(rep: &mut Rep, ty: &str)
where
    BTreeMap<K, V>: Spec + SerializeRevisioned + WalkRevisioned,
    for<'r> BTreeMap<K, V>: WalkRevisioned<Walker<'r, &'r [u8]> = MapWalker<'r, K, V, &'r [u8]>>,
{
    let mut g = Gen::new(seed() ^ 99 ^ rep::hash(ty.as_bytes()));
    for _ in 0..if thorough() { 600 } else { 120 } {
        let m = BTreeMap::<K, V>::random(&mut g);
        let mut b = vec![];
        m.serialize_revisioned(&mut b).unwrap();
        let full = b.len();
        b.extend(TAIL);
        let keys: Vec<K> = m.keys().cloned().collect();
        let mut offs = vec![]; // (value start)
        {
            let mut c = Cur::new(&b);
            let n = dec_len(&mut c).unwrap_or(0);
            for _ in 0..n {
                let _ = K::dec(&mut c);
                offs.push(c.pos);
                let _ = V::dec(&mut c);
            }
        }
        for t in 0..12 {
            let probe = if !keys.is_empty() && t % 2 == 0 { keys[g.below(keys.len())].clone() } else { K::random(&mut g) };
            let hit = keys.iter().position(|k| *k == probe);
            for by_bytes in [false, true] {
                if by_bytes && !K::LPB {
                    continue;
                }
                // ordering of borrowed bytes must be the key order for the script to be meaningful
                let raw: Vec<u8> = probe.bytes()[len_width(&probe.bytes())..].to_vec();
                rep.case("find", ty, &b[..full], true);
                let mut r: &[u8] = &b;
                let how = if by_bytes { "find_bytes" } else { "find" };
                let res = guard(|| -> Result<(Option<V>, usize), String> {
                    // SAFETY of lifetimes: the walker is dropped before `r` is inspected
                    let rr: &mut &[u8] = unsafe { &mut *(&mut r as *mut &[u8]) };
                    let w = <BTreeMap<K, V> as WalkRevisioned>::walk_revisioned(rr).map_err(|e| e.to_string())?;
                    let l = if by_bytes { K::find_bytes(w, |k| k.cmp(&raw)) } else { w.find(|k| k.cmp(&probe)) };
                    match l.map_err(|e| e.to_string())? {
                        None => Ok((None, usize::MAX)),
                        Some(mut l) => {
                            let at = b.len() - l.reader().len();
                            Ok((Some(l.decode().map_err(|e| e.to_string())?), at))
                        }
                    }
                });
                let pos = b.len() - r.len();
                match (res, hit) {
                    (Err(p), _) => rep.bad("find", ty, &b, format!("{how} panicked: {p}")),
                    (Ok(Err(e)), _) => rep.bad("find", ty, &b, format!("{how} failed: {e}")),
                    (Ok(Ok((None, _))), None) => rep.expect(pos == full, "find", ty, &b, || format!("{how}: a miss left the reader at {pos}, the map ends at {full}")),
                    (Ok(Ok((Some(_), _))), None) => rep.bad("find", ty, &b, format!("{how} found an absent key")),
                    (Ok(Ok((None, _))), Some(i)) => rep.bad("find", ty, &b, format!("{how} missed the key of entry {i}")),
                    (Ok(Ok((Some(v), at))), Some(i)) => {
                        rep.expect(at == offs[i], "find", ty, &b, || format!("{how}: value handle at {at}, entry {i}'s value starts at {}", offs[i]));
                        rep.expect(v.same(&m[&keys[i]]), "find", ty, &b, || format!("{how}: value of another entry"));
                    }
                }
            }
        }
    }
}
/// width of the length prefix of a length-prefixed encoding
fn len_width(b: &[u8]) -> usize {
    let mut c = Cur::new(b);
    let _ = dec_len(&mut c);
    c.pos
}
trait Finds {
    fn go(rep: &mut Rep, ty: &str);
}
impl<K: W + Ord + Clone, V: W + Clone> Finds for BTreeMap<K, V>
where
    BTreeMap<K, V>: Spec + SerializeRevisioned,
{
    fn go(rep: &mut Rep, ty: &str) {
        finds::<K, V>(rep, ty)
    }
}
/// invalid tags are refused when the walker is constructed
fn tags(rep: &mut Rep) {
    for t in 0..=255u8 {
        let b = [t, 1, 2, 3, 4, 5, 6, 7, 8, 9];
        rep.case("walk-tag", "Option<u8>", &b, true);
        let mut r: &[u8] = &b;
        let ok = guard(|| Option::<u8>::walk_revisioned(&mut r).is_ok());
        rep.expect(ok == Ok(t < 2), "walk-tag", "Option<u8>", &b, || format!("option tag {t}: {ok:?}"));
        let mut b = (t as u32).bytes();
        b.extend([1, 2, 3]);
        let mut r: &[u8] = &b;
        let ok = guard(|| Result::<u8, u16>::walk_revisioned(&mut r).is_ok());
        rep.expect(ok == Ok(t < 2), "walk-tag", "Result<u8, u16>", &b, || format!("result tag {t}: {ok:?}"));
    }
}
/// the generic positional struct / enum walkers
fn positional(rep: &mut Rep) {
    type F = (u32, String, Option<u16>, Vec<String>, BTreeMap<u8, String>);
    let mut g = Gen::new(seed() ^ 5);
    for _ in 0..if thorough() { 3000 } else { 500 } {
        let f = (u32::random(&mut g), String::random(&mut g), Option::<u16>::random(&mut g), Vec::<String>::random(&mut g), BTreeMap::<u8, String>::random(&mut g));
        let _: &F = &f;
        let rev = g.u64() as u16;
        let disc = g.mag() as u32;
        let mut b = disc.bytes();
        let start = b.len();
        b.extend(f.0.bytes());
        b.extend(f.1.bytes());
        b.extend(f.2.bytes());
        b.extend(f.3.bytes());
        b.extend(f.4.bytes());
        let full = b.len();
        b.extend(TAIL);
        rep.case("struct-walker", "StructWalker", &b, true);
        let s = g.u64();
        let mut c = Cur::new(&b);
        c.pos = start;
        let mut r: &[u8] = &b[start..];
        let out = guard(|| -> Res {
            let g = &mut Gen::new(s);
            let mut w = StructWalker::new(&mut r, rev);
            let mut n = 0;
            macro_rules! field {
                ($t:ty) => {
                    if w.revision() != rev || w.position() != n {
                        return bad("revision()/position() of the struct walker");
                    }
                    match g.below(3) {
                        0 => chk_dec::<$t>("field decode", &mut c, w.decode::<$t>())?,
                        1 => chk_skip::<$t>("field skip", &mut c, w.skip::<$t>())?,
                        _ => walked::<$t, &[u8]>(&mut c, w.walk::<$t>(), g)?,
                    }
                    n += 1;
                };
            }
            field!(u32);
            field!(String);
            field!(Option<u16>);
            field!(Vec<String>);
            if w.position() != n {
                return bad("position() of the struct walker");
            }
            match g.below(2) {
                0 => walked::<BTreeMap<u8, String>, &[u8]>(&mut c, w.into_walk::<BTreeMap<u8, String>>(), g),
                _ => chk_dec("field after into_reader", &mut c, BTreeMap::<u8, String>::deserialize_revisioned(w.into_reader())),
            }
        });
        match out {
            Err(p) => rep.bad("struct-walker", "StructWalker", &b, format!("panicked {p}")),
            Ok(Err(Stop::Bad(m))) => rep.bad("struct-walker", "StructWalker", &b, m),
            Ok(Err(Stop::Expected)) => rep.bad("struct-walker", "StructWalker", &b, "valid bytes refused".into()),
            Ok(Ok(())) => rep.expect(b.len() - r.len() == full, "struct-walker", "StructWalker", &b, || "reader not at the end of the fields".into()),
        }
        rep.case("enum-walker", "EnumWalker", &b, true);
        let mut c = Cur::new(&b);
        c.pos = start;
        let mut r: &[u8] = &b;
        let out = guard(|| -> Res {
            let g = &mut Gen::new(s);
            if read_enum_discriminant(&mut &b[..]).ok() != Some(disc) {
                return bad("read_enum_discriminant");
            }
            let Ok(w) = EnumWalker::new(&mut r, rev) else { return bad("refused") };
            if w.revision() != rev || w.discriminant() != disc {
                return bad("revision()/discriminant() of the enum walker");
            }
            match g.below(4) {
                0 => chk_dec::<u32>("payload decode", &mut c, w.decode::<u32>()),
                1 => chk_skip::<u32>("payload skip", &mut c, w.skip::<u32>()),
                2 => chk_dec::<u32>("payload after into_reader", &mut c, u32::deserialize_revisioned(w.into_reader())),
                _ => walked::<u32, &[u8]>(&mut c, w.into_walk::<u32>(), g),
            }
        });
        match out {
            Err(p) => rep.bad("enum-walker", "EnumWalker", &b, format!("panicked {p}")),
            Ok(Err(Stop::Bad(m))) => rep.bad("enum-walker", "EnumWalker", &b, m),
            Ok(Err(Stop::Expected)) => rep.bad("enum-walker", "EnumWalker", &b, "valid bytes refused".into()),
            Ok(Ok(())) => rep.expect(b.len() - r.len() == start + f.0.bytes().len(), "enum-walker", "EnumWalker", &b, || "reader not at the end of the payload".into()),
        }
    }
}
fn main() {
    rep::quiet_panics();
    let rep = &mut Rep::new();
    each!(rep; bool, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize, f32, f64, char, Duration, SystemTime, String, Box<str>, Arc<str>, PathBuf, Cow<'static, String>,
        (u8,), (u16, String), (i32, Option<u8>, char), (u8, u16, u32, u64), (i8, bool, String, f64, usize), (u64, i64, u128, i128, char, Vec<u8>), [u8; 5], [u16; 4], [Option<i32>; 3], [u16; 32],
        Range<u32>, Range<String>, Bound<i64>, Bound<String>, Box<u32>, Box<Vec<String>>, Arc<i128>, Arc<Option<u32>>, Wrapping<u64>, Wrapping<i32>, Reverse<u16>, Reverse<String>);
    each!(rep; Option<u32>, Option<Option<String>>, Option<Vec<u16>>, Result<u64, String>, Result<Option<i16>, Vec<u8>>, Vec<String>, Vec<char>, Vec<usize>, Vec<isize>, Vec<Option<u32>>, Vec<Vec<u32>>,
        Vec<Vec<String>>, Vec<Option<Vec<u16>>>, Vec<(u16, String)>, Vec<Box<u32>>, Vec<BTreeMap<u8, String>>, Vec<Result<u64, String>>, Vec<Wrapping<u64>>,
        Vec<bool>, Vec<u8>, Vec<i8>, Vec<u16>, Vec<i16>, Vec<u32>, Vec<i32>, Vec<u64>, Vec<i64>, Vec<u128>, Vec<i128>, Vec<f32>, Vec<f64>);
    each!(rep; HashSet<u16>, HashSet<String>, BTreeSet<i64>, BTreeSet<String>, BinaryHeap<u32>, BinaryHeap<String>, BTreeSet<Vec<u8>>, HashMap<u32, String>, HashMap<String, Vec<u64>>,
        HashMap<u8, HashMap<i16, bool>>, BTreeMap<u64, String>, BTreeMap<String, BTreeMap<u16, i64>>, BTreeMap<i32, Option<bool>>, BTreeMap<String, Result<u64, String>>, BTreeMap<Vec<u8>, PathBuf>, BTreeMap<PathBuf, Arc<str>>);
    finds!(rep; BTreeMap<String, u64>, BTreeMap<String, String>, BTreeMap<u32, String>, BTreeMap<Vec<u8>, Vec<String>>, BTreeMap<i64, Option<u16>>, BTreeMap<Box<str>, bool>);
    tags(rep);
    positional(rep);
    #[cfg(feature = "libs")]
    libs::all(rep);
    std::mem::take(rep).finish()
}
