//! Replay of the walker contracts: every walker visits exactly what decode would produce.
use crate::rep::{guard, guard_huge, seed, thorough, Rep};
use crate::spec::*;
use crate::{rep, SPECV};
use revision::walk::*;
use revision::*;
use std::borrow::Cow;
use std::cmp::{Ordering, Reverse};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

pub enum Stop {
    /// the bytes really are broken here, and the walker said so
    Expected,
    Bad(String),
}
pub type Res = Result<(), Stop>;
pub fn bad<T>(s: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Bad(s.into()))
}
pub fn chk_dec<T: Spec>(what: &str, c: &mut Cur, got: Result<T, Error>) -> Res {
    let want = T::dec(c);
    match (want, got) {
        (Ok(w), Ok(g)) if w.same(&g) => Ok(()),
        (Ok(w), Ok(_)) => bad(format!("{what}: value differs from the encoded {}", rep::hex(&w.bytes()))),
        (Ok(_), Err(e)) => bad(format!("{what}: failed on valid bytes: {e}")),
        (Err(_), Err(_)) => Err(Stop::Expected),
        (Err(b), Ok(_)) => bad(format!("{what}: succeeded on broken bytes ({b:?})")),
    }
}
pub fn chk_skip<T: Spec>(what: &str, c: &mut Cur, got: Result<(), Error>) -> Res {
    match (T::dec(c), got) {
        (Ok(_), Ok(())) => Ok(()),
        (Ok(_), Err(e)) => bad(format!("{what}: failed on valid bytes: {e}")),
        (Err(Bad::Eof), Ok(())) => bad(format!("{what}: succeeded on truncated bytes")),
        (Err(_), _) => Err(Stop::Expected),
    }
}
pub fn chk_bytes(what: &str, c: &mut Cur, got: Result<Vec<u8>, Error>) -> Res {
    let want = dec_len(c).and_then(|n| c.take(n).map(|x| x.to_vec()));
    match (want, got) {
        (Ok(w), Ok(g)) if w == g => Ok(()),
        (Ok(w), Ok(g)) => bad(format!("{what}: bytes {} instead of {}", rep::hex(&g), rep::hex(&w))),
        (Ok(_), Err(e)) => bad(format!("{what}: failed on valid bytes: {e}")),
        (Err(_), Err(_)) => Err(Stop::Expected),
        (Err(b), Ok(_)) => bad(format!("{what}: succeeded on broken bytes ({b:?})")),
    }
}
pub trait W: Spec + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + WalkRevisioned {
    /// `usize len || raw bytes` on the wire
    const LPB: bool = false;
    /// false: walking must be refused before anything is read
    const WALKABLE: bool = true;
    /// `walk` is a no-op returning a leaf over the value itself
    fn drive_w<R: BorrowedReader>(c: &mut Cur, w: Self::Walker<'_, R>, g: &mut Gen) -> Res;
    fn drive<R: BorrowedReader>(c: &mut Cur, r: &mut R, g: &mut Gen) -> Res {
        match g.below(5) {
            0 => chk_dec::<Self>("decode", c, Self::deserialize_revisioned(r)),
            1 => chk_skip::<Self>("skip", c, Self::skip_revisioned(r)),
            _ if !Self::WALKABLE => {
                if Self::walk_revisioned(r).is_ok() {
                    return bad("walked into a bulk encoded vector");
                }
                chk_dec::<Self>("decode after a refused walk", c, Self::deserialize_revisioned(r))
            }
            _ => walked::<Self, R>(c, Self::walk_revisioned(r), g),
        }
    }
    fn leaf_bytes<R: BorrowedReader>(_: LeafWalker<'_, Self, R>) -> Result<Vec<u8>, Error> {
        unreachable!()
    }
    fn item_bytes<R: BorrowedReader>(_: SeqItem<'_, '_, Self, R>) -> Result<Vec<u8>, Error> {
        unreachable!()
    }
    fn key_bytes<V, R: BorrowedReader>(_: &mut MapEntry<'_, '_, Self, V, R>) -> Result<Vec<u8>, Error> {
        unreachable!()
    }
    fn value_bytes<K, R: BorrowedReader>(_: MapEntry<'_, '_, K, Self, R>) -> Result<Vec<u8>, Error> {
        unreachable!()
    }
    fn find_bytes<'r, V: SkipRevisioned, R: BorrowedReader, F: FnMut(&[u8]) -> Ordering>(_: MapWalker<'r, Self, V, R>, _: F) -> Result<Option<LeafWalker<'r, V, R>>, Error> {
        unreachable!()
    }
}
/// continue with a walker that `walk` was asked to construct
pub fn walked<T: W, R: BorrowedReader>(c: &mut Cur, w: Result<T::Walker<'_, R>, Error>, g: &mut Gen) -> Res {
    let at = c.pos;
    let end = match T::dec(c) {
        Ok(_) => Some(c.pos),
        Err(_) => None,
    };
    c.pos = at;
    match w {
        Ok(w) => {
            let r = T::drive_w(c, w, g);
            if r.is_ok() {
                if end.is_none() {
                    return bad("walk reached the end of broken bytes");
                }
                if end != Some(c.pos) {
                    return bad("harness: reference cursor mismatch");
                }
            }
            r
        }
        Err(e) if end.is_some() => bad(format!("walk refused valid bytes: {e}")),
        Err(_) => Err(Stop::Expected),
    }
}
macro_rules! lpb {
    () => {
        const LPB: bool = true;
        fn leaf_bytes<R: BorrowedReader>(w: LeafWalker<'_, Self, R>) -> Result<Vec<u8>, Error> {
            w.with_bytes(|b| b.to_vec())
        }
        fn item_bytes<R: BorrowedReader>(w: SeqItem<'_, '_, Self, R>) -> Result<Vec<u8>, Error> {
            w.with_bytes(|b| b.to_vec())
        }
        fn key_bytes<V, R: BorrowedReader>(w: &mut MapEntry<'_, '_, Self, V, R>) -> Result<Vec<u8>, Error> {
            w.with_key_bytes(|b| b.to_vec())
        }
        fn value_bytes<K, R: BorrowedReader>(w: MapEntry<'_, '_, K, Self, R>) -> Result<Vec<u8>, Error> {
            w.with_value_bytes(|b| b.to_vec())
        }
        fn find_bytes<'r, V: SkipRevisioned, R: BorrowedReader, F: FnMut(&[u8]) -> Ordering>(w: MapWalker<'r, Self, V, R>, f: F) -> Result<Option<LeafWalker<'r, V, R>>, Error> {
            w.find_bytes(f)
        }
    };
}
pub fn leaf<T: W, R: BorrowedReader>(c: &mut Cur, mut w: LeafWalker<'_, T, R>, g: &mut Gen) -> Res {
    match g.below(6) {
        0 => chk_skip::<T>("leaf skip", c, w.skip()),
        1 if T::LPB => chk_bytes("leaf with_bytes", c, T::leaf_bytes(w)),
        2 => {
            let r = w.into_reader();
            chk_dec::<T>("decode after into_reader", c, T::deserialize_revisioned(r))
        }
        3 => {
            let _ = w.reader();
            chk_dec::<T>("leaf decode after reader()", c, w.decode())
        }
        4 if T::WALKABLE => walked::<T, R>(c, w.walk(), g),
        _ => chk_dec::<T>("leaf decode", c, w.decode()),
    }
}
macro_rules! leaves {
    ($($t:ty),* $(,)?) => {$(
        impl W for $t {
            fn drive_w<R: BorrowedReader>(c: &mut Cur, w: Self::Walker<'_, R>, g: &mut Gen) -> Res { leaf::<$t, R>(c, w, g) }
        }
    )*};
}
macro_rules! lpb_leaves {
    ($($t:ty),* $(,)?) => {$(
        impl W for $t {
            lpb!();
            fn drive_w<R: BorrowedReader>(c: &mut Cur, w: Self::Walker<'_, R>, g: &mut Gen) -> Res { leaf::<$t, R>(c, w, g) }
        }
    )*};
}
leaves!(bool, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize, f32, f64, char, Duration, SystemTime,
    (u8,), (u16, String), (i32, Option<u8>, char), (u8, u16, u32, u64), (i8, bool, String, f64, usize), (u64, i64, u128, i128, char, Vec<u8>),
    [u8; 5], [u16; 4], [Option<i32>; 3], [u16; 32], Range<u32>, Range<String>, Bound<i64>, Bound<String>);
lpb_leaves!(String, Box<str>, Arc<str>, PathBuf);
impl W for Cow<'static, String> {
    fn drive_w<R: BorrowedReader>(c: &mut Cur, w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        leaf::<String, R>(c, w, g)
    }
}
macro_rules! transparent {
    ($($t:ty => $i:ty),* $(,)?) => {$(
        impl W for $t {
            fn drive_w<R: BorrowedReader>(c: &mut Cur, w: Self::Walker<'_, R>, g: &mut Gen) -> Res { <$i as W>::drive_w::<R>(c, w, g) }
        }
    )*};
}
transparent!(Box<u32> => u32, Box<Vec<String>> => Vec<String>, Arc<i128> => i128, Arc<Option<u32>> => Option<u32>, Wrapping<u64> => u64, Wrapping<i32> => i32, Reverse<u16> => u16, Reverse<String> => String);

impl<T: W> W for Option<T> {
    fn drive_w<R: BorrowedReader>(c: &mut Cur, w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let at = c.pos;
        let Ok(tag) = c.u8() else { return bad("walked into an option without a tag") };
        if tag > 1 {
            return bad(format!("option tag {tag} accepted"));
        }
        if (w.is_some(), w.is_none()) != (tag == 1, tag == 0) {
            return bad("is_some/is_none disagree with the tag");
        }
        match g.below(5) {
            0 => {
                c.pos = at;
                chk_dec::<Self>("option decode", c, w.decode())
            }
            1 => {
                c.pos = at;
                chk_skip::<Self>("option skip", c, w.skip())
            }
            _ if tag == 0 => match g.below(2) {
                0 => {
                    if w.into_some().is_ok() {
                        return bad("into_some on None succeeded");
                    }
                    Ok(())
                }
                _ => Ok(()),
            },
            _ if !T::WALKABLE => {
                c.pos = at;
                chk_dec::<Self>("option decode", c, w.decode())
            }
            _ => walked::<T, R>(c, w.into_some(), g),
        }
    }
}
impl<T: W, E: W> W for Result<T, E>
where
    Result<T, E>: Spec,
{
    fn drive_w<R: BorrowedReader>(c: &mut Cur, w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let at = c.pos;
        let Ok(tag) = u32::dec(c) else { return bad("walked into a result without a tag") };
        if tag > 1 {
            return bad(format!("result tag {tag} accepted"));
        }
        if (w.is_ok(), w.is_err()) != (tag == 0, tag == 1) {
            return bad("is_ok/is_err disagree with the tag");
        }
        match g.below(6) {
            0 => {
                c.pos = at;
                chk_dec::<Self>("result decode", c, w.decode())
            }
            1 => {
                c.pos = at;
                chk_skip::<Self>("result skip", c, w.skip())
            }
            2 => {
                let wrong = if tag == 0 { w.into_err().is_ok() } else { w.into_ok().is_ok() };
                if wrong {
                    return bad("walked into the wrong side of a result");
                }
                Err(Stop::Expected)
            }
            _ if tag == 0 && T::WALKABLE => walked::<T, R>(c, w.into_ok(), g),
            _ if tag == 1 && E::WALKABLE => walked::<E, R>(c, w.into_err(), g),
            _ => {
                c.pos = at;
                chk_dec::<Self>("result decode", c, w.decode())
            }
        }
    }
}
pub fn seq<T: W, R: BorrowedReader>(c: &mut Cur, mut w: SeqWalker<'_, T, R>, g: &mut Gen) -> Res {
    let Ok(n) = dec_len(c) else { return bad("walked into a sequence without a length") };
    let style = g.below(8);
    let stop = if style == 0 { g.below(n + 1) } else { n };
    for i in 0..n {
        if w.remaining() != n - i {
            return bad(format!("remaining() is {} after {i} of {n} items", w.remaining()));
        }
        if i == stop {
            break;
        }
        let Some(mut it) = w.next_item() else { return bad(format!("next_item() ended after {i} of {n} items")) };
        if g.below(6) == 0 {
            // an item handle dropped unconsumed does not move the sequence
            let Some(again) = w.next_item() else { return bad("item lost when its handle was dropped") };
            it = again;
        }
        let r = match if style < 4 { style } else { g.below(6) } {
            1 => chk_skip::<T>("item skip", c, it.skip()),
            2 if T::LPB => chk_bytes("item with_bytes", c, T::item_bytes(it)),
            3 | 4 if T::WALKABLE => walked::<T, R>(c, it.walk(), g),
            4 => {
                if it.walk().is_ok() {
                    return bad("walked into a bulk encoded vector");
                }
                if w.remaining() != n - i {
                    return bad("a refused nested walk consumed the item");
                }
                match w.next_item() {
                    Some(it) => chk_dec::<T>("item decode after a refused walk", c, it.decode()),
                    None => return bad("item lost after a refused walk"),
                }
            }
            _ => {
                let r = chk_dec::<T>("item decode", c, it.decode());
                if matches!(r, Err(Stop::Expected)) && w.remaining() != n - i {
                    return bad("a failed item was counted as visited");
                }
                r
            }
        };
        r?;
    }
    if stop == n && style != 4 {
        if w.remaining() != 0 || w.next_item().is_some() {
            return bad("items left after the last one");
        }
        return match w.skip_remaining() {
            Ok(()) => Ok(()),
            Err(e) => bad(format!("skip_remaining at the end failed: {e}")),
        };
    }
    let got = w.skip_remaining();
    for _ in stop..n {
        match T::dec(c) {
            Ok(_) => {}
            Err(Bad::Eof) if got.is_ok() => return bad("skip_remaining succeeded on truncated bytes"),
            Err(_) => return Err(Stop::Expected),
        }
    }
    match got {
        Ok(()) => Ok(()),
        Err(e) => bad(format!("skip_remaining failed on valid bytes: {e}")),
    }
}
macro_rules! seqs {
    ($([$($b:tt)*] $t:ty;)*) => {$(
        impl<T: W + $($b)*> W for $t where $t: Spec + DeserializeRevisioned + SkipRevisioned {
            fn drive_w<R: BorrowedReader>(c: &mut Cur, w: Self::Walker<'_, R>, g: &mut Gen) -> Res { seq::<T, R>(c, w, g) }
        }
    )*};
}
seqs!([Eq + std::hash::Hash] HashSet<T>; [Ord] BTreeSet<T>; [Ord] BinaryHeap<T>;);
macro_rules! vecs {
    ($($t:ty),* $(,)?) => {$(
        impl W for Vec<$t> {
            fn drive_w<R: BorrowedReader>(c: &mut Cur, w: Self::Walker<'_, R>, g: &mut Gen) -> Res { seq::<$t, R>(c, w, g) }
        }
    )*};
}
macro_rules! bulk {
    ($($t:ty),* $(,)?) => {$(
        impl W for Vec<$t> {
            const WALKABLE: bool = !SPECV;
            fn drive_w<R: BorrowedReader>(c: &mut Cur, w: Self::Walker<'_, R>, g: &mut Gen) -> Res { seq::<$t, R>(c, w, g) }
        }
    )*};
}
vecs!(String, char, usize, isize, Option<u32>, Vec<u32>, Vec<String>, Option<Vec<u16>>, (u16, String), Box<u32>, BTreeMap<u8, String>, Result<u64, String>, Wrapping<u64>);
bulk!(bool, u16, i16, u32, i32, u64, i64, u128, i128, f32, f64);
impl W for Vec<u8> {
    lpb!();
    const WALKABLE: bool = !SPECV;
    fn drive_w<R: BorrowedReader>(c: &mut Cur, w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        seq::<u8, R>(c, w, g)
    }
}
impl W for Vec<i8> {
    lpb!();
    const WALKABLE: bool = !SPECV;
    fn drive_w<R: BorrowedReader>(c: &mut Cur, w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        seq::<i8, R>(c, w, g)
    }
}
pub fn map<K: W, V: W, R: BorrowedReader>(c: &mut Cur, mut w: MapWalker<'_, K, V, R>, g: &mut Gen) -> Res {
    let Ok(n) = dec_len(c) else { return bad("walked into a map without a length") };
    let style = g.below(6);
    let stop = if style == 0 { g.below(n + 1) } else { n };
    for i in 0..n {
        if w.remaining() != n - i {
            return bad(format!("remaining() is {} after {i} of {n} entries", w.remaining()));
        }
        if i == stop {
            break;
        }
        if g.below(3) == 0 {
            let Some(e) = w.next_entry() else { return bad("entry missing") };
            let wrong = match g.below(3) {
                0 => e.decode_value().is_ok(),
                1 => e.skip_value().is_ok(),
                _ if V::LPB => V::value_bytes(e).is_ok(),
                _ => e.walk_value().is_ok(),
            };
            if wrong {
                return bad("value consumed before its key");
            }
            if w.remaining() != n - i {
                return bad("an out-of-order call consumed the entry");
            }
        }
        let Some(mut e) = w.next_entry() else { return bad(format!("next_entry() ended after {i} of {n} entries")) };
        match g.below(6) {
            0 => {
                let got = e.decode_pair();
                let k = K::dec(c);
                let v = k.as_ref().ok().map(|_| V::dec(c));
                match (k, v, got) {
                    (Ok(k), Some(Ok(v)), Ok((gk, gv))) if k.same(&gk) && v.same(&gv) => {}
                    (Ok(_), Some(Ok(_)), Ok(_)) => return bad("decode_pair: wrong entry"),
                    (Ok(_), Some(Ok(_)), Err(e)) => return bad(format!("decode_pair failed on valid bytes: {e}")),
                    (_, _, Ok(_)) => return bad("decode_pair succeeded on broken bytes"),
                    _ => {
                        if w.remaining() != n - i {
                            return bad("a failed entry was counted as visited");
                        }
                        return Err(Stop::Expected);
                    }
                }
                continue;
            }
            1 => {
                let got = e.skip_pair();
                let (mut g2, at) = (Ok(()), c.pos);
                if K::dec(c).and_then(|_| V::dec(c).map(|_| ())).is_err() {
                    c.pos = at;
                    g2 = Err(());
                }
                match (g2, got) {
                    (Ok(()), Ok(())) => {}
                    (Ok(()), Err(e)) => return bad(format!("skip_pair failed on valid bytes: {e}")),
                    (Err(()), Err(_)) => {
                        if w.remaining() != n - i {
                            return bad("a failed entry was counted as visited");
                        }
                        return Err(Stop::Expected);
                    }
                    (Err(()), Ok(())) => return bad("skip_pair succeeded on truncated bytes"),
                }
                continue;
            }
            2 if K::LPB => chk_bytes("with_key_bytes", c, K::key_bytes(&mut e))?,
            3 => chk_skip::<K>("skip_key", c, e.skip_key())?,
            _ => chk_dec::<K>("decode_key", c, e.decode_key())?,
        }
        if g.below(3) == 0 {
            let wrong = match g.below(3) {
                0 => e.decode_key().is_ok(),
                1 if K::LPB => K::key_bytes(&mut e).is_ok(),
                _ => e.skip_key().is_ok(),
            };
            if wrong {
                return bad("key consumed twice");
            }
        }
        match g.below(5) {
            0 => chk_skip::<V>("skip_value", c, e.skip_value())?,
            1 if V::LPB => chk_bytes("with_value_bytes", c, V::value_bytes(e))?,
            2 | 3 if V::WALKABLE => walked::<V, R>(c, e.walk_value(), g)?,
            _ => {
                let r = chk_dec::<V>("decode_value", c, e.decode_value());
                if matches!(r, Err(Stop::Expected)) && w.remaining() != n - i {
                    return bad("a failed entry was counted as visited");
                }
                r?
            }
        }
    }
    if stop == n && (w.remaining() != 0 || w.next_entry().is_some()) {
        return bad("entries left after the last one");
    }
    let got = w.skip_remaining();
    for _ in stop..n {
        match K::dec(c).and_then(|_| V::dec(c)) {
            Ok(_) => {}
            Err(Bad::Eof) if got.is_ok() => return bad("skip_remaining succeeded on truncated bytes"),
            Err(_) => return Err(Stop::Expected),
        }
    }
    match got {
        Ok(()) => Ok(()),
        Err(e) => bad(format!("skip_remaining failed on valid bytes: {e}")),
    }
}
impl<K: W + Eq + std::hash::Hash, V: W> W for HashMap<K, V>
where
    HashMap<K, V>: Spec + DeserializeRevisioned + SkipRevisioned,
{
    fn drive_w<R: BorrowedReader>(c: &mut Cur, w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        map::<K, V, R>(c, w, g)
    }
}
impl<K: W + Ord, V: W> W for BTreeMap<K, V>
where
    BTreeMap<K, V>: Spec + DeserializeRevisioned + SkipRevisioned,
{
    fn drive_w<R: BorrowedReader>(c: &mut Cur, w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        map::<K, V, R>(c, w, g)
    }
}
#[cfg(feature = "libs")]
mod libs {
    use super::*;
    leaves!(uuid::Uuid, rust_decimal::Decimal, regex::Regex, chrono::DateTime<chrono::Utc>, chrono::NaiveDate, chrono::NaiveTime, chrono::Duration, geo::Coord, geo::Point, geo::LineString, geo::Polygon,
        geo::MultiPoint, geo::MultiLineString, geo::MultiPolygon, roaring::RoaringBitmap, roaring::RoaringTreemap);
    lpb_leaves!(bytes::Bytes);
    vecs!(bytes::Bytes, regex::Regex, chrono::Duration);
    bulk!(uuid::Uuid, rust_decimal::Decimal);
    transparent!(ordered_float::NotNan<f64> => f64);
    seqs!([Clone] imbl::Vector<T>; [Clone + Ord] imbl::OrdSet<T>; [Clone + Eq + std::hash::Hash] imbl::HashSet<T>;);
    impl<K: W + Clone + Ord, V: W + Clone> W for imbl::OrdMap<K, V>
    where
        imbl::OrdMap<K, V>: Spec + DeserializeRevisioned + SkipRevisioned,
    {
        fn drive_w<R: BorrowedReader>(c: &mut Cur, w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
            map::<K, V, R>(c, w, g)
        }
    }
    impl<K: W + Clone + Eq + std::hash::Hash, V: W + Clone> W for imbl::HashMap<K, V>
    where
        imbl::HashMap<K, V>: Spec + DeserializeRevisioned + SkipRevisioned,
    {
        fn drive_w<R: BorrowedReader>(c: &mut Cur, w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
            map::<K, V, R>(c, w, g)
        }
    }
}
pub const TAIL: [u8; 7] = [0, 1, 0xfe, 0xff, 0xfb, 1, 7];
thread_local! { static LENIENT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// The script reached bytes which are not a canonical encoding (padded envelopes, permuted
/// offsets) or do not parse: what it then reads may be any claimed length.
pub fn lenient() {
    LENIENT.with(|x| x.set(true));
}
pub fn one<T: W>(rep: &mut Rep, ty: &str, bytes: &[u8], full: usize, s: u64) {
    // `bytes` is a prefix of (or all of) an encoding of `full` bytes, plus a tail when complete
    let valid = bytes.len() >= full;
    let mut c = Cur::new(bytes);
    let mut g = Gen::new(s);
    let clause = if valid { "walk" } else { "walk-truncated" };
    rep.case(clause, ty, bytes, true);
    LENIENT.with(|x| x.set(false));
    let mut r: &[u8] = bytes;
    let out = guard_huge(|| {
        if !T::WALKABLE {
            let before = r;
            if T::walk_revisioned(&mut r).is_ok() {
                return bad("walked into a bulk encoded vector");
            }
            if before.len() != r.len() {
                return bad("a refused walk read from the input");
            }
        }
        if g.below(3) == 0 {
            let mut sr = SliceReader::new(r);
            T::drive(&mut c, &mut sr, &mut g)?;
            r = &r[sr.consumed_len()..];
            Ok(())
        } else { T::drive(&mut c, &mut r, &mut g) }
    });
    match out {
        Err(p) if (!valid || LENIENT.with(|x| x.get())) && rep::claimed(&p) => {}
        Err(p) => rep.bad(clause, ty, bytes, format!("panicked: {p} (walk script {s})")),
        Ok(Err(Stop::Bad(m))) => rep.bad(clause, ty, bytes, format!("{m} (walk script {s})")),
        Ok(Err(Stop::Expected)) => {}
        Ok(Ok(())) if !valid => rep.bad(clause, ty, bytes, format!("a truncated value was walked to its end (walk script {s})")),
        Ok(Ok(())) => rep.expect(bytes.len() - r.len() == full, clause, ty, bytes, || {
            format!("the walk left the reader at {} instead of {full} (walk script {s})", bytes.len() - r.len())
        }),
    }
}
pub fn each<T: W>(rep: &mut Rep, ty: &str) {
    let mut vals = T::corners();
    let mut g = Gen::new(seed() ^ rep::hash(ty.as_bytes()));
    for _ in 0..if thorough() { 120 } else { 25 } {
        vals.push(T::random(&mut g));
    }
    for v in &vals {
        let mut b = vec![];
        if !matches!(guard(|| v.serialize_revisioned(&mut b).is_ok()), Ok(true)) {
            continue;
        }
        let full = b.len();
        if b != v.bytes() && T::dec(&mut Cur::new(&b)).map(|_| ()).is_err() {
            continue;
        }
        let mut t = b.clone();
        t.extend(TAIL);
        for _ in 0..if thorough() { 40 } else { 10 } {
            one::<T>(rep, ty, &t, full, g.u64());
        }
        for p in crate::checks::prefix_points(full) {
            for _ in 0..3 {
                one::<T>(rep, ty, &b[..p], full, g.u64());
            }
        }
    }
}
