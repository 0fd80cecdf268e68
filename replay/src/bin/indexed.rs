//! `indexed codec|access|corrupt`: indexed maps, sequences and sets (C14, C15, C16).
use replay::checks::*;
use replay::idx::*;
use replay::io::*;
use replay::rep::*;
use replay::spec::*;
use revision::optimised::indexed::*;
use revision::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

const TAIL: [u8; 4] = [0xfb, 0, 1, 0xff];
const LENS: [usize; 15] = [0, 1, 2, 6, 7, 8, 9, 10, 16, 33, 249, 250, 251, 252, 300];

trait Coll: Spec {
    const KIND: &'static str;
    fn layout(&self) -> Vec<u8>;
    fn layout_as(&self, indexed: bool) -> Vec<u8>;
    fn ser<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error>;
    fn de<R: std::io::Read>(r: &mut R) -> Result<Self, Error>;
    fn sk<R: BorrowedReader>(r: &mut R) -> Result<(), Error>;
    fn of_len(n: usize, g: &mut Gen) -> Self;
}
macro_rules! map_coll {
    ($([$($g:tt)*] $t:ty);*) => {$(
        impl<$($g)*> Coll for $t {
            const KIND: &'static str = "map";
            fn layout(&self) -> Vec<u8> { enc_map(&self.iter().map(|(k, v)| (k.bytes(), v.bytes())).collect::<Vec<_>>()) }
            fn layout_as(&self, ix: bool) -> Vec<u8> { enc_map_as(&self.iter().map(|(k, v)| (k.bytes(), v.bytes())).collect::<Vec<_>>(), ix) }
            fn ser<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> { self.serialize_indexed_map(w) }
            fn de<R: std::io::Read>(r: &mut R) -> Result<Self, Error> { <Self as IndexedMapEncoded>::deserialize_indexed_map(r) }
            fn sk<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { <Self as IndexedMapEncoded>::skip_indexed_map(r) }
            fn of_len(n: usize, g: &mut Gen) -> Self {
                let mut m = <$t>::default();
                let mut tries = 0;
                while m.len() < n && tries < 5000 { m.insert(K::random(g), V::random(g)); tries += 1 }
                m
            }
        }
    )*};
}
map_coll!([K: Spec + Ord + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned, V: Spec + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned] BTreeMap<K, V>;
    [K: Spec + Eq + std::hash::Hash + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned, V: Spec + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned] HashMap<K, V>);
macro_rules! set_coll {
    ($([$($g:tt)*] $t:ty);*) => {$(
        impl<$($g)*> Coll for $t {
            const KIND: &'static str = "set";
            fn layout(&self) -> Vec<u8> { enc_set(&self.iter().map(|x| x.bytes()).collect::<Vec<_>>()) }
            fn layout_as(&self, ix: bool) -> Vec<u8> { let mut b = self.iter().map(|x| x.bytes()).collect::<Vec<_>>(); b.sort(); enc_seq_as(&b, ix) }
            fn ser<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> { self.serialize_indexed_set(w) }
            fn de<R: std::io::Read>(r: &mut R) -> Result<Self, Error> { <Self as IndexedSetEncoded>::deserialize_indexed_set(r) }
            fn sk<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { <Self as IndexedSetEncoded>::skip_indexed_set(r) }
            fn of_len(n: usize, g: &mut Gen) -> Self {
                let mut m = <$t>::default();
                let mut tries = 0;
                while m.len() < n && tries < 5000 { m.insert(T::random(g)); tries += 1 }
                m
            }
        }
    )*};
}
set_coll!([T: Spec + Ord + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned] BTreeSet<T>;
    [T: Spec + Eq + std::hash::Hash + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned] HashSet<T>);
impl<T: Spec + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned> Coll for Vec<T> {
    const KIND: &'static str = "seq";
    fn layout(&self) -> Vec<u8> {
        enc_seq(&self.iter().map(|x| x.bytes()).collect::<Vec<_>>())
    }
    fn layout_as(&self, ix: bool) -> Vec<u8> {
        enc_seq_as(&self.iter().map(|x| x.bytes()).collect::<Vec<_>>(), ix)
    }
    fn ser<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
        self.serialize_indexed_seq(w)
    }
    fn de<R: std::io::Read>(r: &mut R) -> Result<Self, Error> {
        <Self as IndexedSeqEncoded>::deserialize_indexed_seq(r)
    }
    fn sk<R: BorrowedReader>(r: &mut R) -> Result<(), Error> {
        <Self as IndexedSeqEncoded>::skip_indexed_seq(r)
    }
    fn of_len(n: usize, g: &mut Gen) -> Self {
        (0..n).map(|_| T::random(g)).collect()
    }
}
fn samples<C: Coll>(g: &mut Gen) -> Vec<C> {
    g.depth = 1;
    let rounds = if thorough() { 8 } else { 1 };
    let mut v: Vec<C> = vec![];
    for _ in 0..rounds {
        v.extend(LENS.iter().map(|&n| C::of_len(n, g)));
    }
    for _ in 0..10 * rounds {
        let n = g.below(24);
        v.push(C::of_len(n, g))
    }
    v
}
fn codec<C: Coll>(rep: &mut Rep, ty: &str) {
    let mut g = Gen::new(seed() ^ hash(ty.as_bytes()));
    for c in samples::<C>(&mut g) {
        let want = c.layout();
        rep.case("indexed-layout", ty, &want, want.len() > 2);
        let mut b = vec![];
        match guard(|| c.ser(&mut b)) {
            Err(p) => rep.bad("indexed-layout", ty, &want, format!("panicked {p}")),
            Ok(Err(e)) => rep.bad("indexed-layout", ty, &want, format!("failed {e}")),
            Ok(Ok(())) => rep.expect(b == want, "indexed-layout", ty, &want, || format!("encoded as {}", hex(&b))),
        }
        let mut w = ShortWriter { out: vec![], k: 2, interrupt: true, calls: 0 };
        let ok = c.ser(&mut w).is_ok();
        rep.expect(ok && w.out == want, "indexed-short-write", ty, &want, || "a writer taking 2 bytes per call received other bytes".into());
        for cap in prefix_points(want.len()) {
            let mut w = FullWriter { out: vec![], cap, zero: cap % 2 == 0, hit: false };
            let r = c.ser(&mut w);
            rep.expect(r.is_err(), "indexed-full-writer", ty, &want, || format!("success with room for only {cap} bytes"));
        }
        for ix in [c.layout().first() == Some(&1), true, false] {
            let enc = c.layout_as(ix);
            let full = [&enc[..], &TAIL].concat();
            rep.case("indexed-decode", ty, &enc, enc.len() > 2);
            let mut r = &full[..];
            match guard(|| C::de(&mut r)) {
                Err(p) => rep.bad("indexed-decode", ty, &enc, format!("panicked {p}")),
                Ok(Err(e)) => rep.bad("indexed-decode", ty, &enc, format!("failed {e}")),
                Ok(Ok(x)) => rep.expect(x.same(&c) && r == TAIL, "indexed-decode", ty, &enc, || format!("decoded {} leaving {} bytes", hex(&x.bytes()), r.len())),
            }
            let mut r = Chunked::new(&full, &[1, 5, 2], true);
            let x = guard(|| C::de(&mut r));
            rep.expect(matches!(&x, Ok(Ok(x)) if x.same(&c)) && r.pos == enc.len(), "indexed-decode-stream", ty, &enc, || format!("stream consumed {} of {}", r.pos, enc.len()));
            let mut r = &full[..];
            let x = guard(|| C::sk(&mut r).is_ok());
            let zero_ix = ix && enc.get(1) == Some(&0);
            if !zero_ix {
                rep.expect(x == Ok(true) && r == TAIL, "indexed-skip", ty, &enc, || format!("{x:?}, consumed {} of {}", full.len() - r.len(), enc.len()));
                let mut r = SliceReader::new(&full);
                let x = guard(|| C::sk(&mut r).is_ok());
                rep.expect(x == Ok(true) && r.remaining() == TAIL, "indexed-skip", ty, &enc, || format!("SliceReader: {x:?}, consumed {}", r.consumed_len()));
                for cut in prefix_points(enc.len()) {
                    let pre = &enc[..cut];
                    rep.case("indexed-truncated", ty, pre, cut > 0);
                    let a = guard(|| C::de(&mut &pre[..]).is_ok());
                    let b = guard(|| C::sk(&mut &pre[..]).is_ok());
                    rep.expect(a == Ok(false), "indexed-truncated-decode", ty, pre, || format!("{a:?} on {cut} of {} bytes", enc.len()));
                    rep.expect(b == Ok(false), "indexed-truncated-skip", ty, pre, || format!("{b:?} on {cut} of {} bytes", enc.len()));
                }
            }
        }
    }
}
fn order_free<C: Coll + Clone, K>(rep: &mut Rep, ty: &str)
where
    C: IntoIterator<Item = K> + FromIterator<K>,
{
    // the same contents built in another order give the same bytes
    let mut g = Gen::new(seed() ^ 3 ^ hash(ty.as_bytes()));
    for c in samples::<C>(&mut g) {
        let mut v: Vec<K> = c.clone().into_iter().collect();
        v.reverse();
        let d: C = v.into_iter().collect();
        let (mut a, mut b) = (vec![], vec![]);
        let ok = c.ser(&mut a).is_ok() && d.ser(&mut b).is_ok();
        rep.case("indexed-canonical", ty, &a, a.len() > 2);
        rep.expect(ok && a == b, "indexed-canonical", ty, &a, || format!("rebuilt collection encodes as {}", hex(&b)));
    }
}
fn access_map<K: Spec + Ord + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned, V: Spec + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned>(rep: &mut Rep, ty: &str) {
    let mut g = Gen::new(seed() ^ 5 ^ hash(ty.as_bytes()));
    for m in samples::<BTreeMap<K, V>>(&mut g) {
        let mut pairs: Vec<(Vec<u8>, Vec<u8>)> = m.iter().map(|(k, v)| (k.bytes(), v.bytes())).collect();
        pairs.sort();
        let mut b = vec![];
        if m.serialize_indexed_map(&mut b).is_err() {
            rep.bad("indexed-access", ty, &enc_map(&pairs), "encode failed".into());
            continue;
        }
        let view = IndexedMapView::<K, V>::new(Cow::Borrowed(&b));
        rep.expect(view.as_bytes() == b, "view-bytes", ty, &b, || "as_bytes differs".into());
        for (which, w) in [("walker", IndexedMapWalker::<K, V>::from_payload(&b)), ("unvalidated", IndexedMapWalker::<K, V>::from_payload_unvalidated(&b)), ("view", view.walker())] {
            let w = match w {
                Ok(w) => w,
                Err(e) => {
                    rep.bad("indexed-open", ty, &b, format!("{which}: {e}"));
                    continue;
                }
            };
            rep.case("indexed-access", ty, &b, pairs.len() >= 8);
            rep.expect(w.len() == pairs.len() && w.is_empty() == pairs.is_empty() && w.is_indexed() == (pairs.len() >= 8), "indexed-len", ty, &b, || format!("{which}: len {} indexed {}", w.len(), w.is_indexed()));
            if pairs.len() < 8 {
                let want: Vec<u8> = pairs.iter().flat_map(|(k, v)| [&k[..], &v[..]].concat()).collect();
                rep.expect(w.legacy_body() == Some(&want[..]) && w.entries().is_none(), "legacy-body", ty, &b, || "body below the index threshold differs".into());
                rep.expect(w.find_value_bytes(|_| std::cmp::Ordering::Equal).is_err() && w.find_value_bytes_with_hint(Some(0), |_| std::cmp::Ordering::Equal).is_err(), "unindexed-find", ty, &b, || "lookup on a map without an index did not fail".into());
                continue;
            }
            rep.expect(w.legacy_body().is_none(), "legacy-body", ty, &b, || "indexed map offers a body".into());
            let got: Vec<(Vec<u8>, Vec<u8>)> = w.entries().unwrap().map(|(k, v)| (k.to_vec(), v.to_vec())).collect();
            rep.expect(got == pairs, "indexed-entries", ty, &b, || format!("{which}: entries are {:?}", got.iter().map(|(k, v)| (hex(k), hex(v))).collect::<Vec<_>>()));
            for (i, (k, v)) in pairs.iter().enumerate() {
                let r = w.find_value_bytes(|x| x.cmp(k));
                rep.expect(matches!(r, Ok(Some(x)) if x == v), "indexed-find", ty, k, || format!("{which}: entry {i} of {} not found", pairs.len()));
                for h in [None, Some(i as u32), Some(g.below(pairs.len()) as u32), Some(pairs.len() as u32), Some(u32::MAX), Some(0)] {
                    rep.case("indexed-hint", ty, &[&k[..], &h.unwrap_or(77777).to_le_bytes()].concat(), true);
                    let r = w.find_value_bytes_with_hint(h, |x| x.cmp(k));
                    rep.expect(matches!(&r, Ok(l) if l.value == Some(&v[..]) && l.hint == Some(i as u32)), "indexed-hint", ty, k, || format!("{which}: hint {h:?} for entry {i}: {r:?}"));
                }
                // absent needles around this key
                for needle in [[&k[..], &[0]].concat(), k[..k.len() - 1].to_vec(), k.iter().enumerate().map(|(j, x)| if j + 1 == k.len() { x.wrapping_add(1) } else { *x }).collect()] {
                    let want = pairs.iter().find(|(a, _)| *a == needle).map(|(_, v)| &v[..]);
                    let r = w.find_value_bytes(|x| x.cmp(&needle));
                    rep.expect(matches!(&r, Ok(x) if *x == want), "indexed-find-absent", ty, &needle, || format!("{which}: {r:?}"));
                    let h = Some(g.below(pairs.len() + 2) as u32);
                    let r = w.find_value_bytes_with_hint(h, |x| x.cmp(&needle));
                    rep.expect(matches!(&r, Ok(l) if l.value == want && (want.is_some() || l.hint == h)), "indexed-hint-absent", ty, &needle, || format!("{which}: hint {h:?}: {r:?}"));
                }
            }
        }
        rep.expect(view.into_bytes()[..] == b[..], "view-bytes", ty, &b, || "into_bytes differs".into());
    }
}
fn access_seq<T: Spec + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned>(rep: &mut Rep, ty: &str) {
    let mut g = Gen::new(seed() ^ 6 ^ hash(ty.as_bytes()));
    for s in samples::<Vec<T>>(&mut g) {
        let bodies: Vec<Vec<u8>> = s.iter().map(|x| x.bytes()).collect();
        let mut b = vec![];
        let ok = s.serialize_indexed_seq(&mut b).is_ok();
        rep.expect(ok, "indexed-access", ty, &b, || "encode failed".into());
        let view = IndexedSeqView::<T>::new(Cow::Owned(b.clone()));
        let sview = IndexedSetView::<T>::new(Cow::Borrowed(&b));
        for (which, w) in [("walker", IndexedSeqWalker::<T>::from_payload(&b)), ("unvalidated", IndexedSeqWalker::<T>::from_payload_unvalidated(&b)), ("view", view.walker()), ("set view", sview.walker())] {
            let w = match w {
                Ok(w) => w,
                Err(e) => {
                    rep.bad("indexed-open", ty, &b, format!("{which}: {e}"));
                    continue;
                }
            };
            rep.case("indexed-seq-access", ty, &b, bodies.len() >= 8);
            rep.expect(w.len() == bodies.len() && w.is_empty() == bodies.is_empty() && w.is_indexed() == (bodies.len() >= 8), "indexed-len", ty, &b, || format!("{which}: len {}", w.len()));
            rep.expect(w.body() == bodies.concat(), "indexed-body", ty, &b, || format!("{which}: body {}", hex(w.body())));
            for i in 0..bodies.len() + 2 {
                let r = w.element_bytes(i);
                if bodies.len() >= 8 && i < bodies.len() {
                    rep.expect(matches!(r, Ok(x) if x == bodies[i]), "indexed-element", ty, &b, || format!("{which}: element {i} of {} is {r:?}", bodies.len()));
                } else {
                    rep.expect(r.is_err(), "indexed-element-range", ty, &b, || format!("{which}: element {i} of {} is {r:?}", bodies.len()));
                }
            }
        }
        rep.expect(view.as_bytes() == b && view.into_bytes()[..] == b[..] && sview.as_bytes() == b && sview.into_bytes()[..] == b[..], "view-bytes", ty, &b, || "view bytes differ".into());
    }
}
fn access_struct(rep: &mut Rep) {
    let mut g = Gen::new(seed() ^ 8);
    for round in 0..400 {
        let n = round % 12;
        let fields: Vec<Vec<u8>> = (0..n).map(|_| String::random(&mut g).bytes()).collect();
        let mut p = vec![];
        let mut off = n as u32 * 4;
        for f in &fields {
            p.extend(off.to_le_bytes());
            off += f.len() as u32;
        }
        p.extend(fields.concat());
        for (which, w) in [("walker", IndexedStructWalker::from_payload(&p, 7, n as u16)), ("unvalidated", IndexedStructWalker::from_payload_unvalidated(&p, 7, n as u16))] {
            rep.case("indexed-struct", which, &p, n > 0);
            let w = match w {
                Ok(w) => w,
                Err(e) => {
                    rep.bad("indexed-struct-open", which, &p, e.to_string());
                    continue;
                }
            };
            rep.expect(w.revision() == 7 && w.field_count() == n as u16, "indexed-struct", which, &p, || "revision / field count".into());
            for i in 0..n + 2 {
                let r = w.field_bytes(i as u16);
                let d = w.decode_field::<String>(i as u16);
                if i < n {
                    rep.expect(matches!(r, Ok(x) if x == fields[i]), "indexed-field", which, &p, || format!("field {i} of {n}: {r:?}"));
                    rep.expect(d.is_ok_and(|s| s.bytes() == fields[i]) && w.skip_field(i as u16).is_ok(), "indexed-field-decode", which, &p, || format!("field {i} of {n}"));
                } else {
                    rep.expect(r.is_err() && d.is_err(), "indexed-field-range", which, &p, || format!("field {i} of {n}: {r:?}"));
                }
            }
        }
    }
}
/// payload mutations that keep most of the structure
fn damage(b: &[u8], g: &mut Gen) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for cut in prefix_points(b.len()) {
        out.push(b[..cut].to_vec());
    }
    out.push([b, &[0, 1, 2]].concat());
    let n = if thorough() { 400 } else { 60 };
    for _ in 0..n {
        let mut m = b.to_vec();
        if m.is_empty() {
            break;
        }
        for _ in 0..1 + g.below(2) {
            let i = g.below(m.len().min(120));
            match g.below(5) {
                0 => m[i] = g.u64() as u8,
                1 => m[i] = m[i].wrapping_add(1),
                2 => m[i] = m[i].wrapping_sub(1),
                3 => m[i] = 0,
                _ => {
                    let j = g.below(m.len());
                    m.swap(i, j)
                }
            }
        }
        out.push(m);
    }
    // hostile lengths and degenerate headers
    for len in [&[0u8][..], &[1], &[7], &[8], &[250], &[251, 8, 0], &[251, 255, 255], &[252, 255, 255, 255, 255], &[253, 8, 0, 0, 0, 0, 0, 0, 0], &[253, 255, 255, 255, 255, 255, 255, 255, 255],
        &[253, 255, 255, 255, 255, 255, 255, 255, 0x1f], &[253, 255, 255, 255, 255, 255, 255, 255, 0x3f], &[253, 254, 255, 255, 255, 255, 255, 255, 0x1f], &[253, 0, 0, 0, 0, 0, 0, 0, 0x20], &[254], &[255], &[251, 0], &[253, 1, 1]]
    {
        for f in [0u8, 1, 2, 3, 255] {
            for body in [&[][..], &[0; 8], &[0; 40], &b[b.len().min(2)..], &[255; 90]] {
                out.push([&[f][..], len, body].concat());
            }
        }
    }
    out
}
fn claimed(m: &[u8]) -> usize {
    if m.is_empty() { 0 } else { dec_ivar(&m[1..]).map_or(0, |x| x.0) }
}
fn corrupt<C: Coll>(rep: &mut Rep, ty: &str) {
    let mut g = Gen::new(seed() ^ 9 ^ hash(ty.as_bytes()));
    for c in samples::<C>(&mut g).into_iter().take(if thorough() { 80 } else { 25 }) {
        let b = c.layout();
        if b.len() > 1500 {
            continue;
        }
        for m in damage(&b, &mut g) {
            rep.case("corrupt-payload", ty, &m, true);
            if C::KIND == "map" {
                let want = map_oracle(&m);
                match guard(|| IndexedMapWalker::<u8, u8>::from_payload(&m)) {
                    Err(p) => rep.bad("corrupt-open", ty, &m, format!("panicked: {p}")),
                    Ok(Err(e)) => rep.expect(want.is_err(), "corrupt-open", ty, &m, || format!("well-formed payload refused: {e}")),
                    Ok(Ok(w)) => match &want {
                        Err(why) => rep.bad("corrupt-open", ty, &m, format!("malformed payload ({why}) accepted")),
                        Ok(None) => rep.expect(!w.is_indexed() && w.legacy_body().is_some(), "corrupt-open", ty, &m, || "unindexed payload opened as indexed".into()),
                        Ok(Some(e)) => {
                            let got = guard(|| w.entries().map(|x| x.map(|(a, b)| (a.to_vec(), b.to_vec())).collect::<Vec<_>>()));
                            rep.expect(got.as_ref().is_ok_and(|x| x.as_ref() == Some(e)), "corrupt-entries", ty, &m, || "entries of the accepted payload differ".into());
                            for (k, v) in e {
                                let r = guard(|| w.find_value_bytes(|x| x.cmp(k)).ok().flatten().map(|x| x.to_vec()));
                                rep.expect(r.as_ref().is_ok_and(|x| x.as_ref() == Some(v)), "corrupt-find", ty, &m, || format!("lookup in the accepted payload: {r:?}"));
                            }
                        }
                    },
                }
                match guard(|| IndexedMapWalker::<u8, u8>::from_payload_unvalidated(&m)) {
                    Err(p) => rep.bad("corrupt-open-unvalidated", ty, &m, format!("panicked: {p}")),
                    Ok(Err(_)) => {}
                    Ok(Ok(w)) => {
                        if w.is_indexed() {
                            let r = guard(|| w.entries().map_or(0, |x| x.map(|(a, b)| a.len() + b.len()).sum::<usize>()));
                            rep.expect(r.is_ok(), "corrupt-unvalidated-entries", ty, &m, || format!("{r:?}"));
                            for k in [&[][..], &[1], &[100, 0], &[255; 4]] {
                                let r = guard(|| w.find_value_bytes(|x| x.cmp(k)).is_ok());
                                rep.expect(r.is_ok(), "corrupt-unvalidated-find", ty, &m, || format!("{r:?}"));
                                for h in [0u32, 3, 7, 8, u32::MAX] {
                                    let r = guard(|| w.find_value_bytes_with_hint(Some(h), |x| x.cmp(k)).is_ok());
                                    rep.expect(r.is_ok(), "corrupt-unvalidated-hint", ty, &m, || format!("{r:?}"));
                                }
                            }
                            for ord in [std::cmp::Ordering::Less, std::cmp::Ordering::Equal, std::cmp::Ordering::Greater] {
                                let r = guard(|| (w.find_value_bytes(|_| ord).is_ok(), w.find_value_bytes_with_hint(Some(2), |_| ord).is_ok()));
                                rep.expect(r.is_ok(), "corrupt-unvalidated-find", ty, &m, || format!("{r:?}"));
                            }
                        }
                    }
                }
            } else {
                let want = seq_oracle(&m);
                match guard(|| IndexedSeqWalker::<u8>::from_payload(&m)) {
                    Err(p) => rep.bad("corrupt-open", ty, &m, format!("panicked: {p}")),
                    Ok(Err(e)) => rep.expect(want.is_err(), "corrupt-open", ty, &m, || format!("well-formed payload refused: {e}")),
                    Ok(Ok(w)) => match &want {
                        Err(why) => rep.bad("corrupt-open", ty, &m, format!("malformed payload ({why}) accepted")),
                        Ok(None) => rep.expect(!w.is_indexed(), "corrupt-open", ty, &m, || "unindexed payload opened as indexed".into()),
                        Ok(Some(e)) => {
                            for (i, x) in e.iter().enumerate() {
                                let r = guard(|| w.element_bytes(i).map(|x| x.to_vec()).ok());
                                rep.expect(r.as_ref().is_ok_and(|y| y.as_ref() == Some(x)), "corrupt-element", ty, &m, || format!("element {i}: {r:?}"));
                            }
                        }
                    },
                }
                let r = guard(|| IndexedSeqWalker::<u8>::from_payload_unvalidated(&m).is_ok());
                rep.expect(r.is_ok(), "corrupt-open-unvalidated", ty, &m, || format!("{r:?}"));
            }
            // decoding and skipping never panic (claimed counts the model refuses to follow are run only for the indexed layout, which bounds them by the offset table)
            let indexed = m.first().is_some_and(|f| f & 1 == 1);
            if indexed || claimed(&m) < 1 << 20 {
                // element types with their own length prefix fall under the trust model on claimed lengths
                let r = if ty.contains("String") || ty[1..].contains("Vec<") { Ok(true) } else { guard(|| C::de(&mut &m[..]).is_ok()) };
                rep.expect(r.is_ok(), "corrupt-decode", ty, &m, || format!("{r:?}"));
                let r = guard(|| C::sk(&mut &m[..]).is_ok());
                rep.expect(r.is_ok(), "corrupt-skip", ty, &m, || format!("{r:?}"));
            }
        }
    }
}
/// small hand-laid prologues: offsets drawn around the region lengths so that every comparison is exercised on both sides
fn synthetic(rep: &mut Rep) {
    let mut g = Gen::new(seed() ^ 77);
    for round in 0..if thorough() { 200_000 } else { 30_000 } {
        let n = g.below(5);
        let kl = g.below(9);
        let vl = g.below(9);
        // mostly ascending columns with an occasional perturbation
        let mut col = |g: &mut Gen, lim: usize| -> Vec<u32> {
            let mut v: Vec<u32> = (0..n).map(|_| g.below(lim + 2) as u32).collect();
            if g.below(4) != 0 {
                v.sort();
            }
            if n > 0 && g.below(3) != 0 {
                v[0] = 0;
            }
            if n > 0 && g.below(12) == 0 {
                let i = g.below(n);
                v[i] = [u32::MAX, 1 << 31, lim as u32, lim as u32 + 1][g.below(4)];
            }
            v
        };
        let ko = col(&mut g, kl);
        let vo = col(&mut g, vl);
        let mut keys: Vec<u8> = (0..kl).map(|_| g.below(3) as u8).collect();
        if g.below(2) == 0 {
            keys.sort();
        }
        let vals: Vec<u8> = (0..vl).map(|_| g.u64() as u8).collect();
        let mut table = vec![];
        for i in 0..n {
            table.extend(ko[i].to_le_bytes());
            table.extend(vo[i].to_le_bytes());
        }
        let mut p = vec![1u8, n as u8];
        p.extend(&table);
        p.extend((kl as u32).to_le_bytes());
        p.extend((vl as u32).to_le_bytes());
        p.extend(&keys);
        p.extend(&vals);
        if round % 17 == 0 {
            p.truncate(g.below(p.len() + 1));
        }
        rep.case("synthetic-map", "map", &p, true);
        let want = map_oracle(&p);
        match guard(|| IndexedMapWalker::<u8, u8>::from_payload(&p).map(|w| w.entries().map(|x| x.map(|(a, b)| (a.to_vec(), b.to_vec())).collect::<Vec<_>>()))) {
            Err(x) => rep.bad("synthetic-map", "map", &p, format!("panicked: {x}")),
            Ok(Err(e)) => rep.expect(want.is_err(), "synthetic-map", "map", &p, || format!("well-formed payload refused: {e}")),
            Ok(Ok(got)) => match &want {
                Err(y) => rep.bad("synthetic-map", "map", &p, format!("malformed payload ({y}) accepted")),
                Ok(e) => rep.expect(&got == e, "synthetic-map", "map", &p, || "entries differ".into()),
            },
        }
        // the same columns as a sequence payload and as a struct payload
        let mut q = vec![1u8, n as u8];
        for o in &ko {
            q.extend(o.to_le_bytes());
        }
        q.extend(&keys);
        let want = seq_oracle(&q);
        match guard(|| IndexedSeqWalker::<u8>::from_payload(&q).map(|w| (0..n).map(|i| w.element_bytes(i).map(|x| x.to_vec()).ok()).collect::<Vec<_>>())) {
            Err(x) => rep.bad("synthetic-seq", "seq", &q, format!("panicked: {x}")),
            Ok(Err(e)) => rep.expect(want.is_err(), "synthetic-seq", "seq", &q, || format!("well-formed payload refused: {e}")),
            Ok(Ok(got)) => match &want {
                Err(y) => rep.bad("synthetic-seq", "seq", &q, format!("malformed payload ({y}) accepted")),
                Ok(e) => rep.expect(e.as_ref().is_some_and(|e| got.iter().map(|x| x.as_ref()).eq(e.iter().map(Some))), "synthetic-seq", "seq", &q, || "elements differ".into()),
            },
        }
        let mut s = vec![];
        for o in &ko {
            s.extend((*o).wrapping_add(4 * n as u32).to_le_bytes());
        }
        s.extend(&keys);
        let want = struct_oracle(&s, n);
        match guard(|| IndexedStructWalker::from_payload(&s, 1, n as u16).map(|w| (0..n).map(|i| w.field_bytes(i as u16).map(|x| x.to_vec()).ok()).collect::<Vec<_>>())) {
            Err(x) => rep.bad("synthetic-struct", "struct", &s, format!("panicked: {x}")),
            Ok(Err(e)) => rep.expect(want.is_err(), "synthetic-struct", "struct", &s, || format!("well-formed payload refused: {e}")),
            Ok(Ok(got)) => match &want {
                Err(y) => rep.bad("synthetic-struct", "struct", &s, format!("malformed payload ({y}) accepted")),
                Ok(e) => rep.expect(got.iter().map(|x| x.as_ref()).eq(e.iter().map(Some)), "synthetic-struct", "struct", &s, || "fields differ".into()),
            },
        }
    }
}
fn corrupt_struct(rep: &mut Rep) {
    let mut g = Gen::new(seed() ^ 12);
    for round in 0..if thorough() { 4000 } else { 600 } {
        let n = round % 6;
        let mut p = vec![];
        let mut off = n as u32 * 4;
        let fields: Vec<Vec<u8>> = (0..n).map(|_| String::random(&mut g).bytes()).collect();
        for f in &fields {
            p.extend(off.to_le_bytes());
            off += f.len() as u32;
        }
        p.extend(fields.concat());
        for _ in 0..6 {
            let mut m = p.clone();
            match g.below(5) {
                0 if !m.is_empty() => m.truncate(g.below(p.len())),
                1 if n > 0 => m[g.below(n * 4)] = g.below(40) as u8,
                2 if n > 0 => m[g.below(n * 4)] = g.u64() as u8,
                3 if n > 1 => {
                    let i = 4 * g.below(n - 1);
                    let x = [m[i], m[i + 1], m[i + 2], m[i + 3]];
                    m[i + 4..i + 8].copy_from_slice(&x)
                }
                _ => m.push(3),
            }
            rep.case("corrupt-struct", "struct", &m, true);
            let want = struct_oracle(&m, n);
            match guard(|| IndexedStructWalker::from_payload(&m, 1, n as u16)) {
                Err(x) => rep.bad("corrupt-struct", "struct", &m, format!("panicked: {x}")),
                Ok(Err(e)) => rep.expect(want.is_err(), "corrupt-struct", "struct", &m, || format!("{n} fields: well-formed payload refused: {e}")),
                Ok(Ok(w)) => match &want {
                    Err(y) => rep.bad("corrupt-struct", "struct", &m, format!("{n} fields: malformed payload ({y}) accepted")),
                    Ok(f) => {
                        for i in 0..n {
                            let r = guard(|| w.field_bytes(i as u16).map(|x| x.to_vec()).ok());
                            rep.expect(r.as_ref().is_ok_and(|x| x.as_ref() == Some(&f[i])), "corrupt-field", "struct", &m, || format!("field {i}: {r:?}"));
                            let r = guard(|| w.decode_field::<u32>(i as u16).is_ok());
                            rep.expect(r.is_ok(), "corrupt-field", "struct", &m, || format!("field {i}: {r:?}"));
                        }
                    }
                },
            }
        }
    }
}
macro_rules! each {
    ($f:ident, $rep:expr; $($t:ty),*) => { $($f::<$t>($rep, stringify!($t));)* };
}
fn main() {
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let mut r = Rep::new();
    let r = &mut r;
    for c in a[1].split(',') {
        match c {
            "codec" => {
                each!(codec, r; BTreeMap<u32, String>, BTreeMap<i64, u8>, BTreeMap<String, Vec<u32>>, BTreeMap<u64, Option<String>>, HashMap<String, u64>, HashMap<u16, String>, HashMap<i32, i32>, Vec<u8>, Vec<u32>, Vec<String>, Vec<Option<u64>>, Vec<Vec<u16>>, Vec<bool>,
                    BTreeSet<i32>, BTreeSet<String>, BTreeSet<u64>, HashSet<u32>, HashSet<String>, HashSet<i64>);
                order_free::<HashMap<String, u64>, _>(r, "HashMap<String, u64>");
                order_free::<HashMap<i32, u8>, _>(r, "HashMap<i32, u8>");
                order_free::<HashSet<String>, _>(r, "HashSet<String>");
                order_free::<HashSet<i32>, _>(r, "HashSet<i32>");
            }
            "access" => {
                access_map::<u32, String>(r, "BTreeMap<u32, String>");
                access_map::<i64, u8>(r, "BTreeMap<i64, u8>");
                access_map::<String, Vec<u32>>(r, "BTreeMap<String, Vec<u32>>");
                access_map::<u64, u64>(r, "BTreeMap<u64, u64>");
                access_seq::<u8>(r, "Vec<u8>");
                access_seq::<String>(r, "Vec<String>");
                access_seq::<u64>(r, "Vec<u64>");
                access_seq::<Option<i32>>(r, "Vec<Option<i32>>");
                access_struct(r);
            }
            "corrupt" => {
                each!(corrupt, r; BTreeMap<u32, String>, BTreeMap<u32, u16>, HashMap<u16, u64>, BTreeMap<String, Vec<u8>>, Vec<u8>, Vec<String>, Vec<u64>, BTreeSet<i32>, HashSet<String>);
                corrupt_struct(r);
                synthetic(r);
            }
            x => panic!("unknown {x}"),
        }
    }
    std::mem::take(r).finish()
}
