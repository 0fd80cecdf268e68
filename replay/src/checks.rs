//! Generic contract replay on one type: the real impls against `Spec`.
use crate::io::*;
use crate::rep::*;
use crate::spec::*;
use revision::*;
use std::io::Read;

/// which clause groups to run
#[derive(Clone, Copy, Default)]
pub struct Want {
    pub layout: bool,
    pub roundtrip: bool,
    pub skip: bool,
    pub trunc: bool,
    pub malformed: bool,
    pub errkind: bool,
    pub io: bool,
}
pub struct Vals<T>(pub Vec<T>);
pub fn values<T: Spec>(ty: &str, n: usize) -> Vec<T> {
    let mut v = T::corners();
    let mut g = Gen::new(seed() ^ hash(ty.as_bytes()));
    for _ in 0..n {
        v.push(T::random(&mut g));
    }
    v
}
pub fn n_random() -> usize {
    if thorough() { 400 } else { 40 }
}
pub fn io_kind(e: &Error) -> Option<std::io::ErrorKind> {
    match e {
        Error::Io(e) => Some(e.kind()),
        _ => None,
    }
}
pub fn err_matches(e: &Error, b: Bad) -> bool {
    match b {
        Bad::Eof => io_kind(e) == Some(std::io::ErrorKind::UnexpectedEof),
        Bad::Overflow => matches!(e, Error::IntegerOverflow),
        Bad::BadInt => matches!(e, Error::InvalidIntegerEncoding),
        Bad::BadBool(x) => matches!(e, Error::InvalidBoolValue(y) if *y == x),
        Bad::BadChar => matches!(e, Error::InvalidCharEncoding),
        Bad::Utf8 => matches!(e, Error::Utf8Error(_)),
        Bad::Other | Bad::Huge => true,
    }
}
const TAIL: [u8; 5] = [0xfb, 0x01, 0x00, 0xff, 0x7f];

pub fn prefix_points(n: usize) -> Vec<usize> {
    if n <= 80 {
        (0..n).collect()
    } else if n > 20_000 {
        vec![0, 1, 3, 9, 4096, n / 2, n - 2, n - 1]
    } else {
        let mut v: Vec<usize> = (0..24).collect();
        v.extend([n / 2, n / 3, 4096.min(n - 1), 4097.min(n - 1), 8192.min(n - 1)]);
        v.extend(n - 12..n);
        v.sort();
        v.dedup();
        v
    }
}
/// deterministic mutations of a valid encoding
pub fn mutations(b: &[u8], g: &mut Gen, n: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for i in 0..b.len().min(10) {
        for x in [0u8, 1, 2, 3, 250, 251, 252, 253, 254, 255, b[i] ^ 0x80, b[i].wrapping_add(1), b[i].wrapping_sub(1)] {
            if x != b[i] {
                let mut m = b.to_vec();
                m[i] = x;
                out.push(m)
            }
        }
    }
    for _ in 0..n {
        let mut m = b.to_vec();
        for _ in 0..1 + g.below(3) {
            match g.below(4) {
                0 if !m.is_empty() => {
                    let i = g.below(m.len());
                    m[i] = g.u64() as u8
                }
                1 if !m.is_empty() => {
                    let i = g.below(m.len());
                    m.remove(i);
                }
                2 => {
                    let i = g.below(m.len() + 1);
                    m.insert(i, [0, 1, 2, 250, 251, 252, 255][g.below(7)])
                }
                _ if !m.is_empty() => {
                    let i = g.below(m.len());
                    m[i] ^= 1 << g.below(8)
                }
                _ => {}
            }
        }
        out.push(m)
    }
    out
}
pub fn short_streams(g: &mut Gen) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    for a in 0..=255u8 {
        v.push(vec![a]);
        v.push(vec![a, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        v.push((0..20).map(|i| if i == 0 { a } else { g.u64() as u8 }).collect());
        v.push((0..20).map(|i| if i == 0 { a } else { [0, 1, 2, 0x80, 0xc3, 250][g.below(6)] }).collect());
    }
    v
}

/// `decode` agrees with the model on arbitrary bytes
pub fn decode_agrees<T: Spec + DeserializeRevisioned>(rep: &mut Rep, ty: &str, m: &[u8], kind: bool, clause: &str) -> Option<bool> {
    let mut c = Cur::new(m);
    let want = T::dec(&mut c);
    if matches!(want, Err(Bad::Huge)) {
        return None;
    }
    rep.case(clause, ty, m, true);
    let mut r: &[u8] = m;
    match guard(|| T::deserialize_revisioned(&mut r)) {
        Err(p) => rep.bad(clause, ty, m, format!("decode panicked: {p}")),
        Ok(got) => match (&want, &got) {
            (Ok(w), Ok(v)) => {
                rep.expect(w.same(v), clause, ty, m, || format!("decoded value differs from the format's value {}", hex(&w.bytes())));
                rep.expect(m.len() - r.len() == c.pos, clause, ty, m, || format!("decode consumed {} bytes, the format says {}", m.len() - r.len(), c.pos));
            }
            (Err(_), Ok(v)) => {
                let _ = v;
                rep.bad(clause, ty, m, format!("decode accepted bytes the format rejects ({:?})", want.as_ref().err()))
            }
            (Ok(_), Err(e)) => rep.bad(clause, ty, m, format!("decode rejected valid bytes: {e}")),
            (Err(b), Err(e)) => {
                if kind {
                    rep.expect(err_matches(e, *b), clause, ty, m, || format!("error {e:?} where the format prescribes {b:?}"))
                }
            }
        },
    }
    Some(want.is_ok())
}

pub fn run_long<T>(rep: &mut Rep, ty: &str, w: Want, mk: &dyn Fn(&mut Gen, usize) -> T)
where
    T: Spec + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned,
{
    let mut g = Gen::new(seed() ^ 0x10 ^ hash(ty.as_bytes()));
    let mut lens = vec![255, 256, 257, 1000, 1023, 1024, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 8193, 65535, 65536, 65537, 65544, 70000, 131072];
    for _ in 0..if thorough() { 60 } else { 4 } {
        lens.push(g.below(80_000));
    }
    for n in lens {
        let v = mk(&mut g, n);
        if n != 65536 && n != 65544 && v.bytes().len() > 200_000 {
            continue;
        }
        run_one(rep, ty, &v, w, &mut g, &mut 0);
    }
}
pub fn run_lens<T>(rep: &mut Rep, ty: &str, w: Want, lens: &[usize], mk: &dyn Fn(&mut Gen, usize) -> T)
where
    T: Spec + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned,
{
    let mut g = Gen::new(seed() ^ 0x11 ^ hash(ty.as_bytes()));
    for &n in lens {
        let v = mk(&mut g, n);
        run_one(rep, ty, &v, w, &mut g, &mut 0);
    }
}
pub fn run<T>(rep: &mut Rep, ty: &str, w: Want)
where
    T: Spec + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned,
{
    let vals = values::<T>(ty, n_random());
    let mut g = Gen::new(seed() ^ 0x55 ^ hash(ty.as_bytes()));
    let mut mut_budget: i64 = if thorough() { 60_000 } else { 3_000 };
    for v in &vals {
        run_one(rep, ty, v, w, &mut g, &mut mut_budget);
    }
    if w.malformed {
        for m in short_streams(&mut g) {
            if let Some(true) = decode_agrees::<T>(rep, ty, &m, w.errkind, "decode-arbitrary") {
                if w.skip {
                    let mut c = Cur::new(&m);
                    let _ = T::dec(&mut c);
                    skip_one::<T>(rep, ty, &m, Some(c.pos));
                }
            }
        }
    }
}

/// the codec contract on one value
pub fn run_one<T>(rep: &mut Rep, ty: &str, v: &T, w: Want, g: &mut Gen, mut_budget: &mut i64)
where
    T: Spec + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned,
{
    let spec = v.bytes();
    let big = spec.len() > 2000;
    let real = match guard(|| to_vec(v)) {
        Err(p) => {
            rep.bad("encode-total", ty, &spec, format!("encode panicked: {p}"));
            return;
        }
        Ok(Err(e)) => {
            rep.bad("encode-total", ty, &spec, format!("encode failed: {e}"));
            return;
        }
        Ok(Ok(b)) => b,
    };
    if w.layout {
        rep.case("layout", ty, &spec, spec.len() > 1);
        rep.expect(real == spec, "layout", ty, &spec, || format!("encoded bytes are {}", hex(&real)));
        let mut wbuf = vec![0xaau8, 0xbb];
        let ok = guard(|| to_writer(&mut wbuf, v)).is_ok_and(|r| r.is_ok());
        rep.expect(ok && wbuf[..2] == [0xaa, 0xbb] && wbuf[2..] == spec[..], "layout-append", ty, &spec, || format!("to_writer onto a non-empty buffer gave {}", hex(&wbuf)));
    }
    if w.roundtrip {
        // (a) the crate's own bytes come back, self-delimiting
        let mut bt = real.clone();
        bt.extend_from_slice(&TAIL);
        rep.case("roundtrip", ty, &real, real.len() > 1);
        let mut r: &[u8] = &bt;
        match guard(|| T::deserialize_revisioned(&mut r)) {
            Err(p) => rep.bad("roundtrip", ty, &real, format!("decode panicked: {p}")),
            Ok(Err(e)) => rep.bad("roundtrip", ty, &real, format!("decode failed: {e}")),
            Ok(Ok(back)) => {
                rep.expect(back.same(v), "roundtrip", ty, &real, || format!("decoded value differs; reference encoding {}", hex(&back.bytes())));
                rep.expect(r == TAIL, "self-delimiting", ty, &real, || format!("left {} bytes, expected the 5 byte tail", r.len()));
            }
        }
        let ok = guard(|| from_slice::<T>(&real)).is_ok_and(|r| r.is_ok_and(|b| b.same(v)));
        rep.expect(ok, "from_slice", ty, &real, || "from_slice did not return the value".into());
        let ok = guard(|| from_reader::<_, T>(&mut std::io::Cursor::new(&real))).is_ok_and(|r| r.is_ok_and(|b| b.same(v)));
        rep.expect(ok, "from_reader", ty, &real, || "from_reader did not return the value".into());
        // (b) bytes laid out by the model decode too
        decode_agrees::<T>(rep, ty, &spec, false, "decode-model-bytes");
    }
    if w.skip {
        skip_one::<T>(rep, ty, &real, Some(real.len()));
    }
    if w.trunc {
        for p in prefix_points(real.len()) {
            let pre = &real[..p];
            rep.case("truncated", ty, pre, p > 0);
            let mut r: &[u8] = pre;
            match guard(|| T::deserialize_revisioned(&mut r)) {
                Err(m) => rep.bad("truncated-decode", ty, pre, format!("panicked: {m}")),
                Ok(Ok(_)) => rep.bad("truncated-decode", ty, pre, format!("decode of a strict prefix ({p} of {} bytes) succeeded", real.len())),
                Ok(Err(_)) => {}
            }
            for (name, res) in [
                ("truncated-skip", guard(|| skip_reader::<T, _>(&mut &pre[..]).is_ok())),
                ("truncated-skip-slice", guard(|| skip_slice::<T>(pre).is_ok())),
                ("truncated-skip-check", guard(|| skip_check_slice::<T>(pre).is_ok())),
                ("truncated-skip-check", guard(|| skip_check_reader::<T, _>(&mut &pre[..]).is_ok())),
            ] {
                match res {
                    Err(m) => rep.bad(name, ty, pre, format!("panicked: {m}")),
                    Ok(true) => rep.bad(name, ty, pre, format!("skip of a strict prefix ({p} of {} bytes) succeeded", real.len())),
                    Ok(false) => {}
                }
            }
        }
    }
    if w.malformed && !big && *mut_budget > 0 {
        for m in mutations(&spec, g, 20) {
            *mut_budget -= 1;
            if let Some(true) = decode_agrees::<T>(rep, ty, &m, w.errkind, "decode-arbitrary") {
                if w.skip {
                    let mut c = Cur::new(&m);
                    let _ = T::dec(&mut c);
                    skip_one::<T>(rep, ty, &m, Some(c.pos));
                }
            }
        }
    }
    if w.io && spec.len() <= 9000 {
        io_one(rep, ty, v, &real);
    }
}
/// every way of skipping consumes exactly `want` bytes of `b` ++ tail
pub fn skip_one<T: SkipRevisioned + SkipCheckRevisioned>(rep: &mut Rep, ty: &str, b: &[u8], want: Option<usize>) {
    let mut bt = b.to_vec();
    bt.extend_from_slice(&TAIL);
    let want = want.unwrap();
    rep.case("skip", ty, b, b.len() > 1);
    let mut ck = |name: &str, r: Result<Result<usize, Error>, String>| match r {
        Err(p) => rep.bad(name, ty, b, format!("panicked: {p}")),
        Ok(Err(e)) => rep.bad(name, ty, b, format!("failed on decodable bytes: {e}")),
        Ok(Ok(n)) => rep.expect(n == want, name, ty, b, || format!("consumed {n} bytes, decoding consumes {want}")),
    };
    ck("skip-reader", guard(|| {
        let mut r: &[u8] = &bt;
        skip_reader::<T, _>(&mut r)?;
        Ok(bt.len() - r.len())
    }));
    ck("skip-revisioned", guard(|| {
        let mut r = std::io::Cursor::new(&bt);
        skip_revisioned::<T, _>(&mut r)?;
        Ok(r.position() as usize)
    }));
    ck("skip-chunked", guard(|| {
        let mut r = Chunked::new(&bt, &[1, 3, 2], true);
        T::skip_revisioned(&mut r)?;
        Ok(r.pos)
    }));
    ck("skip-slice", guard(|| skip_slice::<T>(&bt)));
    ck("skip-slice-reader", guard(|| {
        let mut r = SliceReader::new(&bt);
        T::skip_revisioned_slice(&mut r)?;
        if r.remaining() != &bt[r.consumed_len()..] {
            return Ok(usize::MAX);
        }
        Ok(r.consumed_len())
    }));
    ck("skip-slice-as-read", guard(|| {
        let mut r = SliceReader::new(&bt);
        T::skip_revisioned(&mut r)?;
        Ok(r.consumed_len())
    }));
    ck("skip-check-reader", guard(|| {
        let mut r: &[u8] = &bt;
        skip_check_reader::<T, _>(&mut r)?;
        Ok(bt.len() - r.len())
    }));
    ck("skip-check-revisioned", guard(|| {
        let mut r = Chunked::new(&bt, &[2, 1], false);
        skip_check_revisioned::<T, _>(&mut r)?;
        Ok(r.pos)
    }));
    ck("skip-check-slice", guard(|| skip_check_slice::<T>(&bt)));
}

pub fn io_one<T>(rep: &mut Rep, ty: &str, v: &T, real: &[u8])
where
    T: Spec + SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned,
{
    // readers that deliver the same bytes in different pieces give the same value
    for (ks, int) in [(&[1usize][..], false), (&[1][..], true), (&[2, 3][..], false), (&[7, 1, 64][..], true), (&[100_000][..], true)] {
        let mut bt = real.to_vec();
        bt.extend_from_slice(&TAIL);
        rep.case("chunked-read", ty, real, real.len() > 1);
        let mut r = Chunked::new(&bt, ks, int);
        match guard(|| T::deserialize_revisioned(&mut r)) {
            Err(p) => rep.bad("chunked-read", ty, real, format!("panicked: {p}")),
            Ok(Err(e)) => rep.bad("chunked-read", ty, real, format!("decode from a reader delivering pieces {ks:?} (interrupts={int}) failed: {e}")),
            Ok(Ok(b)) => {
                rep.expect(b.same(v), "chunked-read", ty, real, || format!("a reader delivering pieces {ks:?} gives another value"));
                rep.expect(r.pos == real.len(), "chunked-read", ty, real, || format!("consumed {} of {} bytes from a reader delivering pieces {ks:?}", r.pos, real.len()));
            }
        }
    }
    // and skipping them in pieces consumes the same bytes
    for (ks, int) in [(&[1usize][..], false), (&[1][..], true), (&[2, 3][..], false), (&[7, 1, 64][..], true), (&[100_000][..], true)] {
        let mut bt = real.to_vec();
        bt.extend_from_slice(&TAIL);
        for (n, checked) in [("chunked-skip", false), ("chunked-skip-check", true)] {
            let mut r = Chunked::new(&bt, ks, int);
            match guard(|| if checked { T::skip_check_revisioned(&mut r) } else { T::skip_revisioned(&mut r) }) {
                Err(p) => rep.bad(n, ty, real, format!("panicked: {p}")),
                Ok(Err(e)) => rep.bad(n, ty, real, format!("skip from a reader delivering pieces {ks:?} (interrupts={int}) failed: {e}")),
                Ok(Ok(())) => rep.expect(r.pos == real.len(), n, ty, real, || format!("consumed {} of {} bytes from a reader delivering pieces {ks:?}", r.pos, real.len())),
            }
        }
    }
    // read failures
    for at in prefix_points(real.len()) {
        rep.case("failing-read", ty, &real[..at], at > 0);
        let mut r = FailAt { b: real, pos: 0, at, hit: false };
        match guard(|| T::deserialize_revisioned(&mut r)) {
            Err(p) => rep.bad("failing-read", ty, real, format!("panicked: {p}")),
            Ok(Ok(_)) => rep.bad("failing-read", ty, real, format!("decode succeeded although the reader failed after {at} bytes")),
            Ok(Err(e)) => {
                if let Some(k) = io_kind(&e) {
                    rep.expect(k == std::io::ErrorKind::ConnectionReset, "failing-read", ty, real, || format!("reader failed with ConnectionReset after {at} bytes, reported as {k:?}"))
                }
            }
        }
        for (n, checked) in [("failing-read-skip", false), ("failing-read-skip-check", true)] {
            let mut r = FailAt { b: real, pos: 0, at, hit: false };
            match guard(|| if checked { T::skip_check_revisioned(&mut r) } else { T::skip_revisioned(&mut r) }) {
                Err(p) => rep.bad(n, ty, real, format!("panicked: {p}")),
                Ok(Ok(())) => rep.bad(n, ty, real, format!("skip succeeded although the reader failed after {at} bytes")),
                Ok(Err(_)) => {}
            }
        }
    }
    // short and interrupted writers receive the same bytes
    for (k, int) in [(1usize, false), (1, true), (3, true), (5000, true)] {
        rep.case("short-write", ty, real, real.len() > 1);
        let mut w = ShortWriter { out: vec![], k, interrupt: int, calls: 0 };
        match guard(|| v.serialize_revisioned(&mut w)) {
            Err(p) => rep.bad("short-write", ty, real, format!("panicked: {p}")),
            Ok(Err(e)) => rep.bad("short-write", ty, real, format!("encode to a writer accepting {k} bytes per call (interrupts={int}) failed: {e}")),
            Ok(Ok(())) => rep.expect(w.out == real, "short-write", ty, real, || format!("a writer accepting {k} bytes per call received {}", hex(&w.out))),
        }
    }
    // full writers
    for cap in prefix_points(real.len()) {
        for zero in [false, true] {
            rep.case("failing-write", ty, &real[..cap], cap > 0);
            let mut w = FullWriter { out: vec![], cap, zero, hit: false };
            match guard(|| v.serialize_revisioned(&mut w)) {
                Err(p) => rep.bad("failing-write", ty, real, format!("panicked: {p}")),
                Ok(Ok(())) => rep.bad("failing-write", ty, real, format!("encode reported success although only {cap} of {} bytes could be written", real.len())),
                Ok(Err(e)) => {
                    rep.expect(real.starts_with(&w.out), "failing-write", ty, real, || "bytes written before the failure are not a prefix of the encoding".into());
                    if let (Some(k), false) = (io_kind(&e), zero) {
                        rep.expect(k == std::io::ErrorKind::StorageFull, "failing-write", ty, real, || format!("StorageFull reported as {k:?}"))
                    }
                }
            }
        }
    }
}
#[allow(unused)]
fn _r(_: &mut dyn Read) {}
