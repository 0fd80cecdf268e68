//! `derive`: replay the contracts of generated code on a corpus of declarations.
#[macro_use]
mod rt;
#[macro_use]
#[path = "../../w.rs"]
mod w;
mod corpus;
pub use replay::{checks, rep, spec, SPECV};
use replay::checks::*;
use replay::rep::*;
use replay::spec::*;
use revision::*;
use rt::*;

#[derive(Clone, Copy, Default)]
pub struct What {
    layout: bool,
    migrate: bool,
    skip: bool,
    walk: bool,
}
/// bytes of a truncated value that can only be walked in stored order
pub fn wire_only(c: &Cur, start: usize, legacy: &[bool]) -> bool {
    let mut c = Cur { b: c.b, pos: start };
    u16::dec(&mut c).is_ok_and(|r| r > 0 && legacy.get(r as usize - 1) == Some(&true))
}
fn revs<T: Hist>() -> Vec<u16> {
    if T::LATEST < 20 { (1..=T::LATEST).collect() } else { vec![1, 2, 6, 7, 8, 250, 251, 252, T::LATEST - 1, T::LATEST] }
}
pub fn check<T: Hist>(rep: &mut Rep, ty: &str, k: What) {
    if k.layout {
        rep.case("revision", ty, b"", true);
        rep.expect(T::REVISION == T::LATEST && <T as Revisioned>::revision() == T::LATEST, "revision", ty, b"", || format!("revision is {}", T::REVISION));
        let want = Want { layout: true, roundtrip: true, ..Want::default() };
        let n = if thorough() { 120 } else { 15 };
        let mut g = Gen::new(seed() ^ 0x55 ^ hash(ty.as_bytes()));
        for v in &values::<T>(ty, n) {
            run_one(rep, ty, v, want, &mut g, &mut 0);
        }
    }
    let mut g = Gen::new(seed() ^ 0x77 ^ hash(ty.as_bytes()));
    if k.walk {
        rep.case("tables", ty, b"", true);
        match guard(T::tables) {
            Ok(Ok(())) => {}
            Ok(Err(m)) => rep.bad("tables", ty, b"", m),
            Err(p) => rep.bad("tables", ty, b"", p),
        }
    }
    for r in revs::<T>() {
        let n = if thorough() { 60 } else { 12 };
        for _ in 0..n {
            let mut b = vec![];
            g.depth = 1;
            T::gen_rev(&mut g, r, &mut b);
            one_value::<T>(rep, ty, &b, k, &mut g);
        }
    }
    // revisions nobody has written yet
    for r in [0, T::LATEST + 1, T::LATEST + 2, 250, 251, 65535] {
        if (1..=T::LATEST).contains(&r) {
            continue;
        }
        let mut b = r.bytes();
        b.extend([0; 40]);
        rep.case("unknown-revision", ty, &b, true);
        if k.migrate {
            let ok = guard(|| T::deserialize_revisioned(&mut &b[..]).is_ok());
            rep.expect(ok == Ok(false), "unknown-revision", ty, &b, || format!("decode of revision {r}: {ok:?}"));
        }
        if k.skip {
            let ok = guard(|| skip_slice::<T>(&b).is_ok() || skip_reader::<T, _>(&mut &b[..]).is_ok());
            rep.expect(ok == Ok(false), "unknown-revision", ty, &b, || format!("skip of revision {r}: {ok:?}"));
        }
        if k.walk {
            let ok = guard(|| T::walk_revisioned(&mut &b[..]).is_ok());
            rep.expect(ok == Ok(false), "unknown-revision", ty, &b, || format!("walk of revision {r}: {ok:?}"));
        }
    }
}
const TAIL: [u8; 7] = [0, 1, 0xfe, 0xff, 0xfb, 1, 7];
fn one_value<T: Hist>(rep: &mut Rep, ty: &str, b: &[u8], k: What, g: &mut Gen) {
    let mut t = b.to_vec();
    t.extend(TAIL);
    let mut c = Cur::new(&t);
    let ok = T::parse(&mut c).is_ok();
    if ok && c.pos != b.len() {
        rep.bad("model", ty, b, format!("reference decoder stops at {}", c.pos));
        return;
    }
    if k.migrate {
        decode_agrees::<T>(rep, ty, &t, false, "migrate");
        if !T::INDEXED && b.len() < 600 {
            for m in mutations(b, g, 6) {
                decode_agrees::<T>(rep, ty, &m, false, "decode-arbitrary");
            }
        }
    }
    if k.skip {
        if ok {
            skip_one::<T>(rep, ty, b, Some(b.len()));
        }
        for p in prefix_points(b.len()) {
            let pre = &b[..p];
            rep.case("truncated", ty, pre, p > 0);
            let r = guard(|| (T::deserialize_revisioned(&mut &pre[..]).is_ok(), skip_reader::<T, _>(&mut &pre[..]).is_ok(), skip_slice::<T>(pre).is_ok(), skip_check_slice::<T>(pre).is_ok(), skip_check_reader::<T, _>(&mut &pre[..]).is_ok()));
            rep.expect(r == Ok((false, false, false, false, false)), "truncated", ty, pre, || format!("(decode, skip, skip_slice, skip_check, skip_check reader) on {p} of {} bytes: {r:?}", b.len()));
        }
        if b.len() < 600 {
            for m in mutations(b, g, 6) {
                let mut c = Cur::new(&m);
                if !T::INDEXED && T::parse(&mut c).is_ok() {
                    skip_one::<T>(rep, ty, &m, Some(c.pos));
                } else {
                    rep.case("skip-arbitrary", ty, &m, true);
                    let r = guard_huge(|| (skip_slice::<T>(&m).is_ok(), skip_reader::<T, _>(&mut &m[..]).is_ok()));
                    rep.expect(r.as_ref().map_or_else(|e| claimed(e), |(a, b)| a == b), "skip-arbitrary", ty, &m, || format!("(slice, reader): {r:?}"));
                }
            }
        }
    }
    if k.walk {
        if ok {
            for _ in 0..if thorough() { 60 } else { 16 } {
                w::one::<T>(rep, ty, &t, b.len(), g.u64());
            }
        }
        for p in prefix_points(b.len()) {
            w::one::<T>(rep, ty, &b[..p], b.len(), g.u64());
        }
        if b.len() < 600 {
            for m in mutations(b, g, 6) {
                let mut c = Cur::new(&m);
                let full = match T::parse(&mut c) {
                    Err(Bad::Huge) => continue,
                    Ok((_, sh)) if !sh.odd && !T::INDEXED => Some(c.pos),
                    _ => None,
                };
                if let Some(full) = full {
                    w::one::<T>(rep, ty, &m, full, g.u64());
                } else {
                    rep.case("walk-arbitrary", ty, &m, true);
                    let s = g.u64();
                    let r = guard_huge(|| {
                        let mut r: &[u8] = &m;
                        let _ = T::drive(&mut Cur::new(&m), &mut r, &mut Gen::new(s));
                    });
                    rep.expect(r.as_ref().map_or_else(|e| claimed(e), |()| true), "walk-arbitrary", ty, &m, || format!("panicked: {r:?} (walk script {s})"));
                }
            }
        }
    }
}
fn main() {
    quiet_panics();
    let rep = &mut Rep::new();
    let a: Vec<String> = std::env::args().collect();
    let mut k = What::default();
    for x in a[2].split(',') {
        match x {
            "layout" => k.layout = true,
            "migrate" => k.migrate = true,
            "skip" => k.skip = true,
            "walk" => k.walk = true,
            _ => panic!("{x}"),
        }
    }
    for x in a[1].split(',') {
        match x {
            "legacy" => corpus::legacy(rep, k),
            "opt" => corpus::opt(rep, k),
            "ovr" => corpus::ovr(rep, k),
            _ => panic!("{x}"),
        }
    }
    std::mem::take(rep).finish()
}
