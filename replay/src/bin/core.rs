//! `core <groups> <clauses>`: replay the codec contracts on the named type groups.
use replay::checks::Want;
use replay::{rep, types};
fn main() {
    rep::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let mut w = Want::default();
    for c in a[2].split(',') {
        match c {
            "layout" => w.layout = true,
            "roundtrip" => w.roundtrip = true,
            "skip" => w.skip = true,
            "trunc" => w.trunc = true,
            "malformed" => w.malformed = true,
            "errkind" => w.errkind = true,
            "io" => w.io = true,
            x => panic!("unknown clause {x}"),
        }
    }
    let mut r = rep::Rep::new();
    for g in a[1].split(',') {
        match g {
            "ints" => types::ints(&mut r, w),
            "scalars" => types::scalars(&mut r, w),
            "wrappers" => types::wrappers(&mut r, w),
            "seqs" => types::seqs(&mut r, w),
            "colls" => types::colls(&mut r, w),
            "vecs" => types::vecs(&mut r, w),
            "longcolls" => types::longcolls(&mut r, w),
            "long" => types::long(&mut r, w),
            #[cfg(feature = "libs")]
            "libs" => types::libs::all(&mut r, w),
            #[cfg(feature = "libs")]
            "libvecs" => types::libs::vecs(&mut r, w),
            x => panic!("unknown group {x}"),
        }
    }
    r.finish()
}
