//! The built-in types each property is replayed on.
use crate::checks::{run, Want};
use crate::rep::Rep;
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

macro_rules! group {
    ($name:ident: $($t:ty),* $(,)?) => {
        pub fn $name(rep: &mut Rep, w: Want) {
            $(run::<$t>(rep, stringify!($t), w);)*
        }
    };
}
group!(ints: u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize);
group!(scalars: bool, f32, f64, char, String, Box<str>, Arc<str>, Cow<'static, str>, PathBuf);
group!(wrappers: Option<u32>, Option<Option<String>>, Option<Vec<u16>>, Result<u64, String>, Result<Option<i16>, Vec<u8>>,
    Bound<i64>, Bound<String>, Box<u32>, Box<String>, Arc<i128>, Wrapping<u64>, Wrapping<i32>, Reverse<u16>, Reverse<String>,
    Cow<'static, String>, Range<u32>, Range<String>, (u8,), (u16, String), (i32, Option<u8>, char), (u8, u16, u32, u64),
    (i8, bool, String, f64, usize), (u64, i64, u128, i128, char, Vec<u8>), [u8; 5], [u16; 4], [u64; 3], [Option<i32>; 3], [u16; 32],
    Duration, SystemTime);
group!(seqs: Vec<String>, Vec<char>, Vec<usize>, Vec<isize>, Vec<Option<u32>>, Vec<Vec<u32>>, Vec<Vec<bool>>, Vec<(u8, u64)>, Vec<Box<u32>>, Vec<[u8; 3]>, Vec<HashMap<u8, u8>>);
group!(colls: HashMap<u32, String>, HashMap<String, Vec<u64>>, HashMap<u8, HashMap<i16, bool>>, BTreeMap<u64, String>, BTreeMap<String, BTreeMap<u16, i64>>, BTreeMap<i32, Option<bool>>,
    HashSet<u16>, HashSet<String>, BTreeSet<i64>, BTreeSet<String>, BinaryHeap<u32>, BinaryHeap<String>, HashMap<(u8, u16), Arc<str>>, BTreeSet<Vec<u8>>);
group!(vecs: Vec<u8>, Vec<i8>, Vec<u16>, Vec<i16>, Vec<u32>, Vec<i32>, Vec<u64>, Vec<i64>, Vec<u128>, Vec<i128>, Vec<f32>, Vec<f64>, Vec<bool>, Vec<usize>, Vec<isize>, Vec<char>, Vec<Wrapping<u32>>, Vec<[u16; 2]>);
/// long vectors and strings: lengths around the chunk and length-prefix boundaries
pub fn long(rep: &mut Rep, w: Want) {
    macro_rules! l { ($($t:ty),*) => { $( crate::checks::run_long::<Vec<$t>>(rep, concat!("Vec<", stringify!($t), ">"), w, &|g, n| (0..n).map(|_| <$t as crate::spec::Spec>::random(g)).collect()); )* } }
    l!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, f32, f64, bool, char);
    crate::checks::run_long::<String>(rep, "String", w, &|g, n| (0..n).map(|_| (b'a' + g.below(26) as u8) as char).collect());
}
/// collections with lengths around the integer-width boundaries
pub fn longcolls(rep: &mut Rep, w: Want) {
    use crate::checks::run_lens;
    let lens = [250, 251, 255, 256, 4097, 65535, 65536, 65540];
    macro_rules! l { ($($t:ty: |$i:ident| $e:expr),* $(,)?) => { $( run_lens::<$t>(rep, stringify!($t), w, &lens, &|_, n| (0..n as u32).map(|$i| $e).collect()); )* } }
    l!(BTreeSet<u32>: |i| i * 3, HashSet<u32>: |i| i * 3, BinaryHeap<u32>: |i| i * 3, BTreeMap<u32, u8>: |i| (i, i as u8), HashMap<u32, u8>: |i| (i, i as u8),
        Vec<Option<u8>>: |i| if i % 3 == 0 { None } else { Some(i as u8) }, Vec<(u8, bool)>: |i| (i as u8, i % 2 == 0));
    #[cfg(feature = "libs")]
    l!(imbl::Vector<u32>: |i| i * 3, imbl::OrdMap<u32, u8>: |i| (i, i as u8), imbl::OrdSet<u32>: |i| i * 3, imbl::HashMap<u32, u8>: |i| (i, i as u8), imbl::HashSet<u32>: |i| i * 3);
    #[cfg(feature = "libs")]
    run_lens::<bytes::Bytes>(rep, "bytes::Bytes", w, &lens, &|_, n| (0..n as u32).map(|i| i as u8).collect());
}
#[cfg(feature = "libs")]
pub mod libs {
    use super::*;
    group!(all: bytes::Bytes, uuid::Uuid, rust_decimal::Decimal, Vec<uuid::Uuid>, Vec<rust_decimal::Decimal>, regex::Regex, ordered_float::NotNan<f32>, ordered_float::NotNan<f64>,
        Vec<ordered_float::NotNan<f64>>, chrono::DateTime<chrono::Utc>, chrono::NaiveDate, chrono::NaiveTime, chrono::Duration, geo::Coord, geo::Point, geo::LineString, geo::Polygon,
        geo::MultiPoint, geo::MultiLineString, geo::MultiPolygon, imbl::Vector<u32>, imbl::Vector<String>, imbl::OrdMap<u32, String>, imbl::OrdSet<String>, imbl::HashMap<String, u64>,
        imbl::HashSet<i32>, roaring::RoaringBitmap, roaring::RoaringTreemap, Option<bytes::Bytes>, Vec<bytes::Bytes>);
    group!(vecs: Vec<uuid::Uuid>, Vec<rust_decimal::Decimal>);
}
