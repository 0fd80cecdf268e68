//! Reference codec for the supported third-party types.
use super::*;

seqlike! {
    [T: Spec + Clone] imbl::Vector<T>, T, |a, b| a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.same(y));
    [T: Spec + Ord + Clone] imbl::OrdSet<T>, T, |a, b| a == b;
    [T: Spec + Eq + Hash + Clone] imbl::HashSet<T>, T, |a, b| a == b;
}
macro_rules! maplike {
    ($([$($g:tt)*] $t:ty);* $(;)?) => {$(
        impl<$($g)*> Spec for $t {
            fn enc(&self, o: &mut Vec<u8>) {
                enc_len(o, self.len());
                for (k, v) in self.iter() { k.enc(o); v.enc(o) }
            }
            fn dec(c: &mut Cur) -> Result<Self, Bad> {
                let n = dec_len(c)?;
                let mut m = <$t>::default();
                for _ in 0..n { let k = K::dec(c)?; let v = V::dec(c)?; m.insert(k, v); }
                Ok(m)
            }
            fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|w| v.same(w))) }
            fn random(g: &mut Gen) -> Self { let n = g.len(); g.nest(|g| (0..n).map(|_| (K::random(g), V::random(g))).collect()) }
            fn corners() -> Vec<Self> {
                let mut g = Gen::new(81);
                g.depth = 1;
                coll_lens().iter().map(|&n| (0..n).map(|_| (K::random(&mut g), V::random(&mut g))).collect()).collect()
            }
        }
    )*};
}
maplike! {
    [K: Spec + Ord + Clone, V: Spec + Clone] imbl::OrdMap<K, V>;
    [K: Spec + Eq + Hash + Clone, V: Spec + Clone] imbl::HashMap<K, V>;
}
// ---- library types ------------------------------------------------------
impl Spec for bytes::Bytes {
    fn enc(&self, o: &mut Vec<u8>) {
        lp(self, o)
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        Ok(bytes::Bytes::copy_from_slice(dec_bytes(c)?))
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn random(g: &mut Gen) -> Self {
        Vec::<u8>::random(g).into()
    }
    fn corners() -> Vec<Self> {
        [0usize, 1, 7, 250, 251, 255, 256, 4095, 4096, 4097, 9000, 65535, 65536].iter().map(|&n| (0..n).map(|i| i as u8).collect::<Vec<u8>>().into()).collect()
    }
}
macro_rules! raw16 {
    ($($t:ty, $to:expr, $from:expr);*) => {$(
        impl Spec for $t {
            fn enc(&self, o: &mut Vec<u8>) { let f: fn(&$t) -> [u8; 16] = $to; o.extend_from_slice(&f(self)) }
            fn dec(c: &mut Cur) -> Result<Self, Bad> { let f: fn([u8; 16]) -> $t = $from; Ok(f(c.take(16)?.try_into().unwrap())) }
            fn same(&self, o: &Self) -> bool { let f: fn(&$t) -> [u8; 16] = $to; f(self) == f(o) }
            fn random(g: &mut Gen) -> Self { let f: fn([u8; 16]) -> $t = $from; f((((g.u64() as u128) << 64) | g.u64() as u128).to_le_bytes()) }
            fn corners() -> Vec<Self> { let f: fn([u8; 16]) -> $t = $from; vec![f([0; 16]), f([0xff; 16]), f(std::array::from_fn(|i| i as u8 * 17)), f(std::array::from_fn(|i| (i == 15) as u8)), f(std::array::from_fn(|i| (i == 0) as u8))] }
        }
    )*};
}
raw16!(uuid::Uuid, |u| *u.as_bytes(), uuid::Uuid::from_bytes; rust_decimal::Decimal, |d| d.serialize(), dec_decimal);
fn dec_decimal(b: [u8; 16]) -> rust_decimal::Decimal {
    rust_decimal::Decimal::deserialize(b)
}
impl Spec for regex::Regex {
    fn enc(&self, o: &mut Vec<u8>) {
        lp(self.as_str().as_bytes(), o)
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        let s = std::str::from_utf8(dec_bytes(c)?).map_err(|_| Bad::Utf8)?;
        regex::Regex::new(s).map_err(|_| Bad::Other)
    }
    fn same(&self, o: &Self) -> bool {
        self.as_str() == o.as_str()
    }
    fn random(g: &mut Gen) -> Self {
        let n = g.below(8);
        let s: String = (0..n).map(|_| ["a", "b+", "[0-9]", ".", "x*", "(é|z)", "\\d{2}"][g.below(7)]).collect();
        regex::Regex::new(&s).unwrap()
    }
    fn corners() -> Vec<Self> {
        vec![regex::Regex::new("").unwrap(), regex::Regex::new("^a.*b$").unwrap(), regex::Regex::new(&"a".repeat(251)).unwrap()]
    }
}
macro_rules! notnan {
    ($($t:ty),*) => {$(
        impl Spec for ordered_float::NotNan<$t> {
            fn enc(&self, o: &mut Vec<u8>) { self.into_inner().enc(o) }
            fn dec(c: &mut Cur) -> Result<Self, Bad> { ordered_float::NotNan::new(<$t>::dec(c)?).map_err(|_| Bad::Other) }
            fn same(&self, o: &Self) -> bool { self.into_inner().same(&o.into_inner()) }
            fn random(g: &mut Gen) -> Self { loop { if let Ok(x) = ordered_float::NotNan::new(<$t>::random(g)) { return x } } }
            fn corners() -> Vec<Self> { <$t>::corners().into_iter().filter_map(|x| ordered_float::NotNan::new(x).ok()).collect() }
        }
    )*};
}
notnan!(f32, f64);
use chrono::{DateTime, Datelike, NaiveDate, NaiveTime, TimeZone, Timelike, Utc};
impl Spec for DateTime<Utc> {
    fn enc(&self, o: &mut Vec<u8>) {
        self.timestamp().enc(o);
        self.timestamp_subsec_nanos().enc(o)
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        let s = i64::dec(c)?;
        let n = u32::dec(c)?;
        Utc.timestamp_opt(s, n).single().ok_or(Bad::Other)
    }
    fn same(&self, o: &Self) -> bool {
        self == o && self.timestamp_subsec_nanos() == o.timestamp_subsec_nanos()
    }
    fn random(g: &mut Gen) -> Self {
        loop {
            if let Some(x) = Utc.timestamp_opt(g.mag() as i64 >> 20, (g.u64() % 1_000_000_000) as u32).single() {
                return x;
            }
        }
    }
    fn corners() -> Vec<Self> {
        vec![DateTime::<Utc>::MIN_UTC, DateTime::<Utc>::MAX_UTC, DateTime::UNIX_EPOCH, Utc.timestamp_opt(-1, 999_999_999).unwrap(), Utc.timestamp_opt(59, 1_999_999_999).unwrap(), Utc.timestamp_opt(-126, 251).unwrap()]
    }
}
impl Spec for NaiveDate {
    fn enc(&self, o: &mut Vec<u8>) {
        self.year().enc(o);
        self.month().enc(o);
        self.day().enc(o)
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        let (y, m, d) = (i32::dec(c)?, u32::dec(c)?, u32::dec(c)?);
        NaiveDate::from_ymd_opt(y, m, d).ok_or(Bad::Other)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn random(g: &mut Gen) -> Self {
        loop {
            if let Some(x) = NaiveDate::from_num_days_from_ce_opt(g.mag() as i32 >> 3) {
                return x;
            }
        }
    }
    fn corners() -> Vec<Self> {
        vec![NaiveDate::MIN, NaiveDate::MAX, NaiveDate::from_ymd_opt(2000, 2, 29).unwrap(), NaiveDate::from_ymd_opt(-1, 12, 31).unwrap(), NaiveDate::from_ymd_opt(1970, 1, 1).unwrap()]
    }
}
impl Spec for NaiveTime {
    fn enc(&self, o: &mut Vec<u8>) {
        self.hour().enc(o);
        self.minute().enc(o);
        self.second().enc(o);
        self.nanosecond().enc(o)
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        let (h, m, s, n) = (u32::dec(c)?, u32::dec(c)?, u32::dec(c)?, u32::dec(c)?);
        NaiveTime::from_hms_nano_opt(h, m, s, n).ok_or(Bad::Other)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn random(g: &mut Gen) -> Self {
        NaiveTime::from_num_seconds_from_midnight_opt(g.below(86400) as u32, (g.u64() % 1_000_000_000) as u32).unwrap()
    }
    fn corners() -> Vec<Self> {
        vec![NaiveTime::MIN, NaiveTime::from_hms_nano_opt(23, 59, 59, 999_999_999).unwrap(), NaiveTime::from_hms_nano_opt(23, 59, 59, 1_999_999_999).unwrap(), NaiveTime::from_hms_nano_opt(0, 1, 2, 251).unwrap()]
    }
}
impl Spec for chrono::Duration {
    fn enc(&self, o: &mut Vec<u8>) {
        // euclidean split: seconds rounded down, nanoseconds in 0..1e9
        let mut s = self.num_seconds();
        let mut n = self.subsec_nanos();
        if n < 0 {
            s -= 1;
            n += 1_000_000_000;
        }
        s.enc(o);
        n.enc(o)
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        let s = i64::dec(c)?;
        let n = i32::dec(c)?;
        let n = u32::try_from(n).map_err(|_| Bad::Other)?;
        chrono::Duration::new(s, n).ok_or(Bad::Other)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn random(g: &mut Gen) -> Self {
        loop {
            if let Some(x) = chrono::Duration::new((g.mag() as i64) >> 12, (g.u64() % 1_000_000_000) as u32) {
                return x;
            }
        }
    }
    fn corners() -> Vec<Self> {
        vec![chrono::Duration::zero(), chrono::Duration::MIN, chrono::Duration::MAX, chrono::Duration::nanoseconds(-1), chrono::Duration::nanoseconds(1), chrono::Duration::milliseconds(-1500), chrono::Duration::seconds(-126), chrono::Duration::new(-1, 999_999_999).unwrap()]
    }
}
use geo::{Coord, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon};
impl Spec for Coord {
    fn enc(&self, o: &mut Vec<u8>) {
        self.x.enc(o);
        self.y.enc(o)
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        Ok(Coord { x: f64::dec(c)?, y: f64::dec(c)? })
    }
    fn same(&self, o: &Self) -> bool {
        self.x.same(&o.x) && self.y.same(&o.y)
    }
    fn random(g: &mut Gen) -> Self {
        Coord { x: g.below(1000) as f64 / 4.0, y: -(g.below(77777) as f64) }
    }
    fn corners() -> Vec<Self> {
        vec![Coord { x: 0.0, y: -0.0 }, Coord { x: f64::INFINITY, y: f64::MIN_POSITIVE }, Coord { x: 1.0, y: 2.0 }]
    }
}
wrap! {
    [] Point, Coord, |x| &x.0, Point;
    [] LineString, Vec<Coord>, |x| &x.0, LineString;
    [] MultiPoint, Vec<Point>, |x| &x.0, MultiPoint;
    [] MultiLineString, Vec<LineString>, |x| &x.0, MultiLineString;
    [] MultiPolygon, Vec<Polygon>, |x| &x.0, MultiPolygon;
}
impl Spec for Polygon {
    fn enc(&self, o: &mut Vec<u8>) {
        self.exterior().enc(o);
        enc_len(o, self.interiors().len());
        for i in self.interiors() {
            i.enc(o)
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        let e = LineString::dec(c)?;
        let i = Vec::<LineString>::dec(c)?;
        Ok(Polygon::new(e, i))
    }
    fn same(&self, o: &Self) -> bool {
        self.bytes() == o.bytes()
    }
    fn random(g: &mut Gen) -> Self {
        let n = g.below(4);
        Polygon::new(LineString::random(g), (0..n).map(|_| LineString::random(g)).collect())
    }
    fn corners() -> Vec<Self> {
        vec![Polygon::new(LineString(vec![]), vec![])]
    }
}
impl Spec for roaring::RoaringBitmap {
    fn enc(&self, o: &mut Vec<u8>) {
        self.serialize_into(o).unwrap()
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        let mut r = &c.b[c.pos..];
        let n = r.len();
        let v = roaring::RoaringBitmap::deserialize_from(&mut r).map_err(|_| Bad::Other)?;
        c.pos += n - r.len();
        Ok(v)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn random(g: &mut Gen) -> Self {
        let n = g.below(50);
        (0..n).map(|_| g.mag() as u32).collect()
    }
    fn corners() -> Vec<Self> {
        vec![Default::default(), (0..5000u32).collect(), [u32::MAX].into_iter().collect()]
    }
}
impl Spec for roaring::RoaringTreemap {
    fn enc(&self, o: &mut Vec<u8>) {
        self.serialize_into(o).unwrap()
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        let mut r = &c.b[c.pos..];
        let n = r.len();
        let v = roaring::RoaringTreemap::deserialize_from(&mut r).map_err(|_| Bad::Other)?;
        c.pos += n - r.len();
        Ok(v)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn random(g: &mut Gen) -> Self {
        let n = g.below(50);
        (0..n).map(|_| g.mag() as u64).collect()
    }
    fn corners() -> Vec<Self> {
        vec![Default::default(), (0..5000u64).collect(), [u64::MAX, 1 << 40].into_iter().collect()]
    }
}
