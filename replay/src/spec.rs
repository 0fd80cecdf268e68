//! Reference model of the wire format, written from the documentation.
use crate::{FIXED, SPECV};
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::hash::{BuildHasher, Hash};
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Bad {
    Eof,
    Overflow,
    BadInt,
    BadBool(u8),
    BadChar,
    Utf8,
    Other,
    /// a claimed length the model refuses to follow (see DESIGN: trust model on lengths)
    Huge,
}
pub const HUGE: u64 = 1 << 13;
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, pos: 0 }
    }
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], Bad> {
        if self.b.len() - self.pos < n {
            return Err(Bad::Eof);
        }
        let r = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> Result<u8, Bad> {
        Ok(self.take(1)?[0])
    }
}
pub struct Gen {
    pub s: u64,
    pub depth: u32,
}
impl Gen {
    pub fn new(seed: u64) -> Self {
        Gen { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, depth: 0 }
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    /// magnitude-skewed 128 bit value
    pub fn mag(&mut self) -> u128 {
        let bits = self.below(129) as u32;
        let v = ((self.u64() as u128) << 64) | self.u64() as u128;
        if bits == 0 { 0 } else { v >> (128 - bits) }
    }
    pub fn len(&mut self) -> usize {
        let d = self.depth;
        match self.below(10) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 7 + self.below(3),
            4 if d == 0 => 15 + self.below(20),
            _ => self.below(6),
        }
    }
    pub fn nest<T>(&mut self, f: impl FnOnce(&mut Gen) -> T) -> T {
        self.depth += 1;
        let r = f(self);
        self.depth -= 1;
        r
    }
}

pub fn enc_uint(o: &mut Vec<u8>, v: u128, width: usize) {
    if FIXED {
        o.extend_from_slice(&v.to_le_bytes()[..width]);
    } else if v < 251 {
        o.push(v as u8);
    } else if v < 1 << 16 {
        o.push(251);
        o.extend_from_slice(&(v as u16).to_le_bytes());
    } else if v < 1 << 32 {
        o.push(252);
        o.extend_from_slice(&(v as u32).to_le_bytes());
    } else if v < 1 << 64 {
        o.push(253);
        o.extend_from_slice(&(v as u64).to_le_bytes());
    } else {
        o.push(254);
        o.extend_from_slice(&v.to_le_bytes());
    }
}
fn le(b: &[u8]) -> u128 {
    let mut r = 0u128;
    for (i, &x) in b.iter().enumerate() {
        r |= (x as u128) << (8 * i);
    }
    r
}
/// `signed`: the range check of 16/32 bit signed integers is applied by the caller on the un-zigzagged value.
pub fn dec_uint(c: &mut Cur, width: usize, signed: bool) -> Result<u128, Bad> {
    if FIXED {
        return Ok(le(c.take(width)?));
    }
    let t = c.u8()?;
    let v = match t {
        251 => le(c.take(2)?),
        252 => le(c.take(4)?),
        253 => le(c.take(8)?),
        254 if width == 16 => le(c.take(16)?),
        254 => return Err(Bad::Overflow),
        255 => return Err(Bad::BadInt),
        x => x as u128,
    };
    if !signed && width < 16 && v >= 1u128 << (8 * width) {
        return Err(Bad::Overflow);
    }
    Ok(v)
}
pub fn zig(v: i128) -> u128 {
    if v >= 0 { (v as u128) << 1 } else { ((!(v as u128)) << 1) | 1 }
}
pub fn unzig(v: u128) -> i128 {
    if v & 1 == 0 { (v >> 1) as i128 } else { !((v >> 1) as i128) }
}
pub fn enc_len(o: &mut Vec<u8>, n: usize) {
    enc_uint(o, n as u128, 8)
}
pub fn dec_len(c: &mut Cur) -> Result<usize, Bad> {
    let n = dec_uint(c, 8, false)?;
    let n = n as u64;
    // A length that the remaining input obviously supports is always followed.
    if n > HUGE && n as u128 > (c.b.len() - c.pos) as u128 * 8 + 8 {
        return Err(Bad::Huge);
    }
    Ok(n as usize)
}

pub trait Spec: Sized + 'static {
    fn enc(&self, o: &mut Vec<u8>);
    fn dec(c: &mut Cur) -> Result<Self, Bad>;
    fn same(&self, o: &Self) -> bool;
    fn random(g: &mut Gen) -> Self;
    fn corners() -> Vec<Self> {
        vec![]
    }
    fn enc_vec(v: &[Self], o: &mut Vec<u8>) {
        enc_len(o, v.len());
        for x in v {
            x.enc(o)
        }
    }
    fn dec_vec(c: &mut Cur) -> Result<Vec<Self>, Bad> {
        let n = dec_len(c)?;
        (0..n).map(|_| Self::dec(c)).collect()
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        self.enc(&mut o);
        o
    }
}

macro_rules! uint {
    ($($t:ty, $w:expr, $bulk:expr);*) => {$(
        impl Spec for $t {
            fn enc(&self, o: &mut Vec<u8>) { enc_uint(o, *self as u128, $w) }
            fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(dec_uint(c, $w, false)? as $t) }
            fn same(&self, o: &Self) -> bool { self == o }
            fn random(g: &mut Gen) -> Self { g.mag() as $t }
            fn corners() -> Vec<Self> {
                let mut r = vec![0 as $t, 1, 2];
                for v in [127u128, 128, 249, 250, 251, 252, 253, 254, 255, 256, 257, 0x1234, (1<<15)-1, 1<<15, 65534, 65535, 65536, 65537, 0x12345678,
                    (1<<31)-1, 1<<31, u32::MAX as u128 - 1, u32::MAX as u128, 1u128<<32, (1u128<<32)+1, 0x123456789abcdef0, i64::MAX as u128, (1u128<<63), u64::MAX as u128 - 1, u64::MAX as u128,
                    1u128<<64, (1u128<<64)+1, 0x123456789abcdef01122334455667788, i128::MAX as u128, 1u128<<127, u128::MAX - 1, u128::MAX] {
                    if v <= <$t>::MAX as u128 { r.push(v as $t) }
                }
                r
            }
            fn enc_vec(v: &[Self], o: &mut Vec<u8>) {
                enc_len(o, v.len());
                for x in v { if SPECV && $bulk { o.extend_from_slice(&x.to_le_bytes()) } else { x.enc(o) } }
            }
            fn dec_vec(c: &mut Cur) -> Result<Vec<Self>, Bad> {
                let n = dec_len(c)?;
                (0..n).map(|_| if SPECV && $bulk { Ok(le(c.take($w)?) as $t) } else { Self::dec(c) }).collect()
            }
        }
    )*};
}
uint!(u16, 2, true; u32, 4, true; u64, 8, true; u128, 16, true; usize, 8, false);
macro_rules! sint {
    ($($t:ty, $w:expr, $bulk:expr);*) => {$(
        impl Spec for $t {
            fn enc(&self, o: &mut Vec<u8>) { enc_uint(o, zig(*self as i128), $w) }
            fn dec(c: &mut Cur) -> Result<Self, Bad> {
                let v = unzig(dec_uint(c, $w, true)?);
                <$t>::try_from(v).map_err(|_| Bad::Overflow)
            }
            fn same(&self, o: &Self) -> bool { self == o }
            fn random(g: &mut Gen) -> Self { g.mag() as $t }
            fn corners() -> Vec<Self> {
                let mut r = vec![0 as $t, 1, -1, 2, -2];
                for v in [63i128, 64, 65, 124, 125, 126, 127, 128, 129, 255, 256, 0x1234, (1<<14)-1, 1<<14, (1<<15)-1, 1<<15, 65535, 65536, 0x12345678, (1<<30)-1, 1<<30, (1<<31)-1,
                    1<<31, (1<<31)+1, u32::MAX as i128, 1i128<<32, 0x123456789abcdef0, (1i128<<62), (1i128<<63)-1, 1i128<<63, 1i128<<64, (1i128<<64)+1, 0x123456789abcdef01122334455667788, i128::MAX-1, i128::MAX, i128::MIN] {
                    for w in [v, v.wrapping_neg(), v.wrapping_neg().wrapping_sub(1)] {
                        r.extend(<$t>::try_from(w).ok());
                    }
                }
                r
            }
            fn enc_vec(v: &[Self], o: &mut Vec<u8>) {
                enc_len(o, v.len());
                for x in v { if SPECV && $bulk { o.extend_from_slice(&x.to_le_bytes()) } else { x.enc(o) } }
            }
            fn dec_vec(c: &mut Cur) -> Result<Vec<Self>, Bad> {
                let n = dec_len(c)?;
                (0..n).map(|_| if SPECV && $bulk { Ok(le(c.take($w)?) as $t) } else { Self::dec(c) }).collect()
            }
        }
    )*};
}
sint!(i16, 2, true; i32, 4, true; i64, 8, true; i128, 16, true; isize, 8, false);
macro_rules! byte {
    ($($t:ty),*) => {$(
        impl Spec for $t {
            fn enc(&self, o: &mut Vec<u8>) { o.push(*self as u8) }
            fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(c.u8()? as $t) }
            fn same(&self, o: &Self) -> bool { self == o }
            fn random(g: &mut Gen) -> Self { g.u64() as $t }
            fn corners() -> Vec<Self> { (0..=255u8).map(|x| x as $t).collect() }
        }
    )*};
}
byte!(u8, i8);
impl Spec for bool {
    fn enc(&self, o: &mut Vec<u8>) {
        o.push(*self as u8)
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        match c.u8()? {
            0 => Ok(false),
            1 => Ok(true),
            x => Err(Bad::BadBool(x)),
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn random(g: &mut Gen) -> Self {
        g.u64() & 1 == 1
    }
    fn corners() -> Vec<Self> {
        vec![false, true]
    }
    fn enc_vec(v: &[Self], o: &mut Vec<u8>) {
        enc_len(o, v.len());
        if SPECV {
            let mut buf = vec![0u8; (v.len() + 7) / 8];
            for (i, b) in v.iter().enumerate() {
                if *b {
                    buf[i / 8] |= 1 << (i % 8)
                }
            }
            o.extend(buf);
        } else {
            for x in v {
                x.enc(o)
            }
        }
    }
    fn dec_vec(c: &mut Cur) -> Result<Vec<Self>, Bad> {
        let n = dec_len(c)?;
        if SPECV {
            let b = c.take(n.div_ceil(8))?;
            Ok((0..n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect())
        } else {
            (0..n).map(|_| Self::dec(c)).collect()
        }
    }
}
macro_rules! flt {
    ($($t:ty, $b:ty, $w:expr);*) => {$(
        impl Spec for $t {
            fn enc(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_bits().to_le_bytes()) }
            fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(<$t>::from_bits(le(c.take($w)?) as $b)) }
            fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() }
            fn random(g: &mut Gen) -> Self { if g.below(3) == 0 { g.below(1000) as $t / 8.0 } else { <$t>::from_bits(g.u64() as $b) } }
            fn corners() -> Vec<Self> {
                vec![0.0, -0.0, 1.0, -1.5, <$t>::MIN, <$t>::MAX, <$t>::EPSILON, <$t>::MIN_POSITIVE, <$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::NAN,
                    <$t>::from_bits(1), <$t>::from_bits(!0), <$t>::from_bits(<$b>::MAX >> 1), <$t>::from_bits(<$t>::INFINITY.to_bits() | 1), <$t>::from_bits(0x1234)]
            }
        }
    )*};
}
flt!(f32, u32, 4; f64, u64, 8);
impl Spec for char {
    fn enc(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(self.to_string().as_bytes())
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        let b = c.u8()?;
        let n = match b {
            0..=0x7f => 0,
            0xc0..=0xdf => 1,
            0xe0..=0xef => 2,
            0xf0..=0xf7 => 3,
            _ => return Err(Bad::BadChar),
        };
        let rest = c.take(n)?;
        let mut v = match n {
            0 => b as u32,
            1 => (b & 0x1f) as u32,
            2 => (b & 0x0f) as u32,
            _ => (b & 0x07) as u32,
        };
        for r in rest {
            if r & 0xc0 != 0x80 {
                return Err(Bad::BadChar);
            }
            v = v << 6 | (r & 0x3f) as u32;
        }
        let min = [0, 0x80, 0x800, 0x10000][n];
        if v < min {
            return Err(Bad::BadChar);
        }
        char::from_u32(v).ok_or(Bad::BadChar)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn random(g: &mut Gen) -> Self {
        loop {
            let b = [7, 11, 16, 21][g.below(4)];
            if let Some(c) = char::from_u32((g.u64() as u32) & ((1 << b) - 1)) {
                return c;
            }
        }
    }
    fn corners() -> Vec<Self> {
        [0u32, 0x20, 0x41, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0x7ff, 0x800, 0xfff, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10001, 0x1f600, 0xfffff, 0x10ffff].iter().map(|&x| char::from_u32(x).unwrap()).collect()
    }
}
fn lp(b: &[u8], o: &mut Vec<u8>) {
    enc_len(o, b.len());
    o.extend_from_slice(b)
}
fn dec_bytes<'a>(c: &mut Cur<'a>) -> Result<&'a [u8], Bad> {
    let n = dec_len(c)?;
    c.take(n)
}
fn strings() -> Vec<String> {
    let mut r: Vec<String> = ["", "a", "ab", "hello", "\u{0}", "é", "日本語", "🦀", "tail\u{10ffff}"].iter().map(|s| s.to_string()).collect();
    for n in [7usize, 8, 249, 250, 251, 252, 253, 254, 255, 256] {
        r.push("x".repeat(n));
    }
    r
}
fn long_strings() -> Vec<String> {
    [4095usize, 4096, 4097, 8192, 8193, 12289, 65535, 65536].iter().map(|&n| "abcdefghij".repeat(n / 10 + 1)[..n].to_string()).collect()
}
fn rstr(g: &mut Gen) -> String {
    let n = g.len();
    (0..n).map(|_| char::random(g)).collect()
}
macro_rules! stringy {
    ($($t:ty, $as:expr, $from:expr);*) => {$(
        impl Spec for $t {
            fn enc(&self, o: &mut Vec<u8>) { let f: fn(&$t) -> String = $as; lp(f(self).as_bytes(), o) }
            fn dec(c: &mut Cur) -> Result<Self, Bad> {
                let b = dec_bytes(c)?;
                let s = std::str::from_utf8(b).map_err(|_| Bad::Utf8)?;
                let f: fn(String) -> $t = $from;
                Ok(f(s.to_string()))
            }
            fn same(&self, o: &Self) -> bool { let f: fn(&$t) -> String = $as; f(self) == f(o) }
            fn random(g: &mut Gen) -> Self { let f: fn(String) -> $t = $from; f(rstr(g)) }
            fn corners() -> Vec<Self> { let mut v = strings(); v.extend(long_strings()); v.into_iter().map($from).collect() }
        }
    )*};
}
stringy!(String, |s| s.clone(), |s| s;
    Box<str>, |s| s.to_string(), |s| s.into_boxed_str();
    Arc<str>, |s| s.to_string(), |s| Arc::from(s.as_str());
    Cow<'static, str>, |s| s.to_string(), |s| Cow::Owned(s);
    PathBuf, |s| s.to_str().unwrap().to_string(), |s| PathBuf::from(s));

impl<T: Spec> Spec for Vec<T> {
    fn enc(&self, o: &mut Vec<u8>) {
        T::enc_vec(self, o)
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        T::dec_vec(c)
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
    fn random(g: &mut Gen) -> Self {
        let n = g.len();
        g.nest(|g| (0..n).map(|_| T::random(g)).collect())
    }
    fn corners() -> Vec<Self> {
        let mut g = Gen::new(77);
        let mut r = vec![vec![]];
        g.depth = 1;
        let c = || T::corners().into_iter().filter(|x| x.bytes().len() < 300);
        r.extend(c().take(40).map(|x| vec![x]));
        r.push(c().take(300).collect());
        for n in [2usize, 3, 7, 8, 9, 15, 16, 17, 63, 64, 65, 250, 251, 256] {
            let mut v: Vec<T> = vec![];
            for _ in 0..n {
                v.push(T::random(&mut g));
            }
            r.push(v)
        }
        r
    }
}
impl<T: Spec> Spec for Option<T> {
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            None => o.push(0),
            Some(x) => {
                o.push(1);
                x.enc(o)
            }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        match c.u8()? {
            0 => Ok(None),
            1 => Ok(Some(T::dec(c)?)),
            _ => Err(Bad::Other),
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
    fn random(g: &mut Gen) -> Self {
        if g.below(4) == 0 { None } else { Some(T::random(g)) }
    }
    fn corners() -> Vec<Self> {
        let mut r = vec![None];
        r.extend(T::corners().into_iter().take(30).map(Some));
        r
    }
}
/// `Result` and `Bound` report payload errors as text
fn wrapped(b: Bad) -> Bad {
    if b == Bad::Huge { b } else { Bad::Other }
}
impl<T: Spec, E: Spec> Spec for Result<T, E> {
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            Ok(x) => {
                enc_uint(o, 0, 4);
                x.enc(o)
            }
            Err(x) => {
                enc_uint(o, 1, 4);
                x.enc(o)
            }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        match dec_uint(c, 4, false)? {
            0 => Ok(Ok(T::dec(c).map_err(wrapped)?)),
            1 => Ok(Err(E::dec(c).map_err(wrapped)?)),
            _ => Err(Bad::Other),
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(a), Err(b)) => a.same(b),
            _ => false,
        }
    }
    fn random(g: &mut Gen) -> Self {
        if g.below(2) == 0 { Ok(T::random(g)) } else { Err(E::random(g)) }
    }
    fn corners() -> Vec<Self> {
        T::corners().into_iter().take(20).map(Ok).chain(E::corners().into_iter().take(20).map(Err)).collect()
    }
}
impl<T: Spec> Spec for Bound<T> {
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            Bound::Unbounded => enc_uint(o, 0, 4),
            Bound::Included(x) => {
                enc_uint(o, 1, 4);
                x.enc(o)
            }
            Bound::Excluded(x) => {
                enc_uint(o, 2, 4);
                x.enc(o)
            }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        match dec_uint(c, 4, false)? {
            0 => Ok(Bound::Unbounded),
            1 => Ok(Bound::Included(T::dec(c).map_err(wrapped)?)),
            2 => Ok(Bound::Excluded(T::dec(c).map_err(wrapped)?)),
            _ => Err(Bad::Other),
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Bound::Unbounded, Bound::Unbounded) => true,
            (Bound::Included(a), Bound::Included(b)) => a.same(b),
            (Bound::Excluded(a), Bound::Excluded(b)) => a.same(b),
            _ => false,
        }
    }
    fn random(g: &mut Gen) -> Self {
        match g.below(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(T::random(g)),
            _ => Bound::Excluded(T::random(g)),
        }
    }
    fn corners() -> Vec<Self> {
        let mut r = vec![Bound::Unbounded];
        for x in T::corners().into_iter().take(20) {
            r.push(Bound::Included(x))
        }
        for x in T::corners().into_iter().take(20) {
            r.push(Bound::Excluded(x))
        }
        r
    }
}
#[macro_export]
macro_rules! wrap {
    ($([$($g:tt)*] $t:ty, $inner:ty, $get:expr, $mk:expr);* $(;)?) => {$(
        impl<$($g)*> Spec for $t {
            fn enc(&self, o: &mut Vec<u8>) { let f: fn(&$t) -> &$inner = $get; f(self).enc(o) }
            fn dec(c: &mut Cur) -> Result<Self, Bad> { let f: fn($inner) -> $t = $mk; Ok(f(<$inner>::dec(c)?)) }
            fn same(&self, o: &Self) -> bool { let f: fn(&$t) -> &$inner = $get; f(self).same(f(o)) }
            fn random(g: &mut Gen) -> Self { let f: fn($inner) -> $t = $mk; f(<$inner>::random(g)) }
            fn corners() -> Vec<Self> { let f: fn($inner) -> $t = $mk; <$inner>::corners().into_iter().map(f).collect() }
        }
    )*};
}
wrap! {
    [T: Spec] Box<T>, T, |x| &**x, Box::new;
    [T: Spec] Arc<T>, T, |x| &**x, Arc::new;
    [T: Spec] Wrapping<T>, T, |x| &x.0, Wrapping;
    [T: Spec] Reverse<T>, T, |x| &x.0, Reverse;
}
impl<T: Spec + Clone> Spec for Cow<'static, T> {
    fn enc(&self, o: &mut Vec<u8>) {
        (**self).enc(o)
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        Ok(Cow::Owned(T::dec(c)?))
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(&**o)
    }
    fn random(g: &mut Gen) -> Self {
        if g.below(2) == 0 { Cow::Owned(T::random(g)) } else { Cow::Borrowed(Box::leak(Box::new(T::random(g)))) }
    }
}
impl<T: Spec> Spec for Range<T> {
    fn enc(&self, o: &mut Vec<u8>) {
        self.start.enc(o);
        self.end.enc(o)
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        Ok(T::dec(c)?..T::dec(c)?)
    }
    fn same(&self, o: &Self) -> bool {
        self.start.same(&o.start) && self.end.same(&o.end)
    }
    fn random(g: &mut Gen) -> Self {
        T::random(g)..T::random(g)
    }
}
macro_rules! tup {
    ($($n:ident $i:tt),*) => {
        impl<$($n: Spec),*> Spec for ($($n,)*) {
            fn enc(&self, o: &mut Vec<u8>) { $(self.$i.enc(o);)* }
            fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(($($n::dec(c)?,)*)) }
            fn same(&self, o: &Self) -> bool { $(self.$i.same(&o.$i) &&)* true }
            fn random(g: &mut Gen) -> Self { ($($n::random(g),)*) }
        }
    };
}
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);
impl<T: Spec, const N: usize> Spec for [T; N] {
    fn enc(&self, o: &mut Vec<u8>) {
        for x in self {
            x.enc(o)
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        let v: Vec<T> = (0..N).map(|_| T::dec(c)).collect::<Result<_, _>>()?;
        Ok(v.try_into().ok().unwrap())
    }
    fn same(&self, o: &Self) -> bool {
        self.iter().zip(o).all(|(a, b)| a.same(b))
    }
    fn random(g: &mut Gen) -> Self {
        std::array::from_fn(|_| T::random(g))
    }
}
fn coll_lens() -> [usize; 9] {
    [0, 1, 2, 7, 8, 9, 40, 251, 300]
}
impl<K: Spec + Eq + Hash, V: Spec, S: BuildHasher + Default + 'static> Spec for HashMap<K, V, S> {
    fn enc(&self, o: &mut Vec<u8>) {
        enc_len(o, self.len());
        for (k, v) in self.iter() {
            k.enc(o);
            v.enc(o)
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        let n = dec_len(c)?;
        let mut m = HashMap::default();
        for _ in 0..n {
            let k = K::dec(c)?;
            let v = V::dec(c)?;
            m.insert(k, v);
        }
        Ok(m)
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|w| v.same(w)))
    }
    fn random(g: &mut Gen) -> Self {
        let n = g.len();
        g.nest(|g| (0..n).map(|_| (K::random(g), V::random(g))).collect())
    }
    fn corners() -> Vec<Self> {
        let mut g = Gen::new(78);
        g.depth = 1;
        coll_lens().iter().map(|&n| (0..n).map(|_| (K::random(&mut g), V::random(&mut g))).collect()).collect()
    }
}
impl<K: Spec + Ord, V: Spec> Spec for BTreeMap<K, V> {
    fn enc(&self, o: &mut Vec<u8>) {
        enc_len(o, self.len());
        for (k, v) in self.iter() {
            k.enc(o);
            v.enc(o)
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        let n = dec_len(c)?;
        let mut m = BTreeMap::new();
        for _ in 0..n {
            let k = K::dec(c)?;
            let v = V::dec(c)?;
            m.insert(k, v);
        }
        Ok(m)
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|((a, b), (c, d))| a.same(c) && b.same(d))
    }
    fn random(g: &mut Gen) -> Self {
        let n = g.len();
        g.nest(|g| (0..n).map(|_| (K::random(g), V::random(g))).collect())
    }
    fn corners() -> Vec<Self> {
        let mut g = Gen::new(79);
        g.depth = 1;
        coll_lens().iter().map(|&n| (0..n).map(|_| (K::random(&mut g), V::random(&mut g))).collect()).collect()
    }
}
#[macro_export]
macro_rules! seqlike {
    ($([$($g:tt)*] $t:ty, $e:ident, $same:expr);* $(;)?) => {$(
        impl<$($g)*> Spec for $t {
            fn enc(&self, o: &mut Vec<u8>) {
                enc_len(o, self.len());
                for x in self.iter() { x.enc(o) }
            }
            fn dec(c: &mut Cur) -> Result<Self, Bad> {
                let n = dec_len(c)?;
                (0..n).map(|_| $e::dec(c)).collect()
            }
            fn same(&self, o: &Self) -> bool { let f: fn(&$t, &$t) -> bool = $same; f(self, o) }
            fn random(g: &mut Gen) -> Self { let n = g.len(); g.nest(|g| (0..n).map(|_| $e::random(g)).collect()) }
            fn corners() -> Vec<Self> {
                let mut g = Gen::new(80);
                g.depth = 1;
                coll_lens().iter().map(|&n| (0..n).map(|_| $e::random(&mut g)).collect()).collect()
            }
        }
    )*};
}
seqlike! {
    [T: Spec + Eq + Hash, S: BuildHasher + Default + 'static] HashSet<T, S>, T, |a, b| a == b;
    [T: Spec + Ord] BTreeSet<T>, T, |a, b| a == b;
    [T: Spec + Ord + Clone] BinaryHeap<T>, T, |a, b| a.clone().into_sorted_vec() == b.clone().into_sorted_vec();
}
fn dur(secs: u64, nanos: u32) -> Option<Duration> {
    let secs = secs.checked_add((nanos / 1_000_000_000) as u64)?;
    Some(Duration::new(secs, nanos % 1_000_000_000))
}
impl Spec for Duration {
    fn enc(&self, o: &mut Vec<u8>) {
        self.as_secs().enc(o);
        self.subsec_nanos().enc(o)
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        let s = u64::dec(c)?;
        let n = u32::dec(c)?;
        dur(s, n).ok_or(Bad::Other)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn random(g: &mut Gen) -> Self {
        Duration::new(g.mag() as u64, (g.u64() % 1_000_000_000) as u32)
    }
    fn corners() -> Vec<Self> {
        vec![Duration::ZERO, Duration::MAX, Duration::new(1, 0), Duration::new(0, 1), Duration::new(0, 999_999_999), Duration::new(250, 250), Duration::new(251, 65536), Duration::new(u64::MAX, 0), Duration::new(u32::MAX as u64 + 1, 251)]
    }
}
impl Spec for SystemTime {
    fn enc(&self, o: &mut Vec<u8>) {
        self.duration_since(UNIX_EPOCH).unwrap().enc(o)
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> {
        UNIX_EPOCH.checked_add(Duration::dec(c)?).ok_or(Bad::Other)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn random(g: &mut Gen) -> Self {
        UNIX_EPOCH + Duration::new(g.mag() as u64 >> 1, (g.u64() % 1_000_000_000) as u32)
    }
    fn corners() -> Vec<Self> {
        vec![UNIX_EPOCH, UNIX_EPOCH + Duration::new(0, 999_999_999), UNIX_EPOCH + Duration::new(i64::MAX as u64, 999_999_999), UNIX_EPOCH + Duration::new(251, 251)]
    }
}
#[cfg(feature = "libs")]
pub mod libs;
