//!! drop use revision_derive::revisioned;
//!! crate
::vstd::prelude::verus! {
global size_of usize == 8;

pub mod __vx {
use vstd::prelude::*;
use std::io;
use super::__vxmode::*;
use super::__vxidx::{bytes_lt, bytes_ord};

// ---------------------------------------------------------------------------------
// std::io, abstractly. `rem` is the byte stream still to be read, `written` what has been
// written; `reliable` sources/sinks never fail except at end of input. Nothing is assumed
// about how an implementation chunks its transfers.
// ---------------------------------------------------------------------------------
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(io::Error);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ReadSpec via ReadSpecImpl)]
pub trait ExRead {
    type ExternalTraitSpecificationFor: io::Read;
    spec fn rem(&self) -> Seq<u8>;
    spec fn reliable(&self) -> bool;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, io::Error>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> r->Ok_0 <= old(buf)@.len() && r->Ok_0 <= (*old(self)).rem().len()
                && final(buf)@.take(r->Ok_0 as int) =~= (*old(self)).rem().take(r->Ok_0 as int)
                && (*final(self)).rem() =~= (*old(self)).rem().skip(r->Ok_0 as int),
            (*old(self)).reliable() ==> (*final(self)).reliable() && r is Ok
                && (r->Ok_0 == 0 ==> old(buf)@.len() == 0 || (*old(self)).rem().len() == 0);
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), io::Error>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> (*old(self)).rem().len() >= old(buf)@.len()
                && final(buf)@ == (*old(self)).rem().take(old(buf)@.len() as int)
                && (*final(self)).rem() == (*old(self)).rem().skip(old(buf)@.len() as int),
            (*old(self)).reliable() ==> (*final(self)).reliable()
                && (r is Ok <==> (*old(self)).rem().len() >= old(buf)@.len());
}

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(WriteSpec via WriteSpecImpl)]
pub trait ExWrite {
    type ExternalTraitSpecificationFor: io::Write;
    spec fn written(&self) -> Seq<u8>;
    spec fn wreliable(&self) -> bool;
    // a single write may transfer any prefix
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, io::Error>)
        ensures
            r is Ok ==> r->Ok_0 <= buf@.len()
                && (*final(self)).written() == (*old(self)).written() + buf@.take(r->Ok_0 as int);
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), io::Error>)
        ensures
            r is Ok ==> (*final(self)).written() == (*old(self)).written() + buf@,
            (*old(self)).wreliable() ==> (*final(self)).wreliable() && r is Ok;
}

// std: writing to a Vec appends
impl<A: core::alloc::Allocator> WriteSpecImpl for Vec<u8, A> {
    open spec fn written(&self) -> Seq<u8> { self@ }
    open spec fn wreliable(&self) -> bool { true }
}
/// v[a..b].copy_from_slice(y)
pub fn vx_put(v: &mut Vec<u8>, a: usize, b: usize, y: &[u8])
    requires a <= b <= old(v)@.len(), b - a == y@.len()
    ensures final(v)@ == put(old(v)@, a as int, y@)
{ let ghost o = v@; let s = v.as_mut_slice(); s[a..b].copy_from_slice(y); assert(s@ =~= put(o, a as int, y@)); }
/// y is x sorted (opaque here; slice_sort_bytes says what it means for byte strings)
pub uninterp spec fn sort_of<T>(x: Seq<T>, y: Seq<T>) -> bool;
// std: sorting (the deciding facts are in slice_sort_bytes)
#[verifier::external_body]
pub fn vx_sort<T: Ord>(v: &mut Vec<T>)
    ensures sort_of(old(v)@, final(v)@), final(v)@.len() == old(v)@.len()
{ v.sort() }
/// the comparator f orders by the byte string k
pub open spec fn by_key<T, F: FnMut(&T, &T) -> core::cmp::Ordering>(f: F, k: spec_fn(T) -> Seq<u8>) -> bool {
    (forall|a: &T, b: &T| #[trigger] f.requires((a, b))) && (forall|a: &T, b: &T, o: core::cmp::Ordering| #[trigger] f.ensures((a, b), o) ==> o == bytes_ord(k(*a), k(*b)))
}
// std: sorting with a comparator that is the order of some byte string permutes the elements into ascending order
#[verifier::external_body]
pub fn vx_sort_by<T, F: FnMut(&T, &T) -> core::cmp::Ordering>(v: &mut Vec<T>, f: F, Ghost(k): Ghost<spec_fn(T) -> Seq<u8>>)
    requires by_key(f, k)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> !bytes_lt(k(#[trigger] final(v)@[j]), k(#[trigger] final(v)@[i]))
{ v.sort_by(f) }
// std: unzipping a vector of pairs
#[verifier::external_body]
pub fn vx_unzip<A, B>(v: Vec<(A, B)>) -> (r: (Vec<A>, Vec<B>))
    ensures r.0@.len() == v@.len(), r.1@.len() == v@.len(), forall|i: int| #![trigger r.0@[i]] #![trigger r.1@[i]] 0 <= i < v@.len() ==> v@[i] == (r.0@[i], r.1@[i])
{ v.into_iter().unzip() }
/// s with y written over it at a
pub open spec fn put(s: Seq<u8>, a: int, y: Seq<u8>) -> Seq<u8> { s.take(a) + y + s.skip(a + y.len()) }
pub broadcast proof fn put_app(s: Seq<u8>, t: Seq<u8>, a: int, y: Seq<u8>)
    requires 0 <= a, a + y.len() <= s.len()
    ensures #[trigger] put(s + t, a, y) == put(s, a, y) + t
{ assert(put(s + t, a, y) =~= put(s, a, y) + t); }
pub broadcast proof fn put_len(s: Seq<u8>, a: int, y: Seq<u8>)
    requires 0 <= a, a + y.len() <= s.len()
    ensures (#[trigger] put(s, a, y)).len() == s.len()
{}
pub broadcast proof fn put1(z: Seq<u8>, y0: Seq<u8>)
    requires z.len() == y0.len()
    ensures #[trigger] put(z, 0, y0) == y0
{ assert(put(z, 0, y0) =~= y0); }
pub broadcast proof fn put2(z: Seq<u8>, y0: Seq<u8>, y1: Seq<u8>)
    requires z.len() == 8, y0.len() == 4, y1.len() == 4
    ensures #[trigger] put(put(z, 0, y0), 4, y1) == y0 + y1
{ assert(put(put(z, 0, y0), 4, y1) =~= y0 + y1); }
pub broadcast proof fn put3(z: Seq<u8>, y0: Seq<u8>, y1: Seq<u8>, y2: Seq<u8>)
    requires z.len() == 12, y0.len() == 4, y1.len() == 4, y2.len() == 4
    ensures #[trigger] put(put(put(z, 0, y0), 4, y1), 8, y2) == y0 + (y1 + y2)
{ assert(put(put(put(z, 0, y0), 4, y1), 8, y2) =~= y0 + (y1 + y2)); }

#[verifier::external_body]
pub const fn reached_panic() -> ! requires false { panic!() }
#[verifier::external_body]
pub fn fmt_string() -> String { String::new() }
#[verifier::external_body]
pub fn io_error() -> io::Error { io::Error::other("") }

// std functions assumed
// byte conversions of the standard library: calls x.to_le_bytes() / T::from_le_bytes(b) are
// routed here by the extractor (the std signatures use constants Verus cannot name)
pub uninterp spec fn f32_bits(x: f32) -> nat;
pub uninterp spec fn f64_bits(x: f64) -> nat;
pub trait VxLe<const N: usize>: Sized {
    spec fn vx_nat(self) -> nat;
    fn vx_to_le_bytes(self) -> (r: [u8; N]) ensures r@ == le_bytes(self.vx_nat(), N as nat), self.vx_nat() < p256(N as nat);
    fn vx_from_le_bytes(b: [u8; N]) -> (r: Self) ensures r.vx_nat() == le_val(b@);
}
impl VxLe<2> for u16 {
    open spec fn vx_nat(self) -> nat { self as nat }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> [u8; 2] { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 2]) -> Self { u16::from_le_bytes(b) }
}
impl VxLe<4> for u32 {
    open spec fn vx_nat(self) -> nat { self as nat }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> [u8; 4] { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 4]) -> Self { u32::from_le_bytes(b) }
}
impl VxLe<8> for u64 {
    open spec fn vx_nat(self) -> nat { self as nat }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> [u8; 8] { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 8]) -> Self { u64::from_le_bytes(b) }
}
impl VxLe<16> for u128 {
    open spec fn vx_nat(self) -> nat { self as nat }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> [u8; 16] { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 16]) -> Self { u128::from_le_bytes(b) }
}
impl VxLe<2> for i16 {
    open spec fn vx_nat(self) -> nat { twos(self as int, 2) }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> [u8; 2] { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 2]) -> Self { i16::from_le_bytes(b) }
}
impl VxLe<4> for i32 {
    open spec fn vx_nat(self) -> nat { twos(self as int, 4) }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> [u8; 4] { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 4]) -> Self { i32::from_le_bytes(b) }
}
impl VxLe<8> for i64 {
    open spec fn vx_nat(self) -> nat { twos(self as int, 8) }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> [u8; 8] { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 8]) -> Self { i64::from_le_bytes(b) }
}
impl VxLe<16> for i128 {
    open spec fn vx_nat(self) -> nat { twos(self as int, 16) }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> [u8; 16] { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 16]) -> Self { i128::from_le_bytes(b) }
}
impl VxLe<4> for f32 {
    open spec fn vx_nat(self) -> nat { f32_bits(self) }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> [u8; 4] { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 4]) -> Self { f32::from_le_bytes(b) }
}
impl VxLe<8> for f64 {
    open spec fn vx_nat(self) -> nat { f64_bits(self) }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> [u8; 8] { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 8]) -> Self { f64::from_le_bytes(b) }
}
pub open spec fn twos(x: int, w: nat) -> nat { if x >= 0 { x as nat } else { (x + p256(w)) as nat } }
pub open spec fn untwos(n: nat, w: nat) -> int { if 2 * n < p256(w) { n as int } else { n as int - p256(w) } }

// ---------------------------------------------------------------------------------
// byte-level arithmetic
// ---------------------------------------------------------------------------------
pub open spec fn p256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * p256((n - 1) as nat) } }

pub closed spec fn le_bytes(x: nat, n: nat) -> Seq<u8> decreases n {
    if n == 0 { Seq::empty() } else { seq![(x % 256) as u8] + le_bytes(x / 256, (n - 1) as nat) }
}
pub closed spec fn le_val(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { s[0] as nat + 256 * le_val(s.skip(1)) }
}
pub broadcast proof fn le_bytes_len(x: nat, n: nat)
    ensures #[trigger] le_bytes(x, n).len() == n
    decreases n
{ if n > 0 { le_bytes_len(x / 256, (n - 1) as nat); } }
pub broadcast proof fn le_val_bound(s: Seq<u8>)
    ensures #[trigger] le_val(s) < p256(s.len())
    decreases s.len()
{
    reveal(le_val);
    if s.len() > 0 {
        le_val_bound(s.skip(1));
        assert(p256(s.len()) == 256 * p256((s.len() - 1) as nat));
    }
}
pub broadcast proof fn le_rt(x: nat, n: nat)
    requires x < p256(n)
    ensures #[trigger] le_val(le_bytes(x, n)) == x
    decreases n
{
    reveal(le_val); reveal(le_bytes);
    if n > 0 {
        assert(p256(n) == 256 * p256((n - 1) as nat));
        le_rt(x / 256, (n - 1) as nat);
        let b = le_bytes(x, n);
        assert(b.skip(1) =~= le_bytes(x / 256, (n - 1) as nat));
        assert(b[0] == (x % 256) as u8);
    }
}
pub proof fn p256_vals()
    ensures p256(0) == 1, p256(1) == 256, p256(2) == 65536, p256(4) == 0x1_0000_0000,
        p256(8) == 0x1_0000_0000_0000_0000, p256(16) == 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000
{
    assert(p256(0) == 1) by (compute);
    assert(p256(1) == 256) by (compute);
    assert(p256(2) == 65536) by (compute);
    assert(p256(4) == 0x1_0000_0000) by (compute);
    assert(p256(8) == 0x1_0000_0000_0000_0000) by (compute);
    assert(p256(16) == 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000) by (compute);
}

#[verifier::opaque]
pub open spec fn zz(x: int) -> nat { if x >= 0 { (2 * x) as nat } else { (-2 * x - 1) as nat } }
#[verifier::opaque]
pub open spec fn unzz(n: nat) -> int { if n % 2 == 0 { n as int / 2 } else { -((n as int + 1) / 2) } }

pub proof fn unzz_fit(x: nat)
    ensures x < 0x1_0000 <==> -0x8000 <= unzz(x) < 0x8000,
        x < 0x1_0000_0000 <==> -0x8000_0000 <= unzz(x) < 0x8000_0000,
        x < 0x1_0000_0000_0000_0000 <==> -0x8000_0000_0000_0000 <= unzz(x) < 0x8000_0000_0000_0000,
{ reveal(unzz); }
pub broadcast proof fn zz_rt(x: int)
    ensures unzz(#[trigger] zz(x)) == x,
        zz(x) < 0x1_0000 <==> -0x8000 <= x < 0x8000,
        zz(x) < 0x1_0000_0000 <==> -0x8000_0000 <= x < 0x8000_0000,
        zz(x) < 0x1_0000_0000_0000_0000 <==> -0x8000_0000_0000_0000 <= x < 0x8000_0000_0000_0000,
        -0x8000_0000_0000_0000_0000_0000_0000_0000 <= x < 0x8000_0000_0000_0000_0000_0000_0000_0000
            <==> zz(x) < 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000,
{ reveal(unzz); reveal(zz); }

// ---------------------------------------------------------------------------------
// The wire format language. A `Fmt` describes a byte format, `Val` an abstract value.
// `encf`/`decf` give its meaning; the theorems at the end hold for every format, hence for
// every type whose functions are proved against `encf`/`decf`.
// ---------------------------------------------------------------------------------
pub ghost enum Val {
    N(int),
    B(Seq<u8>),
    V(int, Seq<Val>),
}
pub ghost enum Fmt {
    Fail,
    Unit,
    U8,
    UInt(nat),
    Raw(nat),
    Bytes,
    Pair(Box<Fmt>, Box<Fmt>),
    Rep(nat, Box<Fmt>),
    List(Box<Fmt>),
    Sum(Box<Fmt>, Seq<Fmt>),
    Conv(Box<Fmt>, spec_fn(Val) -> Option<Val>, spec_fn(Val) -> Val),
    /// u32_le byte length, then a payload of which `g` is the beginning
    Env(Box<Fmt>),
    /// k u32_le field offsets, then the k right-nested pair components of `g`
    Offs(nat, Box<Fmt>),
    /// one tag byte, then the variant's body framed by its kind
    Tag(Seq<int>, Seq<Fmt>),
}
/// framing of a payload: kind -1 = empty, k >= 0 = exactly k bytes, otherwise u32_le length first.
/// Some((header length, payload length)) when all of it is there
pub open spec fn frame(kind: int, s: Seq<u8>) -> Option<(nat, nat)> {
    if kind == -1 { Some((0, 0)) }
    else if kind >= 0 { if s.len() >= kind { Some((0, kind as nat)) } else { None } }
    else if s.len() >= 4 && s.len() >= 4 + le_val(s.take(4)) { Some((4, le_val(s.take(4)))) } else { None }
}
pub open spec fn framed(kind: int, p: Seq<u8>) -> Seq<u8> { if kind < -1 { le_bytes(p.len(), 4) + p } else { p } }
pub open spec fn frame_ok(kind: int, n: nat) -> bool { if kind == -1 { n == 0 } else if kind >= 0 { n == kind } else { n < p256(4) } }
/// size class of a tag byte / of a kind
pub open spec fn tag_class(t: u8) -> int { (t as int / 32) % 4 }
pub open spec fn kind_class(kind: int) -> int { if kind == -1 { 0 } else if kind >= 0 { 1 } else { 2 } }
/// the framing a tag byte announces, given the table of fixed sizes
pub open spec fn tag_kind(kinds: Seq<int>, t: u8) -> int {
    if tag_class(t) == 0 { -1 } else if tag_class(t) == 1 { let i = t as int % 32; if i < kinds.len() && kinds[i] >= 0 { kinds[i] } else { 0 } } else { -2 }
}
/// the offset table of a right-nested pair with k components, the first at `off`
pub closed spec fn offtab(g: Fmt, v: Val, k: nat, off: nat) -> Seq<u8> decreases g, 2nat, k {
    if k == 0 { Seq::empty() } else if k == 1 { le_bytes(off, 4) } else {
        match g {
            Fmt::Pair(a, b) => le_bytes(off, 4) + offtab(*b, v->V_1[1], (k - 1) as nat, off + encf(*a, v->V_1[0]).len()),
            _ => Seq::empty(),
        }
    }
}
pub proof fn frame_local(kind: int, s: Seq<u8>, t: Seq<u8>)
    ensures frame(kind, s) is Some ==> ({ let (a, n) = frame(kind, s)->0; a + n <= s.len() && frame(kind, s + t) == frame(kind, s) && (s + t).subrange(a as int, (a + n) as int) == s.subrange(a as int, (a + n) as int) })
{
    if let Some((a, n)) = frame(kind, s) {
        if kind < -1 { assert((s + t).take(4) =~= s.take(4)); }
        assert((s + t).subrange(a as int, (a + n) as int) =~= s.subrange(a as int, (a + n) as int));
    }
}
pub proof fn frame_rt(kind: int, p: Seq<u8>, t: Seq<u8>)
    requires frame_ok(kind, p.len())
    ensures frame(kind, framed(kind, p) + t) is Some, ({ let s = framed(kind, p) + t; let (a, n) = frame(kind, s)->0; a + n == framed(kind, p).len() && s.subrange(a as int, (a + n) as int) == p })
{
    broadcast use group_vx;
    let s = framed(kind, p) + t;
    if kind < -1 {
        assert(s.take(4) =~= le_bytes(p.len(), 4));
        assert(s.subrange(4, (4 + p.len()) as int) =~= p);
    } else {
        assert(s.subrange(0, p.len() as int) =~= p);
    }
}

pub open spec fn n_of<A>(d: Option<(A, nat)>) -> nat { match d { Some((_, n)) => n, None => 0 } }
pub open spec fn v_of<A>(d: Option<(A, nat)>) -> A { d.unwrap().0 }
pub open spec fn unit() -> Val { Val::V(0, Seq::empty()) }
pub open spec fn vpair(a: Val, b: Val) -> Val { Val::V(0, seq![a, b]) }

pub closed spec fn decf(f: Fmt, s: Seq<u8>) -> Option<(Val, nat)>
    decreases f, 0nat, 0nat
{
    match f {
        Fmt::Fail => None,
        Fmt::Unit => Some((unit(), 0)),
        Fmt::U8 => if s.len() >= 1 { Some((Val::N(s[0] as int), 1)) } else { None },
        Fmt::UInt(w) => match uint_dec(w, s) { Some((x, n)) => Some((Val::N(x as int), n)), None => None },
        Fmt::Raw(w) => if s.len() >= w { Some((Val::N(le_val(s.take(w as int)) as int), w)) } else { None },
        Fmt::Bytes => match uint_dec(8, s) {
            None => None,
            Some((l, n)) => if n + l <= s.len() {
                Some((Val::B(s.skip(n as int).take(l as int)), n + l))
            } else { None },
        },
        Fmt::Pair(a, b) => match decf(*a, s) {
            None => None,
            Some((v, n)) => match decf(*b, s.skip(n as int)) {
                None => None,
                Some((u, m)) => Some((vpair(v, u), n + m)),
            },
        },
        Fmt::Rep(k, g) => match decn(*g, k, s) { None => None, Some((vs, n)) => Some((Val::V(0, vs), n)) },
        Fmt::List(g) => match uint_dec(8, s) {
            None => None,
            Some((l, n)) => match decn(*g, l, s.skip(n as int)) {
                None => None,
                Some((vs, m)) => Some((Val::V(0, vs), n + m)),
            },
        },
        Fmt::Sum(t, cs) => match decf(*t, s) {
            Some((Val::N(k), n)) => if 0 <= k < cs.len() {
                match decf(cs[k], s.skip(n as int)) {
                    None => None,
                    Some((v, m)) => Some((Val::V(k, seq![v]), n + m)),
                }
            } else { None },
            _ => None,
        },
        Fmt::Conv(g, to, from) => match decf(*g, s) {
            None => None,
            Some((v, n)) => match to(v) { None => None, Some(u) => Some((u, n)) },
        },
        Fmt::Env(g) => match frame(-2, s) {
            None => None,
            Some((a, n)) => match decf(*g, s.subrange(a as int, (a + n) as int)) { None => None, Some((v, m)) => Some((v, a + n)) },
        },
        Fmt::Offs(k, g) => if s.len() >= 4 * k {
            match decf(*g, s.skip((4 * k) as int)) { None => None, Some((v, n)) => Some((v, 4 * k + n)) }
        } else { None },
        Fmt::Tag(ks, cs) => if s.len() < 1 { None } else {
            let i = s[0] as int % 32;
            if i < ks.len() && i < cs.len() && tag_class(s[0]) == kind_class(ks[i]) {
                match frame(ks[i], s.skip(1)) {
                    None => None,
                    Some((a, n)) => match decf(cs[i], s.skip(1).subrange(a as int, (a + n) as int)) { None => None, Some((v, m)) => Some((Val::V(i, seq![v]), 1 + a + n)) },
                }
            } else { None }
        },
    }
}
pub closed spec fn decn(g: Fmt, k: nat, s: Seq<u8>) -> Option<(Seq<Val>, nat)>
    decreases g, 1nat, k
{
    if k == 0 { Some((Seq::empty(), 0)) } else {
        match decn(g, (k - 1) as nat, s) {
            None => None,
            Some((vs, n)) => match decf(g, s.skip(n as int)) {
                None => None,
                Some((v, m)) => Some((vs.push(v), n + m)),
            },
        }
    }
}

/// the bytes of a value
pub closed spec fn encf(f: Fmt, v: Val) -> Seq<u8>
    decreases f, 0nat, 0nat
{
    match f {
        Fmt::Fail => Seq::empty(),
        Fmt::Unit => Seq::empty(),
        Fmt::U8 => seq![v->N_0 as u8],
        Fmt::UInt(w) => uint_enc(w, v->N_0 as nat),
        Fmt::Raw(w) => le_bytes(v->N_0 as nat, w),
        Fmt::Bytes => uint_enc(8, v->B_0.len()) + v->B_0,
        Fmt::Pair(a, b) => encf(*a, v->V_1[0]) + encf(*b, v->V_1[1]),
        Fmt::Rep(k, g) => encn(*g, v->V_1),
        Fmt::List(g) => uint_enc(8, v->V_1.len()) + encn(*g, v->V_1),
        Fmt::Sum(t, cs) => if 0 <= v->V_0 < cs.len() {
            encf(*t, Val::N(v->V_0)) + encf(cs[v->V_0], v->V_1[0])
        } else { Seq::empty() },
        Fmt::Conv(g, to, from) => encf(*g, from(v)),
        Fmt::Env(g) => framed(-2, encf(*g, v)),
        Fmt::Offs(k, g) => offtab(*g, v, k, 4 * k) + encf(*g, v),
        Fmt::Tag(ks, cs) => if 0 <= v->V_0 < ks.len() && v->V_0 < cs.len() {
            seq![(v->V_0 + 32 * kind_class(ks[v->V_0])) as u8] + framed(ks[v->V_0], encf(cs[v->V_0], v->V_1[0]))
        } else { Seq::empty() },
    }
}
pub closed spec fn encn(g: Fmt, vs: Seq<Val>) -> Seq<u8>
    decreases g, 1nat, vs.len()
{
    if vs.len() == 0 { Seq::empty() } else { encn(g, vs.drop_last()) + encf(g, vs.last()) }
}

/// values the format can carry
pub closed spec fn okf(f: Fmt, v: Val) -> bool
    decreases f, 0nat, 0nat
{
    match f {
        Fmt::Fail => false,
        Fmt::Unit => v == unit(),
        Fmt::U8 => v is N && 0 <= v->N_0 < 256,
        Fmt::UInt(w) => v is N && (w == 2 || w == 4 || w == 8 || w == 16) && 0 <= v->N_0 < p256(w),
        Fmt::Raw(w) => v is N && 0 <= v->N_0 < p256(w),
        Fmt::Bytes => v is B && v->B_0.len() < p256(8),
        Fmt::Pair(a, b) => v is V && v->V_0 == 0 && v->V_1.len() == 2 && okf(*a, v->V_1[0]) && okf(*b, v->V_1[1]),
        Fmt::Rep(k, g) => v is V && v->V_0 == 0 && v->V_1.len() == k && okn(*g, v->V_1),
        Fmt::List(g) => v is V && v->V_0 == 0 && v->V_1.len() < p256(8) && okn(*g, v->V_1),
        Fmt::Sum(t, cs) => v is V && 0 <= v->V_0 < cs.len() && v->V_1.len() == 1 && okf(*t, Val::N(v->V_0))
            && okf(cs[v->V_0], v->V_1[0]),
        Fmt::Conv(g, to, from) => okf(*g, from(v)) && to(from(v)) == Some(v),
        Fmt::Env(g) => okf(*g, v) && encf(*g, v).len() < p256(4),
        Fmt::Offs(k, g) => okf(*g, v) && offtab(*g, v, k, 4 * k).len() == 4 * k,
        Fmt::Tag(ks, cs) => v is V && 0 <= v->V_0 < 32 && v->V_0 < ks.len() && v->V_0 < cs.len() && v->V_1.len() == 1 && okf(cs[v->V_0], v->V_1[0])
            && frame_ok(ks[v->V_0], encf(cs[v->V_0], v->V_1[0]).len()),
    }
}
pub closed spec fn okn(g: Fmt, vs: Seq<Val>) -> bool
    decreases g, 1nat, vs.len()
{
    vs.len() == 0 || (okn(g, vs.drop_last()) && okf(g, vs.last()))
}

pub open spec fn took(d: Option<(Val, nat)>, pre: Seq<u8>, post: Seq<u8>, m: Val) -> bool {
    match d { None => false, Some((v, n)) => v == m && n <= pre.len() && post =~= pre.skip(n as int) }
}

// --------------------------------------------------------------------------------- theorems
pub broadcast proof fn skip_skip(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn skip0(s: Seq<u8>)
    ensures #[trigger] s.skip(0) == s
{ assert(s.skip(0) =~= s); }

pub broadcast proof fn skip_take(s: Seq<u8>, a: int, n: int)
    requires 0 <= a, 0 <= n, a + n <= s.len()
    ensures #[trigger] s.skip(a).take(n) == s.subrange(a, a + n)
{ assert(s.skip(a).take(n) =~= s.subrange(a, a + n)); }
pub broadcast proof fn subrange_none(s: Seq<u8>, a: int)
    requires 0 <= a <= s.len()
    ensures #[trigger] s.subrange(a, a) == Seq::<u8>::empty()
{ assert(s.subrange(a, a) =~= Seq::<u8>::empty()); }
pub broadcast group group_vx { le_bytes_len, le_val_bound, le_rt, skip_skip, skip0 }

/// consumption never exceeds the input
pub proof fn thm_bound(f: Fmt, s: Seq<u8>)
    ensures decf(f, s) is Some ==> n_of(decf(f, s)) <= s.len()
    decreases f, 0nat, 0nat
{
    broadcast use group_vx;
    match f {
        Fmt::UInt(w) => { uint_facts(w, s, Seq::empty()); }
        Fmt::Bytes => { uint_facts(8, s, Seq::empty()); }
        Fmt::Pair(a, b) => {
            thm_bound(*a, s);
            if let Some((v, n)) = decf(*a, s) { thm_bound(*b, s.skip(n as int)); }
        }
        Fmt::Rep(k, g) => { thm_boundn(*g, k, s); }
        Fmt::List(g) => {
            uint_facts(8, s, Seq::empty());
            if let Some((l, n)) = uint_dec(8, s) { thm_boundn(*g, l, s.skip(n as int)); }
        }
        Fmt::Sum(t, cs) => {
            thm_bound(*t, s);
            if let Some((Val::N(k), n)) = decf(*t, s) { if 0 <= k < cs.len() { thm_bound(cs[k], s.skip(n as int)); } }
        }
        Fmt::Conv(g, to, from) => { thm_bound(*g, s); }
        Fmt::Env(g) => { frame_local(-2, s, Seq::empty()); }
        Fmt::Offs(k, g) => { if s.len() >= 4 * k { thm_bound(*g, s.skip((4 * k) as int)); } }
        Fmt::Tag(ks, cs) => { if s.len() >= 1 { let i = s[0] as int % 32; if i < ks.len() { frame_local(ks[i], s.skip(1), Seq::empty()); } } }
        _ => {}
    }
}
pub proof fn thm_boundn(g: Fmt, k: nat, s: Seq<u8>)
    ensures decn(g, k, s) is Some ==> n_of(decn(g, k, s)) <= s.len() && v_of(decn(g, k, s)).len() == k
    decreases g, 1nat, k
{
    if k > 0 {
        thm_boundn(g, (k - 1) as nat, s);
        if let Some((vs, n)) = decn(g, (k - 1) as nat, s) { thm_bound(g, s.skip(n as int)); }
    }
}

pub proof fn skip_cat(s: Seq<u8>, t: Seq<u8>, n: nat)
    requires n <= s.len()
    ensures (s + t).skip(n as int) == s.skip(n as int) + t
{ assert((s + t).skip(n as int) =~= s.skip(n as int) + t); }
pub proof fn local_leaf(f: Fmt, s: Seq<u8>, t: Seq<u8>)
    requires f is U8 || f is UInt || f is Raw || f is Bytes || f is Unit || f is Fail
    ensures decf(f, s) is Some ==> decf(f, s + t) == decf(f, s)
{
    match f {
        Fmt::U8 => { assert(s.len() >= 1 ==> (s + t)[0] == s[0]); }
        Fmt::UInt(w) => { uint_facts(w, s, t); }
        Fmt::Raw(w) => { if s.len() >= w { assert((s + t).take(w as int) =~= s.take(w as int)); } }
        Fmt::Bytes => {
            uint_facts(8, s, t);
            if let Some((l, n)) = uint_dec(8, s) {
                if n + l <= s.len() {
                    assert((s + t).skip(n as int).take(l as int) =~= s.skip(n as int).take(l as int));
                }
            }
        }
        _ => {}
    }
}
pub proof fn local_opt(f: Fmt, s: Seq<u8>, t: Seq<u8>)
    requires f is Env || f is Offs || f is Tag,
        f is Offs ==> ({ let k = f->Offs_0; let g = f->Offs_1; s.len() >= 4 * k ==> decf(*g, s.skip((4 * k) as int)) is Some ==> decf(*g, s.skip((4 * k) as int) + t) == decf(*g, s.skip((4 * k) as int)) })
    ensures decf(f, s) is Some ==> decf(f, s + t) == decf(f, s)
{
    match f {
        Fmt::Env(g) => { frame_local(-2, s, t); }
        Fmt::Offs(k, g) => { if s.len() >= 4 * k { skip_cat(s, t, 4 * k); } }
        Fmt::Tag(ks, cs) => { if s.len() >= 1 { let i = s[0] as int % 32; assert((s + t)[0] == s[0]); skip_cat(s, t, 1); if i < ks.len() { frame_local(ks[i], s.skip(1), t); } } }
        _ => {}
    }
}
/// THEOREM self-delimiting: what follows a value never changes how it decodes
pub proof fn thm_local(f: Fmt, s: Seq<u8>, t: Seq<u8>)
    ensures decf(f, s) is Some ==> decf(f, s + t) == decf(f, s)
    decreases f, 0nat, 0nat
{
    match f {
        Fmt::Pair(a, b) => {
            thm_local(*a, s, t);
            thm_bound(*a, s);
            if let Some((v, n)) = decf(*a, s) {
                skip_cat(s, t, n);
                thm_local(*b, s.skip(n as int), t);
            }
        }
        Fmt::Rep(k, g) => { thm_localn(*g, k, s, t); }
        Fmt::List(g) => {
            uint_facts(8, s, t);
            if let Some((l, n)) = uint_dec(8, s) {
                skip_cat(s, t, n);
                thm_localn(*g, l, s.skip(n as int), t);
            }
        }
        Fmt::Sum(tg, cs) => {
            thm_local(*tg, s, t);
            thm_bound(*tg, s);
            if let Some((Val::N(k), n)) = decf(*tg, s) {
                if 0 <= k < cs.len() {
                    skip_cat(s, t, n);
                    thm_local(cs[k], s.skip(n as int), t);
                }
            }
        }
        Fmt::Conv(g, to, from) => { thm_local(*g, s, t); }
        Fmt::Env(g) => { local_opt(f, s, t); }
        Fmt::Offs(k, g) => { if s.len() >= 4 * k { thm_local(*g, s.skip((4 * k) as int), t); } local_opt(f, s, t); }
        Fmt::Tag(ks, cs) => { local_opt(f, s, t); }
        _ => { local_leaf(f, s, t); }
    }
}
pub proof fn thm_localn(g: Fmt, k: nat, s: Seq<u8>, t: Seq<u8>)
    ensures decn(g, k, s) is Some ==> decn(g, k, s + t) == decn(g, k, s)
    decreases g, 1nat, k
{
    if k > 0 {
        thm_localn(g, (k - 1) as nat, s, t);
        thm_boundn(g, (k - 1) as nat, s);
        if let Some((vs, n)) = decn(g, (k - 1) as nat, s) {
            skip_cat(s, t, n);
            thm_local(g, s.skip(n as int), t);
        }
    }
}

/// THEOREM truncation: no strict prefix of a value's bytes decodes
pub proof fn thm_trunc(f: Fmt, s: Seq<u8>, m: nat)
    requires decf(f, s) is Some, m < n_of(decf(f, s))
    ensures decf(f, s.take(m as int)) is None
{
    thm_bound(f, s);
    let p = s.take(m as int);
    let q = s.skip(m as int);
    if decf(f, p) is Some {
        thm_bound(f, p);
        thm_local(f, p, q);
        assert(p + q =~= s);
        assert(false);
    }
}

pub proof fn cat3(a: Seq<u8>, b: Seq<u8>, t: Seq<u8>)
    ensures (a + b) + t == a + (b + t), (a + (b + t)).skip(a.len() as int) == b + t, (a + b).len() == a.len() + b.len(),
{
    assert((a + b) + t =~= a + (b + t));
    assert((a + (b + t)).skip(a.len() as int) =~= b + t);
}
pub proof fn rt_env(g: Box<Fmt>, v: Val, t: Seq<u8>)
    requires okf(Fmt::Env(g), v), decf(*g, encf(*g, v) + Seq::empty()) == Some((v, encf(*g, v).len()))
    ensures decf(Fmt::Env(g), encf(Fmt::Env(g), v) + t) == Some((v, encf(Fmt::Env(g), v).len()))
{
    let p = encf(*g, v);
    frame_rt(-2, p, t);
    assert(p + Seq::<u8>::empty() =~= p);
}
pub proof fn rt_offs(k: nat, g: Box<Fmt>, v: Val, t: Seq<u8>)
    requires okf(Fmt::Offs(k, g), v), decf(*g, encf(*g, v) + t) == Some((v, encf(*g, v).len()))
    ensures decf(Fmt::Offs(k, g), encf(Fmt::Offs(k, g), v) + t) == Some((v, encf(Fmt::Offs(k, g), v).len()))
{
    let h = offtab(*g, v, k, 4 * k);
    cat3(h, encf(*g, v), t);
}
pub proof fn rt_tag(ks: Seq<int>, cs: Seq<Fmt>, v: Val, t: Seq<u8>)
    requires okf(Fmt::Tag(ks, cs), v), decf(cs[v->V_0], encf(cs[v->V_0], v->V_1[0]) + Seq::empty()) == Some((v->V_1[0], encf(cs[v->V_0], v->V_1[0]).len()))
    ensures decf(Fmt::Tag(ks, cs), encf(Fmt::Tag(ks, cs), v) + t) == Some((v, encf(Fmt::Tag(ks, cs), v).len()))
{
    let i = v->V_0;
    let p = encf(cs[i], v->V_1[0]);
    let h = seq![(i + 32 * kind_class(ks[i])) as u8];
    let s = encf(Fmt::Tag(ks, cs), v) + t;
    frame_rt(ks[i], p, t);
    assert(p + Seq::<u8>::empty() =~= p);
    cat3(h, framed(ks[i], p), t);
    assert(s[0] == h[0]);
    assert(s.skip(1) =~= framed(ks[i], p) + t);
    assert(v->V_1 =~= seq![v->V_1[0]]);
}
pub proof fn rt_leaf(f: Fmt, v: Val, t: Seq<u8>)
    requires okf(f, v), f is U8 || f is UInt || f is Raw || f is Bytes || f is Unit || f is Fail
    ensures decf(f, encf(f, v) + t) == Some((v, encf(f, v).len()))
{
    let e = encf(f, v);
    let s = e + t;
    match f {
        Fmt::U8 => { assert(s[0] == e[0]); }
        Fmt::UInt(w) => { uint_rt(w, v->N_0 as nat, t); }
        Fmt::Raw(w) => { le_bytes_len(v->N_0 as nat, w); le_rt(v->N_0 as nat, w); assert(s.take(w as int) =~= e); }
        Fmt::Bytes => {
            let h = uint_enc(8, v->B_0.len());
            uint_rt(8, v->B_0.len(), v->B_0 + t);
            cat3(h, v->B_0, t);
            assert((v->B_0 + t).take(v->B_0.len() as int) =~= v->B_0);
        }
        _ => {}
    }
}
pub proof fn rt_list(g: Box<Fmt>, v: Val, t: Seq<u8>)
    requires okf(Fmt::List(g), v), decn(*g, v->V_1.len(), encn(*g, v->V_1) + t) == Some((v->V_1, encn(*g, v->V_1).len()))
    ensures decf(Fmt::List(g), encf(Fmt::List(g), v) + t) == Some((v, encf(Fmt::List(g), v).len()))
{
    let h = uint_enc(8, v->V_1.len());
    let b = encn(*g, v->V_1);
    uint_rt(8, v->V_1.len(), b + t);
    cat3(h, b, t);
}
pub proof fn rt_pair(a: Box<Fmt>, b: Box<Fmt>, v: Val, t: Seq<u8>)
    requires okf(Fmt::Pair(a, b), v), ({ let ea = encf(*a, v->V_1[0]); let eb = encf(*b, v->V_1[1]);
        decf(*a, ea + (eb + t)) == Some((v->V_1[0], ea.len())) && decf(*b, eb + t) == Some((v->V_1[1], eb.len())) })
    ensures decf(Fmt::Pair(a, b), encf(Fmt::Pair(a, b), v) + t) == Some((v, encf(Fmt::Pair(a, b), v).len()))
{
    cat3(encf(*a, v->V_1[0]), encf(*b, v->V_1[1]), t);
    assert(v->V_1 =~= seq![v->V_1[0], v->V_1[1]]);
}
pub proof fn rt_sum(tg: Box<Fmt>, cs: Seq<Fmt>, v: Val, t: Seq<u8>)
    requires okf(Fmt::Sum(tg, cs), v), ({ let k = v->V_0; let h = encf(*tg, Val::N(k)); let b = encf(cs[k], v->V_1[0]);
        decf(*tg, h + (b + t)) == Some((Val::N(k), h.len())) && decf(cs[k], b + t) == Some((v->V_1[0], b.len())) })
    ensures decf(Fmt::Sum(tg, cs), encf(Fmt::Sum(tg, cs), v) + t) == Some((v, encf(Fmt::Sum(tg, cs), v).len()))
{
    let k = v->V_0;
    cat3(encf(*tg, Val::N(k)), encf(cs[k], v->V_1[0]), t);
    assert(v->V_1 =~= seq![v->V_1[0]]);
}
/// THEOREM round trip: a value's bytes, followed by anything, decode to exactly that value
pub proof fn thm_rt(f: Fmt, v: Val, t: Seq<u8>)
    requires okf(f, v)
    ensures decf(f, encf(f, v) + t) == Some((v, encf(f, v).len()))
    decreases f, 0nat, 0nat
{
    match f {
        Fmt::Pair(a, b) => {
            let ea = encf(*a, v->V_1[0]);
            let eb = encf(*b, v->V_1[1]);
            thm_rt(*a, v->V_1[0], eb + t);
            thm_rt(*b, v->V_1[1], t);
            rt_pair(a, b, v, t);
        }
        Fmt::Rep(k, g) => { thm_rtn(*g, v->V_1, t); }
        Fmt::List(g) => { thm_rtn(*g, v->V_1, t); rt_list(g, v, t); }
        Fmt::Sum(tg, cs) => {
            let k = v->V_0;
            let h = encf(*tg, Val::N(k));
            let b = encf(cs[k], v->V_1[0]);
            thm_rt(*tg, Val::N(k), b + t);
            thm_rt(cs[k], v->V_1[0], t);
            rt_sum(tg, cs, v, t);
        }
        Fmt::Conv(g, to, from) => { thm_rt(*g, from(v), t); }
        Fmt::Env(g) => { thm_rt(*g, v, Seq::empty()); rt_env(g, v, t); }
        Fmt::Offs(k, g) => { thm_rt(*g, v, t); rt_offs(k, g, v, t); }
        Fmt::Tag(ks, cs) => { let i = v->V_0; thm_rt(cs[i], v->V_1[0], Seq::empty()); rt_tag(ks, cs, v, t); }
        _ => { rt_leaf(f, v, t); }
    }
}
pub proof fn thm_rtn(g: Fmt, vs: Seq<Val>, t: Seq<u8>)
    requires okn(g, vs)
    ensures decn(g, vs.len(), encn(g, vs) + t) == Some((vs, encn(g, vs).len()))
    decreases g, 1nat, vs.len()
{
    broadcast use group_vx;
    if vs.len() > 0 {
        let a = encn(g, vs.drop_last());
        let b = encf(g, vs.last());
        thm_rtn(g, vs.drop_last(), b + t);
        thm_rt(g, vs.last(), t);
        cat3(a, b, t);
        assert(vs.drop_last().push(vs.last()) =~= vs);
    }
}

/// THEOREM injectivity: different values never share their bytes
pub proof fn thm_inj(f: Fmt, u: Val, v: Val)
    requires okf(f, u), okf(f, v), encf(f, u) == encf(f, v)
    ensures u == v
{
    thm_rt(f, u, Seq::empty());
    thm_rt(f, v, Seq::empty());
}

// --------------------------------------------------------------------------------- skipping
/// how many bytes a value occupies, without looking at conversions that only reject
pub closed spec fn szf(f: Fmt, s: Seq<u8>) -> Option<nat>
    decreases f, 0nat, 0nat
{
    match f {
        Fmt::Fail => None,
        Fmt::Unit => Some(0),
        Fmt::U8 => if s.len() >= 1 { Some(1) } else { None },
        Fmt::UInt(w) => match uint_dec(w, s) { Some((x, n)) => Some(n), None => None },
        Fmt::Raw(w) => if s.len() >= w { Some(w) } else { None },
        Fmt::Bytes => match uint_dec(8, s) {
            None => None,
            Some((l, n)) => if n + l <= s.len() { Some(n + l) } else { None },
        },
        Fmt::Pair(a, b) => match szf(*a, s) {
            None => None,
            Some(n) => match szf(*b, s.skip(n as int)) { None => None, Some(m) => Some(n + m) },
        },
        Fmt::Rep(k, g) => szn(*g, k, s),
        Fmt::List(g) => match uint_dec(8, s) {
            None => None,
            Some((l, n)) => match szn(*g, l, s.skip(n as int)) { None => None, Some(m) => Some(n + m) },
        },
        Fmt::Sum(t, cs) => match decf(*t, s) {
            Some((Val::N(k), n)) => if 0 <= k < cs.len() {
                match szf(cs[k], s.skip(n as int)) { None => None, Some(m) => Some(n + m) }
            } else { None },
            _ => None,
        },
        Fmt::Conv(g, to, from) => szf(*g, s),
        Fmt::Env(g) => match frame(-2, s) { None => None, Some((a, n)) => Some(a + n) },
        Fmt::Offs(k, g) => if s.len() >= 4 * k { match szf(*g, s.skip((4 * k) as int)) { None => None, Some(n) => Some(4 * k + n) } } else { None },
        Fmt::Tag(ks, cs) => if s.len() < 1 || tag_class(s[0]) == 3 { None } else {
            match frame(tag_kind(ks, s[0]), s.skip(1)) { None => None, Some((a, n)) => Some(1 + a + n) }
        },
    }
}
pub closed spec fn szn(g: Fmt, k: nat, s: Seq<u8>) -> Option<nat>
    decreases g, 1nat, k
{
    if k == 0 { Some(0) } else {
        match szn(g, (k - 1) as nat, s) {
            None => None,
            Some(n) => match szf(g, s.skip(n as int)) { None => None, Some(m) => Some(n + m) },
        }
    }
}
/// THEOREM: what decodes has the size the decoder consumes
pub proof fn thm_sz(f: Fmt, s: Seq<u8>)
    ensures decf(f, s) is Some ==> szf(f, s) == Some(n_of(decf(f, s)))
    decreases f, 0nat, 0nat
{
    match f {
        Fmt::Pair(a, b) => {
            thm_sz(*a, s);
            if let Some((v, n)) = decf(*a, s) { thm_sz(*b, s.skip(n as int)); }
        }
        Fmt::Rep(k, g) => { thm_szn(*g, k, s); }
        Fmt::List(g) => { if let Some((l, n)) = uint_dec(8, s) { thm_szn(*g, l, s.skip(n as int)); } }
        Fmt::Sum(t, cs) => {
            if let Some((Val::N(k), n)) = decf(*t, s) { if 0 <= k < cs.len() { thm_sz(cs[k], s.skip(n as int)); } }
        }
        Fmt::Conv(g, to, from) => { thm_sz(*g, s); }
        Fmt::Offs(k, g) => { if s.len() >= 4 * k { thm_sz(*g, s.skip((4 * k) as int)); } }
        _ => {}
    }
}
pub proof fn thm_szn(g: Fmt, k: nat, s: Seq<u8>)
    ensures decn(g, k, s) is Some ==> szn(g, k, s) == Some(n_of(decn(g, k, s)))
    decreases g, 1nat, k
{
    if k > 0 {
        thm_szn(g, (k - 1) as nat, s);
        if let Some((vs, n)) = decn(g, (k - 1) as nat, s) { thm_sz(g, s.skip(n as int)); }
    }
}
pub proof fn szlocal_leaf(f: Fmt, s: Seq<u8>, t: Seq<u8>)
    requires f is U8 || f is UInt || f is Raw || f is Bytes || f is Unit || f is Fail
    ensures szf(f, s) is Some ==> szf(f, s)->0 <= s.len() && szf(f, s + t) == szf(f, s)
{
    match f {
        Fmt::UInt(w) => { uint_facts(w, s, t); }
        Fmt::Bytes => { uint_facts(8, s, t); }
        _ => {}
    }
}
pub proof fn szlocal_opt(f: Fmt, s: Seq<u8>, t: Seq<u8>)
    requires f is Env || f is Offs || f is Tag,
        f is Offs ==> ({ let k = f->Offs_0; let g = f->Offs_1; s.len() >= 4 * k ==> szf(*g, s.skip((4 * k) as int)) is Some ==> szf(*g, s.skip((4 * k) as int))->0 <= s.skip((4 * k) as int).len() && szf(*g, s.skip((4 * k) as int) + t) == szf(*g, s.skip((4 * k) as int)) })
    ensures szf(f, s) is Some ==> szf(f, s)->0 <= s.len() && szf(f, s + t) == szf(f, s)
{
    match f {
        Fmt::Env(g) => { frame_local(-2, s, t); }
        Fmt::Offs(k, g) => { if s.len() >= 4 * k { skip_cat(s, t, 4 * k); } }
        Fmt::Tag(ks, cs) => { if s.len() >= 1 { assert((s + t)[0] == s[0]); skip_cat(s, t, 1); frame_local(tag_kind(ks, s[0]), s.skip(1), t); } }
        _ => {}
    }
}
pub proof fn thm_szlocal(f: Fmt, s: Seq<u8>, t: Seq<u8>)
    ensures szf(f, s) is Some ==> szf(f, s)->0 <= s.len() && szf(f, s + t) == szf(f, s)
    decreases f, 0nat, 0nat
{
    match f {
        Fmt::Pair(a, b) => {
            thm_szlocal(*a, s, t);
            if let Some(n) = szf(*a, s) { skip_cat(s, t, n); thm_szlocal(*b, s.skip(n as int), t); }
        }
        Fmt::Rep(k, g) => { thm_szlocaln(*g, k, s, t); }
        Fmt::List(g) => {
            uint_facts(8, s, t);
            if let Some((l, n)) = uint_dec(8, s) { skip_cat(s, t, n); thm_szlocaln(*g, l, s.skip(n as int), t); }
        }
        Fmt::Sum(tg, cs) => {
            thm_local(*tg, s, t);
            thm_bound(*tg, s);
            let d = decf(*tg, s);
            if let Some((Val::N(k), n)) = d {
                if 0 <= k < cs.len() { skip_cat(s, t, n); thm_szlocal(cs[k], s.skip(n as int), t); }
            }
        }
        Fmt::Conv(g, to, from) => { thm_szlocal(*g, s, t); }
        Fmt::Env(g) => { szlocal_opt(f, s, t); }
        Fmt::Offs(k, g) => { if s.len() >= 4 * k { thm_szlocal(*g, s.skip((4 * k) as int), t); } szlocal_opt(f, s, t); }
        Fmt::Tag(ks, cs) => { szlocal_opt(f, s, t); }
        _ => { szlocal_leaf(f, s, t); }
    }
}
pub proof fn thm_szlocaln(g: Fmt, k: nat, s: Seq<u8>, t: Seq<u8>)
    ensures szn(g, k, s) is Some ==> szn(g, k, s)->0 <= s.len() && szn(g, k, s + t) == szn(g, k, s)
    decreases g, 1nat, k
{
    if k > 0 {
        thm_szlocaln(g, (k - 1) as nat, s, t);
        if let Some(n) = szn(g, (k - 1) as nat, s) { skip_cat(s, t, n); thm_szlocal(g, s.skip(n as int), t); }
    }
}
/// THEOREM: skipping any strict prefix of a value's bytes fails
pub proof fn thm_sztrunc(f: Fmt, s: Seq<u8>, m: nat)
    requires decf(f, s) is Some, m < n_of(decf(f, s))
    ensures szf(f, s.take(m as int)) is None
{
    thm_sz(f, s);
    thm_bound(f, s);
    let p = s.take(m as int);
    let q = s.skip(m as int);
    if szf(f, p) is Some {
        thm_szlocal(f, p, q);
        assert(p + q =~= s);
        assert(false);
    }
}
pub broadcast proof fn thm_sz_auto(f: Fmt, s: Seq<u8>)
    ensures decf(f, s) is Some ==> #[trigger] szf(f, s) == Some(n_of(decf(f, s)))
{ thm_sz(f, s); }
// ---------------------------------------------------------------------------------
// one unfolding step per constructor; code outside this module never unfolds further
// ---------------------------------------------------------------------------------
pub broadcast proof fn decf_fail(s: Seq<u8>)
    ensures #[trigger] decf(Fmt::Fail, s) == (None)
{}
pub broadcast proof fn decf_unit(s: Seq<u8>)
    ensures #[trigger] decf(Fmt::Unit, s) == (Some((unit(), 0)))
{}
pub broadcast proof fn decf_u8(s: Seq<u8>)
    ensures #[trigger] decf(Fmt::U8, s) == (if s.len() >= 1 { Some((Val::N(s[0] as int), 1)) } else { None })
{}
pub broadcast proof fn decf_uint(w: nat, s: Seq<u8>)
    ensures #[trigger] decf(Fmt::UInt(w), s) == (match uint_dec(w, s) { Some((x, n)) => Some((Val::N(x as int), n)), None => None })
{}
pub broadcast proof fn decf_raw(w: nat, s: Seq<u8>)
    ensures #[trigger] decf(Fmt::Raw(w), s) == (if s.len() >= w { Some((Val::N(le_val(s.take(w as int)) as int), w)) } else { None })
{}
pub broadcast proof fn decf_bytes(s: Seq<u8>)
    ensures #[trigger] decf(Fmt::Bytes, s) == (match uint_dec(8, s) {
            None => None,
            Some((l, n)) => if n + l <= s.len() {
                Some((Val::B(s.skip(n as int).take(l as int)), n + l))
            } else { None },
        })
{}
pub broadcast proof fn decf_pair(a: Box<Fmt>, b: Box<Fmt>, s: Seq<u8>)
    ensures #[trigger] decf(Fmt::Pair(a, b), s) == (match decf(*a, s) {
            None => None,
            Some((v, n)) => match decf(*b, s.skip(n as int)) {
                None => None,
                Some((u, m)) => Some((vpair(v, u), n + m)),
            },
        })
{}
pub broadcast proof fn decf_rep(k: nat, g: Box<Fmt>, s: Seq<u8>)
    ensures #[trigger] decf(Fmt::Rep(k, g), s) == (match decn(*g, k, s) { None => None, Some((vs, n)) => Some((Val::V(0, vs), n)) })
{}
pub broadcast proof fn decf_list(g: Box<Fmt>, s: Seq<u8>)
    ensures #[trigger] decf(Fmt::List(g), s) == (match uint_dec(8, s) {
            None => None,
            Some((l, n)) => match decn(*g, l, s.skip(n as int)) {
                None => None,
                Some((vs, m)) => Some((Val::V(0, vs), n + m)),
            },
        })
{}
pub broadcast proof fn decf_sum(t: Box<Fmt>, cs: Seq<Fmt>, s: Seq<u8>)
    ensures #[trigger] decf(Fmt::Sum(t, cs), s) == (match decf(*t, s) {
            Some((Val::N(k), n)) => if 0 <= k < cs.len() {
                match decf(cs[k], s.skip(n as int)) {
                    None => None,
                    Some((v, m)) => Some((Val::V(k, seq![v]), n + m)),
                }
            } else { None },
            _ => None,
        })
{}
pub broadcast proof fn decf_conv(g: Box<Fmt>, to: spec_fn(Val) -> Option<Val>, from: spec_fn(Val) -> Val, s: Seq<u8>)
    ensures #[trigger] decf(Fmt::Conv(g, to, from), s) == (match decf(*g, s) {
            None => None,
            Some((v, n)) => match to(v) { None => None, Some(u) => Some((u, n)) },
        })
{}
pub broadcast proof fn encf_fail(v: Val)
    ensures #[trigger] encf(Fmt::Fail, v) == (Seq::empty())
{}
pub broadcast proof fn encf_unit(v: Val)
    ensures #[trigger] encf(Fmt::Unit, v) == (Seq::empty())
{}
pub broadcast proof fn encf_u8(v: Val)
    ensures #[trigger] encf(Fmt::U8, v) == (seq![v->N_0 as u8])
{}
pub broadcast proof fn encf_uint(w: nat, v: Val)
    ensures #[trigger] encf(Fmt::UInt(w), v) == (uint_enc(w, v->N_0 as nat))
{}
pub broadcast proof fn encf_raw(w: nat, v: Val)
    ensures #[trigger] encf(Fmt::Raw(w), v) == (le_bytes(v->N_0 as nat, w))
{}
pub broadcast proof fn encf_bytes(v: Val)
    ensures #[trigger] encf(Fmt::Bytes, v) == (uint_enc(8, v->B_0.len()) + v->B_0)
{}
pub broadcast proof fn encf_pair(a: Box<Fmt>, b: Box<Fmt>, v: Val)
    ensures #[trigger] encf(Fmt::Pair(a, b), v) == (encf(*a, v->V_1[0]) + encf(*b, v->V_1[1]))
{}
pub broadcast proof fn encf_rep(k: nat, g: Box<Fmt>, v: Val)
    ensures #[trigger] encf(Fmt::Rep(k, g), v) == (encn(*g, v->V_1))
{}
pub broadcast proof fn encf_list(g: Box<Fmt>, v: Val)
    ensures #[trigger] encf(Fmt::List(g), v) == (uint_enc(8, v->V_1.len()) + encn(*g, v->V_1))
{}
pub broadcast proof fn encf_sum(t: Box<Fmt>, cs: Seq<Fmt>, v: Val)
    ensures #[trigger] encf(Fmt::Sum(t, cs), v) == (if 0 <= v->V_0 < cs.len() {
            encf(*t, Val::N(v->V_0)) + encf(cs[v->V_0], v->V_1[0])
        } else { Seq::empty() })
{}
pub broadcast proof fn encf_conv(g: Box<Fmt>, to: spec_fn(Val) -> Option<Val>, from: spec_fn(Val) -> Val, v: Val)
    ensures #[trigger] encf(Fmt::Conv(g, to, from), v) == (encf(*g, from(v)))
{}
pub broadcast proof fn okf_fail(v: Val)
    ensures #[trigger] okf(Fmt::Fail, v) == (false)
{}
pub broadcast proof fn okf_unit(v: Val)
    ensures #[trigger] okf(Fmt::Unit, v) == (v == unit())
{}
pub broadcast proof fn okf_u8(v: Val)
    ensures #[trigger] okf(Fmt::U8, v) == (v is N && 0 <= v->N_0 < 256)
{}
pub broadcast proof fn okf_uint(w: nat, v: Val)
    ensures #[trigger] okf(Fmt::UInt(w), v) == (v is N && (w == 2 || w == 4 || w == 8 || w == 16) && 0 <= v->N_0 < p256(w))
{}
pub broadcast proof fn okf_raw(w: nat, v: Val)
    ensures #[trigger] okf(Fmt::Raw(w), v) == (v is N && 0 <= v->N_0 < p256(w))
{}
pub broadcast proof fn okf_bytes(v: Val)
    ensures #[trigger] okf(Fmt::Bytes, v) == (v is B && v->B_0.len() < p256(8))
{}
pub broadcast proof fn okf_pair(a: Box<Fmt>, b: Box<Fmt>, v: Val)
    ensures #[trigger] okf(Fmt::Pair(a, b), v) == (v is V && v->V_0 == 0 && v->V_1.len() == 2 && okf(*a, v->V_1[0]) && okf(*b, v->V_1[1]))
{}
pub broadcast proof fn okf_rep(k: nat, g: Box<Fmt>, v: Val)
    ensures #[trigger] okf(Fmt::Rep(k, g), v) == (v is V && v->V_0 == 0 && v->V_1.len() == k && okn(*g, v->V_1))
{}
pub broadcast proof fn okf_list(g: Box<Fmt>, v: Val)
    ensures #[trigger] okf(Fmt::List(g), v) == (v is V && v->V_0 == 0 && v->V_1.len() < p256(8) && okn(*g, v->V_1))
{}
pub broadcast proof fn okf_sum(t: Box<Fmt>, cs: Seq<Fmt>, v: Val)
    ensures #[trigger] okf(Fmt::Sum(t, cs), v) == (v is V && 0 <= v->V_0 < cs.len() && v->V_1.len() == 1 && okf(*t, Val::N(v->V_0))
            && okf(cs[v->V_0], v->V_1[0]))
{}
pub broadcast proof fn okf_conv(g: Box<Fmt>, to: spec_fn(Val) -> Option<Val>, from: spec_fn(Val) -> Val, v: Val)
    ensures #[trigger] okf(Fmt::Conv(g, to, from), v) == (okf(*g, from(v)) && to(from(v)) == Some(v))
{}
pub broadcast proof fn szf_fail(s: Seq<u8>)
    ensures #[trigger] szf(Fmt::Fail, s) == (None)
{}
pub broadcast proof fn szf_unit(s: Seq<u8>)
    ensures #[trigger] szf(Fmt::Unit, s) == (Some(0))
{}
pub broadcast proof fn szf_u8(s: Seq<u8>)
    ensures #[trigger] szf(Fmt::U8, s) == (if s.len() >= 1 { Some(1) } else { None })
{}
pub broadcast proof fn szf_uint(w: nat, s: Seq<u8>)
    ensures #[trigger] szf(Fmt::UInt(w), s) == (match uint_dec(w, s) { Some((x, n)) => Some(n), None => None })
{}
pub broadcast proof fn szf_raw(w: nat, s: Seq<u8>)
    ensures #[trigger] szf(Fmt::Raw(w), s) == (if s.len() >= w { Some(w) } else { None })
{}
pub broadcast proof fn szf_bytes(s: Seq<u8>)
    ensures #[trigger] szf(Fmt::Bytes, s) == (match uint_dec(8, s) {
            None => None,
            Some((l, n)) => if n + l <= s.len() { Some(n + l) } else { None },
        })
{}
pub broadcast proof fn szf_pair(a: Box<Fmt>, b: Box<Fmt>, s: Seq<u8>)
    ensures #[trigger] szf(Fmt::Pair(a, b), s) == (match szf(*a, s) {
            None => None,
            Some(n) => match szf(*b, s.skip(n as int)) { None => None, Some(m) => Some(n + m) },
        })
{}
pub broadcast proof fn szf_rep(k: nat, g: Box<Fmt>, s: Seq<u8>)
    ensures #[trigger] szf(Fmt::Rep(k, g), s) == (szn(*g, k, s))
{}
pub broadcast proof fn szf_list(g: Box<Fmt>, s: Seq<u8>)
    ensures #[trigger] szf(Fmt::List(g), s) == (match uint_dec(8, s) {
            None => None,
            Some((l, n)) => match szn(*g, l, s.skip(n as int)) { None => None, Some(m) => Some(n + m) },
        })
{}
pub broadcast proof fn szf_sum(t: Box<Fmt>, cs: Seq<Fmt>, s: Seq<u8>)
    ensures #[trigger] szf(Fmt::Sum(t, cs), s) == (match decf(*t, s) {
            Some((Val::N(k), n)) => if 0 <= k < cs.len() {
                match szf(cs[k], s.skip(n as int)) { None => None, Some(m) => Some(n + m) }
            } else { None },
            _ => None,
        })
{}
pub broadcast proof fn szf_conv(g: Box<Fmt>, to: spec_fn(Val) -> Option<Val>, from: spec_fn(Val) -> Val, s: Seq<u8>)
    ensures #[trigger] szf(Fmt::Conv(g, to, from), s) == (szf(*g, s))
{}
pub broadcast proof fn decf_env(g: Box<Fmt>, s: Seq<u8>)
    ensures #[trigger] decf(Fmt::Env(g), s) == (match frame(-2, s) {
            None => None,
            Some((a, n)) => match decf(*g, s.subrange(a as int, (a + n) as int)) { None => None, Some((v, m)) => Some((v, a + n)) },
        })
{}
pub broadcast proof fn decf_offs(k: nat, g: Box<Fmt>, s: Seq<u8>)
    ensures #[trigger] decf(Fmt::Offs(k, g), s) == (if s.len() >= 4 * k {
            match decf(*g, s.skip((4 * k) as int)) { None => None, Some((v, n)) => Some((v, 4 * k + n)) }
        } else { None })
{}
pub broadcast proof fn decf_tag(ks: Seq<int>, cs: Seq<Fmt>, s: Seq<u8>)
    ensures #[trigger] decf(Fmt::Tag(ks, cs), s) == (if s.len() < 1 { None } else {
            let i = s[0] as int % 32;
            if i < ks.len() && i < cs.len() && tag_class(s[0]) == kind_class(ks[i]) {
                match frame(ks[i], s.skip(1)) {
                    None => None,
                    Some((a, n)) => match decf(cs[i], s.skip(1).subrange(a as int, (a + n) as int)) { None => None, Some((v, m)) => Some((Val::V(i, seq![v]), 1 + a + n)) },
                }
            } else { None }
        })
{}
pub broadcast proof fn encf_env(g: Box<Fmt>, v: Val)
    ensures #[trigger] encf(Fmt::Env(g), v) == framed(-2, encf(*g, v))
{}
pub broadcast proof fn encf_offs(k: nat, g: Box<Fmt>, v: Val)
    ensures #[trigger] encf(Fmt::Offs(k, g), v) == offtab(*g, v, k, 4 * k) + encf(*g, v)
{}
pub broadcast proof fn encf_tag(ks: Seq<int>, cs: Seq<Fmt>, v: Val)
    ensures #[trigger] encf(Fmt::Tag(ks, cs), v) == (if 0 <= v->V_0 < ks.len() && v->V_0 < cs.len() {
            seq![(v->V_0 + 32 * kind_class(ks[v->V_0])) as u8] + framed(ks[v->V_0], encf(cs[v->V_0], v->V_1[0]))
        } else { Seq::empty() })
{}
pub broadcast proof fn okf_env(g: Box<Fmt>, v: Val)
    ensures #[trigger] okf(Fmt::Env(g), v) == (okf(*g, v) && encf(*g, v).len() < p256(4))
{}
pub broadcast proof fn okf_offs(k: nat, g: Box<Fmt>, v: Val)
    ensures #[trigger] okf(Fmt::Offs(k, g), v) == (okf(*g, v) && offtab(*g, v, k, 4 * k).len() == 4 * k)
{}
pub broadcast proof fn okf_tag(ks: Seq<int>, cs: Seq<Fmt>, v: Val)
    ensures #[trigger] okf(Fmt::Tag(ks, cs), v) == (v is V && 0 <= v->V_0 < 32 && v->V_0 < ks.len() && v->V_0 < cs.len() && v->V_1.len() == 1 && okf(cs[v->V_0], v->V_1[0])
            && frame_ok(ks[v->V_0], encf(cs[v->V_0], v->V_1[0]).len()))
{}
pub broadcast proof fn szf_env(g: Box<Fmt>, s: Seq<u8>)
    ensures #[trigger] szf(Fmt::Env(g), s) == (match frame(-2, s) { None => None, Some((a, n)) => Some(a + n) })
{}
pub broadcast proof fn szf_tag(ks: Seq<int>, cs: Seq<Fmt>, s: Seq<u8>)
    ensures #[trigger] szf(Fmt::Tag(ks, cs), s) == (if s.len() < 1 || tag_class(s[0]) == 3 { None } else {
            match frame(tag_kind(ks, s[0]), s.skip(1)) { None => None, Some((a, n)) => Some(1 + a + n) }
        })
{}
pub broadcast proof fn offtab_step(g: Fmt, v: Val, k: nat, off: nat)
    ensures #[trigger] offtab(g, v, k, off) == (if k == 0 { Seq::empty() } else if k == 1 { le_bytes(off, 4) } else {
        match g {
            Fmt::Pair(a, b) => le_bytes(off, 4) + offtab(*b, v->V_1[1], (k - 1) as nat, off + encf(*a, v->V_1[0]).len()),
            _ => Seq::empty(),
        }
    })
{}
pub broadcast group group_put { put_app, put_len, put1, put2, put3, offtab_step }
pub broadcast group group_opt { skip_take, decf_env, decf_offs, decf_tag, encf_env, encf_offs, encf_tag, okf_env, okf_offs, okf_tag, szf_env, szf_tag }
pub proof fn decn_step(g: Fmt, k: nat, s: Seq<u8>)
    ensures decn(g, 0, s) == Some((Seq::<Val>::empty(), 0nat)),
        decn(g, k + 1, s) == (match decn(g, k, s) {
            None => None,
            Some((vs, n)) => match decf(g, s.skip(n as int)) { None => None, Some((v, m)) => Some((vs.push(v), n + m)) },
        })
{ reveal_with_fuel(decn, 2); }
pub proof fn szn_step(g: Fmt, k: nat, s: Seq<u8>)
    ensures szn(g, 0, s) == Some(0nat),
        szn(g, k + 1, s) == (match szn(g, k, s) {
            None => None,
            Some(n) => match szf(g, s.skip(n as int)) { None => None, Some(m) => Some(n + m) },
        })
{ reveal_with_fuel(szn, 2); }
pub proof fn encn_step(g: Fmt, vs: Seq<Val>, v: Val)
    ensures encn(g, Seq::empty()) == Seq::<u8>::empty(), encn(g, vs.push(v)) == encn(g, vs) + encf(g, v),
{ assert(vs.push(v).drop_last() =~= vs); }
pub proof fn okn_step(g: Fmt, vs: Seq<Val>, v: Val)
    ensures okn(g, Seq::empty()), okn(g, vs.push(v)) == (okn(g, vs) && okf(g, v)),
{ assert(vs.push(v).drop_last() =~= vs); }
pub broadcast group group_all { group_vx, group_fmt }
pub broadcast group group_fmt { decf_fail, decf_unit, decf_u8, decf_uint, decf_raw, decf_bytes, decf_pair, decf_rep, decf_list, decf_sum, decf_conv, encf_fail, encf_unit, encf_u8, encf_uint, encf_raw, encf_bytes, encf_pair, encf_rep, encf_list, encf_sum, encf_conv, okf_fail, okf_unit, okf_u8, okf_uint, okf_raw, okf_bytes, okf_pair, okf_rep, okf_list, okf_sum, okf_conv, szf_fail, szf_unit, szf_u8, szf_uint, szf_raw, szf_bytes, szf_pair, szf_rep, szf_list, szf_sum, szf_conv }
/// a skip of format f moved the reader from `pre` to `post`
pub open spec fn skipped(f: Fmt, pre: Seq<u8>, post: Seq<u8>) -> bool {
    match szf(f, pre) { None => false, Some(n) => n <= pre.len() && post =~= pre.skip(n as int) }
}
/// if at least one more element decodes after k, it and its prefix do
pub proof fn decn_prefix(g: Fmt, k: nat, l: nat, s: Seq<u8>)
    requires k <= l
    ensures decn(g, k, s) is None ==> decn(g, l, s) is None
    decreases l
{ if k < l { decn_prefix(g, k, (l - 1) as nat, s); } }
pub proof fn szn_prefix(g: Fmt, k: nat, l: nat, s: Seq<u8>)
    requires k <= l
    ensures szn(g, k, s) is None ==> szn(g, l, s) is None
    decreases l
{ if k < l { szn_prefix(g, k, (l - 1) as nat, s); } }

} // mod __vx
} // verus!
