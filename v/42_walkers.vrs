//!! data IndexedStructWalker
// private
//!! fn IndexedStructWalker::from_payload : C15 C16 C19 C20
ensures
    __r is Ok ==> (__r->Ok_0).pl() == $0@ && (__r->Ok_0).rev() == $1 && (__r->Ok_0).fc() == $2 && (__r->Ok_0).valid(),
    $0@.len() <= u32::MAX ==> (__r is Ok <==> struct_ok($0@, $2 as int)),
//!! begin IndexedStructWalker::from_payload
    proof { broadcast use sub_u32; let p = $2 as int * 4; slice_len_isize($0);
      if p <= $0@.len() { assert forall|i: int| #![trigger col($0@.take(p), i, 4)] #![trigger col($0@, i, 4)] 0 <= i < $2 implies col($0@.take(p), i, 4) == col($0@, i, 4) by { u32at_take($0@, p, i * 4); } 
          assert($0@.subrange(0, p) =~= $0@.take(p));
          if $2 > 0 { assert(col($0@, 0, 4) == u32at($0@, 0)); } } }
//!! fn IndexedStructWalker::from_payload_unvalidated : C15 C16
ensures
    __r is Ok <==> $0@.len() >= $2 * 4,
    __r is Ok ==> (__r->Ok_0).pl() == $0@ && (__r->Ok_0).rev() == $1 && (__r->Ok_0).fc() == $2,
//!! fn IndexedStructWalker::revision : C15 C20
ensures __r == self.rev(),
//!! fn IndexedStructWalker::field_count : C15 C20
ensures __r == self.fc(),
//!! fn IndexedStructWalker::field_bytes : C15 C16 C19 C20
requires $0 < self.fc() ==> self.valid(),
ensures __r is Ok <==> $0 < self.fc(), __r is Ok ==> __r->Ok_0@ =~= self.field($0 as int),
//!! begin IndexedStructWalker::field_bytes
    proof { use_type_invariant(self); slice_len_isize(self.payload); let i = $0 as int; let b = self.payload@;
       assert(col(b, i, 4) == u32at(b, i * 4)); assert(i + 1 < self.field_count ==> col(b, i + 1, 4) == u32at(b, (i + 1) * 4));  }
//!! fn IndexedStructWalker::decode_field : C15 C16 C19 C20
requires $0 < self.fc() ==> self.valid(),
ensures __r is Ok <==> $0 < self.fc() && dec::<T>(self.field($0 as int)) is Some,
    __r is Ok ==> (__r->Ok_0).model() == v_of(dec::<T>(self.field($0 as int))),
//!! fn IndexedStructWalker::offset : C15 C16
requires $0 < self.fc(),
ensures __r as nat == u32at(self.pl(), $0 * 4),
//!! begin IndexedStructWalker::offset
    broadcast use slice_to_array; proof { slice_to_array_obeys::<4>(); use_type_invariant(self); slice_len_isize(self.payload); }
//!! data FLAG_INDEXED
//!! data IndexedSeqWalker
// private
//!! fn IndexedSeqWalker<T>::from_payload : C15 C16
ensures
    __r is Ok ==> (__r->Ok_0).of($0@) && (__r->Ok_0).valid(),
    $0@.len() <= u32::MAX ==> (__r is Ok <==> seq_ok($0@)),
//!! fn IndexedSeqWalker<T>::from_payload_unvalidated : C15 C16
ensures
    __r is Ok ==> (__r->Ok_0).of($0@),
    __r is Ok <==> seq_hdr($0@) is Some,
//!! fn IndexedSeqWalker<T>::from_payload_inner : C15 C16
ensures
    __r is Ok ==> (__r->Ok_0).of($0@) && ($1 ==> (__r->Ok_0).valid()),
    !$1 ==> (__r is Ok <==> seq_hdr($0@) is Some),
    $1 && $0@.len() <= u32::MAX ==> (__r is Ok <==> seq_ok($0@)),
//!! begin IndexedSeqWalker<T>::from_payload_inner
    broadcast use skip_skip; proof { slice_len_isize($0); if $0@.len() > 0 { flag_bit($0@[0]); vlen_bound($0@.skip(1)); } }
//!! fn IndexedSeqWalker<T>::offset_at : C15 C16
requires $1 * 4 + 4 <= $0@.len(),
ensures __r as nat == col($0@, $1 as int, 4),
//!! begin IndexedSeqWalker<T>::offset_at
    proof { slice_len_isize($0); }
//!! fn IndexedSeqWalker<T>::len : C15
ensures __r as int == self.n(),
//!! fn IndexedSeqWalker<T>::is_empty : C15
ensures __r <==> self.n() == 0,
//!! fn IndexedSeqWalker<T>::is_indexed : C15
ensures __r <==> self.indexed(),
//!! fn IndexedSeqWalker<T>::body : C15
ensures __r@ == self.bd(),
//!! fn IndexedSeqWalker<T>::element_bytes : C15 C16
requires $0 < self.n() && self.indexed() ==> self.valid(),
ensures __r is Ok <==> self.indexed() && $0 < self.n(), __r is Ok ==> __r->Ok_0@ =~= self.elem($0 as int),
//!! begin IndexedSeqWalker<T>::element_bytes
    proof { use_type_invariant(self); let i = $0 as int; if self.indexed() && i < self.n() { let b = self.table();
       assert(col(b, i, 4) >= 0); assert(i + 1 < self.n() ==> col(b, i, 4) < col(b, i + 1, 4));  } }
//!! fn seq_walk::read_varint : C15 C16
ensures
    __r is Ok <==> vlen($0@) is Some,
    __r is Ok ==> vlen($0@) == Some((__r->Ok_0.0 as nat, __r->Ok_0.1 as nat)),
//!! begin seq_walk::read_varint
    broadcast use {slice_to_array, group_vx}; proof { p256_vals(); slice_to_array_obeys::<4>(); slice_to_array_obeys::<8>(); if $0@.len() >= 3 { assert(seq![$0@[1], $0@[2]] =~= $0@.subrange(1, 3)); } }
//!! crate
::vstd::prelude::verus! {
pub mod __vxwalk {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use super::__vx::*;
use super::__vxidx::*;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(std::array::TryFromSliceError);
/// std: a byte slice converts to an array of exactly its length
#[verifier::external_body]
pub broadcast proof fn slice_to_array<const N: usize>(a: &[u8])
    ensures (#[trigger] <&[u8] as TryIntoSpec<[u8; N]>>::try_into_spec(a)) is Ok <==> a@.len() == N,
        <&[u8] as TryIntoSpec<[u8; N]>>::try_into_spec(a) is Ok ==> (<&[u8] as TryIntoSpec<[u8; N]>>::try_into_spec(a)->Ok_0)@ == a@,
{}
#[verifier::external_body]
pub proof fn slice_to_array_obeys<const N: usize>()
    ensures <&[u8] as TryIntoSpec<[u8; N]>>::obeys_try_into_spec()
{}
pub broadcast proof fn sub_u32(b: Seq<u8>, p: int, o: int)
    requires 0 <= o, o + 4 <= p <= b.len()
    ensures #[trigger] u32at(b.subrange(0, p), o) == u32at(b, o)
{ assert(b.subrange(0, p).subrange(o, o + 4) =~= b.subrange(o, o + 4)); }
pub proof fn u32at_take(b: Seq<u8>, p: int, o: int)
    requires 0 <= o, o + 4 <= p <= b.len()
    ensures u32at(b.take(p), o) == u32at(b, o)
{ assert(b.take(p).subrange(o, o + 4) =~= b.subrange(o, o + 4)); }
pub proof fn flag_bit(b: u8) ensures (b & 1) != 0 <==> b % 2 == 1 { assert((b & 1) != 0 <==> b % 2 == 1) by (bit_vector); }
/// a length written inside an indexed payload: a variable-width integer in both build modes
pub open spec fn vlen(s: Seq<u8>) -> Option<(nat, nat)> {
    if s.len() < 1 { None }
    else if s[0] < 251 { Some((s[0] as nat, 1)) }
    else if s[0] == 251 { if s.len() >= 3 { Some((le_val(s.subrange(1, 3)), 3)) } else { None } }
    else if s[0] == 252 { if s.len() >= 5 { Some((le_val(s.subrange(1, 5)), 5)) } else { None } }
    else if s[0] == 253 { if s.len() >= 9 { Some((le_val(s.subrange(1, 9)), 9)) } else { None } }
    else { None }
}
pub proof fn vlen_bound(s: Seq<u8>) ensures vlen(s) is Some ==> n_of(vlen(s)) <= s.len() && v_of(vlen(s)) < p256(8)
{ broadcast use group_vx; p256_vals(); }
/// header of an indexed sequence: (indexed, length, header size incl. offset table)
pub open spec fn seq_hdr(p: Seq<u8>) -> Option<(bool, nat, nat)> {
    if p.len() < 1 { None } else { match vlen(p.skip(1)) {
        None => None,
        Some((n, k)) => if p[0] % 2 == 0 { Some((false, n, 1 + k)) }
            else if p.len() >= 1 + k + 4 * n { Some((true, n, 1 + k + 4 * n)) } else { None } } }
}
pub open spec fn seq_table(p: Seq<u8>) -> Seq<u8> { let h = seq_hdr(p).unwrap(); p.subrange(h.2 - 4 * h.1, h.2 as int) }
pub open spec fn seq_ok(p: Seq<u8>) -> bool {
    seq_hdr(p) is Some && (seq_hdr(p).unwrap().0 ==> offs_ok(seq_table(p), seq_hdr(p).unwrap().1 as int, 4, p.len() - seq_hdr(p).unwrap().2))
}
/// a well-formed indexed-struct payload with n fields
pub open spec fn struct_ok(b: Seq<u8>, n: int) -> bool {
    b.len() >= n * 4 && offs_ok(b, n, 4, b.len() as int) && (n > 0 ==> col(b, 0, 4) >= n * 4)
}
}
}
//!! mod optimised::indexed::struct_walk
::vstd::prelude::verus! {
impl<'p> IndexedStructWalker<'p> {
    pub closed spec fn pl(&self) -> Seq<u8> { self.payload@ }
    pub closed spec fn fc(&self) -> int { self.field_count as int }
    pub closed spec fn rev(&self) -> int { self.revision as int }
    #[verifier::type_invariant]
    spec fn wf(&self) -> bool { self.payload@.len() >= self.field_count * 4 }
    pub open spec fn valid(&self) -> bool { struct_ok(self.pl(), self.fc()) }
    pub open spec fn field(&self, i: int) -> Seq<u8> { part(self.pl(), self.pl(), i, self.fc(), 4) }
}
}
//!! mod optimised::indexed::seq_walk
::vstd::prelude::verus! {
impl<'p, T> IndexedSeqWalker<'p, T> {
    pub closed spec fn bd(&self) -> Seq<u8> { self.body@ }
    pub closed spec fn n(&self) -> int { self.len as int }
    pub closed spec fn indexed(&self) -> bool { self.offsets is Some }
    pub closed spec fn table(&self) -> Seq<u8> { self.offsets->0@ }
    #[verifier::type_invariant]
    spec fn wf(&self) -> bool { self.offsets is Some ==> self.offsets->0@.len() == self.len * 4 }
    /// opened over payload p
    pub open spec fn of(&self, p: Seq<u8>) -> bool {
        seq_hdr(p) == Some((self.indexed(), self.n() as nat, (p.len() - self.bd().len()) as nat)) && self.bd() == p.skip(p.len() - self.bd().len())
        && (self.indexed() ==> self.table() == seq_table(p))
    }
    pub open spec fn valid(&self) -> bool { self.indexed() ==> offs_ok(self.table(), self.n(), 4, self.bd().len() as int) }
    pub open spec fn elem(&self, i: int) -> Seq<u8> { part(self.bd(), self.table(), i, self.n(), 4) }
}
}
