//!! data SliceReader
// private
//!! fn slice_reader::advance_read : C07 C08 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= $1 && (*final($0)).rem() =~= (*old($0)).rem().skip($1 as int),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= $1),
//!! begin slice_reader::advance_read
    let ghost n0 = $1 as int; let ghost s0 = (*old($0)).rem();
    proof { broadcast use group_vx; }
//!! loop slice_reader::advance_read
invariant
    0 <= n0 - $1 <= s0.len(), $1 <= n0,
    (*$0).rem() =~= s0.skip(n0 - $1),
    (*old($0)).reliable() ==> (*$0).reliable(),
decreases $1
//!! loopbegin slice_reader::advance_read
    proof { broadcast use group_vx; }
//!! fn SliceReader::new : C10
ensures __r.left() == $0@, __r.total() == $0@.len(),
//!! fn SliceReader::remaining : C10
ensures __r@ == self.left(),
//!! fn SliceReader::consumed_len : C10
ensures __r == self.total() - self.left().len(),
//!! fn SliceReader::consume : C10 C07
ensures
    __r is Ok <==> $0 <= (*old(self)).left().len(),
    __r is Ok ==> (*final(self)).left() == (*old(self)).left().skip($0 as int),
    __r is Err ==> *final(self) == *old(self),
    (*final(self)).total() == (*old(self)).total(),
//!! fn SliceReader::sub : C10
ensures
    // `offset` counts from the start of the original slice
    __r is Ok <==> $0 >= self.total() - self.left().len() && $0 + $1 <= self.total(),
    __r is Ok ==> __r->Ok_0.total() == $1
        && __r->Ok_0.left() =~= self.left().subrange($0 - (self.total() - self.left().len()), $0 - (self.total() - self.left().len()) + $1),
//!! fn Read for SliceReader::read : C10 C12
//!! begin SliceReader::consumed_len
    proof { use_type_invariant(&*self); }
//!! begin SliceReader::sub
    proof { use_type_invariant(&*self); }
//!! begin SliceReader::consume
    proof { use_type_invariant(&*self); }
//!! begin Read for SliceReader::read
    proof { use_type_invariant(&*self); }
//!! fn BorrowedReader for &[u8]::peek_bytes : C10 C16
//!! fn BorrowedReader for &[u8]::advance : C10 C16
//!! fn BorrowedReader for &[u8]::remaining : C10 C16
//!! fn BorrowedReader for &[u8]::position : C10
//!! fn BorrowedReader for &mut R::peek_bytes : C10 C16
//!! fn BorrowedReader for &mut R::advance : C10 C16
//!! fn BorrowedReader for &mut R::remaining : C10 C16
//!! fn BorrowedReader for &mut R::position : C10
//!! fn BorrowedReader for SliceReader::peek_bytes : C10 C16
//!! fn BorrowedReader for SliceReader::advance : C10 C16
//!! fn BorrowedReader for SliceReader::remaining : C10 C16
//!! fn BorrowedReader for SliceReader::position : C10
ensures __r == self.total() - self.left().len(),
//!! axiom slice_reader::read_borrowed_bytes : C10 C16
ensures
    __r is Ok <==> $1 <= (*old($0)).rem().len(),
    __r is Ok ==> __r->Ok_0@ == (*old($0)).rem().take($1 as int) && (*final($0)).rem() == (*old($0)).rem().skip($1 as int),
    __r is Err ==> (*final($0)).rem() == (*old($0)).rem(),
//!! fn slice_reader::take_bytes_slice : C10
ensures
    __r is Ok <==> $1 <= (*old($0))@.len(),
    __r is Ok ==> __r->Ok_0@ =~= (*old($0))@.take($1 as int) && (*final($0))@ =~= (*old($0))@.skip($1 as int),
    __r is Err ==> *final($0) == *old($0),
//!! fn slice_reader::take_bytes_reader : C10
ensures
    __r is Ok <==> $1 <= (*old($0)).left().len(),
    __r is Ok ==> __r->Ok_0@ =~= (*old($0)).left().take($1 as int) && (*final($0)).left() =~= (*old($0)).left().skip($1 as int),
    __r is Err ==> *final($0) == *old($0), (*final($0)).total() == (*old($0)).total(),
//!! begin slice_reader::take_bytes_reader
    proof { use_type_invariant(&*$0); }
//!! crate
::vstd::prelude::verus! {
pub mod __vxslice {
use vstd::prelude::*;
use super::__vx::*;
use super::__vxmode::*;
use super::__vxt::*;
use std::io;
use crate::slice_reader::*;
impl<'a> ReadSpecImpl for &'a [u8] {
    open spec fn rem(&self) -> Seq<u8> { (*self)@ }
    open spec fn reliable(&self) -> bool { true }
}
impl<'a, R: io::Read + ?Sized> ReadSpecImpl for &'a mut R {
    open spec fn rem(&self) -> Seq<u8> { (**self).rem() }
    open spec fn reliable(&self) -> bool { (**self).reliable() }
}
impl<'a> ReadSpecImpl for SliceReader<'a> {
    open spec fn rem(&self) -> Seq<u8> { self.left() }
    open spec fn reliable(&self) -> bool { true }
}
}
} // verus!
//!! mod slice_reader
::vstd::prelude::verus! {
impl<'a> SliceReader<'a> {
    pub closed spec fn left(&self) -> Seq<u8> { self.inner@ }
    pub closed spec fn total(&self) -> nat { self.original_len as nat }
    #[verifier::type_invariant]
    spec fn wf(&self) -> bool { self.inner@.len() <= self.original_len }
    pub proof fn bounds(tracked &self) ensures self.left().len() <= self.total(), self.total() <= usize::MAX
    { use_type_invariant(self); }
}
}
