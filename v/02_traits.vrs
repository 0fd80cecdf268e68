//!! globs on
//!! drop mod prelude
//!! crate
::vstd::prelude::verus! {
pub mod __vxt {
use vstd::prelude::*;
use std::io;
use super::__vx::*;
use super::__vxmode::*;
use crate::{Revisioned, SerializeRevisioned, DeserializeRevisioned, SkipRevisioned, SkipCheckRevisioned, Error};
use crate::slice_reader::{SliceReader, BorrowedReader};

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(RevSpec via RevSpecImpl)]
pub trait ExRevisioned {
    type ExternalTraitSpecificationFor: Revisioned;
    /// wire format
    spec fn fmt() -> Fmt;
    /// abstract value
    spec fn model(&self) -> Val;
    fn revision() -> u16;
}
/// the bytes of a value of type T
pub open spec fn enc<T: Revisioned>(x: &T) -> Seq<u8> { encf(T::fmt(), x.model()) }
pub open spec fn ok<T: Revisioned>(x: &T) -> bool { okf(T::fmt(), x.model()) }
pub open spec fn dec<T: Revisioned>(s: Seq<u8>) -> Option<(Val, nat)> { decf(T::fmt(), s) }

#[verifier::external_trait_specification]
pub trait ExSerializeRevisioned: Revisioned {
    type ExternalTraitSpecificationFor: SerializeRevisioned;
    fn serialize_revisioned<W: io::Write>(&self, w: &mut W) -> (r: Result<(), Error>)
        ensures
            r is Ok ==> okf(Self::fmt(), self.model())
                && (*final(w)).written() =~= (*old(w)).written() + encf(Self::fmt(), self.model()),
            (*old(w)).wreliable() ==> (*final(w)).wreliable() && (okf(Self::fmt(), self.model()) ==> r is Ok);
}
#[verifier::external_trait_specification]
pub trait ExDeserializeRevisioned: Revisioned {
    type ExternalTraitSpecificationFor: DeserializeRevisioned;
    fn deserialize_revisioned<R: io::Read>(r: &mut R) -> (res: Result<Self, Error>)
        where Self: Sized
        ensures
            res is Ok ==> took(decf(Self::fmt(), (*old(r)).rem()), (*old(r)).rem(), (*final(r)).rem(), (res->Ok_0).model()),
            (*old(r)).reliable() ==> (*final(r)).reliable()
                && (res is Ok <==> decf(Self::fmt(), (*old(r)).rem()) is Some);
}
#[verifier::external_trait_specification]
pub trait ExSkipRevisioned: Revisioned {
    type ExternalTraitSpecificationFor: SkipRevisioned;
    fn skip_revisioned<R: io::Read>(r: &mut R) -> (res: Result<(), Error>)
        ensures
            res is Ok ==> skipped(Self::fmt(), (*old(r)).rem(), (*final(r)).rem()),
            (*old(r)).reliable() ==> (*final(r)).reliable() && (decf(Self::fmt(), (*old(r)).rem()) is Some ==> res is Ok);
    fn skip_revisioned_slice(r: &mut SliceReader<'_>) -> (res: Result<(), Error>)
        ensures
            res is Ok ==> skipped(Self::fmt(), (*old(r)).left(), (*final(r)).left()),
            decf(Self::fmt(), (*old(r)).left()) is Some ==> res is Ok;
}
#[verifier::external_trait_specification]
pub trait ExSkipCheckRevisioned: Revisioned {
    type ExternalTraitSpecificationFor: SkipCheckRevisioned;
    fn skip_check_revisioned<R: io::Read>(r: &mut R) -> (res: Result<(), Error>)
        ensures
            res is Ok ==> skipped(Self::fmt(), (*old(r)).rem(), (*final(r)).rem()),
            (*old(r)).reliable() ==> (*final(r)).reliable() && (decf(Self::fmt(), (*old(r)).rem()) is Some ==> res is Ok);
}
#[verifier::external_trait_specification]
pub unsafe trait ExBorrowedReader: io::Read {
    type ExternalTraitSpecificationFor: BorrowedReader;
    fn peek_bytes(&self, n: usize) -> (res: Result<&[u8], Error>)
        ensures
            res is Ok <==> n <= self.rem().len(),
            res is Ok ==> res->Ok_0@ =~= self.rem().take(n as int);
    fn advance(&mut self, n: usize) -> (res: Result<(), Error>)
        ensures
            res is Ok <==> n <= (*old(self)).rem().len(),
            res is Ok ==> (*final(self)).rem() =~= (*old(self)).rem().skip(n as int),
            res is Err ==> (*final(self)).rem() == (*old(self)).rem(),
            (*old(self)).reliable() ==> (*final(self)).reliable();
    fn remaining(&self) -> (res: &[u8])
        ensures res@ =~= self.rem();
    fn position(&self) -> (res: usize);
}

pub open spec fn models<T: Revisioned>(s: Seq<T>) -> Seq<Val> { Seq::new(s.len(), |i: int| s[i].model()) }
pub proof fn okn_all(g: Fmt, vs: Seq<Val>, i: int)
    requires 0 <= i <= vs.len()
    ensures okn(g, vs) ==> okn(g, vs.take(i))
    decreases vs.len() - i
{
    if i < vs.len() {
        okn_all(g, vs, i + 1);
        assert(vs.take(i + 1) =~= vs.take(i).push(vs[i]));
        okn_step(g, vs.take(i), vs[i]);
    } else { assert(vs.take(i) =~= vs); }
}
} // mod
} // verus!
//!! drop trait BenchVecPerElement
