//!! tail derived
::vstd::prelude::verus! {
pub mod __vxdt {
use vstd::prelude::*;
use std::io;
use super::__vx::*;
use super::__vxmode::*;
use super::__vxt::*;
use crate::__vxd::*;
use crate::{Revisioned, SerializeRevisioned, DeserializeRevisioned, SkipRevisioned, SkipCheckRevisioned, Error};
use crate::implementations::specialised::{SerializeRevisionedSpecialised, DeserializeRevisionedSpecialised};
use crate::optimised::indexed::{IndexedSeqEncoded, IndexedMapEncoded, IndexedSetEncoded};
use crate::slice_reader::{SliceReader, BorrowedReader};

// the encodings a field can be declared with, abstractly: each has its own wire format
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(SpecialisedSpec via SpecialisedSpecImpl)]
pub trait ExSerializeRevisionedSpecialised: Revisioned + SerializeRevisioned {
    type ExternalTraitSpecificationFor: SerializeRevisionedSpecialised;
    spec fn sfmt() -> Fmt;
    fn serialize_revisioned_specialised<W: io::Write>(&self, w: &mut W) -> (r: Result<(), Error>)
        ensures
            r is Ok ==> okf(Self::sfmt(), self.model())
                && (*final(w)).written() =~= (*old(w)).written() + encf(Self::sfmt(), self.model()),
            (*old(w)).wreliable() ==> (*final(w)).wreliable() && (okf(Self::sfmt(), self.model()) ==> r is Ok);
}
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(DeSpecialisedSpec via DeSpecialisedSpecImpl)]
pub trait ExDeserializeRevisionedSpecialised: Revisioned + DeserializeRevisioned {
    type ExternalTraitSpecificationFor: DeserializeRevisionedSpecialised;
    spec fn dsfmt() -> Fmt;
    fn deserialize_revisioned_specialised<R: io::Read>(r: &mut R) -> (res: Result<Self, Error>)
        where Self: Sized
        ensures
            res is Ok ==> took(decf(Self::dsfmt(), (*old(r)).rem()), (*old(r)).rem(), (*final(r)).rem(), (res->Ok_0).model()),
            (*old(r)).reliable() ==> (*final(r)).reliable()
                && (res is Ok <==> decf(Self::dsfmt(), (*old(r)).rem()) is Some);
}
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ISeqSpec via ISeqSpecImpl)]
pub trait ExIndexedSeqEncoded: Sized {
    type ExternalTraitSpecificationFor: IndexedSeqEncoded;
    type Item;
    spec fn xfmt() -> Fmt;
    spec fn xmodel(&self) -> Val;
    fn serialize_indexed_seq<W: io::Write>(&self, w: &mut W) -> (r: Result<(), Error>)
        ensures
            r is Ok ==> okf(Self::xfmt(), self.xmodel()) && (*final(w)).written() =~= (*old(w)).written() + encf(Self::xfmt(), self.xmodel()),
            (*old(w)).wreliable() ==> (*final(w)).wreliable() && (okf(Self::xfmt(), self.xmodel()) ==> r is Ok);
    fn deserialize_indexed_seq<R: io::Read>(r: &mut R) -> (res: Result<Self, Error>)
        ensures
            res is Ok ==> took(decf(Self::xfmt(), (*old(r)).rem()), (*old(r)).rem(), (*final(r)).rem(), (res->Ok_0).xmodel()),
            (*old(r)).reliable() ==> (*final(r)).reliable() && (res is Ok <==> decf(Self::xfmt(), (*old(r)).rem()) is Some);
    fn skip_indexed_seq<R: BorrowedReader>(r: &mut R) -> (res: Result<(), Error>)
        ensures
            res is Ok ==> skipped(Self::xfmt(), (*old(r)).rem(), (*final(r)).rem()),
            (*old(r)).reliable() ==> (*final(r)).reliable() && (decf(Self::xfmt(), (*old(r)).rem()) is Some ==> res is Ok);
}
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(IMapSpec via IMapSpecImpl)]
pub trait ExIndexedMapEncoded: Sized {
    type ExternalTraitSpecificationFor: IndexedMapEncoded;
    type Key; type Value;
    spec fn xfmt() -> Fmt;
    spec fn xmodel(&self) -> Val;
    fn serialize_indexed_map<W: io::Write>(&self, w: &mut W) -> (r: Result<(), Error>)
        ensures
            r is Ok ==> okf(Self::xfmt(), self.xmodel()) && (*final(w)).written() =~= (*old(w)).written() + encf(Self::xfmt(), self.xmodel()),
            (*old(w)).wreliable() ==> (*final(w)).wreliable() && (okf(Self::xfmt(), self.xmodel()) ==> r is Ok);
    fn deserialize_indexed_map<R: io::Read>(r: &mut R) -> (res: Result<Self, Error>)
        ensures
            res is Ok ==> took(decf(Self::xfmt(), (*old(r)).rem()), (*old(r)).rem(), (*final(r)).rem(), (res->Ok_0).xmodel()),
            (*old(r)).reliable() ==> (*final(r)).reliable() && (res is Ok <==> decf(Self::xfmt(), (*old(r)).rem()) is Some);
    fn skip_indexed_map<R: BorrowedReader>(r: &mut R) -> (res: Result<(), Error>)
        ensures
            res is Ok ==> skipped(Self::xfmt(), (*old(r)).rem(), (*final(r)).rem()),
            (*old(r)).reliable() ==> (*final(r)).reliable() && (decf(Self::xfmt(), (*old(r)).rem()) is Some ==> res is Ok);
}
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ISetSpec via ISetSpecImpl)]
pub trait ExIndexedSetEncoded: Sized {
    type ExternalTraitSpecificationFor: IndexedSetEncoded;
    type Item;
    spec fn xfmt() -> Fmt;
    spec fn xmodel(&self) -> Val;
    fn serialize_indexed_set<W: io::Write>(&self, w: &mut W) -> (r: Result<(), Error>)
        ensures
            r is Ok ==> okf(Self::xfmt(), self.xmodel()) && (*final(w)).written() =~= (*old(w)).written() + encf(Self::xfmt(), self.xmodel()),
            (*old(w)).wreliable() ==> (*final(w)).wreliable() && (okf(Self::xfmt(), self.xmodel()) ==> r is Ok);
    fn deserialize_indexed_set<R: io::Read>(r: &mut R) -> (res: Result<Self, Error>)
        ensures
            res is Ok ==> took(decf(Self::xfmt(), (*old(r)).rem()), (*old(r)).rem(), (*final(r)).rem(), (res->Ok_0).xmodel()),
            (*old(r)).reliable() ==> (*final(r)).reliable() && (res is Ok <==> decf(Self::xfmt(), (*old(r)).rem()) is Some);
    fn skip_indexed_set<R: BorrowedReader>(r: &mut R) -> (res: Result<(), Error>)
        ensures
            res is Ok ==> skipped(Self::xfmt(), (*old(r)).rem(), (*final(r)).rem()),
            (*old(r)).reliable() ==> (*final(r)).reliable() && (decf(Self::xfmt(), (*old(r)).rem()) is Some ==> res is Ok);
}
/// what the decoder of a body stored at revision `rev` yields: the body, then the migration to the latest revision
pub open spec fn dec_body(bodies: Seq<Fmt>, up: spec_fn(Val) -> Option<Val>, rev: u16, s: Seq<u8>) -> Option<(Val, nat)> {
    if 0 <= rev < bodies.len() {
        match decf(bodies[rev as int], s) {
            None => None,
            Some((v, n)) => match up(Val::V(rev as int, seq![v])) { None => None, Some(u) => Some((u, n)) },
        }
    } else { None }
}
/// one conversion function applied after the ones before it
pub open spec fn conv_step(x: Option<Val>, f: spec_fn(Val) -> Option<Val>) -> Option<Val> { match x { None => None, Some(m) => f(m) } }
/// wrapping a value as enum variant `k`
pub open spec fn wrap(k: int, x: Option<Val>) -> Option<Val> { match x { None => None, Some(m) => Some(Val::V(k, seq![m])) } }
/// a signed fixed-width integer: two's complement little endian
pub open spec fn fixed_z(w: nat) -> Fmt {
    Fmt::Conv(Box::new(Fmt::Raw(w)), |v: Val| Some(Val::N(untwos(v->N_0 as nat, w))), |v: Val| Val::N(twos(v->N_0, w) as int))
}
pub proof fn fixed_facts()
    ensures
        forall|x: i32| untwos(#[trigger] twos(x as int, 4), 4) == x as int && twos(x as int, 4) < p256(4),
        forall|x: i64| untwos(#[trigger] twos(x as int, 8), 8) == x as int && twos(x as int, 8) < p256(8),
        forall|x: i128| untwos(#[trigger] twos(x as int, 16), 16) == x as int && twos(x as int, 16) < p256(16),
{ p256_vals(); }
//@@TYPES
} // mod
} // verus!
