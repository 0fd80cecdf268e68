use revision_derive::revisioned;
use crate::Error;
pub struct F0(u8);
pub struct F1(u8);
pub struct F2(u8);
pub struct F3(u8);
#[revisioned(revision = 1)]
pub struct Da;
impl Da {
}
#[revisioned(revision = 3)]
pub struct Db { pub f0: F0, #[revision(start = 2, default_fn = "d_1")] pub f1: F1, #[revision(end = 3, convert_fn = "c_2")] pub f2: F2, #[revision(start = 3)] pub f3: F3 }
impl Db {
    fn d_1(rev: u16) -> Result<F1, Error> { unimplemented!() }
    fn c_2(&mut self, rev: u16, prev: F2) -> Result<(), Error> { unimplemented!() }
}
#[revisioned()]
#[revision(revision(1), revision(2), revision(3))]
pub struct Dc(#[revision(end = 2, convert_fn = "c_0")] pub F0, #[revision(start = 2)] pub F1, pub F2, #[revision(start = 2, end = 3, convert_fn = "c_3")] pub F3);
impl Dc {
    fn c_0(&mut self, rev: u16, prev: F0) -> Result<(), Error> { unimplemented!() }
    fn c_3(&mut self, rev: u16, prev: F3) -> Result<(), Error> { unimplemented!() }
}
#[revisioned(revision = 2)]
pub enum Dd {
    X,
    #[revision(end = 2, convert_fn = "cv_1")] Y(F0),
    Z { f0: F1, #[revision(start = 2)] f1: F2, #[revision(end = 2, convert_fn = "c_2_2")] f2: F3 },
}
impl Dd {
    fn cv_1(x: DdYFields, rev: u16) -> Result<Self, Error> { unimplemented!() }
    fn c_2_2(x: &mut DdZFields, rev: u16, prev: F3) -> Result<(), Error> { unimplemented!() }
}
#[revisioned(revision(3), revision(2), revision(1))]
pub enum De {
    P(#[revision(end = 3, convert_fn = "c_0_0")] F0, F1),
    #[revision(start = 2)] Q { f0: F2, #[revision(start = 3, default_fn = "d_1_1")] f1: F3 },
    #[revision(end = 3, convert_fn = "cv_2")] R,
    #[revision(override(revision = 3, discriminant = 4))] S(F0),
}
impl De {
    fn c_0_0(x: &mut DePFields, rev: u16, prev: F0) -> Result<(), Error> { unimplemented!() }
    fn d_1_1(rev: u16) -> Result<F3, Error> { unimplemented!() }
    fn cv_2(x: DeRFields, rev: u16) -> Result<Self, Error> { unimplemented!() }
}
#[revisioned(revision(1), revision(2, optimised))]
pub struct Df { pub f0: F0, #[revision(start = 2)] pub f1: F1, #[revision(end = 2, convert_fn = "c_2")] pub f2: F2 }
impl Df {
    fn c_2(&mut self, rev: u16, prev: F2) -> Result<(), Error> { unimplemented!() }
}
#[revisioned(revision(3, optimised, indexed_struct), revision(2, optimised), revision(1))]
pub struct Dg { pub f0: F0, #[revision(indexed_seq)] pub f1: F1, #[revision(start = 2, indexed_map)] pub f2: F2 }
impl Dg {
}
#[revisioned(revision = 2)]
pub struct Dh { #[revision(fixed)] pub f0: u64, #[revision(end = 2, convert_fn = "c_1", fixed)] pub f1: i32, #[revision(specialised)] pub f2: F0, #[revision(end = 2, convert_fn = "c_3", specialised)] pub f3: F1 }
impl Dh {
    fn c_1(&mut self, rev: u16, prev: i32) -> Result<(), Error> { unimplemented!() }
    fn c_3(&mut self, rev: u16, prev: F1) -> Result<(), Error> { unimplemented!() }
}
#[revisioned(revision(1, optimised), revision(2, optimised))]
pub enum Di {
    #[revision(size = "inline")] A,
    #[revision(size = "fixed(5)")] B(f32, u8),
    #[revision(size = "varlen")] C { f0: F0, f1: F1 },
    #[revision(start = 2, size = "varlen")] D(F2),
}
impl Di {
}
#[revisioned(revision(1), revision(2, optimised))]
pub enum Dj {
    #[revision(size = "inline")] A,
    #[revision(size = "varlen")] B(F0, #[revision(start = 2)] F1),
    #[revision(end = 2, convert_fn = "cv_2", size = "varlen")] C(F2),
}
impl Dj {
    fn cv_2(x: DjCFields, rev: u16) -> Result<Self, Error> { unimplemented!() }
}
#[revisioned(revision(1, optimised), revision(2, optimised), revision(3, optimised))]
pub enum Dn {
    #[revision(size = "varlen")] A { #[revision(end = 2, convert_fn = "c_0_0")] f0: F0, #[revision(start = 2, default_fn = "d_0_1")] f1: F1, f2: F2 },
    #[revision(end = 3, convert_fn = "cv_1", size = "inline")] B,
    #[revision(size = "fixed(4)", override(revision = 2, discriminant = 9))] C(f32),
    #[revision(end = 2, convert_fn = "cv_3", size = "varlen")] E(F3),
    #[revision(start = 2, size = "varlen")] G(#[revision(start = 3)] F3, #[revision(end = 3, convert_fn = "c_4_1")] F1),
}
impl Dn {
    fn c_0_0(x: &mut DnAFields, rev: u16, prev: F0) -> Result<(), Error> { unimplemented!() }
    fn d_0_1(rev: u16) -> Result<F1, Error> { unimplemented!() }
    fn cv_1(x: DnBFields, rev: u16) -> Result<Self, Error> { unimplemented!() }
    fn cv_3(x: DnEFields, rev: u16) -> Result<Self, Error> { unimplemented!() }
    fn c_4_1(x: &mut DnGFields, rev: u16, prev: F1) -> Result<(), Error> { unimplemented!() }
}
#[revisioned(revision(1, optimised), revision(2, optimised, indexed_struct), revision(3, optimised))]
pub struct Do { #[revision(end = 3, convert_fn = "c_0")] pub f0: F0, #[revision(start = 2, default_fn = "d_1")] pub f1: F1, #[revision(end = 2, convert_fn = "c_2")] pub f2: F2, #[revision(start = 3)] pub f3: F3 }
impl Do {
    fn c_0(&mut self, rev: u16, prev: F0) -> Result<(), Error> { unimplemented!() }
    fn d_1(rev: u16) -> Result<F1, Error> { unimplemented!() }
    fn c_2(&mut self, rev: u16, prev: F2) -> Result<(), Error> { unimplemented!() }
}
#[revisioned(revision(1, optimised, indexed_struct), revision(2, optimised, indexed_struct))]
pub struct Dl(pub F0, #[revision(start = 2, default_fn = "d_1")] pub F1);
impl Dl {
    fn d_1(rev: u16) -> Result<F1, Error> { unimplemented!() }
}
#[revisioned(revision(1, optimised, indexed_struct))]
pub struct Dm { #[revision(indexed_map)] pub f0: F0 }
impl Dm {
}
#[revisioned(revision(1), revision(2, optimised, indexed_struct), revision(3, optimised))]
pub struct Dk(#[revision(end = 3, convert_fn = "c_0", fixed)] pub u64, #[revision(indexed_set)] pub F0, #[revision(start = 2, default_fn = "d_2")] pub F1);
impl Dk {
    fn c_0(&mut self, rev: u16, prev: u64) -> Result<(), Error> { unimplemented!() }
    fn d_2(rev: u16) -> Result<F1, Error> { unimplemented!() }
}
