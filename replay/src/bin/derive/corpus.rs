// @generated by /verif/gen/corpus.py - do not edit
#![allow(dead_code, unused_imports, clippy::all)]
use super::rt::*;
use super::w::*;
use crate::spec::*;
use crate::*;
use replay::idx;
use replay::rep::Rep;
use revision::*;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;
#[revisioned(revision = 1)]
#[derive(Debug, Clone)]
pub struct H1;
impl H1 {
}
impl Spec for H1 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { true }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; H1 }) }
}
impl Hist for H1 {
    const LATEST: u16 = 1;
    const REVISION: u16 = H1::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => {  }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 0);
        match rev {
            1 => {
                #[allow(unused_mut)]
                let mut v = H1;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if H1::walk_revisioned_field_names(1) != [] as [&str; 0] { return Err("field names at revision 1".into()) }
        if !H1::walk_revisioned_field_names(0).is_empty() || !H1::walk_revisioned_field_names(2).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for H1 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 0, sh.any_order) {
            match i {
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision = 3)]
#[derive(Debug, Clone)]
pub struct H2 { pub f0: u32, #[revision(start = 2, default_fn = "d_1")] pub f1: String, #[revision(end = 3, convert_fn = "c_2")] pub f2: u16, pub acc: u64, #[revision(start = 3)] pub f4: Option<u32> }
impl H2 {
    fn d_1(rev: u16) -> Result<String, Error> { Ok(dflt::<String>(rev, 1)) }
    fn c_2(&mut self, rev: u16, v: u16) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
}
impl Spec for H2 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        o.extend(enc1::<Plain, u32>(&self.f0));
        o.extend(enc1::<Plain, String>(&self.f1));
        o.extend(enc1::<Plain, u64>(&self.acc));
        o.extend(enc1::<Plain, Option<u32>>(&self.f4));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.acc.same(&o.acc) && self.f4.same(&o.f4) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; H2 { f0: <u32 as Spec>::random(g), f1: <String as Spec>::random(g), acc: <u64 as Spec>::random(g), f4: <Option<u32> as Spec>::random(g) } }) }
}
impl Hist for H2 {
    const LATEST: u16 = 3;
    const REVISION: u16 = H2::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u64>(g)); }
            2 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u64>(g)); }
            3 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, Option<u32>>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 4);
        sh.conv = rev != 3;
        match rev {
            1 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(1, 1);
                let f2 = rd::<Plain, u16>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                let f4 = <Option<u32> as Default>::default();
                #[allow(unused_mut)]
                let mut v = H2 { f0: f0, f1: f1, acc: f3, f4: f4 };
                v.acc = mix(v.acc, 1, &f2.bytes());
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, u16>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                let f4 = <Option<u32> as Default>::default();
                #[allow(unused_mut)]
                let mut v = H2 { f0: f0, f1: f1, acc: f3, f4: f4 };
                v.acc = mix(v.acc, 2, &f2.bytes());
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                let f4 = rd::<Plain, Option<u32>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = H2 { f0: f0, f1: f1, acc: f3, f4: f4 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if H2::walk_revisioned_field_names(1) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 1".into()) }
        if H2::walk_revisioned_field_names(2) != ["f0", "f1", "f2", "acc"] as [&str; 4] { return Err("field names at revision 2".into()) }
        if H2::walk_revisioned_field_names(3) != ["f0", "f1", "acc", "f4"] as [&str; 4] { return Err("field names at revision 3".into()) }
        if !H2::walk_revisioned_field_names(0).is_empty() || !H2::walk_revisioned_field_names(4).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for H2 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_acc().is_ok() && w.decode_f4().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(12) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_acc(); } 7 => { let _ = w.skip_acc(); } 8 => { let _ = w.walk_acc(); }
                    9 => { let _ = w.decode_f4(); } 10 => { let _ = w.skip_f4(); } 11 => { let _ = w.walk_f4(); }
                    _ => {} } }
                match g.below(9) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_acc(); } 5 => { let _ = w.into_acc_bytes(); }
                    6 => { let _ = w.into_walk_f4(); } 7 => { let _ = w.into_f4_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 4, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u32, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, String, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, u64, Plain, false, acc, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
                3 => sfield!(plain w c g v sh R; 3, Option<u32>, Plain, false, f4, decode_f4, skip_f4, walk_f4, into_walk_f4, into_f4_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(3), revision(2), revision(1))]
#[derive(Debug, Clone)]
pub struct H3 { pub f0: u32, #[revision(start = 2, default_fn = "d_1")] pub f1: String, #[revision(end = 3, convert_fn = "c_2")] pub f2: u16, pub acc: u64, #[revision(start = 3)] pub f4: Option<u32> }
impl H3 {
    fn d_1(rev: u16) -> Result<String, Error> { Ok(dflt::<String>(rev, 1)) }
    fn c_2(&mut self, rev: u16, v: u16) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
}
impl Spec for H3 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        o.extend(enc1::<Plain, u32>(&self.f0));
        o.extend(enc1::<Plain, String>(&self.f1));
        o.extend(enc1::<Plain, u64>(&self.acc));
        o.extend(enc1::<Plain, Option<u32>>(&self.f4));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.acc.same(&o.acc) && self.f4.same(&o.f4) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; H3 { f0: <u32 as Spec>::random(g), f1: <String as Spec>::random(g), acc: <u64 as Spec>::random(g), f4: <Option<u32> as Spec>::random(g) } }) }
}
impl Hist for H3 {
    const LATEST: u16 = 3;
    const REVISION: u16 = H3::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u64>(g)); }
            2 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u64>(g)); }
            3 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, Option<u32>>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 4);
        sh.conv = rev != 3;
        match rev {
            1 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(1, 1);
                let f2 = rd::<Plain, u16>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                let f4 = <Option<u32> as Default>::default();
                #[allow(unused_mut)]
                let mut v = H3 { f0: f0, f1: f1, acc: f3, f4: f4 };
                v.acc = mix(v.acc, 1, &f2.bytes());
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, u16>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                let f4 = <Option<u32> as Default>::default();
                #[allow(unused_mut)]
                let mut v = H3 { f0: f0, f1: f1, acc: f3, f4: f4 };
                v.acc = mix(v.acc, 2, &f2.bytes());
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                let f4 = rd::<Plain, Option<u32>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = H3 { f0: f0, f1: f1, acc: f3, f4: f4 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if H3::walk_revisioned_field_names(1) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 1".into()) }
        if H3::walk_revisioned_field_names(2) != ["f0", "f1", "f2", "acc"] as [&str; 4] { return Err("field names at revision 2".into()) }
        if H3::walk_revisioned_field_names(3) != ["f0", "f1", "acc", "f4"] as [&str; 4] { return Err("field names at revision 3".into()) }
        if !H3::walk_revisioned_field_names(0).is_empty() || !H3::walk_revisioned_field_names(4).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for H3 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_acc().is_ok() && w.decode_f4().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(12) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_acc(); } 7 => { let _ = w.skip_acc(); } 8 => { let _ = w.walk_acc(); }
                    9 => { let _ = w.decode_f4(); } 10 => { let _ = w.skip_f4(); } 11 => { let _ = w.walk_f4(); }
                    _ => {} } }
                match g.below(9) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_acc(); } 5 => { let _ = w.into_acc_bytes(); }
                    6 => { let _ = w.into_walk_f4(); } 7 => { let _ = w.into_f4_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 4, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u32, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, String, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, u64, Plain, false, acc, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
                3 => sfield!(plain w c g v sh R; 3, Option<u32>, Plain, false, f4, decode_f4, skip_f4, walk_f4, into_walk_f4, into_f4_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision = 3)]
#[derive(Debug, Clone)]
pub struct H4 { pub f0: u32, #[revision(start = 2)] #[revision(default_fn = "d_1")] pub f1: String, #[revision(convert_fn = "c_2", end = 3)] pub f2: u16, pub acc: u64, #[revision(start = 3)] pub f4: Option<u32> }
impl H4 {
    fn d_1(rev: u16) -> Result<String, Error> { Ok(dflt::<String>(rev, 1)) }
    fn c_2(&mut self, rev: u16, v: u16) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
}
impl Spec for H4 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        o.extend(enc1::<Plain, u32>(&self.f0));
        o.extend(enc1::<Plain, String>(&self.f1));
        o.extend(enc1::<Plain, u64>(&self.acc));
        o.extend(enc1::<Plain, Option<u32>>(&self.f4));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.acc.same(&o.acc) && self.f4.same(&o.f4) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; H4 { f0: <u32 as Spec>::random(g), f1: <String as Spec>::random(g), acc: <u64 as Spec>::random(g), f4: <Option<u32> as Spec>::random(g) } }) }
}
impl Hist for H4 {
    const LATEST: u16 = 3;
    const REVISION: u16 = H4::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u64>(g)); }
            2 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u64>(g)); }
            3 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, Option<u32>>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 4);
        sh.conv = rev != 3;
        match rev {
            1 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(1, 1);
                let f2 = rd::<Plain, u16>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                let f4 = <Option<u32> as Default>::default();
                #[allow(unused_mut)]
                let mut v = H4 { f0: f0, f1: f1, acc: f3, f4: f4 };
                v.acc = mix(v.acc, 1, &f2.bytes());
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, u16>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                let f4 = <Option<u32> as Default>::default();
                #[allow(unused_mut)]
                let mut v = H4 { f0: f0, f1: f1, acc: f3, f4: f4 };
                v.acc = mix(v.acc, 2, &f2.bytes());
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                let f4 = rd::<Plain, Option<u32>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = H4 { f0: f0, f1: f1, acc: f3, f4: f4 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if H4::walk_revisioned_field_names(1) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 1".into()) }
        if H4::walk_revisioned_field_names(2) != ["f0", "f1", "f2", "acc"] as [&str; 4] { return Err("field names at revision 2".into()) }
        if H4::walk_revisioned_field_names(3) != ["f0", "f1", "acc", "f4"] as [&str; 4] { return Err("field names at revision 3".into()) }
        if !H4::walk_revisioned_field_names(0).is_empty() || !H4::walk_revisioned_field_names(4).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for H4 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_acc().is_ok() && w.decode_f4().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(12) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_acc(); } 7 => { let _ = w.skip_acc(); } 8 => { let _ = w.walk_acc(); }
                    9 => { let _ = w.decode_f4(); } 10 => { let _ = w.skip_f4(); } 11 => { let _ = w.walk_f4(); }
                    _ => {} } }
                match g.below(9) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_acc(); } 5 => { let _ = w.into_acc_bytes(); }
                    6 => { let _ = w.into_walk_f4(); } 7 => { let _ = w.into_f4_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 4, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u32, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, String, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, u64, Plain, false, acc, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
                3 => sfield!(plain w c g v sh R; 3, Option<u32>, Plain, false, f4, decode_f4, skip_f4, walk_f4, into_walk_f4, into_f4_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision(3))]
#[revision(revision(2))]
#[revision(revision(1))]
#[derive(Debug, Clone)]
pub struct H5 { pub f0: u32, #[revision(start = 2, default_fn = "d_1")] pub f1: String, #[revision(end = 3)] #[revision(convert_fn = "c_2")] pub f2: u16, pub acc: u64, #[revision(start = 3)] pub f4: Option<u32> }
impl H5 {
    fn d_1(rev: u16) -> Result<String, Error> { Ok(dflt::<String>(rev, 1)) }
    fn c_2(&mut self, rev: u16, v: u16) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
}
impl Spec for H5 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        o.extend(enc1::<Plain, u32>(&self.f0));
        o.extend(enc1::<Plain, String>(&self.f1));
        o.extend(enc1::<Plain, u64>(&self.acc));
        o.extend(enc1::<Plain, Option<u32>>(&self.f4));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.acc.same(&o.acc) && self.f4.same(&o.f4) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; H5 { f0: <u32 as Spec>::random(g), f1: <String as Spec>::random(g), acc: <u64 as Spec>::random(g), f4: <Option<u32> as Spec>::random(g) } }) }
}
impl Hist for H5 {
    const LATEST: u16 = 3;
    const REVISION: u16 = H5::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u64>(g)); }
            2 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u64>(g)); }
            3 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, Option<u32>>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 4);
        sh.conv = rev != 3;
        match rev {
            1 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(1, 1);
                let f2 = rd::<Plain, u16>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                let f4 = <Option<u32> as Default>::default();
                #[allow(unused_mut)]
                let mut v = H5 { f0: f0, f1: f1, acc: f3, f4: f4 };
                v.acc = mix(v.acc, 1, &f2.bytes());
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, u16>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                let f4 = <Option<u32> as Default>::default();
                #[allow(unused_mut)]
                let mut v = H5 { f0: f0, f1: f1, acc: f3, f4: f4 };
                v.acc = mix(v.acc, 2, &f2.bytes());
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                let f4 = rd::<Plain, Option<u32>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = H5 { f0: f0, f1: f1, acc: f3, f4: f4 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if H5::walk_revisioned_field_names(1) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 1".into()) }
        if H5::walk_revisioned_field_names(2) != ["f0", "f1", "f2", "acc"] as [&str; 4] { return Err("field names at revision 2".into()) }
        if H5::walk_revisioned_field_names(3) != ["f0", "f1", "acc", "f4"] as [&str; 4] { return Err("field names at revision 3".into()) }
        if !H5::walk_revisioned_field_names(0).is_empty() || !H5::walk_revisioned_field_names(4).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for H5 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_acc().is_ok() && w.decode_f4().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(12) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_acc(); } 7 => { let _ = w.skip_acc(); } 8 => { let _ = w.walk_acc(); }
                    9 => { let _ = w.decode_f4(); } 10 => { let _ = w.skip_f4(); } 11 => { let _ = w.walk_f4(); }
                    _ => {} } }
                match g.below(9) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_acc(); } 5 => { let _ = w.into_acc_bytes(); }
                    6 => { let _ = w.into_walk_f4(); } 7 => { let _ = w.into_f4_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 4, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u32, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, String, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, u64, Plain, false, acc, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
                3 => sfield!(plain w c g v sh R; 3, Option<u32>, Plain, false, f4, decode_f4, skip_f4, walk_f4, into_walk_f4, into_f4_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision = 5)]
#[derive(Debug, Clone)]
pub struct H6(pub u8, #[revision(convert_fn = "c_1", end = 2)] pub u8, #[revision(convert_fn = "c_2", end = 3)] pub u8, #[revision(convert_fn = "c_3", end = 4, start = 2)] pub u8, pub u64, #[revision(start = 3, end = 5, convert_fn = "c_5")] pub u8, #[revision(start = 5, default_fn = "d_6")] pub u8, #[revision(start = 4)] pub u8);
impl H6 {
    fn c_1(&mut self, rev: u16, v: u8) -> Result<(), Error> { self.1 = mix(self.1, rev, &v.bytes()); Ok(()) }
    fn c_2(&mut self, rev: u16, v: u8) -> Result<(), Error> { self.1 = mix(self.1, rev, &v.bytes()); Ok(()) }
    fn c_3(&mut self, rev: u16, v: u8) -> Result<(), Error> { self.1 = mix(self.1, rev, &v.bytes()); Ok(()) }
    fn c_5(&mut self, rev: u16, v: u8) -> Result<(), Error> { self.1 = mix(self.1, rev, &v.bytes()); Ok(()) }
    fn d_6(rev: u16) -> Result<u8, Error> { Ok(dflt::<u8>(rev, 6)) }
}
impl Spec for H6 {
    fn enc(&self, o: &mut Vec<u8>) {
        5u16.enc(o);
        o.extend(enc1::<Plain, u8>(&self.0));
        o.extend(enc1::<Plain, u64>(&self.1));
        o.extend(enc1::<Plain, u8>(&self.2));
        o.extend(enc1::<Plain, u8>(&self.3));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; H6(<u8 as Spec>::random(g), <u64 as Spec>::random(g), <u8 as Spec>::random(g), <u8 as Spec>::random(g)) }) }
}
impl Hist for H6 {
    const LATEST: u16 = 5;
    const REVISION: u16 = H6::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, u64>(g)); }
            2 => { o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, u64>(g)); }
            3 => { o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, u8>(g)); }
            4 => { o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, u8>(g)); }
            5 => { o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, u8>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 5, 4);
        sh.conv = rev != 5;
        match rev {
            1 => {
                let f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, u8>(c, &mut sh, None)?;
                let f2 = rd::<Plain, u8>(c, &mut sh, None)?;
                let f4 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                let f6 = dflt::<u8>(1, 6);
                let f7 = <u8 as Default>::default();
                #[allow(unused_mut)]
                let mut v = H6(f0, f4, f6, f7);
                v.1 = mix(v.1, 1, &f1.bytes());
                v.1 = mix(v.1, 1, &f2.bytes());
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                let f2 = rd::<Plain, u8>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u8>(c, &mut sh, None)?;
                let f4 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                let f6 = dflt::<u8>(2, 6);
                let f7 = <u8 as Default>::default();
                #[allow(unused_mut)]
                let mut v = H6(f0, f4, f6, f7);
                v.1 = mix(v.1, 2, &f2.bytes());
                v.1 = mix(v.1, 2, &f3.bytes());
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                let f3 = rd::<Plain, u8>(c, &mut sh, None)?;
                let f4 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                let f5 = rd::<Plain, u8>(c, &mut sh, None)?;
                let f6 = dflt::<u8>(3, 6);
                let f7 = <u8 as Default>::default();
                #[allow(unused_mut)]
                let mut v = H6(f0, f4, f6, f7);
                v.1 = mix(v.1, 3, &f3.bytes());
                v.1 = mix(v.1, 3, &f5.bytes());
                Ok((v, sh))
            }
            4 => {
                let f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                let f4 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                let f5 = rd::<Plain, u8>(c, &mut sh, None)?;
                let f6 = dflt::<u8>(4, 6);
                let f7 = rd::<Plain, u8>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = H6(f0, f4, f6, f7);
                v.1 = mix(v.1, 4, &f5.bytes());
                Ok((v, sh))
            }
            5 => {
                let f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                let f4 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                let f6 = rd::<Plain, u8>(c, &mut sh, Some(2))?;
                let f7 = rd::<Plain, u8>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = H6(f0, f4, f6, f7);
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if H6::walk_revisioned_field_names(1) != ["0", "1", "2", "4"] as [&str; 4] { return Err("field names at revision 1".into()) }
        if H6::walk_revisioned_field_names(2) != ["0", "2", "3", "4"] as [&str; 4] { return Err("field names at revision 2".into()) }
        if H6::walk_revisioned_field_names(3) != ["0", "3", "4", "5"] as [&str; 4] { return Err("field names at revision 3".into()) }
        if H6::walk_revisioned_field_names(4) != ["0", "4", "5", "7"] as [&str; 4] { return Err("field names at revision 4".into()) }
        if H6::walk_revisioned_field_names(5) != ["0", "4", "6", "7"] as [&str; 4] { return Err("field names at revision 5".into()) }
        if !H6::walk_revisioned_field_names(0).is_empty() || !H6::walk_revisioned_field_names(6).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for H6 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok() && w.decode_field_2().is_ok() && w.decode_field_3().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(12) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    6 => { let _ = w.decode_field_2(); } 7 => { let _ = w.skip_field_2(); } 8 => { let _ = w.walk_field_2(); }
                    9 => { let _ = w.decode_field_3(); } 10 => { let _ = w.skip_field_3(); } 11 => { let _ = w.walk_field_3(); }
                    _ => {} } }
                match g.below(9) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    4 => { let _ = w.into_walk_field_2(); } 5 => { let _ = w.into_field_2_bytes(); }
                    6 => { let _ = w.into_walk_field_3(); } 7 => { let _ = w.into_field_3_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 4, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u8, Plain, false, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(plain w c g v sh R; 1, u64, Plain, false, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                2 => sfield!(plain w c g v sh R; 2, u8, Plain, false, 2, decode_field_2, skip_field_2, walk_field_2, into_walk_field_2, into_field_2_bytes),
                3 => sfield!(plain w c g v sh R; 3, u8, Plain, false, 3, decode_field_3, skip_field_3, walk_field_3, into_walk_field_3, into_field_3_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision = 300)]
#[derive(Debug, Clone)]
pub struct H7 { #[revision(start = 7)] pub f0: u16, #[revision(default_fn = "d_1", start = 251)] pub f1: String, #[revision(convert_fn = "c_2", end = 252)] pub f2: u32, pub acc: u64 }
impl H7 {
    fn d_1(rev: u16) -> Result<String, Error> { Ok(dflt::<String>(rev, 1)) }
    fn c_2(&mut self, rev: u16, v: u32) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
}
impl Spec for H7 {
    fn enc(&self, o: &mut Vec<u8>) {
        300u16.enc(o);
        o.extend(enc1::<Plain, u16>(&self.f0));
        o.extend(enc1::<Plain, String>(&self.f1));
        o.extend(enc1::<Plain, u64>(&self.acc));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.acc.same(&o.acc) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; H7 { f0: <u16 as Spec>::random(g), f1: <String as Spec>::random(g), acc: <u64 as Spec>::random(g) } }) }
}
impl Hist for H7 {
    const LATEST: u16 = 300;
    const REVISION: u16 = H7::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            2 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            3 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            4 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            5 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            6 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            7 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            8 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            9 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            10 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            11 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            12 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            13 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            14 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            15 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            16 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            17 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            18 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            19 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            20 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            21 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            22 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            23 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            24 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            25 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            26 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            27 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            28 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            29 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            30 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            31 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            32 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            33 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            34 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            35 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            36 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            37 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            38 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            39 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            40 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            41 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            42 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            43 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            44 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            45 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            46 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            47 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            48 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            49 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            50 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            51 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            52 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            53 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            54 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            55 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            56 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            57 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            58 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            59 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            60 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            61 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            62 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            63 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            64 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            65 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            66 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            67 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            68 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            69 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            70 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            71 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            72 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            73 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            74 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            75 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            76 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            77 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            78 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            79 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            80 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            81 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            82 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            83 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            84 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            85 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            86 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            87 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            88 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            89 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            90 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            91 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            92 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            93 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            94 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            95 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            96 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            97 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            98 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            99 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            100 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            101 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            102 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            103 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            104 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            105 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            106 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            107 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            108 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            109 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            110 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            111 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            112 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            113 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            114 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            115 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            116 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            117 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            118 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            119 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            120 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            121 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            122 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            123 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            124 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            125 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            126 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            127 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            128 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            129 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            130 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            131 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            132 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            133 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            134 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            135 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            136 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            137 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            138 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            139 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            140 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            141 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            142 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            143 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            144 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            145 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            146 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            147 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            148 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            149 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            150 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            151 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            152 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            153 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            154 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            155 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            156 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            157 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            158 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            159 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            160 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            161 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            162 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            163 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            164 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            165 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            166 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            167 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            168 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            169 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            170 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            171 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            172 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            173 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            174 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            175 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            176 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            177 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            178 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            179 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            180 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            181 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            182 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            183 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            184 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            185 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            186 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            187 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            188 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            189 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            190 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            191 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            192 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            193 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            194 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            195 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            196 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            197 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            198 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            199 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            200 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            201 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            202 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            203 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            204 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            205 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            206 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            207 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            208 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            209 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            210 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            211 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            212 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            213 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            214 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            215 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            216 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            217 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            218 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            219 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            220 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            221 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            222 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            223 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            224 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            225 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            226 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            227 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            228 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            229 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            230 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            231 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            232 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            233 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            234 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            235 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            236 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            237 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            238 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            239 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            240 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            241 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            242 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            243 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            244 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            245 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            246 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            247 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            248 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            249 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            250 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            251 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, u64>(g)); }
            252 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            253 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            254 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            255 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            256 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            257 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            258 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            259 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            260 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            261 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            262 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            263 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            264 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            265 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            266 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            267 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            268 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            269 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            270 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            271 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            272 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            273 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            274 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            275 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            276 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            277 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            278 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            279 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            280 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            281 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            282 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            283 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            284 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            285 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            286 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            287 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            288 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            289 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            290 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            291 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            292 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            293 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            294 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            295 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            296 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            297 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            298 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            299 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            300 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 300, 3);
        sh.conv = rev != 300;
        match rev {
            1 => {
                let f0 = <u16 as Default>::default();
                let f1 = dflt::<String>(1, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 1, &f2.bytes());
                Ok((v, sh))
            }
            2 => {
                let f0 = <u16 as Default>::default();
                let f1 = dflt::<String>(2, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 2, &f2.bytes());
                Ok((v, sh))
            }
            3 => {
                let f0 = <u16 as Default>::default();
                let f1 = dflt::<String>(3, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 3, &f2.bytes());
                Ok((v, sh))
            }
            4 => {
                let f0 = <u16 as Default>::default();
                let f1 = dflt::<String>(4, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 4, &f2.bytes());
                Ok((v, sh))
            }
            5 => {
                let f0 = <u16 as Default>::default();
                let f1 = dflt::<String>(5, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 5, &f2.bytes());
                Ok((v, sh))
            }
            6 => {
                let f0 = <u16 as Default>::default();
                let f1 = dflt::<String>(6, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 6, &f2.bytes());
                Ok((v, sh))
            }
            7 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(7, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 7, &f2.bytes());
                Ok((v, sh))
            }
            8 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(8, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 8, &f2.bytes());
                Ok((v, sh))
            }
            9 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(9, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 9, &f2.bytes());
                Ok((v, sh))
            }
            10 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(10, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 10, &f2.bytes());
                Ok((v, sh))
            }
            11 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(11, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 11, &f2.bytes());
                Ok((v, sh))
            }
            12 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(12, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 12, &f2.bytes());
                Ok((v, sh))
            }
            13 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(13, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 13, &f2.bytes());
                Ok((v, sh))
            }
            14 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(14, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 14, &f2.bytes());
                Ok((v, sh))
            }
            15 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(15, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 15, &f2.bytes());
                Ok((v, sh))
            }
            16 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(16, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 16, &f2.bytes());
                Ok((v, sh))
            }
            17 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(17, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 17, &f2.bytes());
                Ok((v, sh))
            }
            18 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(18, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 18, &f2.bytes());
                Ok((v, sh))
            }
            19 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(19, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 19, &f2.bytes());
                Ok((v, sh))
            }
            20 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(20, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 20, &f2.bytes());
                Ok((v, sh))
            }
            21 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(21, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 21, &f2.bytes());
                Ok((v, sh))
            }
            22 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(22, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 22, &f2.bytes());
                Ok((v, sh))
            }
            23 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(23, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 23, &f2.bytes());
                Ok((v, sh))
            }
            24 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(24, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 24, &f2.bytes());
                Ok((v, sh))
            }
            25 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(25, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 25, &f2.bytes());
                Ok((v, sh))
            }
            26 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(26, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 26, &f2.bytes());
                Ok((v, sh))
            }
            27 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(27, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 27, &f2.bytes());
                Ok((v, sh))
            }
            28 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(28, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 28, &f2.bytes());
                Ok((v, sh))
            }
            29 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(29, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 29, &f2.bytes());
                Ok((v, sh))
            }
            30 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(30, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 30, &f2.bytes());
                Ok((v, sh))
            }
            31 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(31, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 31, &f2.bytes());
                Ok((v, sh))
            }
            32 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(32, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 32, &f2.bytes());
                Ok((v, sh))
            }
            33 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(33, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 33, &f2.bytes());
                Ok((v, sh))
            }
            34 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(34, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 34, &f2.bytes());
                Ok((v, sh))
            }
            35 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(35, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 35, &f2.bytes());
                Ok((v, sh))
            }
            36 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(36, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 36, &f2.bytes());
                Ok((v, sh))
            }
            37 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(37, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 37, &f2.bytes());
                Ok((v, sh))
            }
            38 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(38, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 38, &f2.bytes());
                Ok((v, sh))
            }
            39 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(39, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 39, &f2.bytes());
                Ok((v, sh))
            }
            40 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(40, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 40, &f2.bytes());
                Ok((v, sh))
            }
            41 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(41, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 41, &f2.bytes());
                Ok((v, sh))
            }
            42 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(42, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 42, &f2.bytes());
                Ok((v, sh))
            }
            43 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(43, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 43, &f2.bytes());
                Ok((v, sh))
            }
            44 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(44, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 44, &f2.bytes());
                Ok((v, sh))
            }
            45 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(45, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 45, &f2.bytes());
                Ok((v, sh))
            }
            46 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(46, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 46, &f2.bytes());
                Ok((v, sh))
            }
            47 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(47, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 47, &f2.bytes());
                Ok((v, sh))
            }
            48 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(48, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 48, &f2.bytes());
                Ok((v, sh))
            }
            49 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(49, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 49, &f2.bytes());
                Ok((v, sh))
            }
            50 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(50, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 50, &f2.bytes());
                Ok((v, sh))
            }
            51 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(51, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 51, &f2.bytes());
                Ok((v, sh))
            }
            52 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(52, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 52, &f2.bytes());
                Ok((v, sh))
            }
            53 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(53, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 53, &f2.bytes());
                Ok((v, sh))
            }
            54 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(54, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 54, &f2.bytes());
                Ok((v, sh))
            }
            55 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(55, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 55, &f2.bytes());
                Ok((v, sh))
            }
            56 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(56, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 56, &f2.bytes());
                Ok((v, sh))
            }
            57 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(57, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 57, &f2.bytes());
                Ok((v, sh))
            }
            58 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(58, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 58, &f2.bytes());
                Ok((v, sh))
            }
            59 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(59, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 59, &f2.bytes());
                Ok((v, sh))
            }
            60 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(60, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 60, &f2.bytes());
                Ok((v, sh))
            }
            61 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(61, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 61, &f2.bytes());
                Ok((v, sh))
            }
            62 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(62, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 62, &f2.bytes());
                Ok((v, sh))
            }
            63 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(63, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 63, &f2.bytes());
                Ok((v, sh))
            }
            64 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(64, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 64, &f2.bytes());
                Ok((v, sh))
            }
            65 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(65, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 65, &f2.bytes());
                Ok((v, sh))
            }
            66 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(66, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 66, &f2.bytes());
                Ok((v, sh))
            }
            67 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(67, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 67, &f2.bytes());
                Ok((v, sh))
            }
            68 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(68, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 68, &f2.bytes());
                Ok((v, sh))
            }
            69 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(69, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 69, &f2.bytes());
                Ok((v, sh))
            }
            70 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(70, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 70, &f2.bytes());
                Ok((v, sh))
            }
            71 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(71, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 71, &f2.bytes());
                Ok((v, sh))
            }
            72 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(72, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 72, &f2.bytes());
                Ok((v, sh))
            }
            73 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(73, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 73, &f2.bytes());
                Ok((v, sh))
            }
            74 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(74, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 74, &f2.bytes());
                Ok((v, sh))
            }
            75 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(75, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 75, &f2.bytes());
                Ok((v, sh))
            }
            76 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(76, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 76, &f2.bytes());
                Ok((v, sh))
            }
            77 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(77, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 77, &f2.bytes());
                Ok((v, sh))
            }
            78 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(78, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 78, &f2.bytes());
                Ok((v, sh))
            }
            79 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(79, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 79, &f2.bytes());
                Ok((v, sh))
            }
            80 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(80, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 80, &f2.bytes());
                Ok((v, sh))
            }
            81 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(81, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 81, &f2.bytes());
                Ok((v, sh))
            }
            82 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(82, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 82, &f2.bytes());
                Ok((v, sh))
            }
            83 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(83, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 83, &f2.bytes());
                Ok((v, sh))
            }
            84 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(84, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 84, &f2.bytes());
                Ok((v, sh))
            }
            85 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(85, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 85, &f2.bytes());
                Ok((v, sh))
            }
            86 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(86, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 86, &f2.bytes());
                Ok((v, sh))
            }
            87 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(87, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 87, &f2.bytes());
                Ok((v, sh))
            }
            88 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(88, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 88, &f2.bytes());
                Ok((v, sh))
            }
            89 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(89, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 89, &f2.bytes());
                Ok((v, sh))
            }
            90 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(90, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 90, &f2.bytes());
                Ok((v, sh))
            }
            91 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(91, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 91, &f2.bytes());
                Ok((v, sh))
            }
            92 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(92, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 92, &f2.bytes());
                Ok((v, sh))
            }
            93 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(93, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 93, &f2.bytes());
                Ok((v, sh))
            }
            94 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(94, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 94, &f2.bytes());
                Ok((v, sh))
            }
            95 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(95, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 95, &f2.bytes());
                Ok((v, sh))
            }
            96 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(96, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 96, &f2.bytes());
                Ok((v, sh))
            }
            97 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(97, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 97, &f2.bytes());
                Ok((v, sh))
            }
            98 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(98, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 98, &f2.bytes());
                Ok((v, sh))
            }
            99 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(99, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 99, &f2.bytes());
                Ok((v, sh))
            }
            100 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(100, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 100, &f2.bytes());
                Ok((v, sh))
            }
            101 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(101, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 101, &f2.bytes());
                Ok((v, sh))
            }
            102 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(102, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 102, &f2.bytes());
                Ok((v, sh))
            }
            103 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(103, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 103, &f2.bytes());
                Ok((v, sh))
            }
            104 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(104, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 104, &f2.bytes());
                Ok((v, sh))
            }
            105 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(105, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 105, &f2.bytes());
                Ok((v, sh))
            }
            106 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(106, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 106, &f2.bytes());
                Ok((v, sh))
            }
            107 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(107, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 107, &f2.bytes());
                Ok((v, sh))
            }
            108 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(108, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 108, &f2.bytes());
                Ok((v, sh))
            }
            109 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(109, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 109, &f2.bytes());
                Ok((v, sh))
            }
            110 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(110, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 110, &f2.bytes());
                Ok((v, sh))
            }
            111 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(111, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 111, &f2.bytes());
                Ok((v, sh))
            }
            112 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(112, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 112, &f2.bytes());
                Ok((v, sh))
            }
            113 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(113, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 113, &f2.bytes());
                Ok((v, sh))
            }
            114 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(114, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 114, &f2.bytes());
                Ok((v, sh))
            }
            115 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(115, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 115, &f2.bytes());
                Ok((v, sh))
            }
            116 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(116, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 116, &f2.bytes());
                Ok((v, sh))
            }
            117 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(117, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 117, &f2.bytes());
                Ok((v, sh))
            }
            118 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(118, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 118, &f2.bytes());
                Ok((v, sh))
            }
            119 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(119, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 119, &f2.bytes());
                Ok((v, sh))
            }
            120 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(120, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 120, &f2.bytes());
                Ok((v, sh))
            }
            121 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(121, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 121, &f2.bytes());
                Ok((v, sh))
            }
            122 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(122, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 122, &f2.bytes());
                Ok((v, sh))
            }
            123 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(123, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 123, &f2.bytes());
                Ok((v, sh))
            }
            124 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(124, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 124, &f2.bytes());
                Ok((v, sh))
            }
            125 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(125, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 125, &f2.bytes());
                Ok((v, sh))
            }
            126 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(126, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 126, &f2.bytes());
                Ok((v, sh))
            }
            127 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(127, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 127, &f2.bytes());
                Ok((v, sh))
            }
            128 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(128, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 128, &f2.bytes());
                Ok((v, sh))
            }
            129 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(129, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 129, &f2.bytes());
                Ok((v, sh))
            }
            130 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(130, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 130, &f2.bytes());
                Ok((v, sh))
            }
            131 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(131, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 131, &f2.bytes());
                Ok((v, sh))
            }
            132 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(132, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 132, &f2.bytes());
                Ok((v, sh))
            }
            133 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(133, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 133, &f2.bytes());
                Ok((v, sh))
            }
            134 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(134, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 134, &f2.bytes());
                Ok((v, sh))
            }
            135 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(135, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 135, &f2.bytes());
                Ok((v, sh))
            }
            136 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(136, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 136, &f2.bytes());
                Ok((v, sh))
            }
            137 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(137, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 137, &f2.bytes());
                Ok((v, sh))
            }
            138 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(138, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 138, &f2.bytes());
                Ok((v, sh))
            }
            139 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(139, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 139, &f2.bytes());
                Ok((v, sh))
            }
            140 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(140, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 140, &f2.bytes());
                Ok((v, sh))
            }
            141 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(141, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 141, &f2.bytes());
                Ok((v, sh))
            }
            142 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(142, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 142, &f2.bytes());
                Ok((v, sh))
            }
            143 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(143, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 143, &f2.bytes());
                Ok((v, sh))
            }
            144 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(144, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 144, &f2.bytes());
                Ok((v, sh))
            }
            145 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(145, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 145, &f2.bytes());
                Ok((v, sh))
            }
            146 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(146, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 146, &f2.bytes());
                Ok((v, sh))
            }
            147 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(147, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 147, &f2.bytes());
                Ok((v, sh))
            }
            148 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(148, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 148, &f2.bytes());
                Ok((v, sh))
            }
            149 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(149, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 149, &f2.bytes());
                Ok((v, sh))
            }
            150 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(150, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 150, &f2.bytes());
                Ok((v, sh))
            }
            151 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(151, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 151, &f2.bytes());
                Ok((v, sh))
            }
            152 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(152, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 152, &f2.bytes());
                Ok((v, sh))
            }
            153 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(153, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 153, &f2.bytes());
                Ok((v, sh))
            }
            154 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(154, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 154, &f2.bytes());
                Ok((v, sh))
            }
            155 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(155, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 155, &f2.bytes());
                Ok((v, sh))
            }
            156 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(156, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 156, &f2.bytes());
                Ok((v, sh))
            }
            157 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(157, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 157, &f2.bytes());
                Ok((v, sh))
            }
            158 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(158, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 158, &f2.bytes());
                Ok((v, sh))
            }
            159 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(159, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 159, &f2.bytes());
                Ok((v, sh))
            }
            160 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(160, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 160, &f2.bytes());
                Ok((v, sh))
            }
            161 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(161, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 161, &f2.bytes());
                Ok((v, sh))
            }
            162 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(162, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 162, &f2.bytes());
                Ok((v, sh))
            }
            163 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(163, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 163, &f2.bytes());
                Ok((v, sh))
            }
            164 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(164, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 164, &f2.bytes());
                Ok((v, sh))
            }
            165 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(165, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 165, &f2.bytes());
                Ok((v, sh))
            }
            166 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(166, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 166, &f2.bytes());
                Ok((v, sh))
            }
            167 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(167, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 167, &f2.bytes());
                Ok((v, sh))
            }
            168 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(168, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 168, &f2.bytes());
                Ok((v, sh))
            }
            169 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(169, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 169, &f2.bytes());
                Ok((v, sh))
            }
            170 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(170, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 170, &f2.bytes());
                Ok((v, sh))
            }
            171 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(171, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 171, &f2.bytes());
                Ok((v, sh))
            }
            172 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(172, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 172, &f2.bytes());
                Ok((v, sh))
            }
            173 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(173, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 173, &f2.bytes());
                Ok((v, sh))
            }
            174 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(174, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 174, &f2.bytes());
                Ok((v, sh))
            }
            175 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(175, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 175, &f2.bytes());
                Ok((v, sh))
            }
            176 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(176, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 176, &f2.bytes());
                Ok((v, sh))
            }
            177 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(177, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 177, &f2.bytes());
                Ok((v, sh))
            }
            178 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(178, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 178, &f2.bytes());
                Ok((v, sh))
            }
            179 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(179, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 179, &f2.bytes());
                Ok((v, sh))
            }
            180 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(180, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 180, &f2.bytes());
                Ok((v, sh))
            }
            181 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(181, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 181, &f2.bytes());
                Ok((v, sh))
            }
            182 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(182, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 182, &f2.bytes());
                Ok((v, sh))
            }
            183 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(183, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 183, &f2.bytes());
                Ok((v, sh))
            }
            184 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(184, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 184, &f2.bytes());
                Ok((v, sh))
            }
            185 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(185, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 185, &f2.bytes());
                Ok((v, sh))
            }
            186 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(186, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 186, &f2.bytes());
                Ok((v, sh))
            }
            187 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(187, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 187, &f2.bytes());
                Ok((v, sh))
            }
            188 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(188, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 188, &f2.bytes());
                Ok((v, sh))
            }
            189 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(189, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 189, &f2.bytes());
                Ok((v, sh))
            }
            190 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(190, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 190, &f2.bytes());
                Ok((v, sh))
            }
            191 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(191, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 191, &f2.bytes());
                Ok((v, sh))
            }
            192 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(192, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 192, &f2.bytes());
                Ok((v, sh))
            }
            193 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(193, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 193, &f2.bytes());
                Ok((v, sh))
            }
            194 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(194, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 194, &f2.bytes());
                Ok((v, sh))
            }
            195 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(195, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 195, &f2.bytes());
                Ok((v, sh))
            }
            196 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(196, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 196, &f2.bytes());
                Ok((v, sh))
            }
            197 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(197, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 197, &f2.bytes());
                Ok((v, sh))
            }
            198 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(198, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 198, &f2.bytes());
                Ok((v, sh))
            }
            199 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(199, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 199, &f2.bytes());
                Ok((v, sh))
            }
            200 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(200, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 200, &f2.bytes());
                Ok((v, sh))
            }
            201 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(201, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 201, &f2.bytes());
                Ok((v, sh))
            }
            202 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(202, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 202, &f2.bytes());
                Ok((v, sh))
            }
            203 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(203, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 203, &f2.bytes());
                Ok((v, sh))
            }
            204 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(204, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 204, &f2.bytes());
                Ok((v, sh))
            }
            205 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(205, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 205, &f2.bytes());
                Ok((v, sh))
            }
            206 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(206, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 206, &f2.bytes());
                Ok((v, sh))
            }
            207 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(207, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 207, &f2.bytes());
                Ok((v, sh))
            }
            208 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(208, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 208, &f2.bytes());
                Ok((v, sh))
            }
            209 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(209, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 209, &f2.bytes());
                Ok((v, sh))
            }
            210 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(210, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 210, &f2.bytes());
                Ok((v, sh))
            }
            211 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(211, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 211, &f2.bytes());
                Ok((v, sh))
            }
            212 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(212, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 212, &f2.bytes());
                Ok((v, sh))
            }
            213 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(213, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 213, &f2.bytes());
                Ok((v, sh))
            }
            214 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(214, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 214, &f2.bytes());
                Ok((v, sh))
            }
            215 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(215, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 215, &f2.bytes());
                Ok((v, sh))
            }
            216 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(216, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 216, &f2.bytes());
                Ok((v, sh))
            }
            217 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(217, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 217, &f2.bytes());
                Ok((v, sh))
            }
            218 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(218, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 218, &f2.bytes());
                Ok((v, sh))
            }
            219 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(219, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 219, &f2.bytes());
                Ok((v, sh))
            }
            220 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(220, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 220, &f2.bytes());
                Ok((v, sh))
            }
            221 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(221, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 221, &f2.bytes());
                Ok((v, sh))
            }
            222 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(222, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 222, &f2.bytes());
                Ok((v, sh))
            }
            223 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(223, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 223, &f2.bytes());
                Ok((v, sh))
            }
            224 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(224, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 224, &f2.bytes());
                Ok((v, sh))
            }
            225 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(225, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 225, &f2.bytes());
                Ok((v, sh))
            }
            226 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(226, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 226, &f2.bytes());
                Ok((v, sh))
            }
            227 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(227, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 227, &f2.bytes());
                Ok((v, sh))
            }
            228 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(228, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 228, &f2.bytes());
                Ok((v, sh))
            }
            229 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(229, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 229, &f2.bytes());
                Ok((v, sh))
            }
            230 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(230, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 230, &f2.bytes());
                Ok((v, sh))
            }
            231 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(231, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 231, &f2.bytes());
                Ok((v, sh))
            }
            232 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(232, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 232, &f2.bytes());
                Ok((v, sh))
            }
            233 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(233, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 233, &f2.bytes());
                Ok((v, sh))
            }
            234 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(234, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 234, &f2.bytes());
                Ok((v, sh))
            }
            235 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(235, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 235, &f2.bytes());
                Ok((v, sh))
            }
            236 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(236, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 236, &f2.bytes());
                Ok((v, sh))
            }
            237 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(237, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 237, &f2.bytes());
                Ok((v, sh))
            }
            238 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(238, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 238, &f2.bytes());
                Ok((v, sh))
            }
            239 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(239, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 239, &f2.bytes());
                Ok((v, sh))
            }
            240 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(240, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 240, &f2.bytes());
                Ok((v, sh))
            }
            241 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(241, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 241, &f2.bytes());
                Ok((v, sh))
            }
            242 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(242, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 242, &f2.bytes());
                Ok((v, sh))
            }
            243 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(243, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 243, &f2.bytes());
                Ok((v, sh))
            }
            244 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(244, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 244, &f2.bytes());
                Ok((v, sh))
            }
            245 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(245, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 245, &f2.bytes());
                Ok((v, sh))
            }
            246 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(246, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 246, &f2.bytes());
                Ok((v, sh))
            }
            247 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(247, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 247, &f2.bytes());
                Ok((v, sh))
            }
            248 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(248, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 248, &f2.bytes());
                Ok((v, sh))
            }
            249 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(249, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 249, &f2.bytes());
                Ok((v, sh))
            }
            250 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = dflt::<String>(250, 1);
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 250, &f2.bytes());
                Ok((v, sh))
            }
            251 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                v.acc = mix(v.acc, 251, &f2.bytes());
                Ok((v, sh))
            }
            252 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            253 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            254 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            255 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            256 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            257 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            258 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            259 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            260 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            261 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            262 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            263 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            264 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            265 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            266 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            267 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            268 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            269 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            270 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            271 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            272 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            273 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            274 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            275 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            276 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            277 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            278 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            279 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            280 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            281 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            282 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            283 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            284 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            285 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            286 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            287 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            288 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            289 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            290 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            291 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            292 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            293 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            294 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            295 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            296 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            297 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            298 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            299 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            300 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H7 { f0: f0, f1: f1, acc: f3 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if H7::walk_revisioned_field_names(1) != ["f2", "acc"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if H7::walk_revisioned_field_names(2) != ["f2", "acc"] as [&str; 2] { return Err("field names at revision 2".into()) }
        if H7::walk_revisioned_field_names(3) != ["f2", "acc"] as [&str; 2] { return Err("field names at revision 3".into()) }
        if H7::walk_revisioned_field_names(4) != ["f2", "acc"] as [&str; 2] { return Err("field names at revision 4".into()) }
        if H7::walk_revisioned_field_names(5) != ["f2", "acc"] as [&str; 2] { return Err("field names at revision 5".into()) }
        if H7::walk_revisioned_field_names(6) != ["f2", "acc"] as [&str; 2] { return Err("field names at revision 6".into()) }
        if H7::walk_revisioned_field_names(7) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 7".into()) }
        if H7::walk_revisioned_field_names(8) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 8".into()) }
        if H7::walk_revisioned_field_names(9) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 9".into()) }
        if H7::walk_revisioned_field_names(10) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 10".into()) }
        if H7::walk_revisioned_field_names(11) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 11".into()) }
        if H7::walk_revisioned_field_names(12) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 12".into()) }
        if H7::walk_revisioned_field_names(13) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 13".into()) }
        if H7::walk_revisioned_field_names(14) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 14".into()) }
        if H7::walk_revisioned_field_names(15) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 15".into()) }
        if H7::walk_revisioned_field_names(16) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 16".into()) }
        if H7::walk_revisioned_field_names(17) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 17".into()) }
        if H7::walk_revisioned_field_names(18) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 18".into()) }
        if H7::walk_revisioned_field_names(19) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 19".into()) }
        if H7::walk_revisioned_field_names(20) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 20".into()) }
        if H7::walk_revisioned_field_names(21) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 21".into()) }
        if H7::walk_revisioned_field_names(22) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 22".into()) }
        if H7::walk_revisioned_field_names(23) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 23".into()) }
        if H7::walk_revisioned_field_names(24) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 24".into()) }
        if H7::walk_revisioned_field_names(25) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 25".into()) }
        if H7::walk_revisioned_field_names(26) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 26".into()) }
        if H7::walk_revisioned_field_names(27) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 27".into()) }
        if H7::walk_revisioned_field_names(28) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 28".into()) }
        if H7::walk_revisioned_field_names(29) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 29".into()) }
        if H7::walk_revisioned_field_names(30) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 30".into()) }
        if H7::walk_revisioned_field_names(31) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 31".into()) }
        if H7::walk_revisioned_field_names(32) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 32".into()) }
        if H7::walk_revisioned_field_names(33) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 33".into()) }
        if H7::walk_revisioned_field_names(34) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 34".into()) }
        if H7::walk_revisioned_field_names(35) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 35".into()) }
        if H7::walk_revisioned_field_names(36) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 36".into()) }
        if H7::walk_revisioned_field_names(37) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 37".into()) }
        if H7::walk_revisioned_field_names(38) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 38".into()) }
        if H7::walk_revisioned_field_names(39) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 39".into()) }
        if H7::walk_revisioned_field_names(40) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 40".into()) }
        if H7::walk_revisioned_field_names(41) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 41".into()) }
        if H7::walk_revisioned_field_names(42) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 42".into()) }
        if H7::walk_revisioned_field_names(43) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 43".into()) }
        if H7::walk_revisioned_field_names(44) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 44".into()) }
        if H7::walk_revisioned_field_names(45) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 45".into()) }
        if H7::walk_revisioned_field_names(46) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 46".into()) }
        if H7::walk_revisioned_field_names(47) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 47".into()) }
        if H7::walk_revisioned_field_names(48) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 48".into()) }
        if H7::walk_revisioned_field_names(49) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 49".into()) }
        if H7::walk_revisioned_field_names(50) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 50".into()) }
        if H7::walk_revisioned_field_names(51) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 51".into()) }
        if H7::walk_revisioned_field_names(52) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 52".into()) }
        if H7::walk_revisioned_field_names(53) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 53".into()) }
        if H7::walk_revisioned_field_names(54) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 54".into()) }
        if H7::walk_revisioned_field_names(55) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 55".into()) }
        if H7::walk_revisioned_field_names(56) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 56".into()) }
        if H7::walk_revisioned_field_names(57) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 57".into()) }
        if H7::walk_revisioned_field_names(58) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 58".into()) }
        if H7::walk_revisioned_field_names(59) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 59".into()) }
        if H7::walk_revisioned_field_names(60) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 60".into()) }
        if H7::walk_revisioned_field_names(61) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 61".into()) }
        if H7::walk_revisioned_field_names(62) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 62".into()) }
        if H7::walk_revisioned_field_names(63) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 63".into()) }
        if H7::walk_revisioned_field_names(64) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 64".into()) }
        if H7::walk_revisioned_field_names(65) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 65".into()) }
        if H7::walk_revisioned_field_names(66) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 66".into()) }
        if H7::walk_revisioned_field_names(67) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 67".into()) }
        if H7::walk_revisioned_field_names(68) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 68".into()) }
        if H7::walk_revisioned_field_names(69) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 69".into()) }
        if H7::walk_revisioned_field_names(70) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 70".into()) }
        if H7::walk_revisioned_field_names(71) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 71".into()) }
        if H7::walk_revisioned_field_names(72) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 72".into()) }
        if H7::walk_revisioned_field_names(73) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 73".into()) }
        if H7::walk_revisioned_field_names(74) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 74".into()) }
        if H7::walk_revisioned_field_names(75) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 75".into()) }
        if H7::walk_revisioned_field_names(76) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 76".into()) }
        if H7::walk_revisioned_field_names(77) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 77".into()) }
        if H7::walk_revisioned_field_names(78) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 78".into()) }
        if H7::walk_revisioned_field_names(79) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 79".into()) }
        if H7::walk_revisioned_field_names(80) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 80".into()) }
        if H7::walk_revisioned_field_names(81) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 81".into()) }
        if H7::walk_revisioned_field_names(82) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 82".into()) }
        if H7::walk_revisioned_field_names(83) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 83".into()) }
        if H7::walk_revisioned_field_names(84) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 84".into()) }
        if H7::walk_revisioned_field_names(85) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 85".into()) }
        if H7::walk_revisioned_field_names(86) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 86".into()) }
        if H7::walk_revisioned_field_names(87) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 87".into()) }
        if H7::walk_revisioned_field_names(88) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 88".into()) }
        if H7::walk_revisioned_field_names(89) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 89".into()) }
        if H7::walk_revisioned_field_names(90) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 90".into()) }
        if H7::walk_revisioned_field_names(91) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 91".into()) }
        if H7::walk_revisioned_field_names(92) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 92".into()) }
        if H7::walk_revisioned_field_names(93) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 93".into()) }
        if H7::walk_revisioned_field_names(94) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 94".into()) }
        if H7::walk_revisioned_field_names(95) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 95".into()) }
        if H7::walk_revisioned_field_names(96) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 96".into()) }
        if H7::walk_revisioned_field_names(97) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 97".into()) }
        if H7::walk_revisioned_field_names(98) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 98".into()) }
        if H7::walk_revisioned_field_names(99) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 99".into()) }
        if H7::walk_revisioned_field_names(100) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 100".into()) }
        if H7::walk_revisioned_field_names(101) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 101".into()) }
        if H7::walk_revisioned_field_names(102) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 102".into()) }
        if H7::walk_revisioned_field_names(103) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 103".into()) }
        if H7::walk_revisioned_field_names(104) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 104".into()) }
        if H7::walk_revisioned_field_names(105) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 105".into()) }
        if H7::walk_revisioned_field_names(106) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 106".into()) }
        if H7::walk_revisioned_field_names(107) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 107".into()) }
        if H7::walk_revisioned_field_names(108) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 108".into()) }
        if H7::walk_revisioned_field_names(109) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 109".into()) }
        if H7::walk_revisioned_field_names(110) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 110".into()) }
        if H7::walk_revisioned_field_names(111) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 111".into()) }
        if H7::walk_revisioned_field_names(112) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 112".into()) }
        if H7::walk_revisioned_field_names(113) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 113".into()) }
        if H7::walk_revisioned_field_names(114) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 114".into()) }
        if H7::walk_revisioned_field_names(115) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 115".into()) }
        if H7::walk_revisioned_field_names(116) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 116".into()) }
        if H7::walk_revisioned_field_names(117) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 117".into()) }
        if H7::walk_revisioned_field_names(118) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 118".into()) }
        if H7::walk_revisioned_field_names(119) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 119".into()) }
        if H7::walk_revisioned_field_names(120) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 120".into()) }
        if H7::walk_revisioned_field_names(121) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 121".into()) }
        if H7::walk_revisioned_field_names(122) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 122".into()) }
        if H7::walk_revisioned_field_names(123) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 123".into()) }
        if H7::walk_revisioned_field_names(124) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 124".into()) }
        if H7::walk_revisioned_field_names(125) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 125".into()) }
        if H7::walk_revisioned_field_names(126) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 126".into()) }
        if H7::walk_revisioned_field_names(127) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 127".into()) }
        if H7::walk_revisioned_field_names(128) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 128".into()) }
        if H7::walk_revisioned_field_names(129) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 129".into()) }
        if H7::walk_revisioned_field_names(130) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 130".into()) }
        if H7::walk_revisioned_field_names(131) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 131".into()) }
        if H7::walk_revisioned_field_names(132) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 132".into()) }
        if H7::walk_revisioned_field_names(133) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 133".into()) }
        if H7::walk_revisioned_field_names(134) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 134".into()) }
        if H7::walk_revisioned_field_names(135) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 135".into()) }
        if H7::walk_revisioned_field_names(136) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 136".into()) }
        if H7::walk_revisioned_field_names(137) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 137".into()) }
        if H7::walk_revisioned_field_names(138) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 138".into()) }
        if H7::walk_revisioned_field_names(139) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 139".into()) }
        if H7::walk_revisioned_field_names(140) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 140".into()) }
        if H7::walk_revisioned_field_names(141) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 141".into()) }
        if H7::walk_revisioned_field_names(142) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 142".into()) }
        if H7::walk_revisioned_field_names(143) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 143".into()) }
        if H7::walk_revisioned_field_names(144) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 144".into()) }
        if H7::walk_revisioned_field_names(145) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 145".into()) }
        if H7::walk_revisioned_field_names(146) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 146".into()) }
        if H7::walk_revisioned_field_names(147) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 147".into()) }
        if H7::walk_revisioned_field_names(148) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 148".into()) }
        if H7::walk_revisioned_field_names(149) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 149".into()) }
        if H7::walk_revisioned_field_names(150) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 150".into()) }
        if H7::walk_revisioned_field_names(151) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 151".into()) }
        if H7::walk_revisioned_field_names(152) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 152".into()) }
        if H7::walk_revisioned_field_names(153) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 153".into()) }
        if H7::walk_revisioned_field_names(154) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 154".into()) }
        if H7::walk_revisioned_field_names(155) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 155".into()) }
        if H7::walk_revisioned_field_names(156) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 156".into()) }
        if H7::walk_revisioned_field_names(157) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 157".into()) }
        if H7::walk_revisioned_field_names(158) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 158".into()) }
        if H7::walk_revisioned_field_names(159) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 159".into()) }
        if H7::walk_revisioned_field_names(160) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 160".into()) }
        if H7::walk_revisioned_field_names(161) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 161".into()) }
        if H7::walk_revisioned_field_names(162) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 162".into()) }
        if H7::walk_revisioned_field_names(163) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 163".into()) }
        if H7::walk_revisioned_field_names(164) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 164".into()) }
        if H7::walk_revisioned_field_names(165) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 165".into()) }
        if H7::walk_revisioned_field_names(166) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 166".into()) }
        if H7::walk_revisioned_field_names(167) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 167".into()) }
        if H7::walk_revisioned_field_names(168) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 168".into()) }
        if H7::walk_revisioned_field_names(169) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 169".into()) }
        if H7::walk_revisioned_field_names(170) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 170".into()) }
        if H7::walk_revisioned_field_names(171) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 171".into()) }
        if H7::walk_revisioned_field_names(172) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 172".into()) }
        if H7::walk_revisioned_field_names(173) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 173".into()) }
        if H7::walk_revisioned_field_names(174) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 174".into()) }
        if H7::walk_revisioned_field_names(175) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 175".into()) }
        if H7::walk_revisioned_field_names(176) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 176".into()) }
        if H7::walk_revisioned_field_names(177) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 177".into()) }
        if H7::walk_revisioned_field_names(178) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 178".into()) }
        if H7::walk_revisioned_field_names(179) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 179".into()) }
        if H7::walk_revisioned_field_names(180) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 180".into()) }
        if H7::walk_revisioned_field_names(181) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 181".into()) }
        if H7::walk_revisioned_field_names(182) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 182".into()) }
        if H7::walk_revisioned_field_names(183) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 183".into()) }
        if H7::walk_revisioned_field_names(184) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 184".into()) }
        if H7::walk_revisioned_field_names(185) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 185".into()) }
        if H7::walk_revisioned_field_names(186) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 186".into()) }
        if H7::walk_revisioned_field_names(187) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 187".into()) }
        if H7::walk_revisioned_field_names(188) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 188".into()) }
        if H7::walk_revisioned_field_names(189) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 189".into()) }
        if H7::walk_revisioned_field_names(190) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 190".into()) }
        if H7::walk_revisioned_field_names(191) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 191".into()) }
        if H7::walk_revisioned_field_names(192) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 192".into()) }
        if H7::walk_revisioned_field_names(193) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 193".into()) }
        if H7::walk_revisioned_field_names(194) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 194".into()) }
        if H7::walk_revisioned_field_names(195) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 195".into()) }
        if H7::walk_revisioned_field_names(196) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 196".into()) }
        if H7::walk_revisioned_field_names(197) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 197".into()) }
        if H7::walk_revisioned_field_names(198) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 198".into()) }
        if H7::walk_revisioned_field_names(199) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 199".into()) }
        if H7::walk_revisioned_field_names(200) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 200".into()) }
        if H7::walk_revisioned_field_names(201) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 201".into()) }
        if H7::walk_revisioned_field_names(202) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 202".into()) }
        if H7::walk_revisioned_field_names(203) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 203".into()) }
        if H7::walk_revisioned_field_names(204) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 204".into()) }
        if H7::walk_revisioned_field_names(205) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 205".into()) }
        if H7::walk_revisioned_field_names(206) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 206".into()) }
        if H7::walk_revisioned_field_names(207) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 207".into()) }
        if H7::walk_revisioned_field_names(208) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 208".into()) }
        if H7::walk_revisioned_field_names(209) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 209".into()) }
        if H7::walk_revisioned_field_names(210) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 210".into()) }
        if H7::walk_revisioned_field_names(211) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 211".into()) }
        if H7::walk_revisioned_field_names(212) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 212".into()) }
        if H7::walk_revisioned_field_names(213) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 213".into()) }
        if H7::walk_revisioned_field_names(214) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 214".into()) }
        if H7::walk_revisioned_field_names(215) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 215".into()) }
        if H7::walk_revisioned_field_names(216) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 216".into()) }
        if H7::walk_revisioned_field_names(217) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 217".into()) }
        if H7::walk_revisioned_field_names(218) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 218".into()) }
        if H7::walk_revisioned_field_names(219) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 219".into()) }
        if H7::walk_revisioned_field_names(220) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 220".into()) }
        if H7::walk_revisioned_field_names(221) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 221".into()) }
        if H7::walk_revisioned_field_names(222) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 222".into()) }
        if H7::walk_revisioned_field_names(223) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 223".into()) }
        if H7::walk_revisioned_field_names(224) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 224".into()) }
        if H7::walk_revisioned_field_names(225) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 225".into()) }
        if H7::walk_revisioned_field_names(226) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 226".into()) }
        if H7::walk_revisioned_field_names(227) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 227".into()) }
        if H7::walk_revisioned_field_names(228) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 228".into()) }
        if H7::walk_revisioned_field_names(229) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 229".into()) }
        if H7::walk_revisioned_field_names(230) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 230".into()) }
        if H7::walk_revisioned_field_names(231) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 231".into()) }
        if H7::walk_revisioned_field_names(232) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 232".into()) }
        if H7::walk_revisioned_field_names(233) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 233".into()) }
        if H7::walk_revisioned_field_names(234) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 234".into()) }
        if H7::walk_revisioned_field_names(235) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 235".into()) }
        if H7::walk_revisioned_field_names(236) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 236".into()) }
        if H7::walk_revisioned_field_names(237) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 237".into()) }
        if H7::walk_revisioned_field_names(238) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 238".into()) }
        if H7::walk_revisioned_field_names(239) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 239".into()) }
        if H7::walk_revisioned_field_names(240) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 240".into()) }
        if H7::walk_revisioned_field_names(241) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 241".into()) }
        if H7::walk_revisioned_field_names(242) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 242".into()) }
        if H7::walk_revisioned_field_names(243) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 243".into()) }
        if H7::walk_revisioned_field_names(244) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 244".into()) }
        if H7::walk_revisioned_field_names(245) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 245".into()) }
        if H7::walk_revisioned_field_names(246) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 246".into()) }
        if H7::walk_revisioned_field_names(247) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 247".into()) }
        if H7::walk_revisioned_field_names(248) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 248".into()) }
        if H7::walk_revisioned_field_names(249) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 249".into()) }
        if H7::walk_revisioned_field_names(250) != ["f0", "f2", "acc"] as [&str; 3] { return Err("field names at revision 250".into()) }
        if H7::walk_revisioned_field_names(251) != ["f0", "f1", "f2", "acc"] as [&str; 4] { return Err("field names at revision 251".into()) }
        if H7::walk_revisioned_field_names(252) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 252".into()) }
        if H7::walk_revisioned_field_names(253) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 253".into()) }
        if H7::walk_revisioned_field_names(254) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 254".into()) }
        if H7::walk_revisioned_field_names(255) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 255".into()) }
        if H7::walk_revisioned_field_names(256) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 256".into()) }
        if H7::walk_revisioned_field_names(257) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 257".into()) }
        if H7::walk_revisioned_field_names(258) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 258".into()) }
        if H7::walk_revisioned_field_names(259) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 259".into()) }
        if H7::walk_revisioned_field_names(260) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 260".into()) }
        if H7::walk_revisioned_field_names(261) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 261".into()) }
        if H7::walk_revisioned_field_names(262) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 262".into()) }
        if H7::walk_revisioned_field_names(263) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 263".into()) }
        if H7::walk_revisioned_field_names(264) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 264".into()) }
        if H7::walk_revisioned_field_names(265) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 265".into()) }
        if H7::walk_revisioned_field_names(266) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 266".into()) }
        if H7::walk_revisioned_field_names(267) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 267".into()) }
        if H7::walk_revisioned_field_names(268) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 268".into()) }
        if H7::walk_revisioned_field_names(269) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 269".into()) }
        if H7::walk_revisioned_field_names(270) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 270".into()) }
        if H7::walk_revisioned_field_names(271) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 271".into()) }
        if H7::walk_revisioned_field_names(272) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 272".into()) }
        if H7::walk_revisioned_field_names(273) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 273".into()) }
        if H7::walk_revisioned_field_names(274) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 274".into()) }
        if H7::walk_revisioned_field_names(275) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 275".into()) }
        if H7::walk_revisioned_field_names(276) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 276".into()) }
        if H7::walk_revisioned_field_names(277) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 277".into()) }
        if H7::walk_revisioned_field_names(278) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 278".into()) }
        if H7::walk_revisioned_field_names(279) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 279".into()) }
        if H7::walk_revisioned_field_names(280) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 280".into()) }
        if H7::walk_revisioned_field_names(281) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 281".into()) }
        if H7::walk_revisioned_field_names(282) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 282".into()) }
        if H7::walk_revisioned_field_names(283) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 283".into()) }
        if H7::walk_revisioned_field_names(284) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 284".into()) }
        if H7::walk_revisioned_field_names(285) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 285".into()) }
        if H7::walk_revisioned_field_names(286) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 286".into()) }
        if H7::walk_revisioned_field_names(287) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 287".into()) }
        if H7::walk_revisioned_field_names(288) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 288".into()) }
        if H7::walk_revisioned_field_names(289) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 289".into()) }
        if H7::walk_revisioned_field_names(290) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 290".into()) }
        if H7::walk_revisioned_field_names(291) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 291".into()) }
        if H7::walk_revisioned_field_names(292) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 292".into()) }
        if H7::walk_revisioned_field_names(293) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 293".into()) }
        if H7::walk_revisioned_field_names(294) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 294".into()) }
        if H7::walk_revisioned_field_names(295) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 295".into()) }
        if H7::walk_revisioned_field_names(296) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 296".into()) }
        if H7::walk_revisioned_field_names(297) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 297".into()) }
        if H7::walk_revisioned_field_names(298) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 298".into()) }
        if H7::walk_revisioned_field_names(299) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 299".into()) }
        if H7::walk_revisioned_field_names(300) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 300".into()) }
        if !H7::walk_revisioned_field_names(0).is_empty() || !H7::walk_revisioned_field_names(301).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for H7 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_acc().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(9) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_acc(); } 7 => { let _ = w.skip_acc(); } 8 => { let _ = w.walk_acc(); }
                    _ => {} } }
                match g.below(7) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_acc(); } 5 => { let _ = w.into_acc_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 3, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u16, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, String, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, u64, Plain, false, acc, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision(3, optimised, indexed_struct))]
#[revision(revision(2, optimised))]
#[revision(revision(1))]
#[derive(Debug, Clone)]
pub struct H8 { pub f0: u32, #[revision(start = 2)] pub f1: String, #[revision(indexed_seq)] pub f2: Vec<String>, #[revision(start = 3)] #[revision(indexed_map)] pub f3: BTreeMap<u8, String>, #[revision(indexed_set)] pub f4: BTreeSet<i64> }
impl H8 {
}
impl Spec for H8 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, u32>(&self.f0), enc1::<Plain, String>(&self.f1), enc1::<Index, Vec<String>>(&self.f2), enc1::<Index, BTreeMap<u8, String>>(&self.f3), enc1::<Index, BTreeSet<i64>>(&self.f4)], true));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.f2.same(&o.f2) && self.f3.same(&o.f3) && self.f4.same(&o.f4) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; H8 { f0: <u32 as Spec>::random(g), f1: <String as Spec>::random(g), f2: <Vec<String> as Spec>::random(g), f3: <BTreeMap<u8, String> as Spec>::random(g), f4: <BTreeSet<i64> as Spec>::random(g) } }) }
}
impl Hist for H8 {
    const LATEST: u16 = 3;
    const REVISION: u16 = H8::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Plain, BTreeSet<i64>>(g)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Plain, u32>(g), gen1::<Plain, String>(g), gen1::<Index, Vec<String>>(g), gen1::<Index, BTreeSet<i64>>(g)], false)); }
            3 => { put_payload(o, &with_offsets(&[gen1::<Plain, u32>(g), gen1::<Plain, String>(g), gen1::<Index, Vec<String>>(g), gen1::<Index, BTreeMap<u8, String>>(g), gen1::<Index, BTreeSet<i64>>(g)], true)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 5);
        match rev {
            1 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = <String as Default>::default();
                let f2 = rd::<Plain, Vec<String>>(c, &mut sh, Some(2))?;
                let f3 = <BTreeMap<u8, String> as Default>::default();
                let f4 = rd::<Plain, BTreeSet<i64>>(c, &mut sh, Some(4))?;
                #[allow(unused_mut)]
                let mut v = H8 { f0: f0, f1: f1, f2: f2, f3: f3, f4: f4 };
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f2 = rd::<Index, Vec<String>>(c, &mut sh, Some(2))?;
                let f3 = <BTreeMap<u8, String> as Default>::default();
                let f4 = rd::<Index, BTreeSet<i64>>(c, &mut sh, Some(4))?;
                #[allow(unused_mut)]
                let mut v = H8 { f0: f0, f1: f1, f2: f2, f3: f3, f4: f4 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            3 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(20)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Index, Vec<String>>(c, &mut sh, Some(2))?;
                sh.odd |= idx::u32at(offs, 3) as usize != c.pos - base;
                let f3 = rd::<Index, BTreeMap<u8, String>>(c, &mut sh, Some(3))?;
                sh.odd |= idx::u32at(offs, 4) as usize != c.pos - base;
                let f4 = rd::<Index, BTreeSet<i64>>(c, &mut sh, Some(4))?;
                #[allow(unused_mut)]
                let mut v = H8 { f0: f0, f1: f1, f2: f2, f3: f3, f4: f4 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if H8::walk_revisioned_field_names(1) != ["f0", "f2", "f4"] as [&str; 3] { return Err("field names at revision 1".into()) }
        if H8::walk_revisioned_field_names(2) != ["f0", "f1", "f2", "f4"] as [&str; 4] { return Err("field names at revision 2".into()) }
        if H8::walk_revisioned_field_names(3) != ["f0", "f1", "f2", "f3", "f4"] as [&str; 5] { return Err("field names at revision 3".into()) }
        if !H8::walk_revisioned_field_names(0).is_empty() || !H8::walk_revisioned_field_names(4).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for H8 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_f2().is_ok() && w.decode_f3().is_ok() && w.decode_f4().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, false]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(15) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_f2(); } 7 => { let _ = w.skip_f2(); } 8 => { let _ = w.walk_f2(); }
                    9 => { let _ = w.decode_f3(); } 10 => { let _ = w.skip_f3(); } 11 => { let _ = w.walk_f3(); }
                    12 => { let _ = w.decode_f4(); } 13 => { let _ = w.skip_f4(); } 14 => { let _ = w.walk_f4(); }
                    _ => {} } }
                match g.below(11) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_f2(); } 5 => { let _ = w.into_f2_bytes(); }
                    6 => { let _ = w.into_walk_f3(); } 7 => { let _ = w.into_f3_bytes(); }
                    8 => { let _ = w.into_walk_f4(); } 9 => { let _ = w.into_f4_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 5, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u32, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, String, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(index w c g v sh R; 2, Vec<String>, Index, true, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                3 => sfield!(index w c g v sh R; 3, BTreeMap<u8, String>, Index, true, f3, decode_f3, skip_f3, walk_f3, into_walk_f3, into_f3_bytes),
                4 => sfield!(index w c g v sh R; 4, BTreeSet<i64>, Index, true, f4, decode_f4, skip_f4, walk_f4, into_walk_f4, into_f4_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(2, optimised, indexed_struct), revision(1, optimised, indexed_struct), revision(3))]
#[derive(Debug, Clone)]
pub struct H9 { #[revision(convert_fn = "c_0", end = 2)] pub f0: u32, #[revision(start = 2, default_fn = "d_1")] pub f1: String, #[revision(indexed_seq)] #[revision(convert_fn = "c_2")] #[revision(end = 3)] pub f2: Vec<u32>, pub acc: u64, pub f4: u8 }
impl H9 {
    fn c_0(&mut self, rev: u16, v: u32) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
    fn d_1(rev: u16) -> Result<String, Error> { Ok(dflt::<String>(rev, 1)) }
    fn c_2(&mut self, rev: u16, v: Vec<u32>) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
}
impl Spec for H9 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        o.extend(enc1::<Plain, String>(&self.f1));
        o.extend(enc1::<Plain, u64>(&self.acc));
        o.extend(enc1::<Plain, u8>(&self.f4));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f1.same(&o.f1) && self.acc.same(&o.acc) && self.f4.same(&o.f4) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; H9 { f1: <String as Spec>::random(g), acc: <u64 as Spec>::random(g), f4: <u8 as Spec>::random(g) } }) }
}
impl Hist for H9 {
    const LATEST: u16 = 3;
    const REVISION: u16 = H9::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[gen1::<Plain, u32>(g), gen1::<Index, Vec<u32>>(g), gen1::<Plain, u64>(g), gen1::<Plain, u8>(g)], true)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Plain, String>(g), gen1::<Index, Vec<u32>>(g), gen1::<Plain, u64>(g), gen1::<Plain, u8>(g)], true)); }
            3 => { o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, u8>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 3);
        sh.conv = rev != 3;
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(16)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f1 = dflt::<String>(1, 1);
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f2 = rd::<Index, Vec<u32>>(c, &mut sh, None)?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 3) as usize != c.pos - base;
                let f4 = rd::<Plain, u8>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H9 { f1: f1, acc: f3, f4: f4 };
                v.acc = mix(v.acc, 1, &f0.bytes());
                v.acc = mix(v.acc, 1, &f2.bytes());
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(16)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f2 = rd::<Index, Vec<u32>>(c, &mut sh, None)?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 3) as usize != c.pos - base;
                let f4 = rd::<Plain, u8>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H9 { f1: f1, acc: f3, f4: f4 };
                v.acc = mix(v.acc, 2, &f2.bytes());
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            3 => {
                let f1 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                let f4 = rd::<Plain, u8>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = H9 { f1: f1, acc: f3, f4: f4 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if H9::walk_revisioned_field_names(1) != ["f0", "f2", "acc", "f4"] as [&str; 4] { return Err("field names at revision 1".into()) }
        if H9::walk_revisioned_field_names(2) != ["f1", "f2", "acc", "f4"] as [&str; 4] { return Err("field names at revision 2".into()) }
        if H9::walk_revisioned_field_names(3) != ["f1", "acc", "f4"] as [&str; 3] { return Err("field names at revision 3".into()) }
        if !H9::walk_revisioned_field_names(0).is_empty() || !H9::walk_revisioned_field_names(4).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for H9 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f1().is_ok() && w.decode_acc().is_ok() && w.decode_f4().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[false, false, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(9) {
                    0 => { let _ = w.decode_f1(); } 1 => { let _ = w.skip_f1(); } 2 => { let _ = w.walk_f1(); }
                    3 => { let _ = w.decode_acc(); } 4 => { let _ = w.skip_acc(); } 5 => { let _ = w.walk_acc(); }
                    6 => { let _ = w.decode_f4(); } 7 => { let _ = w.skip_f4(); } 8 => { let _ = w.walk_f4(); }
                    _ => {} } }
                match g.below(7) {
                    0 => { let _ = w.into_walk_f1(); } 1 => { let _ = w.into_f1_bytes(); }
                    2 => { let _ = w.into_walk_acc(); } 3 => { let _ = w.into_acc_bytes(); }
                    4 => { let _ = w.into_walk_f4(); } 5 => { let _ = w.into_f4_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 3, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, String, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                1 => sfield!(plain w c g v sh R; 1, u64, Plain, false, acc, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
                2 => sfield!(plain w c g v sh R; 2, u8, Plain, false, f4, decode_f4, skip_f4, walk_f4, into_walk_f4, into_f4_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(1, optimised, indexed_struct), revision(2, optimised, indexed_struct))]
#[derive(Debug, Clone)]
pub struct I1 { #[revision(default_fn = "d_0", start = 2)] pub f0: u8, pub f1: String, #[revision(start = 2)] pub f2: u32, #[revision(indexed_seq)] pub f3: Vec<String>, pub f4: i64 }
impl I1 {
    fn d_0(rev: u16) -> Result<u8, Error> { Ok(dflt::<u8>(rev, 0)) }
}
impl Spec for I1 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, u8>(&self.f0), enc1::<Plain, String>(&self.f1), enc1::<Plain, u32>(&self.f2), enc1::<Index, Vec<String>>(&self.f3), enc1::<Plain, i64>(&self.f4)], true));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.f2.same(&o.f2) && self.f3.same(&o.f3) && self.f4.same(&o.f4) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; I1 { f0: <u8 as Spec>::random(g), f1: <String as Spec>::random(g), f2: <u32 as Spec>::random(g), f3: <Vec<String> as Spec>::random(g), f4: <i64 as Spec>::random(g) } }) }
}
impl Hist for I1 {
    const LATEST: u16 = 2;
    const REVISION: u16 = I1::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[gen1::<Plain, String>(g), gen1::<Index, Vec<String>>(g), gen1::<Plain, i64>(g)], true)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Plain, u8>(g), gen1::<Plain, String>(g), gen1::<Plain, u32>(g), gen1::<Index, Vec<String>>(g), gen1::<Plain, i64>(g)], true)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 5);
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(12)?; let _ = offs;
                let f0 = dflt::<u8>(1, 0);
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f2 = <u32 as Default>::default();
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f3 = rd::<Index, Vec<String>>(c, &mut sh, Some(3))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f4 = rd::<Plain, i64>(c, &mut sh, Some(4))?;
                #[allow(unused_mut)]
                let mut v = I1 { f0: f0, f1: f1, f2: f2, f3: f3, f4: f4 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(20)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Plain, u32>(c, &mut sh, Some(2))?;
                sh.odd |= idx::u32at(offs, 3) as usize != c.pos - base;
                let f3 = rd::<Index, Vec<String>>(c, &mut sh, Some(3))?;
                sh.odd |= idx::u32at(offs, 4) as usize != c.pos - base;
                let f4 = rd::<Plain, i64>(c, &mut sh, Some(4))?;
                #[allow(unused_mut)]
                let mut v = I1 { f0: f0, f1: f1, f2: f2, f3: f3, f4: f4 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if I1::walk_revisioned_field_names(1) != ["f1", "f3", "f4"] as [&str; 3] { return Err("field names at revision 1".into()) }
        if I1::walk_revisioned_field_names(2) != ["f0", "f1", "f2", "f3", "f4"] as [&str; 5] { return Err("field names at revision 2".into()) }
        if !I1::walk_revisioned_field_names(0).is_empty() || !I1::walk_revisioned_field_names(3).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for I1 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_f2().is_ok() && w.decode_f3().is_ok() && w.decode_f4().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[false, false]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(15) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_f2(); } 7 => { let _ = w.skip_f2(); } 8 => { let _ = w.walk_f2(); }
                    9 => { let _ = w.decode_f3(); } 10 => { let _ = w.skip_f3(); } 11 => { let _ = w.walk_f3(); }
                    12 => { let _ = w.decode_f4(); } 13 => { let _ = w.skip_f4(); } 14 => { let _ = w.walk_f4(); }
                    _ => {} } }
                match g.below(11) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_f2(); } 5 => { let _ = w.into_f2_bytes(); }
                    6 => { let _ = w.into_walk_f3(); } 7 => { let _ = w.into_f3_bytes(); }
                    8 => { let _ = w.into_walk_f4(); } 9 => { let _ = w.into_f4_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 5, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u8, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, String, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, u32, Plain, false, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                3 => sfield!(index w c g v sh R; 3, Vec<String>, Index, true, f3, decode_f3, skip_f3, walk_f3, into_walk_f3, into_f3_bytes),
                4 => sfield!(plain w c g v sh R; 4, i64, Plain, false, f4, decode_f4, skip_f4, walk_f4, into_walk_f4, into_f4_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(3, optimised, indexed_struct), revision(2, optimised, indexed_struct), revision(1, optimised, indexed_struct))]
#[derive(Debug, Clone)]
pub struct I2(pub String, #[revision(start = 2)] pub u8, #[revision(start = 3)] #[revision(default_fn = "d_2")] #[revision(indexed_seq)] pub Vec<u32>, #[revision(indexed_map)] pub BTreeMap<String, u64>);
impl I2 {
    fn d_2(rev: u16) -> Result<Vec<u32>, Error> { Ok(dflt::<Vec<u32>>(rev, 2)) }
}
impl Spec for I2 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, String>(&self.0), enc1::<Plain, u8>(&self.1), enc1::<Index, Vec<u32>>(&self.2), enc1::<Index, BTreeMap<String, u64>>(&self.3)], true));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; I2(<String as Spec>::random(g), <u8 as Spec>::random(g), <Vec<u32> as Spec>::random(g), <BTreeMap<String, u64> as Spec>::random(g)) }) }
}
impl Hist for I2 {
    const LATEST: u16 = 3;
    const REVISION: u16 = I2::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[gen1::<Plain, String>(g), gen1::<Index, BTreeMap<String, u64>>(g)], true)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Plain, String>(g), gen1::<Plain, u8>(g), gen1::<Index, BTreeMap<String, u64>>(g)], true)); }
            3 => { put_payload(o, &with_offsets(&[gen1::<Plain, String>(g), gen1::<Plain, u8>(g), gen1::<Index, Vec<u32>>(g), gen1::<Index, BTreeMap<String, u64>>(g)], true)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 4);
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(8)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                let f1 = <u8 as Default>::default();
                let f2 = dflt::<Vec<u32>>(1, 2);
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f3 = rd::<Index, BTreeMap<String, u64>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = I2(f0, f1, f2, f3);
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(12)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Plain, u8>(c, &mut sh, Some(1))?;
                let f2 = dflt::<Vec<u32>>(2, 2);
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f3 = rd::<Index, BTreeMap<String, u64>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = I2(f0, f1, f2, f3);
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            3 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(16)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Plain, u8>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Index, Vec<u32>>(c, &mut sh, Some(2))?;
                sh.odd |= idx::u32at(offs, 3) as usize != c.pos - base;
                let f3 = rd::<Index, BTreeMap<String, u64>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = I2(f0, f1, f2, f3);
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if I2::walk_revisioned_field_names(1) != ["0", "3"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if I2::walk_revisioned_field_names(2) != ["0", "1", "3"] as [&str; 3] { return Err("field names at revision 2".into()) }
        if I2::walk_revisioned_field_names(3) != ["0", "1", "2", "3"] as [&str; 4] { return Err("field names at revision 3".into()) }
        if !I2::walk_revisioned_field_names(0).is_empty() || !I2::walk_revisioned_field_names(4).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for I2 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok() && w.decode_field_2().is_ok() && w.decode_field_3().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[false, false, false]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(12) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    6 => { let _ = w.decode_field_2(); } 7 => { let _ = w.skip_field_2(); } 8 => { let _ = w.walk_field_2(); }
                    9 => { let _ = w.decode_field_3(); } 10 => { let _ = w.skip_field_3(); } 11 => { let _ = w.walk_field_3(); }
                    _ => {} } }
                match g.below(9) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    4 => { let _ = w.into_walk_field_2(); } 5 => { let _ = w.into_field_2_bytes(); }
                    6 => { let _ = w.into_walk_field_3(); } 7 => { let _ = w.into_field_3_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 4, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, String, Plain, false, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(plain w c g v sh R; 1, u8, Plain, false, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                2 => sfield!(index w c g v sh R; 2, Vec<u32>, Index, true, 2, decode_field_2, skip_field_2, walk_field_2, into_walk_field_2, into_field_2_bytes),
                3 => sfield!(index w c g v sh R; 3, BTreeMap<String, u64>, Index, true, 3, decode_field_3, skip_field_3, walk_field_3, into_walk_field_3, into_field_3_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(1, optimised, indexed_struct))]
#[derive(Debug, Clone)]
pub struct I3;
impl I3 {
}
impl Spec for I3 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        put_payload(o, &with_offsets(&[], true));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { true }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; I3 }) }
}
impl Hist for I3 {
    const LATEST: u16 = 1;
    const REVISION: u16 = I3::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[], true)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 0);
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(0)?; let _ = offs;
                #[allow(unused_mut)]
                let mut v = I3;
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if I3::walk_revisioned_field_names(1) != [] as [&str; 0] { return Err("field names at revision 1".into()) }
        if !I3::walk_revisioned_field_names(0).is_empty() || !I3::walk_revisioned_field_names(2).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for I3 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 0, sh.any_order) {
            match i {
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(1), revision(2, optimised, indexed_struct), revision(3, optimised))]
#[derive(Debug, Clone)]
pub struct I4;
impl I4 {
}
impl Spec for I4 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        put_payload(o, &with_offsets(&[], false));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { true }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; I4 }) }
}
impl Hist for I4 {
    const LATEST: u16 = 3;
    const REVISION: u16 = I4::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => {  }
            2 => { put_payload(o, &with_offsets(&[], true)); }
            3 => { put_payload(o, &with_offsets(&[], false)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 0);
        match rev {
            1 => {
                #[allow(unused_mut)]
                let mut v = I4;
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(0)?; let _ = offs;
                #[allow(unused_mut)]
                let mut v = I4;
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            3 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                #[allow(unused_mut)]
                let mut v = I4;
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if I4::walk_revisioned_field_names(1) != [] as [&str; 0] { return Err("field names at revision 1".into()) }
        if I4::walk_revisioned_field_names(2) != [] as [&str; 0] { return Err("field names at revision 2".into()) }
        if I4::walk_revisioned_field_names(3) != [] as [&str; 0] { return Err("field names at revision 3".into()) }
        if !I4::walk_revisioned_field_names(0).is_empty() || !I4::walk_revisioned_field_names(4).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for I4 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 0, sh.any_order) {
            match i {
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(1, optimised, indexed_struct), revision(2, optimised))]
#[derive(Debug, Clone)]
pub struct I5 { pub acc: u64, #[revision(end = 2, convert_fn = "c_1", indexed_map)] pub f1: BTreeMap<u8, String>, #[revision(indexed_set)] pub f2: BTreeSet<String> }
impl I5 {
    fn c_1(&mut self, rev: u16, v: BTreeMap<u8, String>) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
}
impl Spec for I5 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, u64>(&self.acc), enc1::<Index, BTreeSet<String>>(&self.f2)], false));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.acc.same(&o.acc) && self.f2.same(&o.f2) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; I5 { acc: <u64 as Spec>::random(g), f2: <BTreeSet<String> as Spec>::random(g) } }) }
}
impl Hist for I5 {
    const LATEST: u16 = 2;
    const REVISION: u16 = I5::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g), gen1::<Index, BTreeMap<u8, String>>(g), gen1::<Index, BTreeSet<String>>(g)], true)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g), gen1::<Index, BTreeSet<String>>(g)], false)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 2);
        sh.conv = rev != 2;
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(12)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Index, BTreeMap<u8, String>>(c, &mut sh, None)?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Index, BTreeSet<String>>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = I5 { acc: f0, f2: f2 };
                v.acc = mix(v.acc, 1, &f1.bytes());
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                let f2 = rd::<Index, BTreeSet<String>>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = I5 { acc: f0, f2: f2 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if I5::walk_revisioned_field_names(1) != ["acc", "f1", "f2"] as [&str; 3] { return Err("field names at revision 1".into()) }
        if I5::walk_revisioned_field_names(2) != ["acc", "f2"] as [&str; 2] { return Err("field names at revision 2".into()) }
        if !I5::walk_revisioned_field_names(0).is_empty() || !I5::walk_revisioned_field_names(3).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for I5 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_acc().is_ok() && w.decode_f2().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[false, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(6) {
                    0 => { let _ = w.decode_acc(); } 1 => { let _ = w.skip_acc(); } 2 => { let _ = w.walk_acc(); }
                    3 => { let _ = w.decode_f2(); } 4 => { let _ = w.skip_f2(); } 5 => { let _ = w.walk_f2(); }
                    _ => {} } }
                match g.below(5) {
                    0 => { let _ = w.into_walk_acc(); } 1 => { let _ = w.into_acc_bytes(); }
                    2 => { let _ = w.into_walk_f2(); } 3 => { let _ = w.into_f2_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 2, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u64, Plain, false, acc, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
                1 => sfield!(index w c g v sh R; 1, BTreeSet<String>, Index, true, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision(1, optimised, indexed_struct))]
#[derive(Debug, Clone)]
pub struct I6 { pub f0: u8, #[revision(indexed_seq)] pub f1: Vec<String>, pub f2: String, #[revision(indexed_set)] pub f3: BTreeSet<i64>, #[revision(indexed_map)] pub f4: BTreeMap<u8, String>, pub f5: (u16, String) }
impl I6 {
}
impl Spec for I6 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, u8>(&self.f0), enc1::<Index, Vec<String>>(&self.f1), enc1::<Plain, String>(&self.f2), enc1::<Index, BTreeSet<i64>>(&self.f3), enc1::<Index, BTreeMap<u8, String>>(&self.f4), enc1::<Plain, (u16, String)>(&self.f5)], true));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.f2.same(&o.f2) && self.f3.same(&o.f3) && self.f4.same(&o.f4) && self.f5.same(&o.f5) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; I6 { f0: <u8 as Spec>::random(g), f1: <Vec<String> as Spec>::random(g), f2: <String as Spec>::random(g), f3: <BTreeSet<i64> as Spec>::random(g), f4: <BTreeMap<u8, String> as Spec>::random(g), f5: <(u16, String) as Spec>::random(g) } }) }
}
impl Hist for I6 {
    const LATEST: u16 = 1;
    const REVISION: u16 = I6::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[gen1::<Plain, u8>(g), gen1::<Index, Vec<String>>(g), gen1::<Plain, String>(g), gen1::<Index, BTreeSet<i64>>(g), gen1::<Index, BTreeMap<u8, String>>(g), gen1::<Plain, (u16, String)>(g)], true)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 6);
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(24)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Index, Vec<String>>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Plain, String>(c, &mut sh, Some(2))?;
                sh.odd |= idx::u32at(offs, 3) as usize != c.pos - base;
                let f3 = rd::<Index, BTreeSet<i64>>(c, &mut sh, Some(3))?;
                sh.odd |= idx::u32at(offs, 4) as usize != c.pos - base;
                let f4 = rd::<Index, BTreeMap<u8, String>>(c, &mut sh, Some(4))?;
                sh.odd |= idx::u32at(offs, 5) as usize != c.pos - base;
                let f5 = rd::<Plain, (u16, String)>(c, &mut sh, Some(5))?;
                #[allow(unused_mut)]
                let mut v = I6 { f0: f0, f1: f1, f2: f2, f3: f3, f4: f4, f5: f5 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if I6::walk_revisioned_field_names(1) != ["f0", "f1", "f2", "f3", "f4", "f5"] as [&str; 6] { return Err("field names at revision 1".into()) }
        if !I6::walk_revisioned_field_names(0).is_empty() || !I6::walk_revisioned_field_names(2).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for I6 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_f2().is_ok() && w.decode_f3().is_ok() && w.decode_f4().is_ok() && w.decode_f5().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[false]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(18) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_f2(); } 7 => { let _ = w.skip_f2(); } 8 => { let _ = w.walk_f2(); }
                    9 => { let _ = w.decode_f3(); } 10 => { let _ = w.skip_f3(); } 11 => { let _ = w.walk_f3(); }
                    12 => { let _ = w.decode_f4(); } 13 => { let _ = w.skip_f4(); } 14 => { let _ = w.walk_f4(); }
                    15 => { let _ = w.decode_f5(); } 16 => { let _ = w.skip_f5(); } 17 => { let _ = w.walk_f5(); }
                    _ => {} } }
                match g.below(13) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_f2(); } 5 => { let _ = w.into_f2_bytes(); }
                    6 => { let _ = w.into_walk_f3(); } 7 => { let _ = w.into_f3_bytes(); }
                    8 => { let _ = w.into_walk_f4(); } 9 => { let _ = w.into_f4_bytes(); }
                    10 => { let _ = w.into_walk_f5(); } 11 => { let _ = w.into_f5_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 6, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u8, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(index w c g v sh R; 1, Vec<String>, Index, true, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, String, Plain, false, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                3 => sfield!(index w c g v sh R; 3, BTreeSet<i64>, Index, true, f3, decode_f3, skip_f3, walk_f3, into_walk_f3, into_f3_bytes),
                4 => sfield!(index w c g v sh R; 4, BTreeMap<u8, String>, Index, true, f4, decode_f4, skip_f4, walk_f4, into_walk_f4, into_f4_bytes),
                5 => sfield!(plain w c g v sh R; 5, (u16, String), Plain, false, f5, decode_f5, skip_f5, walk_f5, into_walk_f5, into_f5_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision = 2)]
#[derive(Debug, Clone)]
pub struct O1 { #[revision(fixed)] pub f0: u32, #[revision(end = 2, convert_fn = "c_1", specialised)] pub f1: Vec<u16>, pub acc: u64, #[revision(specialised)] pub f3: Vec<bool>, #[revision(end = 2, convert_fn = "c_4", fixed)] pub f4: i128 }
impl O1 {
    fn c_1(&mut self, rev: u16, v: Vec<u16>) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
    fn c_4(&mut self, rev: u16, v: i128) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
}
impl Spec for O1 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        o.extend(enc1::<Fixed, u32>(&self.f0));
        o.extend(enc1::<Plain, u64>(&self.acc));
        o.extend(enc1::<Bulk, Vec<bool>>(&self.f3));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.acc.same(&o.acc) && self.f3.same(&o.f3) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; O1 { f0: <u32 as Spec>::random(g), acc: <u64 as Spec>::random(g), f3: <Vec<bool> as Spec>::random(g) } }) }
}
impl Hist for O1 {
    const LATEST: u16 = 2;
    const REVISION: u16 = O1::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Fixed, u32>(g)); o.extend(gen1::<Bulk, Vec<u16>>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Bulk, Vec<bool>>(g)); o.extend(gen1::<Fixed, i128>(g)); }
            2 => { o.extend(gen1::<Fixed, u32>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Bulk, Vec<bool>>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 3);
        sh.conv = rev != 2;
        match rev {
            1 => {
                let f0 = rd::<Fixed, u32>(c, &mut sh, Some(0))?;
                let f1 = rd::<Bulk, Vec<u16>>(c, &mut sh, None)?;
                let f2 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                let f3 = rd::<Bulk, Vec<bool>>(c, &mut sh, Some(2))?;
                let f4 = rd::<Fixed, i128>(c, &mut sh, None)?;
                #[allow(unused_mut)]
                let mut v = O1 { f0: f0, acc: f2, f3: f3 };
                v.acc = mix(v.acc, 1, &f1.bytes());
                v.acc = mix(v.acc, 1, &f4.bytes());
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Fixed, u32>(c, &mut sh, Some(0))?;
                let f2 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                let f3 = rd::<Bulk, Vec<bool>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = O1 { f0: f0, acc: f2, f3: f3 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if O1::walk_revisioned_field_names(1) != ["f0", "f1", "acc", "f3", "f4"] as [&str; 5] { return Err("field names at revision 1".into()) }
        if O1::walk_revisioned_field_names(2) != ["f0", "acc", "f3"] as [&str; 3] { return Err("field names at revision 2".into()) }
        if !O1::walk_revisioned_field_names(0).is_empty() || !O1::walk_revisioned_field_names(3).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for O1 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_acc().is_ok() && w.decode_f3().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(9) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_acc(); } 4 => { let _ = w.skip_acc(); } 5 => { let _ = w.walk_acc(); }
                    6 => { let _ = w.decode_f3(); } 7 => { let _ = w.skip_f3(); } 8 => { let _ = w.walk_f3(); }
                    _ => {} } }
                match g.below(7) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_acc(); } 3 => { let _ = w.into_acc_bytes(); }
                    4 => { let _ = w.into_walk_f3(); } 5 => { let _ = w.into_f3_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 3, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u32, Fixed, true, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, u64, Plain, false, acc, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
                2 => sfield!(plain w c g v sh R; 2, Vec<bool>, Bulk, true, f3, decode_f3, skip_f3, walk_f3, into_walk_f3, into_f3_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(2), revision(1))]
#[derive(Debug, Clone)]
pub struct O2(#[revision(fixed)] pub u64, #[revision(specialised)] pub Vec<f64>, #[revision(start = 2, default_fn = "d_2", fixed)] pub i32, #[revision(start = 2, specialised)] pub Vec<u8>, pub String);
impl O2 {
    fn d_2(rev: u16) -> Result<i32, Error> { Ok(dflt::<i32>(rev, 2)) }
}
impl Spec for O2 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        o.extend(enc1::<Fixed, u64>(&self.0));
        o.extend(enc1::<Bulk, Vec<f64>>(&self.1));
        o.extend(enc1::<Fixed, i32>(&self.2));
        o.extend(enc1::<Bulk, Vec<u8>>(&self.3));
        o.extend(enc1::<Plain, String>(&self.4));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3) && self.4.same(&o.4) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; O2(<u64 as Spec>::random(g), <Vec<f64> as Spec>::random(g), <i32 as Spec>::random(g), <Vec<u8> as Spec>::random(g), <String as Spec>::random(g)) }) }
}
impl Hist for O2 {
    const LATEST: u16 = 2;
    const REVISION: u16 = O2::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Fixed, u64>(g)); o.extend(gen1::<Bulk, Vec<f64>>(g)); o.extend(gen1::<Plain, String>(g)); }
            2 => { o.extend(gen1::<Fixed, u64>(g)); o.extend(gen1::<Bulk, Vec<f64>>(g)); o.extend(gen1::<Fixed, i32>(g)); o.extend(gen1::<Bulk, Vec<u8>>(g)); o.extend(gen1::<Plain, String>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 5);
        match rev {
            1 => {
                let f0 = rd::<Fixed, u64>(c, &mut sh, Some(0))?;
                let f1 = rd::<Bulk, Vec<f64>>(c, &mut sh, Some(1))?;
                let f2 = dflt::<i32>(1, 2);
                let f3 = <Vec<u8> as Default>::default();
                let f4 = rd::<Plain, String>(c, &mut sh, Some(4))?;
                #[allow(unused_mut)]
                let mut v = O2(f0, f1, f2, f3, f4);
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Fixed, u64>(c, &mut sh, Some(0))?;
                let f1 = rd::<Bulk, Vec<f64>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Fixed, i32>(c, &mut sh, Some(2))?;
                let f3 = rd::<Bulk, Vec<u8>>(c, &mut sh, Some(3))?;
                let f4 = rd::<Plain, String>(c, &mut sh, Some(4))?;
                #[allow(unused_mut)]
                let mut v = O2(f0, f1, f2, f3, f4);
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if O2::walk_revisioned_field_names(1) != ["0", "1", "4"] as [&str; 3] { return Err("field names at revision 1".into()) }
        if O2::walk_revisioned_field_names(2) != ["0", "1", "2", "3", "4"] as [&str; 5] { return Err("field names at revision 2".into()) }
        if !O2::walk_revisioned_field_names(0).is_empty() || !O2::walk_revisioned_field_names(3).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for O2 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok() && w.decode_field_2().is_ok() && w.decode_field_3().is_ok() && w.decode_field_4().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(15) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    6 => { let _ = w.decode_field_2(); } 7 => { let _ = w.skip_field_2(); } 8 => { let _ = w.walk_field_2(); }
                    9 => { let _ = w.decode_field_3(); } 10 => { let _ = w.skip_field_3(); } 11 => { let _ = w.walk_field_3(); }
                    12 => { let _ = w.decode_field_4(); } 13 => { let _ = w.skip_field_4(); } 14 => { let _ = w.walk_field_4(); }
                    _ => {} } }
                match g.below(11) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    4 => { let _ = w.into_walk_field_2(); } 5 => { let _ = w.into_field_2_bytes(); }
                    6 => { let _ = w.into_walk_field_3(); } 7 => { let _ = w.into_field_3_bytes(); }
                    8 => { let _ = w.into_walk_field_4(); } 9 => { let _ = w.into_field_4_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 5, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u64, Fixed, true, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(plain w c g v sh R; 1, Vec<f64>, Bulk, true, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                2 => sfield!(plain w c g v sh R; 2, i32, Fixed, true, 2, decode_field_2, skip_field_2, walk_field_2, into_walk_field_2, into_field_2_bytes),
                3 => sfield!(plain w c g v sh R; 3, Vec<u8>, Bulk, true, 3, decode_field_3, skip_field_3, walk_field_3, into_walk_field_3, into_field_3_bytes),
                4 => sfield!(plain w c g v sh R; 4, String, Plain, false, 4, decode_field_4, skip_field_4, walk_field_4, into_walk_field_4, into_field_4_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(2, optimised), revision(1))]
#[derive(Debug, Clone)]
pub struct O3 { #[revision(fixed)] pub f0: u64, #[revision(specialised)] pub f1: Vec<u32>, #[revision(indexed_seq)] pub f2: Vec<String>, #[revision(indexed_map)] pub f3: BTreeMap<u8, String>, #[revision(indexed_set)] pub f4: BTreeSet<i64>, pub f5: u8 }
impl O3 {
}
impl Spec for O3 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, u64>(&self.f0), enc1::<Plain, Vec<u32>>(&self.f1), enc1::<Index, Vec<String>>(&self.f2), enc1::<Index, BTreeMap<u8, String>>(&self.f3), enc1::<Index, BTreeSet<i64>>(&self.f4), enc1::<Plain, u8>(&self.f5)], false));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.f2.same(&o.f2) && self.f3.same(&o.f3) && self.f4.same(&o.f4) && self.f5.same(&o.f5) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; O3 { f0: <u64 as Spec>::random(g), f1: <Vec<u32> as Spec>::random(g), f2: <Vec<String> as Spec>::random(g), f3: <BTreeMap<u8, String> as Spec>::random(g), f4: <BTreeSet<i64> as Spec>::random(g), f5: <u8 as Spec>::random(g) } }) }
}
impl Hist for O3 {
    const LATEST: u16 = 2;
    const REVISION: u16 = O3::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Fixed, u64>(g)); o.extend(gen1::<Bulk, Vec<u32>>(g)); o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); o.extend(gen1::<Plain, BTreeSet<i64>>(g)); o.extend(gen1::<Plain, u8>(g)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g), gen1::<Plain, Vec<u32>>(g), gen1::<Index, Vec<String>>(g), gen1::<Index, BTreeMap<u8, String>>(g), gen1::<Index, BTreeSet<i64>>(g), gen1::<Plain, u8>(g)], false)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 6);
        match rev {
            1 => {
                let f0 = rd::<Fixed, u64>(c, &mut sh, Some(0))?;
                let f1 = rd::<Bulk, Vec<u32>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<String>>(c, &mut sh, Some(2))?;
                let f3 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(3))?;
                let f4 = rd::<Plain, BTreeSet<i64>>(c, &mut sh, Some(4))?;
                let f5 = rd::<Plain, u8>(c, &mut sh, Some(5))?;
                #[allow(unused_mut)]
                let mut v = O3 { f0: f0, f1: f1, f2: f2, f3: f3, f4: f4, f5: f5 };
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Index, Vec<String>>(c, &mut sh, Some(2))?;
                let f3 = rd::<Index, BTreeMap<u8, String>>(c, &mut sh, Some(3))?;
                let f4 = rd::<Index, BTreeSet<i64>>(c, &mut sh, Some(4))?;
                let f5 = rd::<Plain, u8>(c, &mut sh, Some(5))?;
                #[allow(unused_mut)]
                let mut v = O3 { f0: f0, f1: f1, f2: f2, f3: f3, f4: f4, f5: f5 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if O3::walk_revisioned_field_names(1) != ["f0", "f1", "f2", "f3", "f4", "f5"] as [&str; 6] { return Err("field names at revision 1".into()) }
        if O3::walk_revisioned_field_names(2) != ["f0", "f1", "f2", "f3", "f4", "f5"] as [&str; 6] { return Err("field names at revision 2".into()) }
        if !O3::walk_revisioned_field_names(0).is_empty() || !O3::walk_revisioned_field_names(3).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for O3 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_f2().is_ok() && w.decode_f3().is_ok() && w.decode_f4().is_ok() && w.decode_f5().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(18) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_f2(); } 7 => { let _ = w.skip_f2(); } 8 => { let _ = w.walk_f2(); }
                    9 => { let _ = w.decode_f3(); } 10 => { let _ = w.skip_f3(); } 11 => { let _ = w.walk_f3(); }
                    12 => { let _ = w.decode_f4(); } 13 => { let _ = w.skip_f4(); } 14 => { let _ = w.walk_f4(); }
                    15 => { let _ = w.decode_f5(); } 16 => { let _ = w.skip_f5(); } 17 => { let _ = w.walk_f5(); }
                    _ => {} } }
                match g.below(13) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_f2(); } 5 => { let _ = w.into_f2_bytes(); }
                    6 => { let _ = w.into_walk_f3(); } 7 => { let _ = w.into_f3_bytes(); }
                    8 => { let _ = w.into_walk_f4(); } 9 => { let _ = w.into_f4_bytes(); }
                    10 => { let _ = w.into_walk_f5(); } 11 => { let _ = w.into_f5_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 6, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u64, Plain, true, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, Vec<u32>, Plain, true, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(index w c g v sh R; 2, Vec<String>, Index, true, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                3 => sfield!(index w c g v sh R; 3, BTreeMap<u8, String>, Index, true, f3, decode_f3, skip_f3, walk_f3, into_walk_f3, into_f3_bytes),
                4 => sfield!(index w c g v sh R; 4, BTreeSet<i64>, Index, true, f4, decode_f4, skip_f4, walk_f4, into_walk_f4, into_f4_bytes),
                5 => sfield!(plain w c g v sh R; 5, u8, Plain, false, f5, decode_f5, skip_f5, walk_f5, into_walk_f5, into_f5_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(1), revision(2, optimised, indexed_struct))]
#[derive(Debug, Clone)]
pub struct O4 { #[revision(indexed_seq)] pub f0: Vec<u32>, #[revision(fixed)] pub f1: i64, #[revision(indexed_map)] pub f2: BTreeMap<u8, String>, pub f3: u8, #[revision(specialised)] pub f4: Vec<bool> }
impl O4 {
}
impl Spec for O4 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Index, Vec<u32>>(&self.f0), enc1::<Plain, i64>(&self.f1), enc1::<Index, BTreeMap<u8, String>>(&self.f2), enc1::<Plain, u8>(&self.f3), enc1::<Plain, Vec<bool>>(&self.f4)], true));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.f2.same(&o.f2) && self.f3.same(&o.f3) && self.f4.same(&o.f4) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; O4 { f0: <Vec<u32> as Spec>::random(g), f1: <i64 as Spec>::random(g), f2: <BTreeMap<u8, String> as Spec>::random(g), f3: <u8 as Spec>::random(g), f4: <Vec<bool> as Spec>::random(g) } }) }
}
impl Hist for O4 {
    const LATEST: u16 = 2;
    const REVISION: u16 = O4::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, Vec<u32>>(g)); o.extend(gen1::<Fixed, i64>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Bulk, Vec<bool>>(g)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Index, Vec<u32>>(g), gen1::<Plain, i64>(g), gen1::<Index, BTreeMap<u8, String>>(g), gen1::<Plain, u8>(g), gen1::<Plain, Vec<bool>>(g)], true)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 5);
        match rev {
            1 => {
                let f0 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Fixed, i64>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(2))?;
                let f3 = rd::<Plain, u8>(c, &mut sh, Some(3))?;
                let f4 = rd::<Bulk, Vec<bool>>(c, &mut sh, Some(4))?;
                #[allow(unused_mut)]
                let mut v = O4 { f0: f0, f1: f1, f2: f2, f3: f3, f4: f4 };
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(20)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Index, Vec<u32>>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Plain, i64>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Index, BTreeMap<u8, String>>(c, &mut sh, Some(2))?;
                sh.odd |= idx::u32at(offs, 3) as usize != c.pos - base;
                let f3 = rd::<Plain, u8>(c, &mut sh, Some(3))?;
                sh.odd |= idx::u32at(offs, 4) as usize != c.pos - base;
                let f4 = rd::<Plain, Vec<bool>>(c, &mut sh, Some(4))?;
                #[allow(unused_mut)]
                let mut v = O4 { f0: f0, f1: f1, f2: f2, f3: f3, f4: f4 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if O4::walk_revisioned_field_names(1) != ["f0", "f1", "f2", "f3", "f4"] as [&str; 5] { return Err("field names at revision 1".into()) }
        if O4::walk_revisioned_field_names(2) != ["f0", "f1", "f2", "f3", "f4"] as [&str; 5] { return Err("field names at revision 2".into()) }
        if !O4::walk_revisioned_field_names(0).is_empty() || !O4::walk_revisioned_field_names(3).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for O4 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_f2().is_ok() && w.decode_f3().is_ok() && w.decode_f4().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, false]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(15) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_f2(); } 7 => { let _ = w.skip_f2(); } 8 => { let _ = w.walk_f2(); }
                    9 => { let _ = w.decode_f3(); } 10 => { let _ = w.skip_f3(); } 11 => { let _ = w.walk_f3(); }
                    12 => { let _ = w.decode_f4(); } 13 => { let _ = w.skip_f4(); } 14 => { let _ = w.walk_f4(); }
                    _ => {} } }
                match g.below(11) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_f2(); } 5 => { let _ = w.into_f2_bytes(); }
                    6 => { let _ = w.into_walk_f3(); } 7 => { let _ = w.into_f3_bytes(); }
                    8 => { let _ = w.into_walk_f4(); } 9 => { let _ = w.into_f4_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 5, sh.any_order) {
            match i {
                0 => sfield!(index w c g v sh R; 0, Vec<u32>, Index, true, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, i64, Plain, true, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(index w c g v sh R; 2, BTreeMap<u8, String>, Index, true, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                3 => sfield!(plain w c g v sh R; 3, u8, Plain, false, f3, decode_f3, skip_f3, walk_f3, into_walk_f3, into_f3_bytes),
                4 => sfield!(plain w c g v sh R; 4, Vec<bool>, Plain, true, f4, decode_f4, skip_f4, walk_f4, into_walk_f4, into_f4_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision = 3)]
#[derive(Debug, Clone)]
pub struct O5 { #[revision(start = 2, end = 3, convert_fn = "c_0", fixed)] pub f0: u128, pub acc: u64, #[revision(specialised)] #[revision(convert_fn = "c_2")] #[revision(end = 2)] pub f2: Vec<i32>, pub f3: String, #[revision(start = 2)] #[revision(specialised)] pub f4: Vec<i32> }
impl O5 {
    fn c_0(&mut self, rev: u16, v: u128) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
    fn c_2(&mut self, rev: u16, v: Vec<i32>) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
}
impl Spec for O5 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        o.extend(enc1::<Plain, u64>(&self.acc));
        o.extend(enc1::<Plain, String>(&self.f3));
        o.extend(enc1::<Bulk, Vec<i32>>(&self.f4));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.acc.same(&o.acc) && self.f3.same(&o.f3) && self.f4.same(&o.f4) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; O5 { acc: <u64 as Spec>::random(g), f3: <String as Spec>::random(g), f4: <Vec<i32> as Spec>::random(g) } }) }
}
impl Hist for O5 {
    const LATEST: u16 = 3;
    const REVISION: u16 = O5::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Bulk, Vec<i32>>(g)); o.extend(gen1::<Plain, String>(g)); }
            2 => { o.extend(gen1::<Fixed, u128>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Bulk, Vec<i32>>(g)); }
            3 => { o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Bulk, Vec<i32>>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 3);
        sh.conv = rev != 3;
        match rev {
            1 => {
                let f1 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                let f2 = rd::<Bulk, Vec<i32>>(c, &mut sh, None)?;
                let f3 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f4 = <Vec<i32> as Default>::default();
                #[allow(unused_mut)]
                let mut v = O5 { acc: f1, f3: f3, f4: f4 };
                v.acc = mix(v.acc, 1, &f2.bytes());
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Fixed, u128>(c, &mut sh, None)?;
                let f1 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                let f3 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f4 = rd::<Bulk, Vec<i32>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = O5 { acc: f1, f3: f3, f4: f4 };
                v.acc = mix(v.acc, 2, &f0.bytes());
                Ok((v, sh))
            }
            3 => {
                let f1 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                let f3 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f4 = rd::<Bulk, Vec<i32>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = O5 { acc: f1, f3: f3, f4: f4 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if O5::walk_revisioned_field_names(1) != ["acc", "f2", "f3"] as [&str; 3] { return Err("field names at revision 1".into()) }
        if O5::walk_revisioned_field_names(2) != ["f0", "acc", "f3", "f4"] as [&str; 4] { return Err("field names at revision 2".into()) }
        if O5::walk_revisioned_field_names(3) != ["acc", "f3", "f4"] as [&str; 3] { return Err("field names at revision 3".into()) }
        if !O5::walk_revisioned_field_names(0).is_empty() || !O5::walk_revisioned_field_names(4).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for O5 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_acc().is_ok() && w.decode_f3().is_ok() && w.decode_f4().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(9) {
                    0 => { let _ = w.decode_acc(); } 1 => { let _ = w.skip_acc(); } 2 => { let _ = w.walk_acc(); }
                    3 => { let _ = w.decode_f3(); } 4 => { let _ = w.skip_f3(); } 5 => { let _ = w.walk_f3(); }
                    6 => { let _ = w.decode_f4(); } 7 => { let _ = w.skip_f4(); } 8 => { let _ = w.walk_f4(); }
                    _ => {} } }
                match g.below(7) {
                    0 => { let _ = w.into_walk_acc(); } 1 => { let _ = w.into_acc_bytes(); }
                    2 => { let _ = w.into_walk_f3(); } 3 => { let _ = w.into_f3_bytes(); }
                    4 => { let _ = w.into_walk_f4(); } 5 => { let _ = w.into_f4_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 3, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u64, Plain, false, acc, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
                1 => sfield!(plain w c g v sh R; 1, String, Plain, false, f3, decode_f3, skip_f3, walk_f3, into_walk_f3, into_f3_bytes),
                2 => sfield!(plain w c g v sh R; 2, Vec<i32>, Bulk, true, f4, decode_f4, skip_f4, walk_f4, into_walk_f4, into_f4_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision = 2)]
#[derive(Debug, Clone)]
pub enum N1 {
    A,
    B(u32),
    C { f0: u8, #[revision(start = 2)] f1: String },
    D(#[revision(start = 2, default_fn = "d_3_0")] String),
    E(u8, #[revision(start = 2)] u16),
}
impl N1 {
    fn d_3_0(rev: u16) -> Result<String, Error> { Ok(dflt::<String>(rev, 300)) }
    fn vname(&self) -> &'static str { match self { N1::A { .. } => "A", N1::B { .. } => "B", N1::C { .. } => "C", N1::D { .. } => "D", N1::E { .. } => "E" } }
}
impl Spec for N1 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        match self {
            N1::A => { (0u32).enc(o);  }
            N1::B(f0) => { (1u32).enc(o); o.extend(enc1::<Plain, u32>(f0)); }
            N1::C { f0, f1 } => { (2u32).enc(o); o.extend(enc1::<Plain, u8>(f0)); o.extend(enc1::<Plain, String>(f1)); }
            N1::D(f0) => { (3u32).enc(o); o.extend(enc1::<Plain, String>(f0)); }
            N1::E(f0, f1) => { (4u32).enc(o); o.extend(enc1::<Plain, u8>(f0)); o.extend(enc1::<Plain, u16>(f1)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (N1::A, N1::A) => true, (N1::B(a0), N1::B(b0)) => a0.same(b0), (N1::C { f0: a0, f1: a1 }, N1::C { f0: b0, f1: b1 }) => a0.same(b0) && a1.same(b1), (N1::D(a0), N1::D(b0)) => a0.same(b0), (N1::E(a0, a1), N1::E(b0, b1)) => a0.same(b0) && a1.same(b1), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(5) { 0 => N1::A, 1 => N1::B(<u32 as Spec>::random(g)), 2 => N1::C { f0: <u8 as Spec>::random(g), f1: <String as Spec>::random(g) }, 3 => N1::D(<String as Spec>::random(g)), _ => N1::E(<u8 as Spec>::random(g), <u16 as Spec>::random(g)), }) }
}
impl Hist for N1 {
    const LATEST: u16 = 2;
    const REVISION: u16 = N1::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(5) {
                0 => { (0u32).enc(o);  }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, u32>(g)); }
                2 => { (2u32).enc(o); o.extend(gen1::<Plain, u8>(g)); }
                3 => { (3u32).enc(o);  }
                _ => { (4u32).enc(o); o.extend(gen1::<Plain, u8>(g)); }
            },
            2 => match g.below(5) {
                0 => { (0u32).enc(o);  }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, u32>(g)); }
                2 => { (2u32).enc(o); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, String>(g)); }
                3 => { (3u32).enc(o); o.extend(gen1::<Plain, String>(g)); }
                _ => { (4u32).enc(o); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, u16>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 2);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N1::A
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N1::B(f0)
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = <String as Default>::default();
                    sh.body = (a, c.pos);
                    N1::C { f0, f1 }
                }
                3 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = dflt::<String>(1, 300);
                    sh.body = (a, c.pos);
                    N1::D(f0)
                }
                4 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = <u16 as Default>::default();
                    sh.body = (a, c.pos);
                    N1::E(f0, f1)
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N1::A
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N1::B(f0)
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    N1::C { f0, f1 }
                }
                3 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N1::D(f0)
                }
                4 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, u16>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    N1::E(f0, f1)
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("A", 0), ("B", 1), ("C", 2), ("D", 3), ("E", 4)];
        if N1::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", N1::walk_revisioned_variant_table(1))) }
        for d in 0..7 { if N1::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("A", 0), ("B", 1), ("C", 2), ("D", 3), ("E", 4)];
        if N1::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", N1::walk_revisioned_variant_table(2))) }
        for d in 0..7 { if N1::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        if !N1::walk_revisioned_variant_table(3).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for N1 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(10) {
                    0 => { let _ = w.into_a(); }
                    1 => { let _ = w.decode_a(); }
                    2 => { let _ = w.into_b(); }
                    3 => { let _ = w.decode_b(); }
                    4 => { let _ = w.b_view(); }
                    5 => { let _ = w.c_view(); }
                    6 => { let _ = w.into_d(); }
                    7 => { let _ = w.decode_d(); }
                    8 => { let _ = w.d_view(); }
                    9 => { let _ = w.e_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if N1::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("A", w.is_a()), ("B", w.is_b()), ("C", w.is_c()), ("D", w.is_d()), ("E", w.is_e())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(10);
        if g.below(5) != 0 { k = match sh.variant { "A" => 0 + g.below(2), "B" => 2 + g.below(3), "C" => 5 + g.below(1), "D" => 6 + g.below(3), "E" => 9 + g.below(1), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "A"; let r = w.into_a(); if !ok { return if r.is_ok() { bad("into_a of another variant succeeded") } else { Err(Stop::Expected) } } must("into_a", r)?; Ok(()) }
            1 => { let ok = sh.variant == "A"; let r = w.decode_a(); if !ok { return if r.is_ok() { bad("decode_a of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_a", r)?; Ok(()) }
            2 => { let ok = sh.variant == "B"; let r = w.into_b(); if !ok { return if r.is_ok() { bad("into_b of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u32 as W>::WALKABLE && true; if nested::<u32, R>("into_b", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            3 => { let ok = sh.variant == "B"; let r = w.decode_b(); if !ok { return if r.is_ok() { bad("decode_b of another variant succeeded") } else { Err(Stop::Expected) } } let N1::B(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_b", f0, r) }
            4 => { let ok = sh.variant == "B"; let r = w.b_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("b_view of another variant succeeded") } else { Err(Stop::Expected) } } let N1::B(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("b_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u32>(f0)]) }
            5 => { let ok = sh.variant == "C"; let r = w.c_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("c_view of another variant succeeded") } else { Err(Stop::Expected) } } let N1::C { f0, f1 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, u8>(f0), enc1::<Plain, String>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("c_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("c_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            6 => { let ok = sh.variant == "D"; let r = w.into_d(); if !ok { return if r.is_ok() { bad("into_d of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <String as W>::WALKABLE && true; if nested::<String, R>("into_d", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            7 => { let ok = sh.variant == "D"; let r = w.decode_d(); if !ok { return if r.is_ok() { bad("decode_d of another variant succeeded") } else { Err(Stop::Expected) } } let N1::D(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_d", f0, r) }
            8 => { let ok = sh.variant == "D"; let r = w.d_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("d_view of another variant succeeded") } else { Err(Stop::Expected) } } let N1::D(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("d_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, String>(f0)]) }
            9 => { let ok = sh.variant == "E"; let r = w.e_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("e_view of another variant succeeded") } else { Err(Stop::Expected) } } let N1::E(f0, f1) = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, u8>(f0), enc1::<Plain, u16>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("e_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("e_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(3), revision(2), revision(1))]
#[derive(Debug, Clone)]
pub enum N2 {
    #[revision(end = 2, convert_fn = "cv_0")] Old(u32),
    Acc(u64),
    Mid { acc: u64, #[revision(end = 3)] #[revision(convert_fn = "c_2_1")] f1: String, #[revision(start = 2)] f2: u8 },
    #[revision(start = 3)] New,
    #[revision(convert_fn = "cv_4", end = 3, start = 2)] Gone,
}
impl N2 {
    fn cv_0(x: N2OldFields, rev: u16) -> Result<Self, Error> { let _ = &x; #[allow(unused_mut)] let mut h = mix(0, rev, &[]); h = mix(h, rev, &x.0.bytes()); Ok(N2::Acc(h)) }
    fn c_2_1(x: &mut N2MidFields, rev: u16, v: String) -> Result<(), Error> { x.acc = mix(x.acc, rev, &v.bytes()); Ok(()) }
    fn cv_4(x: N2GoneFields, rev: u16) -> Result<Self, Error> { let _ = &x; #[allow(unused_mut)] let mut h = mix(4, rev, &[]); Ok(N2::Acc(h)) }
    fn vname(&self) -> &'static str { match self { N2::Acc { .. } => "Acc", N2::Mid { .. } => "Mid", N2::New { .. } => "New" } }
}
impl Spec for N2 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        match self {
            N2::Acc(f0) => { (0u32).enc(o); o.extend(enc1::<Plain, u64>(f0)); }
            N2::Mid { acc: f0, f2 } => { (1u32).enc(o); o.extend(enc1::<Plain, u64>(f0)); o.extend(enc1::<Plain, u8>(f2)); }
            N2::New => { (2u32).enc(o);  }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (N2::Acc(a0), N2::Acc(b0)) => a0.same(b0), (N2::Mid { acc: a0, f2: a2 }, N2::Mid { acc: b0, f2: b2 }) => a0.same(b0) && a2.same(b2), (N2::New, N2::New) => true, _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(3) { 0 => N2::Acc(<u64 as Spec>::random(g)), 1 => N2::Mid { acc: <u64 as Spec>::random(g), f2: <u8 as Spec>::random(g) }, _ => N2::New, }) }
}
impl Hist for N2 {
    const LATEST: u16 = 3;
    const REVISION: u16 = N2::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(3) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u32>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                _ => { (2u32).enc(o); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, String>(g)); }
            },
            2 => match g.below(3) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u8>(g)); }
                _ => { (2u32).enc(o);  }
            },
            3 => match g.below(3) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, u8>(g)); }
                _ => { (2u32).enc(o);  }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 2);
        sh.conv = rev != 3;
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    #[allow(unused_mut)] let mut h = mix(0, 1, &[]);
                    h = mix(h, 1, &f0.bytes());
                    N2::Acc(h)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N2::Acc(f0)
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, String>(c, &mut sh, None)?;
                    #[allow(unused_mut)] let mut f2 = <u8 as Default>::default();
                    sh.body = (a, c.pos);
                    f0 = mix(f0, 1, &f1.bytes());
                    N2::Mid { acc: f0, f2 }
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N2::Acc(f0)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, String>(c, &mut sh, None)?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, u8>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    f0 = mix(f0, 2, &f1.bytes());
                    N2::Mid { acc: f0, f2 }
                }
                2 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    #[allow(unused_mut)] let mut h = mix(4, 2, &[]);
                    N2::Acc(h)
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N2::Acc(f0)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, u8>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    N2::Mid { acc: f0, f2 }
                }
                2 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N2::New
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("Old", 0), ("Acc", 1), ("Mid", 2)];
        if N2::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", N2::walk_revisioned_variant_table(1))) }
        for d in 0..5 { if N2::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("Acc", 0), ("Mid", 1), ("Gone", 2)];
        if N2::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", N2::walk_revisioned_variant_table(2))) }
        for d in 0..5 { if N2::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("Acc", 0), ("Mid", 1), ("New", 2)];
        if N2::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", N2::walk_revisioned_variant_table(3))) }
        for d in 0..5 { if N2::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        if !N2::walk_revisioned_variant_table(4).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for N2 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(6) {
                    0 => { let _ = w.into_acc(); }
                    1 => { let _ = w.decode_acc(); }
                    2 => { let _ = w.acc_view(); }
                    3 => { let _ = w.mid_view(); }
                    4 => { let _ = w.into_new(); }
                    5 => { let _ = w.decode_new(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if N2::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Acc", w.is_acc()), ("Mid", w.is_mid()), ("New", w.is_new())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(6);
        if g.below(5) != 0 { k = match sh.variant { "Acc" => 0 + g.below(3), "Mid" => 3 + g.below(1), "New" => 4 + g.below(2), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Acc"; let r = w.into_acc(); if !ok { return if r.is_ok() { bad("into_acc of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u64 as W>::WALKABLE && true; if nested::<u64, R>("into_acc", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "Acc"; let r = w.decode_acc(); if !ok { return if r.is_ok() { bad("decode_acc of another variant succeeded") } else { Err(Stop::Expected) } } let N2::Acc(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_acc", f0, r) }
            2 => { let ok = sh.variant == "Acc"; let r = w.acc_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("acc_view of another variant succeeded") } else { Err(Stop::Expected) } } let N2::Acc(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("acc_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u64>(f0)]) }
            3 => { let ok = sh.variant == "Mid"; let r = w.mid_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("mid_view of another variant succeeded") } else { Err(Stop::Expected) } } let N2::Mid { acc: f0, f2 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, u64>(f0), enc1::<Plain, u8>(f2)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("mid_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("mid_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            4 => { let ok = sh.variant == "New"; let r = w.into_new(); if !ok { return if r.is_ok() { bad("into_new of another variant succeeded") } else { Err(Stop::Expected) } } must("into_new", r)?; Ok(()) }
            5 => { let ok = sh.variant == "New"; let r = w.decode_new(); if !ok { return if r.is_ok() { bad("decode_new of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_new", r)?; Ok(()) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(1, optimised), revision(2, optimised))]
#[derive(Debug, Clone)]
pub enum N3 {
    #[revision(size = "inline")] Unit,
    #[revision(size = "fixed(8)")] Num(f64),
    #[revision(override(revision = 2, discriminant = 1), size = "varlen", start = 2)] Text(String),
    #[revision(size = "varlen")] Pair(u8, String),
    #[revision(size = "fixed(6)")] Rec { f0: u8, f1: [u8; 5] },
}
impl N3 {
    fn vname(&self) -> &'static str { match self { N3::Unit { .. } => "Unit", N3::Num { .. } => "Num", N3::Text { .. } => "Text", N3::Pair { .. } => "Pair", N3::Rec { .. } => "Rec" } }
}
impl Spec for N3 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        match self {
            N3::Unit => { o.push(0); }
            N3::Num(f0) => { o.push(34); o.extend(enc1::<Plain, f64>(f0)); }
            N3::Text(f0) => { o.push(65); put_payload(o, &with_offsets(&[enc1::<Plain, String>(f0)], false)); }
            N3::Pair(f0, f1) => { o.push(67); put_payload(o, &with_offsets(&[enc1::<Plain, u8>(f0), enc1::<Plain, String>(f1)], false)); }
            N3::Rec { f0, f1 } => { o.push(36); o.extend(enc1::<Plain, u8>(f0)); o.extend(enc1::<Plain, [u8; 5]>(f1)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (N3::Unit, N3::Unit) => true, (N3::Num(a0), N3::Num(b0)) => a0.same(b0), (N3::Text(a0), N3::Text(b0)) => a0.same(b0), (N3::Pair(a0, a1), N3::Pair(b0, b1)) => a0.same(b0) && a1.same(b1), (N3::Rec { f0: a0, f1: a1 }, N3::Rec { f0: b0, f1: b1 }) => a0.same(b0) && a1.same(b1), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(5) { 0 => N3::Unit, 1 => N3::Num(<f64 as Spec>::random(g)), 2 => N3::Text(<String as Spec>::random(g)), 3 => N3::Pair(<u8 as Spec>::random(g), <String as Spec>::random(g)), _ => N3::Rec { f0: <u8 as Spec>::random(g), f1: <[u8; 5] as Spec>::random(g) }, }) }
}
impl Hist for N3 {
    const LATEST: u16 = 2;
    const REVISION: u16 = N3::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(4) {
                0 => { o.push(0); }
                1 => { o.push(33); o.extend(gen1::<Plain, f64>(g)); }
                2 => { o.push(66); put_payload(o, &with_offsets(&[gen1::<Plain, u8>(g), gen1::<Plain, String>(g)], false)); }
                _ => { o.push(35); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, [u8; 5]>(g)); }
            },
            2 => match g.below(5) {
                0 => { o.push(0); }
                1 => { o.push(34); o.extend(gen1::<Plain, f64>(g)); }
                2 => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, String>(g)], false)); }
                3 => { o.push(67); put_payload(o, &with_offsets(&[gen1::<Plain, u8>(g), gen1::<Plain, String>(g)], false)); }
                _ => { o.push(36); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, [u8; 5]>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 2);
        let v = match rev {
            1 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N3::Unit
                }
                (1, 1) => {
                    let (mut sub, end) = window(c, 8)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, f64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N3::Num(f0)
                }
                (2, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N3::Pair(f0, f1)
                }
                (3, 1) => {
                    let (mut sub, end) = window(c, 6)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N3::Rec { f0, f1 }
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N3::Unit
                }
                (2, 1) => {
                    let (mut sub, end) = window(c, 8)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, f64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N3::Num(f0)
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N3::Text(f0)
                }
                (3, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N3::Pair(f0, f1)
                }
                (4, 1) => {
                    let (mut sub, end) = window(c, 6)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N3::Rec { f0, f1 }
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("Unit", 0), ("Num", 1), ("Pair", 2), ("Rec", 3)];
        if N3::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", N3::walk_revisioned_variant_table(1))) }
        for d in 0..6 { if N3::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("Unit", 0), ("Num", 2), ("Text", 1), ("Pair", 3), ("Rec", 4)];
        if N3::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", N3::walk_revisioned_variant_table(2))) }
        for d in 0..7 { if N3::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        if !N3::walk_revisioned_variant_table(3).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for N3 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(10) {
                    0 => { let _ = w.into_unit(); }
                    1 => { let _ = w.decode_unit(); }
                    2 => { let _ = w.into_num(); }
                    3 => { let _ = w.decode_num(); }
                    4 => { let _ = w.num_view(); }
                    5 => { let _ = w.into_text(); }
                    6 => { let _ = w.decode_text(); }
                    7 => { let _ = w.text_view(); }
                    8 => { let _ = w.pair_view(); }
                    9 => { let _ = w.rec_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if N3::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Unit", w.is_unit()), ("Num", w.is_num()), ("Text", w.is_text()), ("Pair", w.is_pair()), ("Rec", w.is_rec())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(10);
        if g.below(5) != 0 { k = match sh.variant { "Unit" => 0 + g.below(2), "Num" => 2 + g.below(3), "Text" => 5 + g.below(3), "Pair" => 8 + g.below(1), "Rec" => 9 + g.below(1), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Unit"; let r = w.into_unit(); if !ok { return if r.is_ok() { bad("into_unit of another variant succeeded") } else { Err(Stop::Expected) } } must("into_unit", r)?; Ok(()) }
            1 => { let ok = sh.variant == "Unit"; let r = w.decode_unit(); if !ok { return if r.is_ok() { bad("decode_unit of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_unit", r)?; Ok(()) }
            2 => { let ok = sh.variant == "Num"; let r = w.into_num(); if !ok { return if r.is_ok() { bad("into_num of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <f64 as W>::WALKABLE && true; if nested::<f64, R>("into_num", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            3 => { let ok = sh.variant == "Num"; let r = w.decode_num(); if !ok { return if r.is_ok() { bad("decode_num of another variant succeeded") } else { Err(Stop::Expected) } } let N3::Num(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_num", f0, r) }
            4 => { let ok = sh.variant == "Num"; let r = w.num_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("num_view of another variant succeeded") } else { Err(Stop::Expected) } } let N3::Num(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("num_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, f64>(f0)]) }
            5 => { let ok = sh.variant == "Text"; let r = w.into_text(); if !ok { return if r.is_ok() { bad("into_text of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <String as W>::WALKABLE && true; if nested::<String, R>("into_text", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            6 => { let ok = sh.variant == "Text"; let r = w.decode_text(); if !ok { return if r.is_ok() { bad("decode_text of another variant succeeded") } else { Err(Stop::Expected) } } let N3::Text(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_text", f0, r) }
            7 => { let ok = sh.variant == "Text"; let r = w.text_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("text_view of another variant succeeded") } else { Err(Stop::Expected) } } let N3::Text(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("text_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, String>(f0)]) }
            8 => { let ok = sh.variant == "Pair"; let r = w.pair_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("pair_view of another variant succeeded") } else { Err(Stop::Expected) } } let N3::Pair(f0, f1) = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, u8>(f0), enc1::<Plain, String>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("pair_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("pair_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            9 => { let ok = sh.variant == "Rec"; let r = w.rec_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("rec_view of another variant succeeded") } else { Err(Stop::Expected) } } let N3::Rec { f0, f1 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, u8>(f0), enc1::<Plain, [u8; 5]>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("rec_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("rec_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(3, optimised), revision(2, optimised), revision(1))]
#[derive(Debug, Clone)]
pub enum N4 {
    #[revision(size = "varlen", convert_fn = "cv_0", end = 3)] Gone(String),
    #[revision(size = "varlen")] Acc(u64),
    #[revision(size = "inline")] #[revision(override(revision = 3, discriminant = 31))] Flag,
    #[revision(size = "inline", convert_fn = "cv_3", end = 2)] Early,
    #[revision(size = "varlen")] Pt { f0: u8, f1: Vec<u32> },
}
impl N4 {
    fn cv_0(x: N4GoneFields, rev: u16) -> Result<Self, Error> { let _ = &x; #[allow(unused_mut)] let mut h = mix(0, rev, &[]); h = mix(h, rev, &x.0.bytes()); Ok(N4::Acc(h)) }
    fn cv_3(x: N4EarlyFields, rev: u16) -> Result<Self, Error> { let _ = &x; #[allow(unused_mut)] let mut h = mix(3, rev, &[]); Ok(N4::Acc(h)) }
    fn vname(&self) -> &'static str { match self { N4::Acc { .. } => "Acc", N4::Flag { .. } => "Flag", N4::Pt { .. } => "Pt" } }
}
impl Spec for N4 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        match self {
            N4::Acc(f0) => { o.push(64); put_payload(o, &with_offsets(&[enc1::<Plain, u64>(f0)], false)); }
            N4::Flag => { o.push(31); }
            N4::Pt { f0, f1 } => { o.push(65); put_payload(o, &with_offsets(&[enc1::<Plain, u8>(f0), enc1::<Plain, Vec<u32>>(f1)], false)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (N4::Acc(a0), N4::Acc(b0)) => a0.same(b0), (N4::Flag, N4::Flag) => true, (N4::Pt { f0: a0, f1: a1 }, N4::Pt { f0: b0, f1: b1 }) => a0.same(b0) && a1.same(b1), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(3) { 0 => N4::Acc(<u64 as Spec>::random(g)), 1 => N4::Flag, _ => N4::Pt { f0: <u8 as Spec>::random(g), f1: <Vec<u32> as Spec>::random(g) }, }) }
}
impl Hist for N4 {
    const LATEST: u16 = 3;
    const REVISION: u16 = N4::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(5) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, String>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                2 => { (2u32).enc(o);  }
                3 => { (3u32).enc(o);  }
                _ => { (4u32).enc(o); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, Vec<u32>>(g)); }
            },
            2 => match g.below(4) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, String>(g)], false)); }
                1 => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g)], false)); }
                2 => { o.push(2); }
                _ => { o.push(67); put_payload(o, &with_offsets(&[gen1::<Plain, u8>(g), gen1::<Plain, Vec<u32>>(g)], false)); }
            },
            3 => match g.below(3) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g)], false)); }
                1 => { o.push(31); }
                _ => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, u8>(g), gen1::<Plain, Vec<u32>>(g)], false)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 2);
        sh.conv = rev != 3;
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    #[allow(unused_mut)] let mut h = mix(0, 1, &[]);
                    h = mix(h, 1, &f0.bytes());
                    N4::Acc(h)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N4::Acc(f0)
                }
                2 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N4::Flag
                }
                3 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    #[allow(unused_mut)] let mut h = mix(3, 1, &[]);
                    N4::Acc(h)
                }
                4 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    N4::Pt { f0, f1 }
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    #[allow(unused_mut)] let mut h = mix(0, 2, &[]);
                    h = mix(h, 2, &f0.bytes());
                    N4::Acc(h)
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N4::Acc(f0)
                }
                (2, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N4::Flag
                }
                (3, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N4::Pt { f0, f1 }
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N4::Acc(f0)
                }
                (31, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N4::Flag
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N4::Pt { f0, f1 }
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("Gone", 0), ("Acc", 1), ("Flag", 2), ("Early", 3), ("Pt", 4)];
        if N4::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", N4::walk_revisioned_variant_table(1))) }
        for d in 0..7 { if N4::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("Gone", 0), ("Acc", 1), ("Flag", 2), ("Pt", 3)];
        if N4::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", N4::walk_revisioned_variant_table(2))) }
        for d in 0..6 { if N4::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("Acc", 0), ("Flag", 31), ("Pt", 1)];
        if N4::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", N4::walk_revisioned_variant_table(3))) }
        for d in 0..34 { if N4::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        if !N4::walk_revisioned_variant_table(4).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for N4 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(6) {
                    0 => { let _ = w.into_acc(); }
                    1 => { let _ = w.decode_acc(); }
                    2 => { let _ = w.acc_view(); }
                    3 => { let _ = w.into_flag(); }
                    4 => { let _ = w.decode_flag(); }
                    5 => { let _ = w.pt_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if N4::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Acc", w.is_acc()), ("Flag", w.is_flag()), ("Pt", w.is_pt())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(6);
        if g.below(5) != 0 { k = match sh.variant { "Acc" => 0 + g.below(3), "Flag" => 3 + g.below(2), "Pt" => 5 + g.below(1), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Acc"; let r = w.into_acc(); if !ok { return if r.is_ok() { bad("into_acc of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u64 as W>::WALKABLE && true; if nested::<u64, R>("into_acc", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "Acc"; let r = w.decode_acc(); if !ok { return if r.is_ok() { bad("decode_acc of another variant succeeded") } else { Err(Stop::Expected) } } let N4::Acc(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_acc", f0, r) }
            2 => { let ok = sh.variant == "Acc"; let r = w.acc_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("acc_view of another variant succeeded") } else { Err(Stop::Expected) } } let N4::Acc(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("acc_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u64>(f0)]) }
            3 => { let ok = sh.variant == "Flag"; let r = w.into_flag(); if !ok { return if r.is_ok() { bad("into_flag of another variant succeeded") } else { Err(Stop::Expected) } } must("into_flag", r)?; Ok(()) }
            4 => { let ok = sh.variant == "Flag"; let r = w.decode_flag(); if !ok { return if r.is_ok() { bad("decode_flag of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_flag", r)?; Ok(()) }
            5 => { let ok = sh.variant == "Pt"; let r = w.pt_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("pt_view of another variant succeeded") } else { Err(Stop::Expected) } } let N4::Pt { f0, f1 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, u8>(f0), enc1::<Plain, Vec<u32>>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("pt_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("pt_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(1, optimised), revision(2, optimised))]
#[derive(Debug, Clone)]
pub enum N5 {
    #[revision(start = 2, size = "inline", override(revision = 2, discriminant = 5))] Zed,
    #[revision(size = "fixed(1)", override(revision = 1, discriminant = 7))] One(u8),
    #[revision(size = "varlen")] Two(String),
    #[revision(size = "varlen")] Three,
}
impl N5 {
    fn vname(&self) -> &'static str { match self { N5::Zed { .. } => "Zed", N5::One { .. } => "One", N5::Two { .. } => "Two", N5::Three { .. } => "Three" } }
}
impl Spec for N5 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        match self {
            N5::Zed => { o.push(5); }
            N5::One(f0) => { o.push(32); o.extend(enc1::<Plain, u8>(f0)); }
            N5::Two(f0) => { o.push(65); put_payload(o, &with_offsets(&[enc1::<Plain, String>(f0)], false)); }
            N5::Three => { o.push(66); put_payload(o, &with_offsets(&[], false)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (N5::Zed, N5::Zed) => true, (N5::One(a0), N5::One(b0)) => a0.same(b0), (N5::Two(a0), N5::Two(b0)) => a0.same(b0), (N5::Three, N5::Three) => true, _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(4) { 0 => N5::Zed, 1 => N5::One(<u8 as Spec>::random(g)), 2 => N5::Two(<String as Spec>::random(g)), _ => N5::Three, }) }
}
impl Hist for N5 {
    const LATEST: u16 = 2;
    const REVISION: u16 = N5::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(3) {
                0 => { o.push(39); o.extend(gen1::<Plain, u8>(g)); }
                1 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, String>(g)], false)); }
                _ => { o.push(65); put_payload(o, &with_offsets(&[], false)); }
            },
            2 => match g.below(4) {
                0 => { o.push(5); }
                1 => { o.push(32); o.extend(gen1::<Plain, u8>(g)); }
                2 => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, String>(g)], false)); }
                _ => { o.push(66); put_payload(o, &with_offsets(&[], false)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 1);
        let v = match rev {
            1 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (7, 1) => {
                    let (mut sub, end) = window(c, 1)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N5::One(f0)
                }
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N5::Two(f0)
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N5::Three
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (5, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N5::Zed
                }
                (0, 1) => {
                    let (mut sub, end) = window(c, 1)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N5::One(f0)
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N5::Two(f0)
                }
                (2, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N5::Three
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("One", 7), ("Two", 0), ("Three", 1)];
        if N5::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", N5::walk_revisioned_variant_table(1))) }
        for d in 0..10 { if N5::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("Zed", 5), ("One", 0), ("Two", 1), ("Three", 2)];
        if N5::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", N5::walk_revisioned_variant_table(2))) }
        for d in 0..8 { if N5::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        if !N5::walk_revisioned_variant_table(3).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for N5 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(10) {
                    0 => { let _ = w.into_zed(); }
                    1 => { let _ = w.decode_zed(); }
                    2 => { let _ = w.into_one(); }
                    3 => { let _ = w.decode_one(); }
                    4 => { let _ = w.one_view(); }
                    5 => { let _ = w.into_two(); }
                    6 => { let _ = w.decode_two(); }
                    7 => { let _ = w.two_view(); }
                    8 => { let _ = w.into_three(); }
                    9 => { let _ = w.decode_three(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if N5::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Zed", w.is_zed()), ("One", w.is_one()), ("Two", w.is_two()), ("Three", w.is_three())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(10);
        if g.below(5) != 0 { k = match sh.variant { "Zed" => 0 + g.below(2), "One" => 2 + g.below(3), "Two" => 5 + g.below(3), "Three" => 8 + g.below(2), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Zed"; let r = w.into_zed(); if !ok { return if r.is_ok() { bad("into_zed of another variant succeeded") } else { Err(Stop::Expected) } } must("into_zed", r)?; Ok(()) }
            1 => { let ok = sh.variant == "Zed"; let r = w.decode_zed(); if !ok { return if r.is_ok() { bad("decode_zed of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_zed", r)?; Ok(()) }
            2 => { let ok = sh.variant == "One"; let r = w.into_one(); if !ok { return if r.is_ok() { bad("into_one of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u8 as W>::WALKABLE && true; if nested::<u8, R>("into_one", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            3 => { let ok = sh.variant == "One"; let r = w.decode_one(); if !ok { return if r.is_ok() { bad("decode_one of another variant succeeded") } else { Err(Stop::Expected) } } let N5::One(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_one", f0, r) }
            4 => { let ok = sh.variant == "One"; let r = w.one_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("one_view of another variant succeeded") } else { Err(Stop::Expected) } } let N5::One(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("one_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u8>(f0)]) }
            5 => { let ok = sh.variant == "Two"; let r = w.into_two(); if !ok { return if r.is_ok() { bad("into_two of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <String as W>::WALKABLE && true; if nested::<String, R>("into_two", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            6 => { let ok = sh.variant == "Two"; let r = w.decode_two(); if !ok { return if r.is_ok() { bad("decode_two of another variant succeeded") } else { Err(Stop::Expected) } } let N5::Two(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_two", f0, r) }
            7 => { let ok = sh.variant == "Two"; let r = w.two_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("two_view of another variant succeeded") } else { Err(Stop::Expected) } } let N5::Two(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("two_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, String>(f0)]) }
            8 => { let ok = sh.variant == "Three"; let r = w.into_three(); if !ok { return if r.is_ok() { bad("into_three of another variant succeeded") } else { Err(Stop::Expected) } } must("into_three", r)?; Ok(()) }
            9 => { let ok = sh.variant == "Three"; let r = w.decode_three(); if !ok { return if r.is_ok() { bad("decode_three of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_three", r)?; Ok(()) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision = 1)]
#[derive(Debug, Clone)]
pub enum N6 {
    V0(u16),
    V1,
    V2,
    V3(u16),
    V4,
    V5,
    V6(u16),
    V7,
    V8,
    V9(u16),
    V10,
    V11,
    V12(u16),
    V13,
    V14,
    V15(u16),
    V16,
    V17,
    V18(u16),
    V19,
    V20,
    V21(u16),
    V22,
    V23,
    V24(u16),
    V25,
    V26,
    V27(u16),
    V28,
    V29,
    V30(u16),
    V31,
    V32,
    V33(u16),
    V34,
    V35,
    V36(u16),
    V37,
    V38,
    V39(u16),
    V40,
    V41,
    V42(u16),
    V43,
    V44,
    V45(u16),
    V46,
    V47,
    V48(u16),
    V49,
    V50,
    V51(u16),
    V52,
    V53,
    V54(u16),
    V55,
    V56,
    V57(u16),
    V58,
    V59,
    V60(u16),
    V61,
    V62,
    V63(u16),
    V64,
    V65,
    V66(u16),
    V67,
    V68,
    V69(u16),
    V70,
    V71,
    V72(u16),
    V73,
    V74,
    V75(u16),
    V76,
    V77,
    V78(u16),
    V79,
    V80,
    V81(u16),
    V82,
    V83,
    V84(u16),
    V85,
    V86,
    V87(u16),
    V88,
    V89,
    V90(u16),
    V91,
    V92,
    V93(u16),
    V94,
    V95,
    V96(u16),
    V97,
    V98,
    V99(u16),
    V100,
    V101,
    V102(u16),
    V103,
    V104,
    V105(u16),
    V106,
    V107,
    V108(u16),
    V109,
    V110,
    V111(u16),
    V112,
    V113,
    V114(u16),
    V115,
    V116,
    V117(u16),
    V118,
    V119,
    V120(u16),
    V121,
    V122,
    V123(u16),
    V124,
    V125,
    V126(u16),
    V127,
    V128,
    V129(u16),
    V130,
    V131,
    V132(u16),
    V133,
    V134,
    V135(u16),
    V136,
    V137,
    V138(u16),
    V139,
    V140,
    V141(u16),
    V142,
    V143,
    V144(u16),
    V145,
    V146,
    V147(u16),
    V148,
    V149,
    V150(u16),
    V151,
    V152,
    V153(u16),
    V154,
    V155,
    V156(u16),
    V157,
    V158,
    V159(u16),
    V160,
    V161,
    V162(u16),
    V163,
    V164,
    V165(u16),
    V166,
    V167,
    V168(u16),
    V169,
    V170,
    V171(u16),
    V172,
    V173,
    V174(u16),
    V175,
    V176,
    V177(u16),
    V178,
    V179,
    V180(u16),
    V181,
    V182,
    V183(u16),
    V184,
    V185,
    V186(u16),
    V187,
    V188,
    V189(u16),
    V190,
    V191,
    V192(u16),
    V193,
    V194,
    V195(u16),
    V196,
    V197,
    V198(u16),
    V199,
    V200,
    V201(u16),
    V202,
    V203,
    V204(u16),
    V205,
    V206,
    V207(u16),
    V208,
    V209,
    V210(u16),
    V211,
    V212,
    V213(u16),
    V214,
    V215,
    V216(u16),
    V217,
    V218,
    V219(u16),
    V220,
    V221,
    V222(u16),
    V223,
    V224,
    V225(u16),
    V226,
    V227,
    V228(u16),
    V229,
    V230,
    V231(u16),
    V232,
    V233,
    V234(u16),
    V235,
    V236,
    V237(u16),
    V238,
    V239,
    V240(u16),
    V241,
    V242,
    V243(u16),
    V244,
    V245,
    V246(u16),
    V247,
    V248,
    V249(u16),
    V250,
    V251,
    V252(u16),
    V253,
    V254,
    V255(u16),
    V256,
    V257,
    V258(u16),
    V259,
}
impl N6 {
    fn vname(&self) -> &'static str { match self { N6::V0 { .. } => "V0", N6::V1 { .. } => "V1", N6::V2 { .. } => "V2", N6::V3 { .. } => "V3", N6::V4 { .. } => "V4", N6::V5 { .. } => "V5", N6::V6 { .. } => "V6", N6::V7 { .. } => "V7", N6::V8 { .. } => "V8", N6::V9 { .. } => "V9", N6::V10 { .. } => "V10", N6::V11 { .. } => "V11", N6::V12 { .. } => "V12", N6::V13 { .. } => "V13", N6::V14 { .. } => "V14", N6::V15 { .. } => "V15", N6::V16 { .. } => "V16", N6::V17 { .. } => "V17", N6::V18 { .. } => "V18", N6::V19 { .. } => "V19", N6::V20 { .. } => "V20", N6::V21 { .. } => "V21", N6::V22 { .. } => "V22", N6::V23 { .. } => "V23", N6::V24 { .. } => "V24", N6::V25 { .. } => "V25", N6::V26 { .. } => "V26", N6::V27 { .. } => "V27", N6::V28 { .. } => "V28", N6::V29 { .. } => "V29", N6::V30 { .. } => "V30", N6::V31 { .. } => "V31", N6::V32 { .. } => "V32", N6::V33 { .. } => "V33", N6::V34 { .. } => "V34", N6::V35 { .. } => "V35", N6::V36 { .. } => "V36", N6::V37 { .. } => "V37", N6::V38 { .. } => "V38", N6::V39 { .. } => "V39", N6::V40 { .. } => "V40", N6::V41 { .. } => "V41", N6::V42 { .. } => "V42", N6::V43 { .. } => "V43", N6::V44 { .. } => "V44", N6::V45 { .. } => "V45", N6::V46 { .. } => "V46", N6::V47 { .. } => "V47", N6::V48 { .. } => "V48", N6::V49 { .. } => "V49", N6::V50 { .. } => "V50", N6::V51 { .. } => "V51", N6::V52 { .. } => "V52", N6::V53 { .. } => "V53", N6::V54 { .. } => "V54", N6::V55 { .. } => "V55", N6::V56 { .. } => "V56", N6::V57 { .. } => "V57", N6::V58 { .. } => "V58", N6::V59 { .. } => "V59", N6::V60 { .. } => "V60", N6::V61 { .. } => "V61", N6::V62 { .. } => "V62", N6::V63 { .. } => "V63", N6::V64 { .. } => "V64", N6::V65 { .. } => "V65", N6::V66 { .. } => "V66", N6::V67 { .. } => "V67", N6::V68 { .. } => "V68", N6::V69 { .. } => "V69", N6::V70 { .. } => "V70", N6::V71 { .. } => "V71", N6::V72 { .. } => "V72", N6::V73 { .. } => "V73", N6::V74 { .. } => "V74", N6::V75 { .. } => "V75", N6::V76 { .. } => "V76", N6::V77 { .. } => "V77", N6::V78 { .. } => "V78", N6::V79 { .. } => "V79", N6::V80 { .. } => "V80", N6::V81 { .. } => "V81", N6::V82 { .. } => "V82", N6::V83 { .. } => "V83", N6::V84 { .. } => "V84", N6::V85 { .. } => "V85", N6::V86 { .. } => "V86", N6::V87 { .. } => "V87", N6::V88 { .. } => "V88", N6::V89 { .. } => "V89", N6::V90 { .. } => "V90", N6::V91 { .. } => "V91", N6::V92 { .. } => "V92", N6::V93 { .. } => "V93", N6::V94 { .. } => "V94", N6::V95 { .. } => "V95", N6::V96 { .. } => "V96", N6::V97 { .. } => "V97", N6::V98 { .. } => "V98", N6::V99 { .. } => "V99", N6::V100 { .. } => "V100", N6::V101 { .. } => "V101", N6::V102 { .. } => "V102", N6::V103 { .. } => "V103", N6::V104 { .. } => "V104", N6::V105 { .. } => "V105", N6::V106 { .. } => "V106", N6::V107 { .. } => "V107", N6::V108 { .. } => "V108", N6::V109 { .. } => "V109", N6::V110 { .. } => "V110", N6::V111 { .. } => "V111", N6::V112 { .. } => "V112", N6::V113 { .. } => "V113", N6::V114 { .. } => "V114", N6::V115 { .. } => "V115", N6::V116 { .. } => "V116", N6::V117 { .. } => "V117", N6::V118 { .. } => "V118", N6::V119 { .. } => "V119", N6::V120 { .. } => "V120", N6::V121 { .. } => "V121", N6::V122 { .. } => "V122", N6::V123 { .. } => "V123", N6::V124 { .. } => "V124", N6::V125 { .. } => "V125", N6::V126 { .. } => "V126", N6::V127 { .. } => "V127", N6::V128 { .. } => "V128", N6::V129 { .. } => "V129", N6::V130 { .. } => "V130", N6::V131 { .. } => "V131", N6::V132 { .. } => "V132", N6::V133 { .. } => "V133", N6::V134 { .. } => "V134", N6::V135 { .. } => "V135", N6::V136 { .. } => "V136", N6::V137 { .. } => "V137", N6::V138 { .. } => "V138", N6::V139 { .. } => "V139", N6::V140 { .. } => "V140", N6::V141 { .. } => "V141", N6::V142 { .. } => "V142", N6::V143 { .. } => "V143", N6::V144 { .. } => "V144", N6::V145 { .. } => "V145", N6::V146 { .. } => "V146", N6::V147 { .. } => "V147", N6::V148 { .. } => "V148", N6::V149 { .. } => "V149", N6::V150 { .. } => "V150", N6::V151 { .. } => "V151", N6::V152 { .. } => "V152", N6::V153 { .. } => "V153", N6::V154 { .. } => "V154", N6::V155 { .. } => "V155", N6::V156 { .. } => "V156", N6::V157 { .. } => "V157", N6::V158 { .. } => "V158", N6::V159 { .. } => "V159", N6::V160 { .. } => "V160", N6::V161 { .. } => "V161", N6::V162 { .. } => "V162", N6::V163 { .. } => "V163", N6::V164 { .. } => "V164", N6::V165 { .. } => "V165", N6::V166 { .. } => "V166", N6::V167 { .. } => "V167", N6::V168 { .. } => "V168", N6::V169 { .. } => "V169", N6::V170 { .. } => "V170", N6::V171 { .. } => "V171", N6::V172 { .. } => "V172", N6::V173 { .. } => "V173", N6::V174 { .. } => "V174", N6::V175 { .. } => "V175", N6::V176 { .. } => "V176", N6::V177 { .. } => "V177", N6::V178 { .. } => "V178", N6::V179 { .. } => "V179", N6::V180 { .. } => "V180", N6::V181 { .. } => "V181", N6::V182 { .. } => "V182", N6::V183 { .. } => "V183", N6::V184 { .. } => "V184", N6::V185 { .. } => "V185", N6::V186 { .. } => "V186", N6::V187 { .. } => "V187", N6::V188 { .. } => "V188", N6::V189 { .. } => "V189", N6::V190 { .. } => "V190", N6::V191 { .. } => "V191", N6::V192 { .. } => "V192", N6::V193 { .. } => "V193", N6::V194 { .. } => "V194", N6::V195 { .. } => "V195", N6::V196 { .. } => "V196", N6::V197 { .. } => "V197", N6::V198 { .. } => "V198", N6::V199 { .. } => "V199", N6::V200 { .. } => "V200", N6::V201 { .. } => "V201", N6::V202 { .. } => "V202", N6::V203 { .. } => "V203", N6::V204 { .. } => "V204", N6::V205 { .. } => "V205", N6::V206 { .. } => "V206", N6::V207 { .. } => "V207", N6::V208 { .. } => "V208", N6::V209 { .. } => "V209", N6::V210 { .. } => "V210", N6::V211 { .. } => "V211", N6::V212 { .. } => "V212", N6::V213 { .. } => "V213", N6::V214 { .. } => "V214", N6::V215 { .. } => "V215", N6::V216 { .. } => "V216", N6::V217 { .. } => "V217", N6::V218 { .. } => "V218", N6::V219 { .. } => "V219", N6::V220 { .. } => "V220", N6::V221 { .. } => "V221", N6::V222 { .. } => "V222", N6::V223 { .. } => "V223", N6::V224 { .. } => "V224", N6::V225 { .. } => "V225", N6::V226 { .. } => "V226", N6::V227 { .. } => "V227", N6::V228 { .. } => "V228", N6::V229 { .. } => "V229", N6::V230 { .. } => "V230", N6::V231 { .. } => "V231", N6::V232 { .. } => "V232", N6::V233 { .. } => "V233", N6::V234 { .. } => "V234", N6::V235 { .. } => "V235", N6::V236 { .. } => "V236", N6::V237 { .. } => "V237", N6::V238 { .. } => "V238", N6::V239 { .. } => "V239", N6::V240 { .. } => "V240", N6::V241 { .. } => "V241", N6::V242 { .. } => "V242", N6::V243 { .. } => "V243", N6::V244 { .. } => "V244", N6::V245 { .. } => "V245", N6::V246 { .. } => "V246", N6::V247 { .. } => "V247", N6::V248 { .. } => "V248", N6::V249 { .. } => "V249", N6::V250 { .. } => "V250", N6::V251 { .. } => "V251", N6::V252 { .. } => "V252", N6::V253 { .. } => "V253", N6::V254 { .. } => "V254", N6::V255 { .. } => "V255", N6::V256 { .. } => "V256", N6::V257 { .. } => "V257", N6::V258 { .. } => "V258", N6::V259 { .. } => "V259" } }
}
impl Spec for N6 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        match self {
            N6::V0(f0) => { (0u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V1 => { (1u32).enc(o);  }
            N6::V2 => { (2u32).enc(o);  }
            N6::V3(f0) => { (3u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V4 => { (4u32).enc(o);  }
            N6::V5 => { (5u32).enc(o);  }
            N6::V6(f0) => { (6u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V7 => { (7u32).enc(o);  }
            N6::V8 => { (8u32).enc(o);  }
            N6::V9(f0) => { (9u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V10 => { (10u32).enc(o);  }
            N6::V11 => { (11u32).enc(o);  }
            N6::V12(f0) => { (12u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V13 => { (13u32).enc(o);  }
            N6::V14 => { (14u32).enc(o);  }
            N6::V15(f0) => { (15u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V16 => { (16u32).enc(o);  }
            N6::V17 => { (17u32).enc(o);  }
            N6::V18(f0) => { (18u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V19 => { (19u32).enc(o);  }
            N6::V20 => { (20u32).enc(o);  }
            N6::V21(f0) => { (21u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V22 => { (22u32).enc(o);  }
            N6::V23 => { (23u32).enc(o);  }
            N6::V24(f0) => { (24u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V25 => { (25u32).enc(o);  }
            N6::V26 => { (26u32).enc(o);  }
            N6::V27(f0) => { (27u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V28 => { (28u32).enc(o);  }
            N6::V29 => { (29u32).enc(o);  }
            N6::V30(f0) => { (30u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V31 => { (31u32).enc(o);  }
            N6::V32 => { (32u32).enc(o);  }
            N6::V33(f0) => { (33u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V34 => { (34u32).enc(o);  }
            N6::V35 => { (35u32).enc(o);  }
            N6::V36(f0) => { (36u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V37 => { (37u32).enc(o);  }
            N6::V38 => { (38u32).enc(o);  }
            N6::V39(f0) => { (39u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V40 => { (40u32).enc(o);  }
            N6::V41 => { (41u32).enc(o);  }
            N6::V42(f0) => { (42u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V43 => { (43u32).enc(o);  }
            N6::V44 => { (44u32).enc(o);  }
            N6::V45(f0) => { (45u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V46 => { (46u32).enc(o);  }
            N6::V47 => { (47u32).enc(o);  }
            N6::V48(f0) => { (48u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V49 => { (49u32).enc(o);  }
            N6::V50 => { (50u32).enc(o);  }
            N6::V51(f0) => { (51u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V52 => { (52u32).enc(o);  }
            N6::V53 => { (53u32).enc(o);  }
            N6::V54(f0) => { (54u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V55 => { (55u32).enc(o);  }
            N6::V56 => { (56u32).enc(o);  }
            N6::V57(f0) => { (57u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V58 => { (58u32).enc(o);  }
            N6::V59 => { (59u32).enc(o);  }
            N6::V60(f0) => { (60u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V61 => { (61u32).enc(o);  }
            N6::V62 => { (62u32).enc(o);  }
            N6::V63(f0) => { (63u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V64 => { (64u32).enc(o);  }
            N6::V65 => { (65u32).enc(o);  }
            N6::V66(f0) => { (66u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V67 => { (67u32).enc(o);  }
            N6::V68 => { (68u32).enc(o);  }
            N6::V69(f0) => { (69u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V70 => { (70u32).enc(o);  }
            N6::V71 => { (71u32).enc(o);  }
            N6::V72(f0) => { (72u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V73 => { (73u32).enc(o);  }
            N6::V74 => { (74u32).enc(o);  }
            N6::V75(f0) => { (75u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V76 => { (76u32).enc(o);  }
            N6::V77 => { (77u32).enc(o);  }
            N6::V78(f0) => { (78u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V79 => { (79u32).enc(o);  }
            N6::V80 => { (80u32).enc(o);  }
            N6::V81(f0) => { (81u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V82 => { (82u32).enc(o);  }
            N6::V83 => { (83u32).enc(o);  }
            N6::V84(f0) => { (84u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V85 => { (85u32).enc(o);  }
            N6::V86 => { (86u32).enc(o);  }
            N6::V87(f0) => { (87u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V88 => { (88u32).enc(o);  }
            N6::V89 => { (89u32).enc(o);  }
            N6::V90(f0) => { (90u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V91 => { (91u32).enc(o);  }
            N6::V92 => { (92u32).enc(o);  }
            N6::V93(f0) => { (93u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V94 => { (94u32).enc(o);  }
            N6::V95 => { (95u32).enc(o);  }
            N6::V96(f0) => { (96u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V97 => { (97u32).enc(o);  }
            N6::V98 => { (98u32).enc(o);  }
            N6::V99(f0) => { (99u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V100 => { (100u32).enc(o);  }
            N6::V101 => { (101u32).enc(o);  }
            N6::V102(f0) => { (102u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V103 => { (103u32).enc(o);  }
            N6::V104 => { (104u32).enc(o);  }
            N6::V105(f0) => { (105u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V106 => { (106u32).enc(o);  }
            N6::V107 => { (107u32).enc(o);  }
            N6::V108(f0) => { (108u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V109 => { (109u32).enc(o);  }
            N6::V110 => { (110u32).enc(o);  }
            N6::V111(f0) => { (111u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V112 => { (112u32).enc(o);  }
            N6::V113 => { (113u32).enc(o);  }
            N6::V114(f0) => { (114u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V115 => { (115u32).enc(o);  }
            N6::V116 => { (116u32).enc(o);  }
            N6::V117(f0) => { (117u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V118 => { (118u32).enc(o);  }
            N6::V119 => { (119u32).enc(o);  }
            N6::V120(f0) => { (120u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V121 => { (121u32).enc(o);  }
            N6::V122 => { (122u32).enc(o);  }
            N6::V123(f0) => { (123u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V124 => { (124u32).enc(o);  }
            N6::V125 => { (125u32).enc(o);  }
            N6::V126(f0) => { (126u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V127 => { (127u32).enc(o);  }
            N6::V128 => { (128u32).enc(o);  }
            N6::V129(f0) => { (129u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V130 => { (130u32).enc(o);  }
            N6::V131 => { (131u32).enc(o);  }
            N6::V132(f0) => { (132u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V133 => { (133u32).enc(o);  }
            N6::V134 => { (134u32).enc(o);  }
            N6::V135(f0) => { (135u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V136 => { (136u32).enc(o);  }
            N6::V137 => { (137u32).enc(o);  }
            N6::V138(f0) => { (138u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V139 => { (139u32).enc(o);  }
            N6::V140 => { (140u32).enc(o);  }
            N6::V141(f0) => { (141u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V142 => { (142u32).enc(o);  }
            N6::V143 => { (143u32).enc(o);  }
            N6::V144(f0) => { (144u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V145 => { (145u32).enc(o);  }
            N6::V146 => { (146u32).enc(o);  }
            N6::V147(f0) => { (147u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V148 => { (148u32).enc(o);  }
            N6::V149 => { (149u32).enc(o);  }
            N6::V150(f0) => { (150u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V151 => { (151u32).enc(o);  }
            N6::V152 => { (152u32).enc(o);  }
            N6::V153(f0) => { (153u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V154 => { (154u32).enc(o);  }
            N6::V155 => { (155u32).enc(o);  }
            N6::V156(f0) => { (156u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V157 => { (157u32).enc(o);  }
            N6::V158 => { (158u32).enc(o);  }
            N6::V159(f0) => { (159u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V160 => { (160u32).enc(o);  }
            N6::V161 => { (161u32).enc(o);  }
            N6::V162(f0) => { (162u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V163 => { (163u32).enc(o);  }
            N6::V164 => { (164u32).enc(o);  }
            N6::V165(f0) => { (165u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V166 => { (166u32).enc(o);  }
            N6::V167 => { (167u32).enc(o);  }
            N6::V168(f0) => { (168u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V169 => { (169u32).enc(o);  }
            N6::V170 => { (170u32).enc(o);  }
            N6::V171(f0) => { (171u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V172 => { (172u32).enc(o);  }
            N6::V173 => { (173u32).enc(o);  }
            N6::V174(f0) => { (174u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V175 => { (175u32).enc(o);  }
            N6::V176 => { (176u32).enc(o);  }
            N6::V177(f0) => { (177u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V178 => { (178u32).enc(o);  }
            N6::V179 => { (179u32).enc(o);  }
            N6::V180(f0) => { (180u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V181 => { (181u32).enc(o);  }
            N6::V182 => { (182u32).enc(o);  }
            N6::V183(f0) => { (183u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V184 => { (184u32).enc(o);  }
            N6::V185 => { (185u32).enc(o);  }
            N6::V186(f0) => { (186u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V187 => { (187u32).enc(o);  }
            N6::V188 => { (188u32).enc(o);  }
            N6::V189(f0) => { (189u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V190 => { (190u32).enc(o);  }
            N6::V191 => { (191u32).enc(o);  }
            N6::V192(f0) => { (192u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V193 => { (193u32).enc(o);  }
            N6::V194 => { (194u32).enc(o);  }
            N6::V195(f0) => { (195u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V196 => { (196u32).enc(o);  }
            N6::V197 => { (197u32).enc(o);  }
            N6::V198(f0) => { (198u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V199 => { (199u32).enc(o);  }
            N6::V200 => { (200u32).enc(o);  }
            N6::V201(f0) => { (201u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V202 => { (202u32).enc(o);  }
            N6::V203 => { (203u32).enc(o);  }
            N6::V204(f0) => { (204u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V205 => { (205u32).enc(o);  }
            N6::V206 => { (206u32).enc(o);  }
            N6::V207(f0) => { (207u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V208 => { (208u32).enc(o);  }
            N6::V209 => { (209u32).enc(o);  }
            N6::V210(f0) => { (210u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V211 => { (211u32).enc(o);  }
            N6::V212 => { (212u32).enc(o);  }
            N6::V213(f0) => { (213u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V214 => { (214u32).enc(o);  }
            N6::V215 => { (215u32).enc(o);  }
            N6::V216(f0) => { (216u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V217 => { (217u32).enc(o);  }
            N6::V218 => { (218u32).enc(o);  }
            N6::V219(f0) => { (219u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V220 => { (220u32).enc(o);  }
            N6::V221 => { (221u32).enc(o);  }
            N6::V222(f0) => { (222u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V223 => { (223u32).enc(o);  }
            N6::V224 => { (224u32).enc(o);  }
            N6::V225(f0) => { (225u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V226 => { (226u32).enc(o);  }
            N6::V227 => { (227u32).enc(o);  }
            N6::V228(f0) => { (228u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V229 => { (229u32).enc(o);  }
            N6::V230 => { (230u32).enc(o);  }
            N6::V231(f0) => { (231u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V232 => { (232u32).enc(o);  }
            N6::V233 => { (233u32).enc(o);  }
            N6::V234(f0) => { (234u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V235 => { (235u32).enc(o);  }
            N6::V236 => { (236u32).enc(o);  }
            N6::V237(f0) => { (237u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V238 => { (238u32).enc(o);  }
            N6::V239 => { (239u32).enc(o);  }
            N6::V240(f0) => { (240u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V241 => { (241u32).enc(o);  }
            N6::V242 => { (242u32).enc(o);  }
            N6::V243(f0) => { (243u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V244 => { (244u32).enc(o);  }
            N6::V245 => { (245u32).enc(o);  }
            N6::V246(f0) => { (246u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V247 => { (247u32).enc(o);  }
            N6::V248 => { (248u32).enc(o);  }
            N6::V249(f0) => { (249u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V250 => { (250u32).enc(o);  }
            N6::V251 => { (251u32).enc(o);  }
            N6::V252(f0) => { (252u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V253 => { (253u32).enc(o);  }
            N6::V254 => { (254u32).enc(o);  }
            N6::V255(f0) => { (255u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V256 => { (256u32).enc(o);  }
            N6::V257 => { (257u32).enc(o);  }
            N6::V258(f0) => { (258u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            N6::V259 => { (259u32).enc(o);  }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (N6::V0(a0), N6::V0(b0)) => a0.same(b0), (N6::V1, N6::V1) => true, (N6::V2, N6::V2) => true, (N6::V3(a0), N6::V3(b0)) => a0.same(b0), (N6::V4, N6::V4) => true, (N6::V5, N6::V5) => true, (N6::V6(a0), N6::V6(b0)) => a0.same(b0), (N6::V7, N6::V7) => true, (N6::V8, N6::V8) => true, (N6::V9(a0), N6::V9(b0)) => a0.same(b0), (N6::V10, N6::V10) => true, (N6::V11, N6::V11) => true, (N6::V12(a0), N6::V12(b0)) => a0.same(b0), (N6::V13, N6::V13) => true, (N6::V14, N6::V14) => true, (N6::V15(a0), N6::V15(b0)) => a0.same(b0), (N6::V16, N6::V16) => true, (N6::V17, N6::V17) => true, (N6::V18(a0), N6::V18(b0)) => a0.same(b0), (N6::V19, N6::V19) => true, (N6::V20, N6::V20) => true, (N6::V21(a0), N6::V21(b0)) => a0.same(b0), (N6::V22, N6::V22) => true, (N6::V23, N6::V23) => true, (N6::V24(a0), N6::V24(b0)) => a0.same(b0), (N6::V25, N6::V25) => true, (N6::V26, N6::V26) => true, (N6::V27(a0), N6::V27(b0)) => a0.same(b0), (N6::V28, N6::V28) => true, (N6::V29, N6::V29) => true, (N6::V30(a0), N6::V30(b0)) => a0.same(b0), (N6::V31, N6::V31) => true, (N6::V32, N6::V32) => true, (N6::V33(a0), N6::V33(b0)) => a0.same(b0), (N6::V34, N6::V34) => true, (N6::V35, N6::V35) => true, (N6::V36(a0), N6::V36(b0)) => a0.same(b0), (N6::V37, N6::V37) => true, (N6::V38, N6::V38) => true, (N6::V39(a0), N6::V39(b0)) => a0.same(b0), (N6::V40, N6::V40) => true, (N6::V41, N6::V41) => true, (N6::V42(a0), N6::V42(b0)) => a0.same(b0), (N6::V43, N6::V43) => true, (N6::V44, N6::V44) => true, (N6::V45(a0), N6::V45(b0)) => a0.same(b0), (N6::V46, N6::V46) => true, (N6::V47, N6::V47) => true, (N6::V48(a0), N6::V48(b0)) => a0.same(b0), (N6::V49, N6::V49) => true, (N6::V50, N6::V50) => true, (N6::V51(a0), N6::V51(b0)) => a0.same(b0), (N6::V52, N6::V52) => true, (N6::V53, N6::V53) => true, (N6::V54(a0), N6::V54(b0)) => a0.same(b0), (N6::V55, N6::V55) => true, (N6::V56, N6::V56) => true, (N6::V57(a0), N6::V57(b0)) => a0.same(b0), (N6::V58, N6::V58) => true, (N6::V59, N6::V59) => true, (N6::V60(a0), N6::V60(b0)) => a0.same(b0), (N6::V61, N6::V61) => true, (N6::V62, N6::V62) => true, (N6::V63(a0), N6::V63(b0)) => a0.same(b0), (N6::V64, N6::V64) => true, (N6::V65, N6::V65) => true, (N6::V66(a0), N6::V66(b0)) => a0.same(b0), (N6::V67, N6::V67) => true, (N6::V68, N6::V68) => true, (N6::V69(a0), N6::V69(b0)) => a0.same(b0), (N6::V70, N6::V70) => true, (N6::V71, N6::V71) => true, (N6::V72(a0), N6::V72(b0)) => a0.same(b0), (N6::V73, N6::V73) => true, (N6::V74, N6::V74) => true, (N6::V75(a0), N6::V75(b0)) => a0.same(b0), (N6::V76, N6::V76) => true, (N6::V77, N6::V77) => true, (N6::V78(a0), N6::V78(b0)) => a0.same(b0), (N6::V79, N6::V79) => true, (N6::V80, N6::V80) => true, (N6::V81(a0), N6::V81(b0)) => a0.same(b0), (N6::V82, N6::V82) => true, (N6::V83, N6::V83) => true, (N6::V84(a0), N6::V84(b0)) => a0.same(b0), (N6::V85, N6::V85) => true, (N6::V86, N6::V86) => true, (N6::V87(a0), N6::V87(b0)) => a0.same(b0), (N6::V88, N6::V88) => true, (N6::V89, N6::V89) => true, (N6::V90(a0), N6::V90(b0)) => a0.same(b0), (N6::V91, N6::V91) => true, (N6::V92, N6::V92) => true, (N6::V93(a0), N6::V93(b0)) => a0.same(b0), (N6::V94, N6::V94) => true, (N6::V95, N6::V95) => true, (N6::V96(a0), N6::V96(b0)) => a0.same(b0), (N6::V97, N6::V97) => true, (N6::V98, N6::V98) => true, (N6::V99(a0), N6::V99(b0)) => a0.same(b0), (N6::V100, N6::V100) => true, (N6::V101, N6::V101) => true, (N6::V102(a0), N6::V102(b0)) => a0.same(b0), (N6::V103, N6::V103) => true, (N6::V104, N6::V104) => true, (N6::V105(a0), N6::V105(b0)) => a0.same(b0), (N6::V106, N6::V106) => true, (N6::V107, N6::V107) => true, (N6::V108(a0), N6::V108(b0)) => a0.same(b0), (N6::V109, N6::V109) => true, (N6::V110, N6::V110) => true, (N6::V111(a0), N6::V111(b0)) => a0.same(b0), (N6::V112, N6::V112) => true, (N6::V113, N6::V113) => true, (N6::V114(a0), N6::V114(b0)) => a0.same(b0), (N6::V115, N6::V115) => true, (N6::V116, N6::V116) => true, (N6::V117(a0), N6::V117(b0)) => a0.same(b0), (N6::V118, N6::V118) => true, (N6::V119, N6::V119) => true, (N6::V120(a0), N6::V120(b0)) => a0.same(b0), (N6::V121, N6::V121) => true, (N6::V122, N6::V122) => true, (N6::V123(a0), N6::V123(b0)) => a0.same(b0), (N6::V124, N6::V124) => true, (N6::V125, N6::V125) => true, (N6::V126(a0), N6::V126(b0)) => a0.same(b0), (N6::V127, N6::V127) => true, (N6::V128, N6::V128) => true, (N6::V129(a0), N6::V129(b0)) => a0.same(b0), (N6::V130, N6::V130) => true, (N6::V131, N6::V131) => true, (N6::V132(a0), N6::V132(b0)) => a0.same(b0), (N6::V133, N6::V133) => true, (N6::V134, N6::V134) => true, (N6::V135(a0), N6::V135(b0)) => a0.same(b0), (N6::V136, N6::V136) => true, (N6::V137, N6::V137) => true, (N6::V138(a0), N6::V138(b0)) => a0.same(b0), (N6::V139, N6::V139) => true, (N6::V140, N6::V140) => true, (N6::V141(a0), N6::V141(b0)) => a0.same(b0), (N6::V142, N6::V142) => true, (N6::V143, N6::V143) => true, (N6::V144(a0), N6::V144(b0)) => a0.same(b0), (N6::V145, N6::V145) => true, (N6::V146, N6::V146) => true, (N6::V147(a0), N6::V147(b0)) => a0.same(b0), (N6::V148, N6::V148) => true, (N6::V149, N6::V149) => true, (N6::V150(a0), N6::V150(b0)) => a0.same(b0), (N6::V151, N6::V151) => true, (N6::V152, N6::V152) => true, (N6::V153(a0), N6::V153(b0)) => a0.same(b0), (N6::V154, N6::V154) => true, (N6::V155, N6::V155) => true, (N6::V156(a0), N6::V156(b0)) => a0.same(b0), (N6::V157, N6::V157) => true, (N6::V158, N6::V158) => true, (N6::V159(a0), N6::V159(b0)) => a0.same(b0), (N6::V160, N6::V160) => true, (N6::V161, N6::V161) => true, (N6::V162(a0), N6::V162(b0)) => a0.same(b0), (N6::V163, N6::V163) => true, (N6::V164, N6::V164) => true, (N6::V165(a0), N6::V165(b0)) => a0.same(b0), (N6::V166, N6::V166) => true, (N6::V167, N6::V167) => true, (N6::V168(a0), N6::V168(b0)) => a0.same(b0), (N6::V169, N6::V169) => true, (N6::V170, N6::V170) => true, (N6::V171(a0), N6::V171(b0)) => a0.same(b0), (N6::V172, N6::V172) => true, (N6::V173, N6::V173) => true, (N6::V174(a0), N6::V174(b0)) => a0.same(b0), (N6::V175, N6::V175) => true, (N6::V176, N6::V176) => true, (N6::V177(a0), N6::V177(b0)) => a0.same(b0), (N6::V178, N6::V178) => true, (N6::V179, N6::V179) => true, (N6::V180(a0), N6::V180(b0)) => a0.same(b0), (N6::V181, N6::V181) => true, (N6::V182, N6::V182) => true, (N6::V183(a0), N6::V183(b0)) => a0.same(b0), (N6::V184, N6::V184) => true, (N6::V185, N6::V185) => true, (N6::V186(a0), N6::V186(b0)) => a0.same(b0), (N6::V187, N6::V187) => true, (N6::V188, N6::V188) => true, (N6::V189(a0), N6::V189(b0)) => a0.same(b0), (N6::V190, N6::V190) => true, (N6::V191, N6::V191) => true, (N6::V192(a0), N6::V192(b0)) => a0.same(b0), (N6::V193, N6::V193) => true, (N6::V194, N6::V194) => true, (N6::V195(a0), N6::V195(b0)) => a0.same(b0), (N6::V196, N6::V196) => true, (N6::V197, N6::V197) => true, (N6::V198(a0), N6::V198(b0)) => a0.same(b0), (N6::V199, N6::V199) => true, (N6::V200, N6::V200) => true, (N6::V201(a0), N6::V201(b0)) => a0.same(b0), (N6::V202, N6::V202) => true, (N6::V203, N6::V203) => true, (N6::V204(a0), N6::V204(b0)) => a0.same(b0), (N6::V205, N6::V205) => true, (N6::V206, N6::V206) => true, (N6::V207(a0), N6::V207(b0)) => a0.same(b0), (N6::V208, N6::V208) => true, (N6::V209, N6::V209) => true, (N6::V210(a0), N6::V210(b0)) => a0.same(b0), (N6::V211, N6::V211) => true, (N6::V212, N6::V212) => true, (N6::V213(a0), N6::V213(b0)) => a0.same(b0), (N6::V214, N6::V214) => true, (N6::V215, N6::V215) => true, (N6::V216(a0), N6::V216(b0)) => a0.same(b0), (N6::V217, N6::V217) => true, (N6::V218, N6::V218) => true, (N6::V219(a0), N6::V219(b0)) => a0.same(b0), (N6::V220, N6::V220) => true, (N6::V221, N6::V221) => true, (N6::V222(a0), N6::V222(b0)) => a0.same(b0), (N6::V223, N6::V223) => true, (N6::V224, N6::V224) => true, (N6::V225(a0), N6::V225(b0)) => a0.same(b0), (N6::V226, N6::V226) => true, (N6::V227, N6::V227) => true, (N6::V228(a0), N6::V228(b0)) => a0.same(b0), (N6::V229, N6::V229) => true, (N6::V230, N6::V230) => true, (N6::V231(a0), N6::V231(b0)) => a0.same(b0), (N6::V232, N6::V232) => true, (N6::V233, N6::V233) => true, (N6::V234(a0), N6::V234(b0)) => a0.same(b0), (N6::V235, N6::V235) => true, (N6::V236, N6::V236) => true, (N6::V237(a0), N6::V237(b0)) => a0.same(b0), (N6::V238, N6::V238) => true, (N6::V239, N6::V239) => true, (N6::V240(a0), N6::V240(b0)) => a0.same(b0), (N6::V241, N6::V241) => true, (N6::V242, N6::V242) => true, (N6::V243(a0), N6::V243(b0)) => a0.same(b0), (N6::V244, N6::V244) => true, (N6::V245, N6::V245) => true, (N6::V246(a0), N6::V246(b0)) => a0.same(b0), (N6::V247, N6::V247) => true, (N6::V248, N6::V248) => true, (N6::V249(a0), N6::V249(b0)) => a0.same(b0), (N6::V250, N6::V250) => true, (N6::V251, N6::V251) => true, (N6::V252(a0), N6::V252(b0)) => a0.same(b0), (N6::V253, N6::V253) => true, (N6::V254, N6::V254) => true, (N6::V255(a0), N6::V255(b0)) => a0.same(b0), (N6::V256, N6::V256) => true, (N6::V257, N6::V257) => true, (N6::V258(a0), N6::V258(b0)) => a0.same(b0), (N6::V259, N6::V259) => true, _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(260) { 0 => N6::V0(<u16 as Spec>::random(g)), 1 => N6::V1, 2 => N6::V2, 3 => N6::V3(<u16 as Spec>::random(g)), 4 => N6::V4, 5 => N6::V5, 6 => N6::V6(<u16 as Spec>::random(g)), 7 => N6::V7, 8 => N6::V8, 9 => N6::V9(<u16 as Spec>::random(g)), 10 => N6::V10, 11 => N6::V11, 12 => N6::V12(<u16 as Spec>::random(g)), 13 => N6::V13, 14 => N6::V14, 15 => N6::V15(<u16 as Spec>::random(g)), 16 => N6::V16, 17 => N6::V17, 18 => N6::V18(<u16 as Spec>::random(g)), 19 => N6::V19, 20 => N6::V20, 21 => N6::V21(<u16 as Spec>::random(g)), 22 => N6::V22, 23 => N6::V23, 24 => N6::V24(<u16 as Spec>::random(g)), 25 => N6::V25, 26 => N6::V26, 27 => N6::V27(<u16 as Spec>::random(g)), 28 => N6::V28, 29 => N6::V29, 30 => N6::V30(<u16 as Spec>::random(g)), 31 => N6::V31, 32 => N6::V32, 33 => N6::V33(<u16 as Spec>::random(g)), 34 => N6::V34, 35 => N6::V35, 36 => N6::V36(<u16 as Spec>::random(g)), 37 => N6::V37, 38 => N6::V38, 39 => N6::V39(<u16 as Spec>::random(g)), 40 => N6::V40, 41 => N6::V41, 42 => N6::V42(<u16 as Spec>::random(g)), 43 => N6::V43, 44 => N6::V44, 45 => N6::V45(<u16 as Spec>::random(g)), 46 => N6::V46, 47 => N6::V47, 48 => N6::V48(<u16 as Spec>::random(g)), 49 => N6::V49, 50 => N6::V50, 51 => N6::V51(<u16 as Spec>::random(g)), 52 => N6::V52, 53 => N6::V53, 54 => N6::V54(<u16 as Spec>::random(g)), 55 => N6::V55, 56 => N6::V56, 57 => N6::V57(<u16 as Spec>::random(g)), 58 => N6::V58, 59 => N6::V59, 60 => N6::V60(<u16 as Spec>::random(g)), 61 => N6::V61, 62 => N6::V62, 63 => N6::V63(<u16 as Spec>::random(g)), 64 => N6::V64, 65 => N6::V65, 66 => N6::V66(<u16 as Spec>::random(g)), 67 => N6::V67, 68 => N6::V68, 69 => N6::V69(<u16 as Spec>::random(g)), 70 => N6::V70, 71 => N6::V71, 72 => N6::V72(<u16 as Spec>::random(g)), 73 => N6::V73, 74 => N6::V74, 75 => N6::V75(<u16 as Spec>::random(g)), 76 => N6::V76, 77 => N6::V77, 78 => N6::V78(<u16 as Spec>::random(g)), 79 => N6::V79, 80 => N6::V80, 81 => N6::V81(<u16 as Spec>::random(g)), 82 => N6::V82, 83 => N6::V83, 84 => N6::V84(<u16 as Spec>::random(g)), 85 => N6::V85, 86 => N6::V86, 87 => N6::V87(<u16 as Spec>::random(g)), 88 => N6::V88, 89 => N6::V89, 90 => N6::V90(<u16 as Spec>::random(g)), 91 => N6::V91, 92 => N6::V92, 93 => N6::V93(<u16 as Spec>::random(g)), 94 => N6::V94, 95 => N6::V95, 96 => N6::V96(<u16 as Spec>::random(g)), 97 => N6::V97, 98 => N6::V98, 99 => N6::V99(<u16 as Spec>::random(g)), 100 => N6::V100, 101 => N6::V101, 102 => N6::V102(<u16 as Spec>::random(g)), 103 => N6::V103, 104 => N6::V104, 105 => N6::V105(<u16 as Spec>::random(g)), 106 => N6::V106, 107 => N6::V107, 108 => N6::V108(<u16 as Spec>::random(g)), 109 => N6::V109, 110 => N6::V110, 111 => N6::V111(<u16 as Spec>::random(g)), 112 => N6::V112, 113 => N6::V113, 114 => N6::V114(<u16 as Spec>::random(g)), 115 => N6::V115, 116 => N6::V116, 117 => N6::V117(<u16 as Spec>::random(g)), 118 => N6::V118, 119 => N6::V119, 120 => N6::V120(<u16 as Spec>::random(g)), 121 => N6::V121, 122 => N6::V122, 123 => N6::V123(<u16 as Spec>::random(g)), 124 => N6::V124, 125 => N6::V125, 126 => N6::V126(<u16 as Spec>::random(g)), 127 => N6::V127, 128 => N6::V128, 129 => N6::V129(<u16 as Spec>::random(g)), 130 => N6::V130, 131 => N6::V131, 132 => N6::V132(<u16 as Spec>::random(g)), 133 => N6::V133, 134 => N6::V134, 135 => N6::V135(<u16 as Spec>::random(g)), 136 => N6::V136, 137 => N6::V137, 138 => N6::V138(<u16 as Spec>::random(g)), 139 => N6::V139, 140 => N6::V140, 141 => N6::V141(<u16 as Spec>::random(g)), 142 => N6::V142, 143 => N6::V143, 144 => N6::V144(<u16 as Spec>::random(g)), 145 => N6::V145, 146 => N6::V146, 147 => N6::V147(<u16 as Spec>::random(g)), 148 => N6::V148, 149 => N6::V149, 150 => N6::V150(<u16 as Spec>::random(g)), 151 => N6::V151, 152 => N6::V152, 153 => N6::V153(<u16 as Spec>::random(g)), 154 => N6::V154, 155 => N6::V155, 156 => N6::V156(<u16 as Spec>::random(g)), 157 => N6::V157, 158 => N6::V158, 159 => N6::V159(<u16 as Spec>::random(g)), 160 => N6::V160, 161 => N6::V161, 162 => N6::V162(<u16 as Spec>::random(g)), 163 => N6::V163, 164 => N6::V164, 165 => N6::V165(<u16 as Spec>::random(g)), 166 => N6::V166, 167 => N6::V167, 168 => N6::V168(<u16 as Spec>::random(g)), 169 => N6::V169, 170 => N6::V170, 171 => N6::V171(<u16 as Spec>::random(g)), 172 => N6::V172, 173 => N6::V173, 174 => N6::V174(<u16 as Spec>::random(g)), 175 => N6::V175, 176 => N6::V176, 177 => N6::V177(<u16 as Spec>::random(g)), 178 => N6::V178, 179 => N6::V179, 180 => N6::V180(<u16 as Spec>::random(g)), 181 => N6::V181, 182 => N6::V182, 183 => N6::V183(<u16 as Spec>::random(g)), 184 => N6::V184, 185 => N6::V185, 186 => N6::V186(<u16 as Spec>::random(g)), 187 => N6::V187, 188 => N6::V188, 189 => N6::V189(<u16 as Spec>::random(g)), 190 => N6::V190, 191 => N6::V191, 192 => N6::V192(<u16 as Spec>::random(g)), 193 => N6::V193, 194 => N6::V194, 195 => N6::V195(<u16 as Spec>::random(g)), 196 => N6::V196, 197 => N6::V197, 198 => N6::V198(<u16 as Spec>::random(g)), 199 => N6::V199, 200 => N6::V200, 201 => N6::V201(<u16 as Spec>::random(g)), 202 => N6::V202, 203 => N6::V203, 204 => N6::V204(<u16 as Spec>::random(g)), 205 => N6::V205, 206 => N6::V206, 207 => N6::V207(<u16 as Spec>::random(g)), 208 => N6::V208, 209 => N6::V209, 210 => N6::V210(<u16 as Spec>::random(g)), 211 => N6::V211, 212 => N6::V212, 213 => N6::V213(<u16 as Spec>::random(g)), 214 => N6::V214, 215 => N6::V215, 216 => N6::V216(<u16 as Spec>::random(g)), 217 => N6::V217, 218 => N6::V218, 219 => N6::V219(<u16 as Spec>::random(g)), 220 => N6::V220, 221 => N6::V221, 222 => N6::V222(<u16 as Spec>::random(g)), 223 => N6::V223, 224 => N6::V224, 225 => N6::V225(<u16 as Spec>::random(g)), 226 => N6::V226, 227 => N6::V227, 228 => N6::V228(<u16 as Spec>::random(g)), 229 => N6::V229, 230 => N6::V230, 231 => N6::V231(<u16 as Spec>::random(g)), 232 => N6::V232, 233 => N6::V233, 234 => N6::V234(<u16 as Spec>::random(g)), 235 => N6::V235, 236 => N6::V236, 237 => N6::V237(<u16 as Spec>::random(g)), 238 => N6::V238, 239 => N6::V239, 240 => N6::V240(<u16 as Spec>::random(g)), 241 => N6::V241, 242 => N6::V242, 243 => N6::V243(<u16 as Spec>::random(g)), 244 => N6::V244, 245 => N6::V245, 246 => N6::V246(<u16 as Spec>::random(g)), 247 => N6::V247, 248 => N6::V248, 249 => N6::V249(<u16 as Spec>::random(g)), 250 => N6::V250, 251 => N6::V251, 252 => N6::V252(<u16 as Spec>::random(g)), 253 => N6::V253, 254 => N6::V254, 255 => N6::V255(<u16 as Spec>::random(g)), 256 => N6::V256, 257 => N6::V257, 258 => N6::V258(<u16 as Spec>::random(g)), _ => N6::V259, }) }
}
impl Hist for N6 {
    const LATEST: u16 = 1;
    const REVISION: u16 = N6::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(260) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                1 => { (1u32).enc(o);  }
                2 => { (2u32).enc(o);  }
                3 => { (3u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                4 => { (4u32).enc(o);  }
                5 => { (5u32).enc(o);  }
                6 => { (6u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                7 => { (7u32).enc(o);  }
                8 => { (8u32).enc(o);  }
                9 => { (9u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                10 => { (10u32).enc(o);  }
                11 => { (11u32).enc(o);  }
                12 => { (12u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                13 => { (13u32).enc(o);  }
                14 => { (14u32).enc(o);  }
                15 => { (15u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                16 => { (16u32).enc(o);  }
                17 => { (17u32).enc(o);  }
                18 => { (18u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                19 => { (19u32).enc(o);  }
                20 => { (20u32).enc(o);  }
                21 => { (21u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                22 => { (22u32).enc(o);  }
                23 => { (23u32).enc(o);  }
                24 => { (24u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                25 => { (25u32).enc(o);  }
                26 => { (26u32).enc(o);  }
                27 => { (27u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                28 => { (28u32).enc(o);  }
                29 => { (29u32).enc(o);  }
                30 => { (30u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                31 => { (31u32).enc(o);  }
                32 => { (32u32).enc(o);  }
                33 => { (33u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                34 => { (34u32).enc(o);  }
                35 => { (35u32).enc(o);  }
                36 => { (36u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                37 => { (37u32).enc(o);  }
                38 => { (38u32).enc(o);  }
                39 => { (39u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                40 => { (40u32).enc(o);  }
                41 => { (41u32).enc(o);  }
                42 => { (42u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                43 => { (43u32).enc(o);  }
                44 => { (44u32).enc(o);  }
                45 => { (45u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                46 => { (46u32).enc(o);  }
                47 => { (47u32).enc(o);  }
                48 => { (48u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                49 => { (49u32).enc(o);  }
                50 => { (50u32).enc(o);  }
                51 => { (51u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                52 => { (52u32).enc(o);  }
                53 => { (53u32).enc(o);  }
                54 => { (54u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                55 => { (55u32).enc(o);  }
                56 => { (56u32).enc(o);  }
                57 => { (57u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                58 => { (58u32).enc(o);  }
                59 => { (59u32).enc(o);  }
                60 => { (60u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                61 => { (61u32).enc(o);  }
                62 => { (62u32).enc(o);  }
                63 => { (63u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                64 => { (64u32).enc(o);  }
                65 => { (65u32).enc(o);  }
                66 => { (66u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                67 => { (67u32).enc(o);  }
                68 => { (68u32).enc(o);  }
                69 => { (69u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                70 => { (70u32).enc(o);  }
                71 => { (71u32).enc(o);  }
                72 => { (72u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                73 => { (73u32).enc(o);  }
                74 => { (74u32).enc(o);  }
                75 => { (75u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                76 => { (76u32).enc(o);  }
                77 => { (77u32).enc(o);  }
                78 => { (78u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                79 => { (79u32).enc(o);  }
                80 => { (80u32).enc(o);  }
                81 => { (81u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                82 => { (82u32).enc(o);  }
                83 => { (83u32).enc(o);  }
                84 => { (84u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                85 => { (85u32).enc(o);  }
                86 => { (86u32).enc(o);  }
                87 => { (87u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                88 => { (88u32).enc(o);  }
                89 => { (89u32).enc(o);  }
                90 => { (90u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                91 => { (91u32).enc(o);  }
                92 => { (92u32).enc(o);  }
                93 => { (93u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                94 => { (94u32).enc(o);  }
                95 => { (95u32).enc(o);  }
                96 => { (96u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                97 => { (97u32).enc(o);  }
                98 => { (98u32).enc(o);  }
                99 => { (99u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                100 => { (100u32).enc(o);  }
                101 => { (101u32).enc(o);  }
                102 => { (102u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                103 => { (103u32).enc(o);  }
                104 => { (104u32).enc(o);  }
                105 => { (105u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                106 => { (106u32).enc(o);  }
                107 => { (107u32).enc(o);  }
                108 => { (108u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                109 => { (109u32).enc(o);  }
                110 => { (110u32).enc(o);  }
                111 => { (111u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                112 => { (112u32).enc(o);  }
                113 => { (113u32).enc(o);  }
                114 => { (114u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                115 => { (115u32).enc(o);  }
                116 => { (116u32).enc(o);  }
                117 => { (117u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                118 => { (118u32).enc(o);  }
                119 => { (119u32).enc(o);  }
                120 => { (120u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                121 => { (121u32).enc(o);  }
                122 => { (122u32).enc(o);  }
                123 => { (123u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                124 => { (124u32).enc(o);  }
                125 => { (125u32).enc(o);  }
                126 => { (126u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                127 => { (127u32).enc(o);  }
                128 => { (128u32).enc(o);  }
                129 => { (129u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                130 => { (130u32).enc(o);  }
                131 => { (131u32).enc(o);  }
                132 => { (132u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                133 => { (133u32).enc(o);  }
                134 => { (134u32).enc(o);  }
                135 => { (135u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                136 => { (136u32).enc(o);  }
                137 => { (137u32).enc(o);  }
                138 => { (138u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                139 => { (139u32).enc(o);  }
                140 => { (140u32).enc(o);  }
                141 => { (141u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                142 => { (142u32).enc(o);  }
                143 => { (143u32).enc(o);  }
                144 => { (144u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                145 => { (145u32).enc(o);  }
                146 => { (146u32).enc(o);  }
                147 => { (147u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                148 => { (148u32).enc(o);  }
                149 => { (149u32).enc(o);  }
                150 => { (150u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                151 => { (151u32).enc(o);  }
                152 => { (152u32).enc(o);  }
                153 => { (153u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                154 => { (154u32).enc(o);  }
                155 => { (155u32).enc(o);  }
                156 => { (156u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                157 => { (157u32).enc(o);  }
                158 => { (158u32).enc(o);  }
                159 => { (159u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                160 => { (160u32).enc(o);  }
                161 => { (161u32).enc(o);  }
                162 => { (162u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                163 => { (163u32).enc(o);  }
                164 => { (164u32).enc(o);  }
                165 => { (165u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                166 => { (166u32).enc(o);  }
                167 => { (167u32).enc(o);  }
                168 => { (168u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                169 => { (169u32).enc(o);  }
                170 => { (170u32).enc(o);  }
                171 => { (171u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                172 => { (172u32).enc(o);  }
                173 => { (173u32).enc(o);  }
                174 => { (174u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                175 => { (175u32).enc(o);  }
                176 => { (176u32).enc(o);  }
                177 => { (177u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                178 => { (178u32).enc(o);  }
                179 => { (179u32).enc(o);  }
                180 => { (180u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                181 => { (181u32).enc(o);  }
                182 => { (182u32).enc(o);  }
                183 => { (183u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                184 => { (184u32).enc(o);  }
                185 => { (185u32).enc(o);  }
                186 => { (186u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                187 => { (187u32).enc(o);  }
                188 => { (188u32).enc(o);  }
                189 => { (189u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                190 => { (190u32).enc(o);  }
                191 => { (191u32).enc(o);  }
                192 => { (192u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                193 => { (193u32).enc(o);  }
                194 => { (194u32).enc(o);  }
                195 => { (195u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                196 => { (196u32).enc(o);  }
                197 => { (197u32).enc(o);  }
                198 => { (198u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                199 => { (199u32).enc(o);  }
                200 => { (200u32).enc(o);  }
                201 => { (201u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                202 => { (202u32).enc(o);  }
                203 => { (203u32).enc(o);  }
                204 => { (204u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                205 => { (205u32).enc(o);  }
                206 => { (206u32).enc(o);  }
                207 => { (207u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                208 => { (208u32).enc(o);  }
                209 => { (209u32).enc(o);  }
                210 => { (210u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                211 => { (211u32).enc(o);  }
                212 => { (212u32).enc(o);  }
                213 => { (213u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                214 => { (214u32).enc(o);  }
                215 => { (215u32).enc(o);  }
                216 => { (216u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                217 => { (217u32).enc(o);  }
                218 => { (218u32).enc(o);  }
                219 => { (219u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                220 => { (220u32).enc(o);  }
                221 => { (221u32).enc(o);  }
                222 => { (222u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                223 => { (223u32).enc(o);  }
                224 => { (224u32).enc(o);  }
                225 => { (225u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                226 => { (226u32).enc(o);  }
                227 => { (227u32).enc(o);  }
                228 => { (228u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                229 => { (229u32).enc(o);  }
                230 => { (230u32).enc(o);  }
                231 => { (231u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                232 => { (232u32).enc(o);  }
                233 => { (233u32).enc(o);  }
                234 => { (234u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                235 => { (235u32).enc(o);  }
                236 => { (236u32).enc(o);  }
                237 => { (237u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                238 => { (238u32).enc(o);  }
                239 => { (239u32).enc(o);  }
                240 => { (240u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                241 => { (241u32).enc(o);  }
                242 => { (242u32).enc(o);  }
                243 => { (243u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                244 => { (244u32).enc(o);  }
                245 => { (245u32).enc(o);  }
                246 => { (246u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                247 => { (247u32).enc(o);  }
                248 => { (248u32).enc(o);  }
                249 => { (249u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                250 => { (250u32).enc(o);  }
                251 => { (251u32).enc(o);  }
                252 => { (252u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                253 => { (253u32).enc(o);  }
                254 => { (254u32).enc(o);  }
                255 => { (255u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                256 => { (256u32).enc(o);  }
                257 => { (257u32).enc(o);  }
                258 => { (258u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                _ => { (259u32).enc(o);  }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 1);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V0(f0)
                }
                1 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V1
                }
                2 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V2
                }
                3 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V3(f0)
                }
                4 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V4
                }
                5 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V5
                }
                6 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V6(f0)
                }
                7 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V7
                }
                8 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V8
                }
                9 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V9(f0)
                }
                10 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V10
                }
                11 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V11
                }
                12 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V12(f0)
                }
                13 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V13
                }
                14 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V14
                }
                15 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V15(f0)
                }
                16 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V16
                }
                17 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V17
                }
                18 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V18(f0)
                }
                19 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V19
                }
                20 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V20
                }
                21 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V21(f0)
                }
                22 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V22
                }
                23 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V23
                }
                24 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V24(f0)
                }
                25 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V25
                }
                26 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V26
                }
                27 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V27(f0)
                }
                28 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V28
                }
                29 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V29
                }
                30 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V30(f0)
                }
                31 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V31
                }
                32 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V32
                }
                33 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V33(f0)
                }
                34 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V34
                }
                35 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V35
                }
                36 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V36(f0)
                }
                37 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V37
                }
                38 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V38
                }
                39 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V39(f0)
                }
                40 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V40
                }
                41 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V41
                }
                42 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V42(f0)
                }
                43 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V43
                }
                44 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V44
                }
                45 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V45(f0)
                }
                46 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V46
                }
                47 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V47
                }
                48 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V48(f0)
                }
                49 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V49
                }
                50 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V50
                }
                51 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V51(f0)
                }
                52 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V52
                }
                53 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V53
                }
                54 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V54(f0)
                }
                55 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V55
                }
                56 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V56
                }
                57 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V57(f0)
                }
                58 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V58
                }
                59 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V59
                }
                60 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V60(f0)
                }
                61 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V61
                }
                62 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V62
                }
                63 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V63(f0)
                }
                64 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V64
                }
                65 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V65
                }
                66 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V66(f0)
                }
                67 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V67
                }
                68 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V68
                }
                69 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V69(f0)
                }
                70 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V70
                }
                71 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V71
                }
                72 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V72(f0)
                }
                73 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V73
                }
                74 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V74
                }
                75 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V75(f0)
                }
                76 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V76
                }
                77 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V77
                }
                78 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V78(f0)
                }
                79 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V79
                }
                80 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V80
                }
                81 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V81(f0)
                }
                82 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V82
                }
                83 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V83
                }
                84 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V84(f0)
                }
                85 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V85
                }
                86 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V86
                }
                87 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V87(f0)
                }
                88 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V88
                }
                89 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V89
                }
                90 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V90(f0)
                }
                91 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V91
                }
                92 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V92
                }
                93 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V93(f0)
                }
                94 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V94
                }
                95 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V95
                }
                96 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V96(f0)
                }
                97 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V97
                }
                98 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V98
                }
                99 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V99(f0)
                }
                100 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V100
                }
                101 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V101
                }
                102 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V102(f0)
                }
                103 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V103
                }
                104 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V104
                }
                105 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V105(f0)
                }
                106 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V106
                }
                107 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V107
                }
                108 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V108(f0)
                }
                109 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V109
                }
                110 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V110
                }
                111 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V111(f0)
                }
                112 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V112
                }
                113 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V113
                }
                114 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V114(f0)
                }
                115 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V115
                }
                116 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V116
                }
                117 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V117(f0)
                }
                118 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V118
                }
                119 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V119
                }
                120 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V120(f0)
                }
                121 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V121
                }
                122 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V122
                }
                123 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V123(f0)
                }
                124 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V124
                }
                125 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V125
                }
                126 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V126(f0)
                }
                127 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V127
                }
                128 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V128
                }
                129 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V129(f0)
                }
                130 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V130
                }
                131 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V131
                }
                132 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V132(f0)
                }
                133 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V133
                }
                134 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V134
                }
                135 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V135(f0)
                }
                136 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V136
                }
                137 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V137
                }
                138 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V138(f0)
                }
                139 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V139
                }
                140 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V140
                }
                141 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V141(f0)
                }
                142 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V142
                }
                143 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V143
                }
                144 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V144(f0)
                }
                145 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V145
                }
                146 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V146
                }
                147 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V147(f0)
                }
                148 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V148
                }
                149 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V149
                }
                150 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V150(f0)
                }
                151 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V151
                }
                152 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V152
                }
                153 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V153(f0)
                }
                154 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V154
                }
                155 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V155
                }
                156 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V156(f0)
                }
                157 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V157
                }
                158 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V158
                }
                159 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V159(f0)
                }
                160 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V160
                }
                161 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V161
                }
                162 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V162(f0)
                }
                163 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V163
                }
                164 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V164
                }
                165 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V165(f0)
                }
                166 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V166
                }
                167 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V167
                }
                168 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V168(f0)
                }
                169 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V169
                }
                170 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V170
                }
                171 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V171(f0)
                }
                172 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V172
                }
                173 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V173
                }
                174 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V174(f0)
                }
                175 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V175
                }
                176 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V176
                }
                177 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V177(f0)
                }
                178 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V178
                }
                179 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V179
                }
                180 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V180(f0)
                }
                181 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V181
                }
                182 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V182
                }
                183 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V183(f0)
                }
                184 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V184
                }
                185 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V185
                }
                186 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V186(f0)
                }
                187 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V187
                }
                188 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V188
                }
                189 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V189(f0)
                }
                190 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V190
                }
                191 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V191
                }
                192 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V192(f0)
                }
                193 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V193
                }
                194 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V194
                }
                195 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V195(f0)
                }
                196 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V196
                }
                197 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V197
                }
                198 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V198(f0)
                }
                199 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V199
                }
                200 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V200
                }
                201 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V201(f0)
                }
                202 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V202
                }
                203 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V203
                }
                204 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V204(f0)
                }
                205 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V205
                }
                206 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V206
                }
                207 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V207(f0)
                }
                208 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V208
                }
                209 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V209
                }
                210 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V210(f0)
                }
                211 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V211
                }
                212 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V212
                }
                213 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V213(f0)
                }
                214 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V214
                }
                215 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V215
                }
                216 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V216(f0)
                }
                217 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V217
                }
                218 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V218
                }
                219 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V219(f0)
                }
                220 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V220
                }
                221 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V221
                }
                222 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V222(f0)
                }
                223 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V223
                }
                224 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V224
                }
                225 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V225(f0)
                }
                226 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V226
                }
                227 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V227
                }
                228 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V228(f0)
                }
                229 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V229
                }
                230 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V230
                }
                231 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V231(f0)
                }
                232 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V232
                }
                233 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V233
                }
                234 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V234(f0)
                }
                235 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V235
                }
                236 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V236
                }
                237 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V237(f0)
                }
                238 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V238
                }
                239 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V239
                }
                240 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V240(f0)
                }
                241 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V241
                }
                242 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V242
                }
                243 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V243(f0)
                }
                244 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V244
                }
                245 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V245
                }
                246 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V246(f0)
                }
                247 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V247
                }
                248 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V248
                }
                249 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V249(f0)
                }
                250 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V250
                }
                251 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V251
                }
                252 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V252(f0)
                }
                253 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V253
                }
                254 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V254
                }
                255 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V255(f0)
                }
                256 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V256
                }
                257 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V257
                }
                258 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N6::V258(f0)
                }
                259 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    N6::V259
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("V0", 0), ("V1", 1), ("V2", 2), ("V3", 3), ("V4", 4), ("V5", 5), ("V6", 6), ("V7", 7), ("V8", 8), ("V9", 9), ("V10", 10), ("V11", 11), ("V12", 12), ("V13", 13), ("V14", 14), ("V15", 15), ("V16", 16), ("V17", 17), ("V18", 18), ("V19", 19), ("V20", 20), ("V21", 21), ("V22", 22), ("V23", 23), ("V24", 24), ("V25", 25), ("V26", 26), ("V27", 27), ("V28", 28), ("V29", 29), ("V30", 30), ("V31", 31), ("V32", 32), ("V33", 33), ("V34", 34), ("V35", 35), ("V36", 36), ("V37", 37), ("V38", 38), ("V39", 39), ("V40", 40), ("V41", 41), ("V42", 42), ("V43", 43), ("V44", 44), ("V45", 45), ("V46", 46), ("V47", 47), ("V48", 48), ("V49", 49), ("V50", 50), ("V51", 51), ("V52", 52), ("V53", 53), ("V54", 54), ("V55", 55), ("V56", 56), ("V57", 57), ("V58", 58), ("V59", 59), ("V60", 60), ("V61", 61), ("V62", 62), ("V63", 63), ("V64", 64), ("V65", 65), ("V66", 66), ("V67", 67), ("V68", 68), ("V69", 69), ("V70", 70), ("V71", 71), ("V72", 72), ("V73", 73), ("V74", 74), ("V75", 75), ("V76", 76), ("V77", 77), ("V78", 78), ("V79", 79), ("V80", 80), ("V81", 81), ("V82", 82), ("V83", 83), ("V84", 84), ("V85", 85), ("V86", 86), ("V87", 87), ("V88", 88), ("V89", 89), ("V90", 90), ("V91", 91), ("V92", 92), ("V93", 93), ("V94", 94), ("V95", 95), ("V96", 96), ("V97", 97), ("V98", 98), ("V99", 99), ("V100", 100), ("V101", 101), ("V102", 102), ("V103", 103), ("V104", 104), ("V105", 105), ("V106", 106), ("V107", 107), ("V108", 108), ("V109", 109), ("V110", 110), ("V111", 111), ("V112", 112), ("V113", 113), ("V114", 114), ("V115", 115), ("V116", 116), ("V117", 117), ("V118", 118), ("V119", 119), ("V120", 120), ("V121", 121), ("V122", 122), ("V123", 123), ("V124", 124), ("V125", 125), ("V126", 126), ("V127", 127), ("V128", 128), ("V129", 129), ("V130", 130), ("V131", 131), ("V132", 132), ("V133", 133), ("V134", 134), ("V135", 135), ("V136", 136), ("V137", 137), ("V138", 138), ("V139", 139), ("V140", 140), ("V141", 141), ("V142", 142), ("V143", 143), ("V144", 144), ("V145", 145), ("V146", 146), ("V147", 147), ("V148", 148), ("V149", 149), ("V150", 150), ("V151", 151), ("V152", 152), ("V153", 153), ("V154", 154), ("V155", 155), ("V156", 156), ("V157", 157), ("V158", 158), ("V159", 159), ("V160", 160), ("V161", 161), ("V162", 162), ("V163", 163), ("V164", 164), ("V165", 165), ("V166", 166), ("V167", 167), ("V168", 168), ("V169", 169), ("V170", 170), ("V171", 171), ("V172", 172), ("V173", 173), ("V174", 174), ("V175", 175), ("V176", 176), ("V177", 177), ("V178", 178), ("V179", 179), ("V180", 180), ("V181", 181), ("V182", 182), ("V183", 183), ("V184", 184), ("V185", 185), ("V186", 186), ("V187", 187), ("V188", 188), ("V189", 189), ("V190", 190), ("V191", 191), ("V192", 192), ("V193", 193), ("V194", 194), ("V195", 195), ("V196", 196), ("V197", 197), ("V198", 198), ("V199", 199), ("V200", 200), ("V201", 201), ("V202", 202), ("V203", 203), ("V204", 204), ("V205", 205), ("V206", 206), ("V207", 207), ("V208", 208), ("V209", 209), ("V210", 210), ("V211", 211), ("V212", 212), ("V213", 213), ("V214", 214), ("V215", 215), ("V216", 216), ("V217", 217), ("V218", 218), ("V219", 219), ("V220", 220), ("V221", 221), ("V222", 222), ("V223", 223), ("V224", 224), ("V225", 225), ("V226", 226), ("V227", 227), ("V228", 228), ("V229", 229), ("V230", 230), ("V231", 231), ("V232", 232), ("V233", 233), ("V234", 234), ("V235", 235), ("V236", 236), ("V237", 237), ("V238", 238), ("V239", 239), ("V240", 240), ("V241", 241), ("V242", 242), ("V243", 243), ("V244", 244), ("V245", 245), ("V246", 246), ("V247", 247), ("V248", 248), ("V249", 249), ("V250", 250), ("V251", 251), ("V252", 252), ("V253", 253), ("V254", 254), ("V255", 255), ("V256", 256), ("V257", 257), ("V258", 258), ("V259", 259)];
        if N6::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", N6::walk_revisioned_variant_table(1))) }
        for d in 0..262 { if N6::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        if !N6::walk_revisioned_variant_table(2).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for N6 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(607) {
                    0 => { let _ = w.into_v0(); }
                    1 => { let _ = w.decode_v0(); }
                    2 => { let _ = w.v0_view(); }
                    3 => { let _ = w.into_v1(); }
                    4 => { let _ = w.decode_v1(); }
                    5 => { let _ = w.into_v2(); }
                    6 => { let _ = w.decode_v2(); }
                    7 => { let _ = w.into_v3(); }
                    8 => { let _ = w.decode_v3(); }
                    9 => { let _ = w.v3_view(); }
                    10 => { let _ = w.into_v4(); }
                    11 => { let _ = w.decode_v4(); }
                    12 => { let _ = w.into_v5(); }
                    13 => { let _ = w.decode_v5(); }
                    14 => { let _ = w.into_v6(); }
                    15 => { let _ = w.decode_v6(); }
                    16 => { let _ = w.v6_view(); }
                    17 => { let _ = w.into_v7(); }
                    18 => { let _ = w.decode_v7(); }
                    19 => { let _ = w.into_v8(); }
                    20 => { let _ = w.decode_v8(); }
                    21 => { let _ = w.into_v9(); }
                    22 => { let _ = w.decode_v9(); }
                    23 => { let _ = w.v9_view(); }
                    24 => { let _ = w.into_v10(); }
                    25 => { let _ = w.decode_v10(); }
                    26 => { let _ = w.into_v11(); }
                    27 => { let _ = w.decode_v11(); }
                    28 => { let _ = w.into_v12(); }
                    29 => { let _ = w.decode_v12(); }
                    30 => { let _ = w.v12_view(); }
                    31 => { let _ = w.into_v13(); }
                    32 => { let _ = w.decode_v13(); }
                    33 => { let _ = w.into_v14(); }
                    34 => { let _ = w.decode_v14(); }
                    35 => { let _ = w.into_v15(); }
                    36 => { let _ = w.decode_v15(); }
                    37 => { let _ = w.v15_view(); }
                    38 => { let _ = w.into_v16(); }
                    39 => { let _ = w.decode_v16(); }
                    40 => { let _ = w.into_v17(); }
                    41 => { let _ = w.decode_v17(); }
                    42 => { let _ = w.into_v18(); }
                    43 => { let _ = w.decode_v18(); }
                    44 => { let _ = w.v18_view(); }
                    45 => { let _ = w.into_v19(); }
                    46 => { let _ = w.decode_v19(); }
                    47 => { let _ = w.into_v20(); }
                    48 => { let _ = w.decode_v20(); }
                    49 => { let _ = w.into_v21(); }
                    50 => { let _ = w.decode_v21(); }
                    51 => { let _ = w.v21_view(); }
                    52 => { let _ = w.into_v22(); }
                    53 => { let _ = w.decode_v22(); }
                    54 => { let _ = w.into_v23(); }
                    55 => { let _ = w.decode_v23(); }
                    56 => { let _ = w.into_v24(); }
                    57 => { let _ = w.decode_v24(); }
                    58 => { let _ = w.v24_view(); }
                    59 => { let _ = w.into_v25(); }
                    60 => { let _ = w.decode_v25(); }
                    61 => { let _ = w.into_v26(); }
                    62 => { let _ = w.decode_v26(); }
                    63 => { let _ = w.into_v27(); }
                    64 => { let _ = w.decode_v27(); }
                    65 => { let _ = w.v27_view(); }
                    66 => { let _ = w.into_v28(); }
                    67 => { let _ = w.decode_v28(); }
                    68 => { let _ = w.into_v29(); }
                    69 => { let _ = w.decode_v29(); }
                    70 => { let _ = w.into_v30(); }
                    71 => { let _ = w.decode_v30(); }
                    72 => { let _ = w.v30_view(); }
                    73 => { let _ = w.into_v31(); }
                    74 => { let _ = w.decode_v31(); }
                    75 => { let _ = w.into_v32(); }
                    76 => { let _ = w.decode_v32(); }
                    77 => { let _ = w.into_v33(); }
                    78 => { let _ = w.decode_v33(); }
                    79 => { let _ = w.v33_view(); }
                    80 => { let _ = w.into_v34(); }
                    81 => { let _ = w.decode_v34(); }
                    82 => { let _ = w.into_v35(); }
                    83 => { let _ = w.decode_v35(); }
                    84 => { let _ = w.into_v36(); }
                    85 => { let _ = w.decode_v36(); }
                    86 => { let _ = w.v36_view(); }
                    87 => { let _ = w.into_v37(); }
                    88 => { let _ = w.decode_v37(); }
                    89 => { let _ = w.into_v38(); }
                    90 => { let _ = w.decode_v38(); }
                    91 => { let _ = w.into_v39(); }
                    92 => { let _ = w.decode_v39(); }
                    93 => { let _ = w.v39_view(); }
                    94 => { let _ = w.into_v40(); }
                    95 => { let _ = w.decode_v40(); }
                    96 => { let _ = w.into_v41(); }
                    97 => { let _ = w.decode_v41(); }
                    98 => { let _ = w.into_v42(); }
                    99 => { let _ = w.decode_v42(); }
                    100 => { let _ = w.v42_view(); }
                    101 => { let _ = w.into_v43(); }
                    102 => { let _ = w.decode_v43(); }
                    103 => { let _ = w.into_v44(); }
                    104 => { let _ = w.decode_v44(); }
                    105 => { let _ = w.into_v45(); }
                    106 => { let _ = w.decode_v45(); }
                    107 => { let _ = w.v45_view(); }
                    108 => { let _ = w.into_v46(); }
                    109 => { let _ = w.decode_v46(); }
                    110 => { let _ = w.into_v47(); }
                    111 => { let _ = w.decode_v47(); }
                    112 => { let _ = w.into_v48(); }
                    113 => { let _ = w.decode_v48(); }
                    114 => { let _ = w.v48_view(); }
                    115 => { let _ = w.into_v49(); }
                    116 => { let _ = w.decode_v49(); }
                    117 => { let _ = w.into_v50(); }
                    118 => { let _ = w.decode_v50(); }
                    119 => { let _ = w.into_v51(); }
                    120 => { let _ = w.decode_v51(); }
                    121 => { let _ = w.v51_view(); }
                    122 => { let _ = w.into_v52(); }
                    123 => { let _ = w.decode_v52(); }
                    124 => { let _ = w.into_v53(); }
                    125 => { let _ = w.decode_v53(); }
                    126 => { let _ = w.into_v54(); }
                    127 => { let _ = w.decode_v54(); }
                    128 => { let _ = w.v54_view(); }
                    129 => { let _ = w.into_v55(); }
                    130 => { let _ = w.decode_v55(); }
                    131 => { let _ = w.into_v56(); }
                    132 => { let _ = w.decode_v56(); }
                    133 => { let _ = w.into_v57(); }
                    134 => { let _ = w.decode_v57(); }
                    135 => { let _ = w.v57_view(); }
                    136 => { let _ = w.into_v58(); }
                    137 => { let _ = w.decode_v58(); }
                    138 => { let _ = w.into_v59(); }
                    139 => { let _ = w.decode_v59(); }
                    140 => { let _ = w.into_v60(); }
                    141 => { let _ = w.decode_v60(); }
                    142 => { let _ = w.v60_view(); }
                    143 => { let _ = w.into_v61(); }
                    144 => { let _ = w.decode_v61(); }
                    145 => { let _ = w.into_v62(); }
                    146 => { let _ = w.decode_v62(); }
                    147 => { let _ = w.into_v63(); }
                    148 => { let _ = w.decode_v63(); }
                    149 => { let _ = w.v63_view(); }
                    150 => { let _ = w.into_v64(); }
                    151 => { let _ = w.decode_v64(); }
                    152 => { let _ = w.into_v65(); }
                    153 => { let _ = w.decode_v65(); }
                    154 => { let _ = w.into_v66(); }
                    155 => { let _ = w.decode_v66(); }
                    156 => { let _ = w.v66_view(); }
                    157 => { let _ = w.into_v67(); }
                    158 => { let _ = w.decode_v67(); }
                    159 => { let _ = w.into_v68(); }
                    160 => { let _ = w.decode_v68(); }
                    161 => { let _ = w.into_v69(); }
                    162 => { let _ = w.decode_v69(); }
                    163 => { let _ = w.v69_view(); }
                    164 => { let _ = w.into_v70(); }
                    165 => { let _ = w.decode_v70(); }
                    166 => { let _ = w.into_v71(); }
                    167 => { let _ = w.decode_v71(); }
                    168 => { let _ = w.into_v72(); }
                    169 => { let _ = w.decode_v72(); }
                    170 => { let _ = w.v72_view(); }
                    171 => { let _ = w.into_v73(); }
                    172 => { let _ = w.decode_v73(); }
                    173 => { let _ = w.into_v74(); }
                    174 => { let _ = w.decode_v74(); }
                    175 => { let _ = w.into_v75(); }
                    176 => { let _ = w.decode_v75(); }
                    177 => { let _ = w.v75_view(); }
                    178 => { let _ = w.into_v76(); }
                    179 => { let _ = w.decode_v76(); }
                    180 => { let _ = w.into_v77(); }
                    181 => { let _ = w.decode_v77(); }
                    182 => { let _ = w.into_v78(); }
                    183 => { let _ = w.decode_v78(); }
                    184 => { let _ = w.v78_view(); }
                    185 => { let _ = w.into_v79(); }
                    186 => { let _ = w.decode_v79(); }
                    187 => { let _ = w.into_v80(); }
                    188 => { let _ = w.decode_v80(); }
                    189 => { let _ = w.into_v81(); }
                    190 => { let _ = w.decode_v81(); }
                    191 => { let _ = w.v81_view(); }
                    192 => { let _ = w.into_v82(); }
                    193 => { let _ = w.decode_v82(); }
                    194 => { let _ = w.into_v83(); }
                    195 => { let _ = w.decode_v83(); }
                    196 => { let _ = w.into_v84(); }
                    197 => { let _ = w.decode_v84(); }
                    198 => { let _ = w.v84_view(); }
                    199 => { let _ = w.into_v85(); }
                    200 => { let _ = w.decode_v85(); }
                    201 => { let _ = w.into_v86(); }
                    202 => { let _ = w.decode_v86(); }
                    203 => { let _ = w.into_v87(); }
                    204 => { let _ = w.decode_v87(); }
                    205 => { let _ = w.v87_view(); }
                    206 => { let _ = w.into_v88(); }
                    207 => { let _ = w.decode_v88(); }
                    208 => { let _ = w.into_v89(); }
                    209 => { let _ = w.decode_v89(); }
                    210 => { let _ = w.into_v90(); }
                    211 => { let _ = w.decode_v90(); }
                    212 => { let _ = w.v90_view(); }
                    213 => { let _ = w.into_v91(); }
                    214 => { let _ = w.decode_v91(); }
                    215 => { let _ = w.into_v92(); }
                    216 => { let _ = w.decode_v92(); }
                    217 => { let _ = w.into_v93(); }
                    218 => { let _ = w.decode_v93(); }
                    219 => { let _ = w.v93_view(); }
                    220 => { let _ = w.into_v94(); }
                    221 => { let _ = w.decode_v94(); }
                    222 => { let _ = w.into_v95(); }
                    223 => { let _ = w.decode_v95(); }
                    224 => { let _ = w.into_v96(); }
                    225 => { let _ = w.decode_v96(); }
                    226 => { let _ = w.v96_view(); }
                    227 => { let _ = w.into_v97(); }
                    228 => { let _ = w.decode_v97(); }
                    229 => { let _ = w.into_v98(); }
                    230 => { let _ = w.decode_v98(); }
                    231 => { let _ = w.into_v99(); }
                    232 => { let _ = w.decode_v99(); }
                    233 => { let _ = w.v99_view(); }
                    234 => { let _ = w.into_v100(); }
                    235 => { let _ = w.decode_v100(); }
                    236 => { let _ = w.into_v101(); }
                    237 => { let _ = w.decode_v101(); }
                    238 => { let _ = w.into_v102(); }
                    239 => { let _ = w.decode_v102(); }
                    240 => { let _ = w.v102_view(); }
                    241 => { let _ = w.into_v103(); }
                    242 => { let _ = w.decode_v103(); }
                    243 => { let _ = w.into_v104(); }
                    244 => { let _ = w.decode_v104(); }
                    245 => { let _ = w.into_v105(); }
                    246 => { let _ = w.decode_v105(); }
                    247 => { let _ = w.v105_view(); }
                    248 => { let _ = w.into_v106(); }
                    249 => { let _ = w.decode_v106(); }
                    250 => { let _ = w.into_v107(); }
                    251 => { let _ = w.decode_v107(); }
                    252 => { let _ = w.into_v108(); }
                    253 => { let _ = w.decode_v108(); }
                    254 => { let _ = w.v108_view(); }
                    255 => { let _ = w.into_v109(); }
                    256 => { let _ = w.decode_v109(); }
                    257 => { let _ = w.into_v110(); }
                    258 => { let _ = w.decode_v110(); }
                    259 => { let _ = w.into_v111(); }
                    260 => { let _ = w.decode_v111(); }
                    261 => { let _ = w.v111_view(); }
                    262 => { let _ = w.into_v112(); }
                    263 => { let _ = w.decode_v112(); }
                    264 => { let _ = w.into_v113(); }
                    265 => { let _ = w.decode_v113(); }
                    266 => { let _ = w.into_v114(); }
                    267 => { let _ = w.decode_v114(); }
                    268 => { let _ = w.v114_view(); }
                    269 => { let _ = w.into_v115(); }
                    270 => { let _ = w.decode_v115(); }
                    271 => { let _ = w.into_v116(); }
                    272 => { let _ = w.decode_v116(); }
                    273 => { let _ = w.into_v117(); }
                    274 => { let _ = w.decode_v117(); }
                    275 => { let _ = w.v117_view(); }
                    276 => { let _ = w.into_v118(); }
                    277 => { let _ = w.decode_v118(); }
                    278 => { let _ = w.into_v119(); }
                    279 => { let _ = w.decode_v119(); }
                    280 => { let _ = w.into_v120(); }
                    281 => { let _ = w.decode_v120(); }
                    282 => { let _ = w.v120_view(); }
                    283 => { let _ = w.into_v121(); }
                    284 => { let _ = w.decode_v121(); }
                    285 => { let _ = w.into_v122(); }
                    286 => { let _ = w.decode_v122(); }
                    287 => { let _ = w.into_v123(); }
                    288 => { let _ = w.decode_v123(); }
                    289 => { let _ = w.v123_view(); }
                    290 => { let _ = w.into_v124(); }
                    291 => { let _ = w.decode_v124(); }
                    292 => { let _ = w.into_v125(); }
                    293 => { let _ = w.decode_v125(); }
                    294 => { let _ = w.into_v126(); }
                    295 => { let _ = w.decode_v126(); }
                    296 => { let _ = w.v126_view(); }
                    297 => { let _ = w.into_v127(); }
                    298 => { let _ = w.decode_v127(); }
                    299 => { let _ = w.into_v128(); }
                    300 => { let _ = w.decode_v128(); }
                    301 => { let _ = w.into_v129(); }
                    302 => { let _ = w.decode_v129(); }
                    303 => { let _ = w.v129_view(); }
                    304 => { let _ = w.into_v130(); }
                    305 => { let _ = w.decode_v130(); }
                    306 => { let _ = w.into_v131(); }
                    307 => { let _ = w.decode_v131(); }
                    308 => { let _ = w.into_v132(); }
                    309 => { let _ = w.decode_v132(); }
                    310 => { let _ = w.v132_view(); }
                    311 => { let _ = w.into_v133(); }
                    312 => { let _ = w.decode_v133(); }
                    313 => { let _ = w.into_v134(); }
                    314 => { let _ = w.decode_v134(); }
                    315 => { let _ = w.into_v135(); }
                    316 => { let _ = w.decode_v135(); }
                    317 => { let _ = w.v135_view(); }
                    318 => { let _ = w.into_v136(); }
                    319 => { let _ = w.decode_v136(); }
                    320 => { let _ = w.into_v137(); }
                    321 => { let _ = w.decode_v137(); }
                    322 => { let _ = w.into_v138(); }
                    323 => { let _ = w.decode_v138(); }
                    324 => { let _ = w.v138_view(); }
                    325 => { let _ = w.into_v139(); }
                    326 => { let _ = w.decode_v139(); }
                    327 => { let _ = w.into_v140(); }
                    328 => { let _ = w.decode_v140(); }
                    329 => { let _ = w.into_v141(); }
                    330 => { let _ = w.decode_v141(); }
                    331 => { let _ = w.v141_view(); }
                    332 => { let _ = w.into_v142(); }
                    333 => { let _ = w.decode_v142(); }
                    334 => { let _ = w.into_v143(); }
                    335 => { let _ = w.decode_v143(); }
                    336 => { let _ = w.into_v144(); }
                    337 => { let _ = w.decode_v144(); }
                    338 => { let _ = w.v144_view(); }
                    339 => { let _ = w.into_v145(); }
                    340 => { let _ = w.decode_v145(); }
                    341 => { let _ = w.into_v146(); }
                    342 => { let _ = w.decode_v146(); }
                    343 => { let _ = w.into_v147(); }
                    344 => { let _ = w.decode_v147(); }
                    345 => { let _ = w.v147_view(); }
                    346 => { let _ = w.into_v148(); }
                    347 => { let _ = w.decode_v148(); }
                    348 => { let _ = w.into_v149(); }
                    349 => { let _ = w.decode_v149(); }
                    350 => { let _ = w.into_v150(); }
                    351 => { let _ = w.decode_v150(); }
                    352 => { let _ = w.v150_view(); }
                    353 => { let _ = w.into_v151(); }
                    354 => { let _ = w.decode_v151(); }
                    355 => { let _ = w.into_v152(); }
                    356 => { let _ = w.decode_v152(); }
                    357 => { let _ = w.into_v153(); }
                    358 => { let _ = w.decode_v153(); }
                    359 => { let _ = w.v153_view(); }
                    360 => { let _ = w.into_v154(); }
                    361 => { let _ = w.decode_v154(); }
                    362 => { let _ = w.into_v155(); }
                    363 => { let _ = w.decode_v155(); }
                    364 => { let _ = w.into_v156(); }
                    365 => { let _ = w.decode_v156(); }
                    366 => { let _ = w.v156_view(); }
                    367 => { let _ = w.into_v157(); }
                    368 => { let _ = w.decode_v157(); }
                    369 => { let _ = w.into_v158(); }
                    370 => { let _ = w.decode_v158(); }
                    371 => { let _ = w.into_v159(); }
                    372 => { let _ = w.decode_v159(); }
                    373 => { let _ = w.v159_view(); }
                    374 => { let _ = w.into_v160(); }
                    375 => { let _ = w.decode_v160(); }
                    376 => { let _ = w.into_v161(); }
                    377 => { let _ = w.decode_v161(); }
                    378 => { let _ = w.into_v162(); }
                    379 => { let _ = w.decode_v162(); }
                    380 => { let _ = w.v162_view(); }
                    381 => { let _ = w.into_v163(); }
                    382 => { let _ = w.decode_v163(); }
                    383 => { let _ = w.into_v164(); }
                    384 => { let _ = w.decode_v164(); }
                    385 => { let _ = w.into_v165(); }
                    386 => { let _ = w.decode_v165(); }
                    387 => { let _ = w.v165_view(); }
                    388 => { let _ = w.into_v166(); }
                    389 => { let _ = w.decode_v166(); }
                    390 => { let _ = w.into_v167(); }
                    391 => { let _ = w.decode_v167(); }
                    392 => { let _ = w.into_v168(); }
                    393 => { let _ = w.decode_v168(); }
                    394 => { let _ = w.v168_view(); }
                    395 => { let _ = w.into_v169(); }
                    396 => { let _ = w.decode_v169(); }
                    397 => { let _ = w.into_v170(); }
                    398 => { let _ = w.decode_v170(); }
                    399 => { let _ = w.into_v171(); }
                    400 => { let _ = w.decode_v171(); }
                    401 => { let _ = w.v171_view(); }
                    402 => { let _ = w.into_v172(); }
                    403 => { let _ = w.decode_v172(); }
                    404 => { let _ = w.into_v173(); }
                    405 => { let _ = w.decode_v173(); }
                    406 => { let _ = w.into_v174(); }
                    407 => { let _ = w.decode_v174(); }
                    408 => { let _ = w.v174_view(); }
                    409 => { let _ = w.into_v175(); }
                    410 => { let _ = w.decode_v175(); }
                    411 => { let _ = w.into_v176(); }
                    412 => { let _ = w.decode_v176(); }
                    413 => { let _ = w.into_v177(); }
                    414 => { let _ = w.decode_v177(); }
                    415 => { let _ = w.v177_view(); }
                    416 => { let _ = w.into_v178(); }
                    417 => { let _ = w.decode_v178(); }
                    418 => { let _ = w.into_v179(); }
                    419 => { let _ = w.decode_v179(); }
                    420 => { let _ = w.into_v180(); }
                    421 => { let _ = w.decode_v180(); }
                    422 => { let _ = w.v180_view(); }
                    423 => { let _ = w.into_v181(); }
                    424 => { let _ = w.decode_v181(); }
                    425 => { let _ = w.into_v182(); }
                    426 => { let _ = w.decode_v182(); }
                    427 => { let _ = w.into_v183(); }
                    428 => { let _ = w.decode_v183(); }
                    429 => { let _ = w.v183_view(); }
                    430 => { let _ = w.into_v184(); }
                    431 => { let _ = w.decode_v184(); }
                    432 => { let _ = w.into_v185(); }
                    433 => { let _ = w.decode_v185(); }
                    434 => { let _ = w.into_v186(); }
                    435 => { let _ = w.decode_v186(); }
                    436 => { let _ = w.v186_view(); }
                    437 => { let _ = w.into_v187(); }
                    438 => { let _ = w.decode_v187(); }
                    439 => { let _ = w.into_v188(); }
                    440 => { let _ = w.decode_v188(); }
                    441 => { let _ = w.into_v189(); }
                    442 => { let _ = w.decode_v189(); }
                    443 => { let _ = w.v189_view(); }
                    444 => { let _ = w.into_v190(); }
                    445 => { let _ = w.decode_v190(); }
                    446 => { let _ = w.into_v191(); }
                    447 => { let _ = w.decode_v191(); }
                    448 => { let _ = w.into_v192(); }
                    449 => { let _ = w.decode_v192(); }
                    450 => { let _ = w.v192_view(); }
                    451 => { let _ = w.into_v193(); }
                    452 => { let _ = w.decode_v193(); }
                    453 => { let _ = w.into_v194(); }
                    454 => { let _ = w.decode_v194(); }
                    455 => { let _ = w.into_v195(); }
                    456 => { let _ = w.decode_v195(); }
                    457 => { let _ = w.v195_view(); }
                    458 => { let _ = w.into_v196(); }
                    459 => { let _ = w.decode_v196(); }
                    460 => { let _ = w.into_v197(); }
                    461 => { let _ = w.decode_v197(); }
                    462 => { let _ = w.into_v198(); }
                    463 => { let _ = w.decode_v198(); }
                    464 => { let _ = w.v198_view(); }
                    465 => { let _ = w.into_v199(); }
                    466 => { let _ = w.decode_v199(); }
                    467 => { let _ = w.into_v200(); }
                    468 => { let _ = w.decode_v200(); }
                    469 => { let _ = w.into_v201(); }
                    470 => { let _ = w.decode_v201(); }
                    471 => { let _ = w.v201_view(); }
                    472 => { let _ = w.into_v202(); }
                    473 => { let _ = w.decode_v202(); }
                    474 => { let _ = w.into_v203(); }
                    475 => { let _ = w.decode_v203(); }
                    476 => { let _ = w.into_v204(); }
                    477 => { let _ = w.decode_v204(); }
                    478 => { let _ = w.v204_view(); }
                    479 => { let _ = w.into_v205(); }
                    480 => { let _ = w.decode_v205(); }
                    481 => { let _ = w.into_v206(); }
                    482 => { let _ = w.decode_v206(); }
                    483 => { let _ = w.into_v207(); }
                    484 => { let _ = w.decode_v207(); }
                    485 => { let _ = w.v207_view(); }
                    486 => { let _ = w.into_v208(); }
                    487 => { let _ = w.decode_v208(); }
                    488 => { let _ = w.into_v209(); }
                    489 => { let _ = w.decode_v209(); }
                    490 => { let _ = w.into_v210(); }
                    491 => { let _ = w.decode_v210(); }
                    492 => { let _ = w.v210_view(); }
                    493 => { let _ = w.into_v211(); }
                    494 => { let _ = w.decode_v211(); }
                    495 => { let _ = w.into_v212(); }
                    496 => { let _ = w.decode_v212(); }
                    497 => { let _ = w.into_v213(); }
                    498 => { let _ = w.decode_v213(); }
                    499 => { let _ = w.v213_view(); }
                    500 => { let _ = w.into_v214(); }
                    501 => { let _ = w.decode_v214(); }
                    502 => { let _ = w.into_v215(); }
                    503 => { let _ = w.decode_v215(); }
                    504 => { let _ = w.into_v216(); }
                    505 => { let _ = w.decode_v216(); }
                    506 => { let _ = w.v216_view(); }
                    507 => { let _ = w.into_v217(); }
                    508 => { let _ = w.decode_v217(); }
                    509 => { let _ = w.into_v218(); }
                    510 => { let _ = w.decode_v218(); }
                    511 => { let _ = w.into_v219(); }
                    512 => { let _ = w.decode_v219(); }
                    513 => { let _ = w.v219_view(); }
                    514 => { let _ = w.into_v220(); }
                    515 => { let _ = w.decode_v220(); }
                    516 => { let _ = w.into_v221(); }
                    517 => { let _ = w.decode_v221(); }
                    518 => { let _ = w.into_v222(); }
                    519 => { let _ = w.decode_v222(); }
                    520 => { let _ = w.v222_view(); }
                    521 => { let _ = w.into_v223(); }
                    522 => { let _ = w.decode_v223(); }
                    523 => { let _ = w.into_v224(); }
                    524 => { let _ = w.decode_v224(); }
                    525 => { let _ = w.into_v225(); }
                    526 => { let _ = w.decode_v225(); }
                    527 => { let _ = w.v225_view(); }
                    528 => { let _ = w.into_v226(); }
                    529 => { let _ = w.decode_v226(); }
                    530 => { let _ = w.into_v227(); }
                    531 => { let _ = w.decode_v227(); }
                    532 => { let _ = w.into_v228(); }
                    533 => { let _ = w.decode_v228(); }
                    534 => { let _ = w.v228_view(); }
                    535 => { let _ = w.into_v229(); }
                    536 => { let _ = w.decode_v229(); }
                    537 => { let _ = w.into_v230(); }
                    538 => { let _ = w.decode_v230(); }
                    539 => { let _ = w.into_v231(); }
                    540 => { let _ = w.decode_v231(); }
                    541 => { let _ = w.v231_view(); }
                    542 => { let _ = w.into_v232(); }
                    543 => { let _ = w.decode_v232(); }
                    544 => { let _ = w.into_v233(); }
                    545 => { let _ = w.decode_v233(); }
                    546 => { let _ = w.into_v234(); }
                    547 => { let _ = w.decode_v234(); }
                    548 => { let _ = w.v234_view(); }
                    549 => { let _ = w.into_v235(); }
                    550 => { let _ = w.decode_v235(); }
                    551 => { let _ = w.into_v236(); }
                    552 => { let _ = w.decode_v236(); }
                    553 => { let _ = w.into_v237(); }
                    554 => { let _ = w.decode_v237(); }
                    555 => { let _ = w.v237_view(); }
                    556 => { let _ = w.into_v238(); }
                    557 => { let _ = w.decode_v238(); }
                    558 => { let _ = w.into_v239(); }
                    559 => { let _ = w.decode_v239(); }
                    560 => { let _ = w.into_v240(); }
                    561 => { let _ = w.decode_v240(); }
                    562 => { let _ = w.v240_view(); }
                    563 => { let _ = w.into_v241(); }
                    564 => { let _ = w.decode_v241(); }
                    565 => { let _ = w.into_v242(); }
                    566 => { let _ = w.decode_v242(); }
                    567 => { let _ = w.into_v243(); }
                    568 => { let _ = w.decode_v243(); }
                    569 => { let _ = w.v243_view(); }
                    570 => { let _ = w.into_v244(); }
                    571 => { let _ = w.decode_v244(); }
                    572 => { let _ = w.into_v245(); }
                    573 => { let _ = w.decode_v245(); }
                    574 => { let _ = w.into_v246(); }
                    575 => { let _ = w.decode_v246(); }
                    576 => { let _ = w.v246_view(); }
                    577 => { let _ = w.into_v247(); }
                    578 => { let _ = w.decode_v247(); }
                    579 => { let _ = w.into_v248(); }
                    580 => { let _ = w.decode_v248(); }
                    581 => { let _ = w.into_v249(); }
                    582 => { let _ = w.decode_v249(); }
                    583 => { let _ = w.v249_view(); }
                    584 => { let _ = w.into_v250(); }
                    585 => { let _ = w.decode_v250(); }
                    586 => { let _ = w.into_v251(); }
                    587 => { let _ = w.decode_v251(); }
                    588 => { let _ = w.into_v252(); }
                    589 => { let _ = w.decode_v252(); }
                    590 => { let _ = w.v252_view(); }
                    591 => { let _ = w.into_v253(); }
                    592 => { let _ = w.decode_v253(); }
                    593 => { let _ = w.into_v254(); }
                    594 => { let _ = w.decode_v254(); }
                    595 => { let _ = w.into_v255(); }
                    596 => { let _ = w.decode_v255(); }
                    597 => { let _ = w.v255_view(); }
                    598 => { let _ = w.into_v256(); }
                    599 => { let _ = w.decode_v256(); }
                    600 => { let _ = w.into_v257(); }
                    601 => { let _ = w.decode_v257(); }
                    602 => { let _ = w.into_v258(); }
                    603 => { let _ = w.decode_v258(); }
                    604 => { let _ = w.v258_view(); }
                    605 => { let _ = w.into_v259(); }
                    606 => { let _ = w.decode_v259(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if N6::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("V0", w.is_v0()), ("V1", w.is_v1()), ("V2", w.is_v2()), ("V3", w.is_v3()), ("V4", w.is_v4()), ("V5", w.is_v5()), ("V6", w.is_v6()), ("V7", w.is_v7()), ("V8", w.is_v8()), ("V9", w.is_v9()), ("V10", w.is_v10()), ("V11", w.is_v11()), ("V12", w.is_v12()), ("V13", w.is_v13()), ("V14", w.is_v14()), ("V15", w.is_v15()), ("V16", w.is_v16()), ("V17", w.is_v17()), ("V18", w.is_v18()), ("V19", w.is_v19()), ("V20", w.is_v20()), ("V21", w.is_v21()), ("V22", w.is_v22()), ("V23", w.is_v23()), ("V24", w.is_v24()), ("V25", w.is_v25()), ("V26", w.is_v26()), ("V27", w.is_v27()), ("V28", w.is_v28()), ("V29", w.is_v29()), ("V30", w.is_v30()), ("V31", w.is_v31()), ("V32", w.is_v32()), ("V33", w.is_v33()), ("V34", w.is_v34()), ("V35", w.is_v35()), ("V36", w.is_v36()), ("V37", w.is_v37()), ("V38", w.is_v38()), ("V39", w.is_v39()), ("V40", w.is_v40()), ("V41", w.is_v41()), ("V42", w.is_v42()), ("V43", w.is_v43()), ("V44", w.is_v44()), ("V45", w.is_v45()), ("V46", w.is_v46()), ("V47", w.is_v47()), ("V48", w.is_v48()), ("V49", w.is_v49()), ("V50", w.is_v50()), ("V51", w.is_v51()), ("V52", w.is_v52()), ("V53", w.is_v53()), ("V54", w.is_v54()), ("V55", w.is_v55()), ("V56", w.is_v56()), ("V57", w.is_v57()), ("V58", w.is_v58()), ("V59", w.is_v59()), ("V60", w.is_v60()), ("V61", w.is_v61()), ("V62", w.is_v62()), ("V63", w.is_v63()), ("V64", w.is_v64()), ("V65", w.is_v65()), ("V66", w.is_v66()), ("V67", w.is_v67()), ("V68", w.is_v68()), ("V69", w.is_v69()), ("V70", w.is_v70()), ("V71", w.is_v71()), ("V72", w.is_v72()), ("V73", w.is_v73()), ("V74", w.is_v74()), ("V75", w.is_v75()), ("V76", w.is_v76()), ("V77", w.is_v77()), ("V78", w.is_v78()), ("V79", w.is_v79()), ("V80", w.is_v80()), ("V81", w.is_v81()), ("V82", w.is_v82()), ("V83", w.is_v83()), ("V84", w.is_v84()), ("V85", w.is_v85()), ("V86", w.is_v86()), ("V87", w.is_v87()), ("V88", w.is_v88()), ("V89", w.is_v89()), ("V90", w.is_v90()), ("V91", w.is_v91()), ("V92", w.is_v92()), ("V93", w.is_v93()), ("V94", w.is_v94()), ("V95", w.is_v95()), ("V96", w.is_v96()), ("V97", w.is_v97()), ("V98", w.is_v98()), ("V99", w.is_v99()), ("V100", w.is_v100()), ("V101", w.is_v101()), ("V102", w.is_v102()), ("V103", w.is_v103()), ("V104", w.is_v104()), ("V105", w.is_v105()), ("V106", w.is_v106()), ("V107", w.is_v107()), ("V108", w.is_v108()), ("V109", w.is_v109()), ("V110", w.is_v110()), ("V111", w.is_v111()), ("V112", w.is_v112()), ("V113", w.is_v113()), ("V114", w.is_v114()), ("V115", w.is_v115()), ("V116", w.is_v116()), ("V117", w.is_v117()), ("V118", w.is_v118()), ("V119", w.is_v119()), ("V120", w.is_v120()), ("V121", w.is_v121()), ("V122", w.is_v122()), ("V123", w.is_v123()), ("V124", w.is_v124()), ("V125", w.is_v125()), ("V126", w.is_v126()), ("V127", w.is_v127()), ("V128", w.is_v128()), ("V129", w.is_v129()), ("V130", w.is_v130()), ("V131", w.is_v131()), ("V132", w.is_v132()), ("V133", w.is_v133()), ("V134", w.is_v134()), ("V135", w.is_v135()), ("V136", w.is_v136()), ("V137", w.is_v137()), ("V138", w.is_v138()), ("V139", w.is_v139()), ("V140", w.is_v140()), ("V141", w.is_v141()), ("V142", w.is_v142()), ("V143", w.is_v143()), ("V144", w.is_v144()), ("V145", w.is_v145()), ("V146", w.is_v146()), ("V147", w.is_v147()), ("V148", w.is_v148()), ("V149", w.is_v149()), ("V150", w.is_v150()), ("V151", w.is_v151()), ("V152", w.is_v152()), ("V153", w.is_v153()), ("V154", w.is_v154()), ("V155", w.is_v155()), ("V156", w.is_v156()), ("V157", w.is_v157()), ("V158", w.is_v158()), ("V159", w.is_v159()), ("V160", w.is_v160()), ("V161", w.is_v161()), ("V162", w.is_v162()), ("V163", w.is_v163()), ("V164", w.is_v164()), ("V165", w.is_v165()), ("V166", w.is_v166()), ("V167", w.is_v167()), ("V168", w.is_v168()), ("V169", w.is_v169()), ("V170", w.is_v170()), ("V171", w.is_v171()), ("V172", w.is_v172()), ("V173", w.is_v173()), ("V174", w.is_v174()), ("V175", w.is_v175()), ("V176", w.is_v176()), ("V177", w.is_v177()), ("V178", w.is_v178()), ("V179", w.is_v179()), ("V180", w.is_v180()), ("V181", w.is_v181()), ("V182", w.is_v182()), ("V183", w.is_v183()), ("V184", w.is_v184()), ("V185", w.is_v185()), ("V186", w.is_v186()), ("V187", w.is_v187()), ("V188", w.is_v188()), ("V189", w.is_v189()), ("V190", w.is_v190()), ("V191", w.is_v191()), ("V192", w.is_v192()), ("V193", w.is_v193()), ("V194", w.is_v194()), ("V195", w.is_v195()), ("V196", w.is_v196()), ("V197", w.is_v197()), ("V198", w.is_v198()), ("V199", w.is_v199()), ("V200", w.is_v200()), ("V201", w.is_v201()), ("V202", w.is_v202()), ("V203", w.is_v203()), ("V204", w.is_v204()), ("V205", w.is_v205()), ("V206", w.is_v206()), ("V207", w.is_v207()), ("V208", w.is_v208()), ("V209", w.is_v209()), ("V210", w.is_v210()), ("V211", w.is_v211()), ("V212", w.is_v212()), ("V213", w.is_v213()), ("V214", w.is_v214()), ("V215", w.is_v215()), ("V216", w.is_v216()), ("V217", w.is_v217()), ("V218", w.is_v218()), ("V219", w.is_v219()), ("V220", w.is_v220()), ("V221", w.is_v221()), ("V222", w.is_v222()), ("V223", w.is_v223()), ("V224", w.is_v224()), ("V225", w.is_v225()), ("V226", w.is_v226()), ("V227", w.is_v227()), ("V228", w.is_v228()), ("V229", w.is_v229()), ("V230", w.is_v230()), ("V231", w.is_v231()), ("V232", w.is_v232()), ("V233", w.is_v233()), ("V234", w.is_v234()), ("V235", w.is_v235()), ("V236", w.is_v236()), ("V237", w.is_v237()), ("V238", w.is_v238()), ("V239", w.is_v239()), ("V240", w.is_v240()), ("V241", w.is_v241()), ("V242", w.is_v242()), ("V243", w.is_v243()), ("V244", w.is_v244()), ("V245", w.is_v245()), ("V246", w.is_v246()), ("V247", w.is_v247()), ("V248", w.is_v248()), ("V249", w.is_v249()), ("V250", w.is_v250()), ("V251", w.is_v251()), ("V252", w.is_v252()), ("V253", w.is_v253()), ("V254", w.is_v254()), ("V255", w.is_v255()), ("V256", w.is_v256()), ("V257", w.is_v257()), ("V258", w.is_v258()), ("V259", w.is_v259())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(607);
        if g.below(5) != 0 { k = match sh.variant { "V0" => 0 + g.below(3), "V1" => 3 + g.below(2), "V2" => 5 + g.below(2), "V3" => 7 + g.below(3), "V4" => 10 + g.below(2), "V5" => 12 + g.below(2), "V6" => 14 + g.below(3), "V7" => 17 + g.below(2), "V8" => 19 + g.below(2), "V9" => 21 + g.below(3), "V10" => 24 + g.below(2), "V11" => 26 + g.below(2), "V12" => 28 + g.below(3), "V13" => 31 + g.below(2), "V14" => 33 + g.below(2), "V15" => 35 + g.below(3), "V16" => 38 + g.below(2), "V17" => 40 + g.below(2), "V18" => 42 + g.below(3), "V19" => 45 + g.below(2), "V20" => 47 + g.below(2), "V21" => 49 + g.below(3), "V22" => 52 + g.below(2), "V23" => 54 + g.below(2), "V24" => 56 + g.below(3), "V25" => 59 + g.below(2), "V26" => 61 + g.below(2), "V27" => 63 + g.below(3), "V28" => 66 + g.below(2), "V29" => 68 + g.below(2), "V30" => 70 + g.below(3), "V31" => 73 + g.below(2), "V32" => 75 + g.below(2), "V33" => 77 + g.below(3), "V34" => 80 + g.below(2), "V35" => 82 + g.below(2), "V36" => 84 + g.below(3), "V37" => 87 + g.below(2), "V38" => 89 + g.below(2), "V39" => 91 + g.below(3), "V40" => 94 + g.below(2), "V41" => 96 + g.below(2), "V42" => 98 + g.below(3), "V43" => 101 + g.below(2), "V44" => 103 + g.below(2), "V45" => 105 + g.below(3), "V46" => 108 + g.below(2), "V47" => 110 + g.below(2), "V48" => 112 + g.below(3), "V49" => 115 + g.below(2), "V50" => 117 + g.below(2), "V51" => 119 + g.below(3), "V52" => 122 + g.below(2), "V53" => 124 + g.below(2), "V54" => 126 + g.below(3), "V55" => 129 + g.below(2), "V56" => 131 + g.below(2), "V57" => 133 + g.below(3), "V58" => 136 + g.below(2), "V59" => 138 + g.below(2), "V60" => 140 + g.below(3), "V61" => 143 + g.below(2), "V62" => 145 + g.below(2), "V63" => 147 + g.below(3), "V64" => 150 + g.below(2), "V65" => 152 + g.below(2), "V66" => 154 + g.below(3), "V67" => 157 + g.below(2), "V68" => 159 + g.below(2), "V69" => 161 + g.below(3), "V70" => 164 + g.below(2), "V71" => 166 + g.below(2), "V72" => 168 + g.below(3), "V73" => 171 + g.below(2), "V74" => 173 + g.below(2), "V75" => 175 + g.below(3), "V76" => 178 + g.below(2), "V77" => 180 + g.below(2), "V78" => 182 + g.below(3), "V79" => 185 + g.below(2), "V80" => 187 + g.below(2), "V81" => 189 + g.below(3), "V82" => 192 + g.below(2), "V83" => 194 + g.below(2), "V84" => 196 + g.below(3), "V85" => 199 + g.below(2), "V86" => 201 + g.below(2), "V87" => 203 + g.below(3), "V88" => 206 + g.below(2), "V89" => 208 + g.below(2), "V90" => 210 + g.below(3), "V91" => 213 + g.below(2), "V92" => 215 + g.below(2), "V93" => 217 + g.below(3), "V94" => 220 + g.below(2), "V95" => 222 + g.below(2), "V96" => 224 + g.below(3), "V97" => 227 + g.below(2), "V98" => 229 + g.below(2), "V99" => 231 + g.below(3), "V100" => 234 + g.below(2), "V101" => 236 + g.below(2), "V102" => 238 + g.below(3), "V103" => 241 + g.below(2), "V104" => 243 + g.below(2), "V105" => 245 + g.below(3), "V106" => 248 + g.below(2), "V107" => 250 + g.below(2), "V108" => 252 + g.below(3), "V109" => 255 + g.below(2), "V110" => 257 + g.below(2), "V111" => 259 + g.below(3), "V112" => 262 + g.below(2), "V113" => 264 + g.below(2), "V114" => 266 + g.below(3), "V115" => 269 + g.below(2), "V116" => 271 + g.below(2), "V117" => 273 + g.below(3), "V118" => 276 + g.below(2), "V119" => 278 + g.below(2), "V120" => 280 + g.below(3), "V121" => 283 + g.below(2), "V122" => 285 + g.below(2), "V123" => 287 + g.below(3), "V124" => 290 + g.below(2), "V125" => 292 + g.below(2), "V126" => 294 + g.below(3), "V127" => 297 + g.below(2), "V128" => 299 + g.below(2), "V129" => 301 + g.below(3), "V130" => 304 + g.below(2), "V131" => 306 + g.below(2), "V132" => 308 + g.below(3), "V133" => 311 + g.below(2), "V134" => 313 + g.below(2), "V135" => 315 + g.below(3), "V136" => 318 + g.below(2), "V137" => 320 + g.below(2), "V138" => 322 + g.below(3), "V139" => 325 + g.below(2), "V140" => 327 + g.below(2), "V141" => 329 + g.below(3), "V142" => 332 + g.below(2), "V143" => 334 + g.below(2), "V144" => 336 + g.below(3), "V145" => 339 + g.below(2), "V146" => 341 + g.below(2), "V147" => 343 + g.below(3), "V148" => 346 + g.below(2), "V149" => 348 + g.below(2), "V150" => 350 + g.below(3), "V151" => 353 + g.below(2), "V152" => 355 + g.below(2), "V153" => 357 + g.below(3), "V154" => 360 + g.below(2), "V155" => 362 + g.below(2), "V156" => 364 + g.below(3), "V157" => 367 + g.below(2), "V158" => 369 + g.below(2), "V159" => 371 + g.below(3), "V160" => 374 + g.below(2), "V161" => 376 + g.below(2), "V162" => 378 + g.below(3), "V163" => 381 + g.below(2), "V164" => 383 + g.below(2), "V165" => 385 + g.below(3), "V166" => 388 + g.below(2), "V167" => 390 + g.below(2), "V168" => 392 + g.below(3), "V169" => 395 + g.below(2), "V170" => 397 + g.below(2), "V171" => 399 + g.below(3), "V172" => 402 + g.below(2), "V173" => 404 + g.below(2), "V174" => 406 + g.below(3), "V175" => 409 + g.below(2), "V176" => 411 + g.below(2), "V177" => 413 + g.below(3), "V178" => 416 + g.below(2), "V179" => 418 + g.below(2), "V180" => 420 + g.below(3), "V181" => 423 + g.below(2), "V182" => 425 + g.below(2), "V183" => 427 + g.below(3), "V184" => 430 + g.below(2), "V185" => 432 + g.below(2), "V186" => 434 + g.below(3), "V187" => 437 + g.below(2), "V188" => 439 + g.below(2), "V189" => 441 + g.below(3), "V190" => 444 + g.below(2), "V191" => 446 + g.below(2), "V192" => 448 + g.below(3), "V193" => 451 + g.below(2), "V194" => 453 + g.below(2), "V195" => 455 + g.below(3), "V196" => 458 + g.below(2), "V197" => 460 + g.below(2), "V198" => 462 + g.below(3), "V199" => 465 + g.below(2), "V200" => 467 + g.below(2), "V201" => 469 + g.below(3), "V202" => 472 + g.below(2), "V203" => 474 + g.below(2), "V204" => 476 + g.below(3), "V205" => 479 + g.below(2), "V206" => 481 + g.below(2), "V207" => 483 + g.below(3), "V208" => 486 + g.below(2), "V209" => 488 + g.below(2), "V210" => 490 + g.below(3), "V211" => 493 + g.below(2), "V212" => 495 + g.below(2), "V213" => 497 + g.below(3), "V214" => 500 + g.below(2), "V215" => 502 + g.below(2), "V216" => 504 + g.below(3), "V217" => 507 + g.below(2), "V218" => 509 + g.below(2), "V219" => 511 + g.below(3), "V220" => 514 + g.below(2), "V221" => 516 + g.below(2), "V222" => 518 + g.below(3), "V223" => 521 + g.below(2), "V224" => 523 + g.below(2), "V225" => 525 + g.below(3), "V226" => 528 + g.below(2), "V227" => 530 + g.below(2), "V228" => 532 + g.below(3), "V229" => 535 + g.below(2), "V230" => 537 + g.below(2), "V231" => 539 + g.below(3), "V232" => 542 + g.below(2), "V233" => 544 + g.below(2), "V234" => 546 + g.below(3), "V235" => 549 + g.below(2), "V236" => 551 + g.below(2), "V237" => 553 + g.below(3), "V238" => 556 + g.below(2), "V239" => 558 + g.below(2), "V240" => 560 + g.below(3), "V241" => 563 + g.below(2), "V242" => 565 + g.below(2), "V243" => 567 + g.below(3), "V244" => 570 + g.below(2), "V245" => 572 + g.below(2), "V246" => 574 + g.below(3), "V247" => 577 + g.below(2), "V248" => 579 + g.below(2), "V249" => 581 + g.below(3), "V250" => 584 + g.below(2), "V251" => 586 + g.below(2), "V252" => 588 + g.below(3), "V253" => 591 + g.below(2), "V254" => 593 + g.below(2), "V255" => 595 + g.below(3), "V256" => 598 + g.below(2), "V257" => 600 + g.below(2), "V258" => 602 + g.below(3), "V259" => 605 + g.below(2), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "V0"; let r = w.into_v0(); if !ok { return if r.is_ok() { bad("into_v0 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v0", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "V0"; let r = w.decode_v0(); if !ok { return if r.is_ok() { bad("decode_v0 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V0(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v0", f0, r) }
            2 => { let ok = sh.variant == "V0"; let r = w.v0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v0_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V0(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v0_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            3 => { let ok = sh.variant == "V1"; let r = w.into_v1(); if !ok { return if r.is_ok() { bad("into_v1 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v1", r)?; Ok(()) }
            4 => { let ok = sh.variant == "V1"; let r = w.decode_v1(); if !ok { return if r.is_ok() { bad("decode_v1 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v1", r)?; Ok(()) }
            5 => { let ok = sh.variant == "V2"; let r = w.into_v2(); if !ok { return if r.is_ok() { bad("into_v2 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v2", r)?; Ok(()) }
            6 => { let ok = sh.variant == "V2"; let r = w.decode_v2(); if !ok { return if r.is_ok() { bad("decode_v2 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v2", r)?; Ok(()) }
            7 => { let ok = sh.variant == "V3"; let r = w.into_v3(); if !ok { return if r.is_ok() { bad("into_v3 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v3", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            8 => { let ok = sh.variant == "V3"; let r = w.decode_v3(); if !ok { return if r.is_ok() { bad("decode_v3 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V3(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v3", f0, r) }
            9 => { let ok = sh.variant == "V3"; let r = w.v3_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v3_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V3(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v3_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            10 => { let ok = sh.variant == "V4"; let r = w.into_v4(); if !ok { return if r.is_ok() { bad("into_v4 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v4", r)?; Ok(()) }
            11 => { let ok = sh.variant == "V4"; let r = w.decode_v4(); if !ok { return if r.is_ok() { bad("decode_v4 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v4", r)?; Ok(()) }
            12 => { let ok = sh.variant == "V5"; let r = w.into_v5(); if !ok { return if r.is_ok() { bad("into_v5 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v5", r)?; Ok(()) }
            13 => { let ok = sh.variant == "V5"; let r = w.decode_v5(); if !ok { return if r.is_ok() { bad("decode_v5 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v5", r)?; Ok(()) }
            14 => { let ok = sh.variant == "V6"; let r = w.into_v6(); if !ok { return if r.is_ok() { bad("into_v6 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v6", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            15 => { let ok = sh.variant == "V6"; let r = w.decode_v6(); if !ok { return if r.is_ok() { bad("decode_v6 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V6(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v6", f0, r) }
            16 => { let ok = sh.variant == "V6"; let r = w.v6_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v6_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V6(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v6_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            17 => { let ok = sh.variant == "V7"; let r = w.into_v7(); if !ok { return if r.is_ok() { bad("into_v7 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v7", r)?; Ok(()) }
            18 => { let ok = sh.variant == "V7"; let r = w.decode_v7(); if !ok { return if r.is_ok() { bad("decode_v7 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v7", r)?; Ok(()) }
            19 => { let ok = sh.variant == "V8"; let r = w.into_v8(); if !ok { return if r.is_ok() { bad("into_v8 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v8", r)?; Ok(()) }
            20 => { let ok = sh.variant == "V8"; let r = w.decode_v8(); if !ok { return if r.is_ok() { bad("decode_v8 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v8", r)?; Ok(()) }
            21 => { let ok = sh.variant == "V9"; let r = w.into_v9(); if !ok { return if r.is_ok() { bad("into_v9 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v9", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            22 => { let ok = sh.variant == "V9"; let r = w.decode_v9(); if !ok { return if r.is_ok() { bad("decode_v9 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V9(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v9", f0, r) }
            23 => { let ok = sh.variant == "V9"; let r = w.v9_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v9_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V9(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v9_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            24 => { let ok = sh.variant == "V10"; let r = w.into_v10(); if !ok { return if r.is_ok() { bad("into_v10 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v10", r)?; Ok(()) }
            25 => { let ok = sh.variant == "V10"; let r = w.decode_v10(); if !ok { return if r.is_ok() { bad("decode_v10 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v10", r)?; Ok(()) }
            26 => { let ok = sh.variant == "V11"; let r = w.into_v11(); if !ok { return if r.is_ok() { bad("into_v11 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v11", r)?; Ok(()) }
            27 => { let ok = sh.variant == "V11"; let r = w.decode_v11(); if !ok { return if r.is_ok() { bad("decode_v11 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v11", r)?; Ok(()) }
            28 => { let ok = sh.variant == "V12"; let r = w.into_v12(); if !ok { return if r.is_ok() { bad("into_v12 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v12", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            29 => { let ok = sh.variant == "V12"; let r = w.decode_v12(); if !ok { return if r.is_ok() { bad("decode_v12 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V12(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v12", f0, r) }
            30 => { let ok = sh.variant == "V12"; let r = w.v12_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v12_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V12(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v12_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            31 => { let ok = sh.variant == "V13"; let r = w.into_v13(); if !ok { return if r.is_ok() { bad("into_v13 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v13", r)?; Ok(()) }
            32 => { let ok = sh.variant == "V13"; let r = w.decode_v13(); if !ok { return if r.is_ok() { bad("decode_v13 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v13", r)?; Ok(()) }
            33 => { let ok = sh.variant == "V14"; let r = w.into_v14(); if !ok { return if r.is_ok() { bad("into_v14 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v14", r)?; Ok(()) }
            34 => { let ok = sh.variant == "V14"; let r = w.decode_v14(); if !ok { return if r.is_ok() { bad("decode_v14 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v14", r)?; Ok(()) }
            35 => { let ok = sh.variant == "V15"; let r = w.into_v15(); if !ok { return if r.is_ok() { bad("into_v15 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v15", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            36 => { let ok = sh.variant == "V15"; let r = w.decode_v15(); if !ok { return if r.is_ok() { bad("decode_v15 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V15(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v15", f0, r) }
            37 => { let ok = sh.variant == "V15"; let r = w.v15_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v15_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V15(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v15_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            38 => { let ok = sh.variant == "V16"; let r = w.into_v16(); if !ok { return if r.is_ok() { bad("into_v16 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v16", r)?; Ok(()) }
            39 => { let ok = sh.variant == "V16"; let r = w.decode_v16(); if !ok { return if r.is_ok() { bad("decode_v16 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v16", r)?; Ok(()) }
            40 => { let ok = sh.variant == "V17"; let r = w.into_v17(); if !ok { return if r.is_ok() { bad("into_v17 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v17", r)?; Ok(()) }
            41 => { let ok = sh.variant == "V17"; let r = w.decode_v17(); if !ok { return if r.is_ok() { bad("decode_v17 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v17", r)?; Ok(()) }
            42 => { let ok = sh.variant == "V18"; let r = w.into_v18(); if !ok { return if r.is_ok() { bad("into_v18 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v18", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            43 => { let ok = sh.variant == "V18"; let r = w.decode_v18(); if !ok { return if r.is_ok() { bad("decode_v18 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V18(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v18", f0, r) }
            44 => { let ok = sh.variant == "V18"; let r = w.v18_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v18_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V18(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v18_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            45 => { let ok = sh.variant == "V19"; let r = w.into_v19(); if !ok { return if r.is_ok() { bad("into_v19 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v19", r)?; Ok(()) }
            46 => { let ok = sh.variant == "V19"; let r = w.decode_v19(); if !ok { return if r.is_ok() { bad("decode_v19 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v19", r)?; Ok(()) }
            47 => { let ok = sh.variant == "V20"; let r = w.into_v20(); if !ok { return if r.is_ok() { bad("into_v20 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v20", r)?; Ok(()) }
            48 => { let ok = sh.variant == "V20"; let r = w.decode_v20(); if !ok { return if r.is_ok() { bad("decode_v20 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v20", r)?; Ok(()) }
            49 => { let ok = sh.variant == "V21"; let r = w.into_v21(); if !ok { return if r.is_ok() { bad("into_v21 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v21", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            50 => { let ok = sh.variant == "V21"; let r = w.decode_v21(); if !ok { return if r.is_ok() { bad("decode_v21 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V21(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v21", f0, r) }
            51 => { let ok = sh.variant == "V21"; let r = w.v21_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v21_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V21(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v21_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            52 => { let ok = sh.variant == "V22"; let r = w.into_v22(); if !ok { return if r.is_ok() { bad("into_v22 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v22", r)?; Ok(()) }
            53 => { let ok = sh.variant == "V22"; let r = w.decode_v22(); if !ok { return if r.is_ok() { bad("decode_v22 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v22", r)?; Ok(()) }
            54 => { let ok = sh.variant == "V23"; let r = w.into_v23(); if !ok { return if r.is_ok() { bad("into_v23 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v23", r)?; Ok(()) }
            55 => { let ok = sh.variant == "V23"; let r = w.decode_v23(); if !ok { return if r.is_ok() { bad("decode_v23 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v23", r)?; Ok(()) }
            56 => { let ok = sh.variant == "V24"; let r = w.into_v24(); if !ok { return if r.is_ok() { bad("into_v24 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v24", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            57 => { let ok = sh.variant == "V24"; let r = w.decode_v24(); if !ok { return if r.is_ok() { bad("decode_v24 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V24(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v24", f0, r) }
            58 => { let ok = sh.variant == "V24"; let r = w.v24_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v24_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V24(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v24_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            59 => { let ok = sh.variant == "V25"; let r = w.into_v25(); if !ok { return if r.is_ok() { bad("into_v25 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v25", r)?; Ok(()) }
            60 => { let ok = sh.variant == "V25"; let r = w.decode_v25(); if !ok { return if r.is_ok() { bad("decode_v25 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v25", r)?; Ok(()) }
            61 => { let ok = sh.variant == "V26"; let r = w.into_v26(); if !ok { return if r.is_ok() { bad("into_v26 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v26", r)?; Ok(()) }
            62 => { let ok = sh.variant == "V26"; let r = w.decode_v26(); if !ok { return if r.is_ok() { bad("decode_v26 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v26", r)?; Ok(()) }
            63 => { let ok = sh.variant == "V27"; let r = w.into_v27(); if !ok { return if r.is_ok() { bad("into_v27 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v27", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            64 => { let ok = sh.variant == "V27"; let r = w.decode_v27(); if !ok { return if r.is_ok() { bad("decode_v27 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V27(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v27", f0, r) }
            65 => { let ok = sh.variant == "V27"; let r = w.v27_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v27_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V27(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v27_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            66 => { let ok = sh.variant == "V28"; let r = w.into_v28(); if !ok { return if r.is_ok() { bad("into_v28 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v28", r)?; Ok(()) }
            67 => { let ok = sh.variant == "V28"; let r = w.decode_v28(); if !ok { return if r.is_ok() { bad("decode_v28 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v28", r)?; Ok(()) }
            68 => { let ok = sh.variant == "V29"; let r = w.into_v29(); if !ok { return if r.is_ok() { bad("into_v29 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v29", r)?; Ok(()) }
            69 => { let ok = sh.variant == "V29"; let r = w.decode_v29(); if !ok { return if r.is_ok() { bad("decode_v29 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v29", r)?; Ok(()) }
            70 => { let ok = sh.variant == "V30"; let r = w.into_v30(); if !ok { return if r.is_ok() { bad("into_v30 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v30", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            71 => { let ok = sh.variant == "V30"; let r = w.decode_v30(); if !ok { return if r.is_ok() { bad("decode_v30 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V30(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v30", f0, r) }
            72 => { let ok = sh.variant == "V30"; let r = w.v30_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v30_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V30(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v30_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            73 => { let ok = sh.variant == "V31"; let r = w.into_v31(); if !ok { return if r.is_ok() { bad("into_v31 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v31", r)?; Ok(()) }
            74 => { let ok = sh.variant == "V31"; let r = w.decode_v31(); if !ok { return if r.is_ok() { bad("decode_v31 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v31", r)?; Ok(()) }
            75 => { let ok = sh.variant == "V32"; let r = w.into_v32(); if !ok { return if r.is_ok() { bad("into_v32 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v32", r)?; Ok(()) }
            76 => { let ok = sh.variant == "V32"; let r = w.decode_v32(); if !ok { return if r.is_ok() { bad("decode_v32 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v32", r)?; Ok(()) }
            77 => { let ok = sh.variant == "V33"; let r = w.into_v33(); if !ok { return if r.is_ok() { bad("into_v33 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v33", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            78 => { let ok = sh.variant == "V33"; let r = w.decode_v33(); if !ok { return if r.is_ok() { bad("decode_v33 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V33(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v33", f0, r) }
            79 => { let ok = sh.variant == "V33"; let r = w.v33_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v33_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V33(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v33_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            80 => { let ok = sh.variant == "V34"; let r = w.into_v34(); if !ok { return if r.is_ok() { bad("into_v34 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v34", r)?; Ok(()) }
            81 => { let ok = sh.variant == "V34"; let r = w.decode_v34(); if !ok { return if r.is_ok() { bad("decode_v34 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v34", r)?; Ok(()) }
            82 => { let ok = sh.variant == "V35"; let r = w.into_v35(); if !ok { return if r.is_ok() { bad("into_v35 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v35", r)?; Ok(()) }
            83 => { let ok = sh.variant == "V35"; let r = w.decode_v35(); if !ok { return if r.is_ok() { bad("decode_v35 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v35", r)?; Ok(()) }
            84 => { let ok = sh.variant == "V36"; let r = w.into_v36(); if !ok { return if r.is_ok() { bad("into_v36 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v36", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            85 => { let ok = sh.variant == "V36"; let r = w.decode_v36(); if !ok { return if r.is_ok() { bad("decode_v36 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V36(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v36", f0, r) }
            86 => { let ok = sh.variant == "V36"; let r = w.v36_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v36_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V36(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v36_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            87 => { let ok = sh.variant == "V37"; let r = w.into_v37(); if !ok { return if r.is_ok() { bad("into_v37 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v37", r)?; Ok(()) }
            88 => { let ok = sh.variant == "V37"; let r = w.decode_v37(); if !ok { return if r.is_ok() { bad("decode_v37 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v37", r)?; Ok(()) }
            89 => { let ok = sh.variant == "V38"; let r = w.into_v38(); if !ok { return if r.is_ok() { bad("into_v38 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v38", r)?; Ok(()) }
            90 => { let ok = sh.variant == "V38"; let r = w.decode_v38(); if !ok { return if r.is_ok() { bad("decode_v38 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v38", r)?; Ok(()) }
            91 => { let ok = sh.variant == "V39"; let r = w.into_v39(); if !ok { return if r.is_ok() { bad("into_v39 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v39", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            92 => { let ok = sh.variant == "V39"; let r = w.decode_v39(); if !ok { return if r.is_ok() { bad("decode_v39 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V39(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v39", f0, r) }
            93 => { let ok = sh.variant == "V39"; let r = w.v39_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v39_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V39(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v39_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            94 => { let ok = sh.variant == "V40"; let r = w.into_v40(); if !ok { return if r.is_ok() { bad("into_v40 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v40", r)?; Ok(()) }
            95 => { let ok = sh.variant == "V40"; let r = w.decode_v40(); if !ok { return if r.is_ok() { bad("decode_v40 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v40", r)?; Ok(()) }
            96 => { let ok = sh.variant == "V41"; let r = w.into_v41(); if !ok { return if r.is_ok() { bad("into_v41 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v41", r)?; Ok(()) }
            97 => { let ok = sh.variant == "V41"; let r = w.decode_v41(); if !ok { return if r.is_ok() { bad("decode_v41 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v41", r)?; Ok(()) }
            98 => { let ok = sh.variant == "V42"; let r = w.into_v42(); if !ok { return if r.is_ok() { bad("into_v42 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v42", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            99 => { let ok = sh.variant == "V42"; let r = w.decode_v42(); if !ok { return if r.is_ok() { bad("decode_v42 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V42(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v42", f0, r) }
            100 => { let ok = sh.variant == "V42"; let r = w.v42_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v42_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V42(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v42_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            101 => { let ok = sh.variant == "V43"; let r = w.into_v43(); if !ok { return if r.is_ok() { bad("into_v43 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v43", r)?; Ok(()) }
            102 => { let ok = sh.variant == "V43"; let r = w.decode_v43(); if !ok { return if r.is_ok() { bad("decode_v43 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v43", r)?; Ok(()) }
            103 => { let ok = sh.variant == "V44"; let r = w.into_v44(); if !ok { return if r.is_ok() { bad("into_v44 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v44", r)?; Ok(()) }
            104 => { let ok = sh.variant == "V44"; let r = w.decode_v44(); if !ok { return if r.is_ok() { bad("decode_v44 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v44", r)?; Ok(()) }
            105 => { let ok = sh.variant == "V45"; let r = w.into_v45(); if !ok { return if r.is_ok() { bad("into_v45 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v45", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            106 => { let ok = sh.variant == "V45"; let r = w.decode_v45(); if !ok { return if r.is_ok() { bad("decode_v45 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V45(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v45", f0, r) }
            107 => { let ok = sh.variant == "V45"; let r = w.v45_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v45_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V45(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v45_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            108 => { let ok = sh.variant == "V46"; let r = w.into_v46(); if !ok { return if r.is_ok() { bad("into_v46 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v46", r)?; Ok(()) }
            109 => { let ok = sh.variant == "V46"; let r = w.decode_v46(); if !ok { return if r.is_ok() { bad("decode_v46 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v46", r)?; Ok(()) }
            110 => { let ok = sh.variant == "V47"; let r = w.into_v47(); if !ok { return if r.is_ok() { bad("into_v47 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v47", r)?; Ok(()) }
            111 => { let ok = sh.variant == "V47"; let r = w.decode_v47(); if !ok { return if r.is_ok() { bad("decode_v47 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v47", r)?; Ok(()) }
            112 => { let ok = sh.variant == "V48"; let r = w.into_v48(); if !ok { return if r.is_ok() { bad("into_v48 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v48", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            113 => { let ok = sh.variant == "V48"; let r = w.decode_v48(); if !ok { return if r.is_ok() { bad("decode_v48 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V48(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v48", f0, r) }
            114 => { let ok = sh.variant == "V48"; let r = w.v48_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v48_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V48(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v48_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            115 => { let ok = sh.variant == "V49"; let r = w.into_v49(); if !ok { return if r.is_ok() { bad("into_v49 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v49", r)?; Ok(()) }
            116 => { let ok = sh.variant == "V49"; let r = w.decode_v49(); if !ok { return if r.is_ok() { bad("decode_v49 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v49", r)?; Ok(()) }
            117 => { let ok = sh.variant == "V50"; let r = w.into_v50(); if !ok { return if r.is_ok() { bad("into_v50 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v50", r)?; Ok(()) }
            118 => { let ok = sh.variant == "V50"; let r = w.decode_v50(); if !ok { return if r.is_ok() { bad("decode_v50 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v50", r)?; Ok(()) }
            119 => { let ok = sh.variant == "V51"; let r = w.into_v51(); if !ok { return if r.is_ok() { bad("into_v51 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v51", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            120 => { let ok = sh.variant == "V51"; let r = w.decode_v51(); if !ok { return if r.is_ok() { bad("decode_v51 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V51(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v51", f0, r) }
            121 => { let ok = sh.variant == "V51"; let r = w.v51_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v51_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V51(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v51_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            122 => { let ok = sh.variant == "V52"; let r = w.into_v52(); if !ok { return if r.is_ok() { bad("into_v52 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v52", r)?; Ok(()) }
            123 => { let ok = sh.variant == "V52"; let r = w.decode_v52(); if !ok { return if r.is_ok() { bad("decode_v52 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v52", r)?; Ok(()) }
            124 => { let ok = sh.variant == "V53"; let r = w.into_v53(); if !ok { return if r.is_ok() { bad("into_v53 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v53", r)?; Ok(()) }
            125 => { let ok = sh.variant == "V53"; let r = w.decode_v53(); if !ok { return if r.is_ok() { bad("decode_v53 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v53", r)?; Ok(()) }
            126 => { let ok = sh.variant == "V54"; let r = w.into_v54(); if !ok { return if r.is_ok() { bad("into_v54 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v54", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            127 => { let ok = sh.variant == "V54"; let r = w.decode_v54(); if !ok { return if r.is_ok() { bad("decode_v54 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V54(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v54", f0, r) }
            128 => { let ok = sh.variant == "V54"; let r = w.v54_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v54_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V54(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v54_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            129 => { let ok = sh.variant == "V55"; let r = w.into_v55(); if !ok { return if r.is_ok() { bad("into_v55 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v55", r)?; Ok(()) }
            130 => { let ok = sh.variant == "V55"; let r = w.decode_v55(); if !ok { return if r.is_ok() { bad("decode_v55 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v55", r)?; Ok(()) }
            131 => { let ok = sh.variant == "V56"; let r = w.into_v56(); if !ok { return if r.is_ok() { bad("into_v56 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v56", r)?; Ok(()) }
            132 => { let ok = sh.variant == "V56"; let r = w.decode_v56(); if !ok { return if r.is_ok() { bad("decode_v56 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v56", r)?; Ok(()) }
            133 => { let ok = sh.variant == "V57"; let r = w.into_v57(); if !ok { return if r.is_ok() { bad("into_v57 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v57", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            134 => { let ok = sh.variant == "V57"; let r = w.decode_v57(); if !ok { return if r.is_ok() { bad("decode_v57 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V57(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v57", f0, r) }
            135 => { let ok = sh.variant == "V57"; let r = w.v57_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v57_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V57(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v57_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            136 => { let ok = sh.variant == "V58"; let r = w.into_v58(); if !ok { return if r.is_ok() { bad("into_v58 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v58", r)?; Ok(()) }
            137 => { let ok = sh.variant == "V58"; let r = w.decode_v58(); if !ok { return if r.is_ok() { bad("decode_v58 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v58", r)?; Ok(()) }
            138 => { let ok = sh.variant == "V59"; let r = w.into_v59(); if !ok { return if r.is_ok() { bad("into_v59 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v59", r)?; Ok(()) }
            139 => { let ok = sh.variant == "V59"; let r = w.decode_v59(); if !ok { return if r.is_ok() { bad("decode_v59 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v59", r)?; Ok(()) }
            140 => { let ok = sh.variant == "V60"; let r = w.into_v60(); if !ok { return if r.is_ok() { bad("into_v60 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v60", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            141 => { let ok = sh.variant == "V60"; let r = w.decode_v60(); if !ok { return if r.is_ok() { bad("decode_v60 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V60(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v60", f0, r) }
            142 => { let ok = sh.variant == "V60"; let r = w.v60_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v60_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V60(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v60_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            143 => { let ok = sh.variant == "V61"; let r = w.into_v61(); if !ok { return if r.is_ok() { bad("into_v61 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v61", r)?; Ok(()) }
            144 => { let ok = sh.variant == "V61"; let r = w.decode_v61(); if !ok { return if r.is_ok() { bad("decode_v61 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v61", r)?; Ok(()) }
            145 => { let ok = sh.variant == "V62"; let r = w.into_v62(); if !ok { return if r.is_ok() { bad("into_v62 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v62", r)?; Ok(()) }
            146 => { let ok = sh.variant == "V62"; let r = w.decode_v62(); if !ok { return if r.is_ok() { bad("decode_v62 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v62", r)?; Ok(()) }
            147 => { let ok = sh.variant == "V63"; let r = w.into_v63(); if !ok { return if r.is_ok() { bad("into_v63 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v63", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            148 => { let ok = sh.variant == "V63"; let r = w.decode_v63(); if !ok { return if r.is_ok() { bad("decode_v63 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V63(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v63", f0, r) }
            149 => { let ok = sh.variant == "V63"; let r = w.v63_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v63_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V63(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v63_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            150 => { let ok = sh.variant == "V64"; let r = w.into_v64(); if !ok { return if r.is_ok() { bad("into_v64 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v64", r)?; Ok(()) }
            151 => { let ok = sh.variant == "V64"; let r = w.decode_v64(); if !ok { return if r.is_ok() { bad("decode_v64 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v64", r)?; Ok(()) }
            152 => { let ok = sh.variant == "V65"; let r = w.into_v65(); if !ok { return if r.is_ok() { bad("into_v65 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v65", r)?; Ok(()) }
            153 => { let ok = sh.variant == "V65"; let r = w.decode_v65(); if !ok { return if r.is_ok() { bad("decode_v65 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v65", r)?; Ok(()) }
            154 => { let ok = sh.variant == "V66"; let r = w.into_v66(); if !ok { return if r.is_ok() { bad("into_v66 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v66", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            155 => { let ok = sh.variant == "V66"; let r = w.decode_v66(); if !ok { return if r.is_ok() { bad("decode_v66 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V66(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v66", f0, r) }
            156 => { let ok = sh.variant == "V66"; let r = w.v66_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v66_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V66(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v66_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            157 => { let ok = sh.variant == "V67"; let r = w.into_v67(); if !ok { return if r.is_ok() { bad("into_v67 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v67", r)?; Ok(()) }
            158 => { let ok = sh.variant == "V67"; let r = w.decode_v67(); if !ok { return if r.is_ok() { bad("decode_v67 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v67", r)?; Ok(()) }
            159 => { let ok = sh.variant == "V68"; let r = w.into_v68(); if !ok { return if r.is_ok() { bad("into_v68 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v68", r)?; Ok(()) }
            160 => { let ok = sh.variant == "V68"; let r = w.decode_v68(); if !ok { return if r.is_ok() { bad("decode_v68 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v68", r)?; Ok(()) }
            161 => { let ok = sh.variant == "V69"; let r = w.into_v69(); if !ok { return if r.is_ok() { bad("into_v69 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v69", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            162 => { let ok = sh.variant == "V69"; let r = w.decode_v69(); if !ok { return if r.is_ok() { bad("decode_v69 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V69(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v69", f0, r) }
            163 => { let ok = sh.variant == "V69"; let r = w.v69_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v69_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V69(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v69_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            164 => { let ok = sh.variant == "V70"; let r = w.into_v70(); if !ok { return if r.is_ok() { bad("into_v70 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v70", r)?; Ok(()) }
            165 => { let ok = sh.variant == "V70"; let r = w.decode_v70(); if !ok { return if r.is_ok() { bad("decode_v70 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v70", r)?; Ok(()) }
            166 => { let ok = sh.variant == "V71"; let r = w.into_v71(); if !ok { return if r.is_ok() { bad("into_v71 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v71", r)?; Ok(()) }
            167 => { let ok = sh.variant == "V71"; let r = w.decode_v71(); if !ok { return if r.is_ok() { bad("decode_v71 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v71", r)?; Ok(()) }
            168 => { let ok = sh.variant == "V72"; let r = w.into_v72(); if !ok { return if r.is_ok() { bad("into_v72 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v72", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            169 => { let ok = sh.variant == "V72"; let r = w.decode_v72(); if !ok { return if r.is_ok() { bad("decode_v72 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V72(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v72", f0, r) }
            170 => { let ok = sh.variant == "V72"; let r = w.v72_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v72_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V72(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v72_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            171 => { let ok = sh.variant == "V73"; let r = w.into_v73(); if !ok { return if r.is_ok() { bad("into_v73 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v73", r)?; Ok(()) }
            172 => { let ok = sh.variant == "V73"; let r = w.decode_v73(); if !ok { return if r.is_ok() { bad("decode_v73 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v73", r)?; Ok(()) }
            173 => { let ok = sh.variant == "V74"; let r = w.into_v74(); if !ok { return if r.is_ok() { bad("into_v74 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v74", r)?; Ok(()) }
            174 => { let ok = sh.variant == "V74"; let r = w.decode_v74(); if !ok { return if r.is_ok() { bad("decode_v74 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v74", r)?; Ok(()) }
            175 => { let ok = sh.variant == "V75"; let r = w.into_v75(); if !ok { return if r.is_ok() { bad("into_v75 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v75", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            176 => { let ok = sh.variant == "V75"; let r = w.decode_v75(); if !ok { return if r.is_ok() { bad("decode_v75 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V75(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v75", f0, r) }
            177 => { let ok = sh.variant == "V75"; let r = w.v75_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v75_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V75(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v75_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            178 => { let ok = sh.variant == "V76"; let r = w.into_v76(); if !ok { return if r.is_ok() { bad("into_v76 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v76", r)?; Ok(()) }
            179 => { let ok = sh.variant == "V76"; let r = w.decode_v76(); if !ok { return if r.is_ok() { bad("decode_v76 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v76", r)?; Ok(()) }
            180 => { let ok = sh.variant == "V77"; let r = w.into_v77(); if !ok { return if r.is_ok() { bad("into_v77 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v77", r)?; Ok(()) }
            181 => { let ok = sh.variant == "V77"; let r = w.decode_v77(); if !ok { return if r.is_ok() { bad("decode_v77 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v77", r)?; Ok(()) }
            182 => { let ok = sh.variant == "V78"; let r = w.into_v78(); if !ok { return if r.is_ok() { bad("into_v78 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v78", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            183 => { let ok = sh.variant == "V78"; let r = w.decode_v78(); if !ok { return if r.is_ok() { bad("decode_v78 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V78(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v78", f0, r) }
            184 => { let ok = sh.variant == "V78"; let r = w.v78_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v78_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V78(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v78_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            185 => { let ok = sh.variant == "V79"; let r = w.into_v79(); if !ok { return if r.is_ok() { bad("into_v79 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v79", r)?; Ok(()) }
            186 => { let ok = sh.variant == "V79"; let r = w.decode_v79(); if !ok { return if r.is_ok() { bad("decode_v79 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v79", r)?; Ok(()) }
            187 => { let ok = sh.variant == "V80"; let r = w.into_v80(); if !ok { return if r.is_ok() { bad("into_v80 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v80", r)?; Ok(()) }
            188 => { let ok = sh.variant == "V80"; let r = w.decode_v80(); if !ok { return if r.is_ok() { bad("decode_v80 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v80", r)?; Ok(()) }
            189 => { let ok = sh.variant == "V81"; let r = w.into_v81(); if !ok { return if r.is_ok() { bad("into_v81 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v81", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            190 => { let ok = sh.variant == "V81"; let r = w.decode_v81(); if !ok { return if r.is_ok() { bad("decode_v81 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V81(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v81", f0, r) }
            191 => { let ok = sh.variant == "V81"; let r = w.v81_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v81_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V81(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v81_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            192 => { let ok = sh.variant == "V82"; let r = w.into_v82(); if !ok { return if r.is_ok() { bad("into_v82 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v82", r)?; Ok(()) }
            193 => { let ok = sh.variant == "V82"; let r = w.decode_v82(); if !ok { return if r.is_ok() { bad("decode_v82 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v82", r)?; Ok(()) }
            194 => { let ok = sh.variant == "V83"; let r = w.into_v83(); if !ok { return if r.is_ok() { bad("into_v83 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v83", r)?; Ok(()) }
            195 => { let ok = sh.variant == "V83"; let r = w.decode_v83(); if !ok { return if r.is_ok() { bad("decode_v83 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v83", r)?; Ok(()) }
            196 => { let ok = sh.variant == "V84"; let r = w.into_v84(); if !ok { return if r.is_ok() { bad("into_v84 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v84", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            197 => { let ok = sh.variant == "V84"; let r = w.decode_v84(); if !ok { return if r.is_ok() { bad("decode_v84 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V84(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v84", f0, r) }
            198 => { let ok = sh.variant == "V84"; let r = w.v84_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v84_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V84(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v84_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            199 => { let ok = sh.variant == "V85"; let r = w.into_v85(); if !ok { return if r.is_ok() { bad("into_v85 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v85", r)?; Ok(()) }
            200 => { let ok = sh.variant == "V85"; let r = w.decode_v85(); if !ok { return if r.is_ok() { bad("decode_v85 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v85", r)?; Ok(()) }
            201 => { let ok = sh.variant == "V86"; let r = w.into_v86(); if !ok { return if r.is_ok() { bad("into_v86 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v86", r)?; Ok(()) }
            202 => { let ok = sh.variant == "V86"; let r = w.decode_v86(); if !ok { return if r.is_ok() { bad("decode_v86 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v86", r)?; Ok(()) }
            203 => { let ok = sh.variant == "V87"; let r = w.into_v87(); if !ok { return if r.is_ok() { bad("into_v87 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v87", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            204 => { let ok = sh.variant == "V87"; let r = w.decode_v87(); if !ok { return if r.is_ok() { bad("decode_v87 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V87(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v87", f0, r) }
            205 => { let ok = sh.variant == "V87"; let r = w.v87_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v87_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V87(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v87_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            206 => { let ok = sh.variant == "V88"; let r = w.into_v88(); if !ok { return if r.is_ok() { bad("into_v88 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v88", r)?; Ok(()) }
            207 => { let ok = sh.variant == "V88"; let r = w.decode_v88(); if !ok { return if r.is_ok() { bad("decode_v88 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v88", r)?; Ok(()) }
            208 => { let ok = sh.variant == "V89"; let r = w.into_v89(); if !ok { return if r.is_ok() { bad("into_v89 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v89", r)?; Ok(()) }
            209 => { let ok = sh.variant == "V89"; let r = w.decode_v89(); if !ok { return if r.is_ok() { bad("decode_v89 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v89", r)?; Ok(()) }
            210 => { let ok = sh.variant == "V90"; let r = w.into_v90(); if !ok { return if r.is_ok() { bad("into_v90 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v90", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            211 => { let ok = sh.variant == "V90"; let r = w.decode_v90(); if !ok { return if r.is_ok() { bad("decode_v90 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V90(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v90", f0, r) }
            212 => { let ok = sh.variant == "V90"; let r = w.v90_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v90_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V90(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v90_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            213 => { let ok = sh.variant == "V91"; let r = w.into_v91(); if !ok { return if r.is_ok() { bad("into_v91 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v91", r)?; Ok(()) }
            214 => { let ok = sh.variant == "V91"; let r = w.decode_v91(); if !ok { return if r.is_ok() { bad("decode_v91 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v91", r)?; Ok(()) }
            215 => { let ok = sh.variant == "V92"; let r = w.into_v92(); if !ok { return if r.is_ok() { bad("into_v92 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v92", r)?; Ok(()) }
            216 => { let ok = sh.variant == "V92"; let r = w.decode_v92(); if !ok { return if r.is_ok() { bad("decode_v92 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v92", r)?; Ok(()) }
            217 => { let ok = sh.variant == "V93"; let r = w.into_v93(); if !ok { return if r.is_ok() { bad("into_v93 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v93", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            218 => { let ok = sh.variant == "V93"; let r = w.decode_v93(); if !ok { return if r.is_ok() { bad("decode_v93 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V93(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v93", f0, r) }
            219 => { let ok = sh.variant == "V93"; let r = w.v93_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v93_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V93(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v93_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            220 => { let ok = sh.variant == "V94"; let r = w.into_v94(); if !ok { return if r.is_ok() { bad("into_v94 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v94", r)?; Ok(()) }
            221 => { let ok = sh.variant == "V94"; let r = w.decode_v94(); if !ok { return if r.is_ok() { bad("decode_v94 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v94", r)?; Ok(()) }
            222 => { let ok = sh.variant == "V95"; let r = w.into_v95(); if !ok { return if r.is_ok() { bad("into_v95 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v95", r)?; Ok(()) }
            223 => { let ok = sh.variant == "V95"; let r = w.decode_v95(); if !ok { return if r.is_ok() { bad("decode_v95 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v95", r)?; Ok(()) }
            224 => { let ok = sh.variant == "V96"; let r = w.into_v96(); if !ok { return if r.is_ok() { bad("into_v96 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v96", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            225 => { let ok = sh.variant == "V96"; let r = w.decode_v96(); if !ok { return if r.is_ok() { bad("decode_v96 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V96(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v96", f0, r) }
            226 => { let ok = sh.variant == "V96"; let r = w.v96_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v96_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V96(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v96_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            227 => { let ok = sh.variant == "V97"; let r = w.into_v97(); if !ok { return if r.is_ok() { bad("into_v97 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v97", r)?; Ok(()) }
            228 => { let ok = sh.variant == "V97"; let r = w.decode_v97(); if !ok { return if r.is_ok() { bad("decode_v97 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v97", r)?; Ok(()) }
            229 => { let ok = sh.variant == "V98"; let r = w.into_v98(); if !ok { return if r.is_ok() { bad("into_v98 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v98", r)?; Ok(()) }
            230 => { let ok = sh.variant == "V98"; let r = w.decode_v98(); if !ok { return if r.is_ok() { bad("decode_v98 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v98", r)?; Ok(()) }
            231 => { let ok = sh.variant == "V99"; let r = w.into_v99(); if !ok { return if r.is_ok() { bad("into_v99 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v99", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            232 => { let ok = sh.variant == "V99"; let r = w.decode_v99(); if !ok { return if r.is_ok() { bad("decode_v99 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V99(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v99", f0, r) }
            233 => { let ok = sh.variant == "V99"; let r = w.v99_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v99_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V99(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v99_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            234 => { let ok = sh.variant == "V100"; let r = w.into_v100(); if !ok { return if r.is_ok() { bad("into_v100 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v100", r)?; Ok(()) }
            235 => { let ok = sh.variant == "V100"; let r = w.decode_v100(); if !ok { return if r.is_ok() { bad("decode_v100 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v100", r)?; Ok(()) }
            236 => { let ok = sh.variant == "V101"; let r = w.into_v101(); if !ok { return if r.is_ok() { bad("into_v101 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v101", r)?; Ok(()) }
            237 => { let ok = sh.variant == "V101"; let r = w.decode_v101(); if !ok { return if r.is_ok() { bad("decode_v101 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v101", r)?; Ok(()) }
            238 => { let ok = sh.variant == "V102"; let r = w.into_v102(); if !ok { return if r.is_ok() { bad("into_v102 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v102", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            239 => { let ok = sh.variant == "V102"; let r = w.decode_v102(); if !ok { return if r.is_ok() { bad("decode_v102 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V102(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v102", f0, r) }
            240 => { let ok = sh.variant == "V102"; let r = w.v102_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v102_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V102(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v102_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            241 => { let ok = sh.variant == "V103"; let r = w.into_v103(); if !ok { return if r.is_ok() { bad("into_v103 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v103", r)?; Ok(()) }
            242 => { let ok = sh.variant == "V103"; let r = w.decode_v103(); if !ok { return if r.is_ok() { bad("decode_v103 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v103", r)?; Ok(()) }
            243 => { let ok = sh.variant == "V104"; let r = w.into_v104(); if !ok { return if r.is_ok() { bad("into_v104 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v104", r)?; Ok(()) }
            244 => { let ok = sh.variant == "V104"; let r = w.decode_v104(); if !ok { return if r.is_ok() { bad("decode_v104 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v104", r)?; Ok(()) }
            245 => { let ok = sh.variant == "V105"; let r = w.into_v105(); if !ok { return if r.is_ok() { bad("into_v105 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v105", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            246 => { let ok = sh.variant == "V105"; let r = w.decode_v105(); if !ok { return if r.is_ok() { bad("decode_v105 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V105(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v105", f0, r) }
            247 => { let ok = sh.variant == "V105"; let r = w.v105_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v105_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V105(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v105_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            248 => { let ok = sh.variant == "V106"; let r = w.into_v106(); if !ok { return if r.is_ok() { bad("into_v106 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v106", r)?; Ok(()) }
            249 => { let ok = sh.variant == "V106"; let r = w.decode_v106(); if !ok { return if r.is_ok() { bad("decode_v106 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v106", r)?; Ok(()) }
            250 => { let ok = sh.variant == "V107"; let r = w.into_v107(); if !ok { return if r.is_ok() { bad("into_v107 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v107", r)?; Ok(()) }
            251 => { let ok = sh.variant == "V107"; let r = w.decode_v107(); if !ok { return if r.is_ok() { bad("decode_v107 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v107", r)?; Ok(()) }
            252 => { let ok = sh.variant == "V108"; let r = w.into_v108(); if !ok { return if r.is_ok() { bad("into_v108 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v108", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            253 => { let ok = sh.variant == "V108"; let r = w.decode_v108(); if !ok { return if r.is_ok() { bad("decode_v108 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V108(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v108", f0, r) }
            254 => { let ok = sh.variant == "V108"; let r = w.v108_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v108_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V108(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v108_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            255 => { let ok = sh.variant == "V109"; let r = w.into_v109(); if !ok { return if r.is_ok() { bad("into_v109 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v109", r)?; Ok(()) }
            256 => { let ok = sh.variant == "V109"; let r = w.decode_v109(); if !ok { return if r.is_ok() { bad("decode_v109 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v109", r)?; Ok(()) }
            257 => { let ok = sh.variant == "V110"; let r = w.into_v110(); if !ok { return if r.is_ok() { bad("into_v110 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v110", r)?; Ok(()) }
            258 => { let ok = sh.variant == "V110"; let r = w.decode_v110(); if !ok { return if r.is_ok() { bad("decode_v110 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v110", r)?; Ok(()) }
            259 => { let ok = sh.variant == "V111"; let r = w.into_v111(); if !ok { return if r.is_ok() { bad("into_v111 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v111", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            260 => { let ok = sh.variant == "V111"; let r = w.decode_v111(); if !ok { return if r.is_ok() { bad("decode_v111 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V111(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v111", f0, r) }
            261 => { let ok = sh.variant == "V111"; let r = w.v111_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v111_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V111(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v111_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            262 => { let ok = sh.variant == "V112"; let r = w.into_v112(); if !ok { return if r.is_ok() { bad("into_v112 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v112", r)?; Ok(()) }
            263 => { let ok = sh.variant == "V112"; let r = w.decode_v112(); if !ok { return if r.is_ok() { bad("decode_v112 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v112", r)?; Ok(()) }
            264 => { let ok = sh.variant == "V113"; let r = w.into_v113(); if !ok { return if r.is_ok() { bad("into_v113 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v113", r)?; Ok(()) }
            265 => { let ok = sh.variant == "V113"; let r = w.decode_v113(); if !ok { return if r.is_ok() { bad("decode_v113 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v113", r)?; Ok(()) }
            266 => { let ok = sh.variant == "V114"; let r = w.into_v114(); if !ok { return if r.is_ok() { bad("into_v114 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v114", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            267 => { let ok = sh.variant == "V114"; let r = w.decode_v114(); if !ok { return if r.is_ok() { bad("decode_v114 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V114(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v114", f0, r) }
            268 => { let ok = sh.variant == "V114"; let r = w.v114_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v114_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V114(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v114_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            269 => { let ok = sh.variant == "V115"; let r = w.into_v115(); if !ok { return if r.is_ok() { bad("into_v115 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v115", r)?; Ok(()) }
            270 => { let ok = sh.variant == "V115"; let r = w.decode_v115(); if !ok { return if r.is_ok() { bad("decode_v115 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v115", r)?; Ok(()) }
            271 => { let ok = sh.variant == "V116"; let r = w.into_v116(); if !ok { return if r.is_ok() { bad("into_v116 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v116", r)?; Ok(()) }
            272 => { let ok = sh.variant == "V116"; let r = w.decode_v116(); if !ok { return if r.is_ok() { bad("decode_v116 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v116", r)?; Ok(()) }
            273 => { let ok = sh.variant == "V117"; let r = w.into_v117(); if !ok { return if r.is_ok() { bad("into_v117 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v117", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            274 => { let ok = sh.variant == "V117"; let r = w.decode_v117(); if !ok { return if r.is_ok() { bad("decode_v117 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V117(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v117", f0, r) }
            275 => { let ok = sh.variant == "V117"; let r = w.v117_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v117_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V117(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v117_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            276 => { let ok = sh.variant == "V118"; let r = w.into_v118(); if !ok { return if r.is_ok() { bad("into_v118 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v118", r)?; Ok(()) }
            277 => { let ok = sh.variant == "V118"; let r = w.decode_v118(); if !ok { return if r.is_ok() { bad("decode_v118 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v118", r)?; Ok(()) }
            278 => { let ok = sh.variant == "V119"; let r = w.into_v119(); if !ok { return if r.is_ok() { bad("into_v119 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v119", r)?; Ok(()) }
            279 => { let ok = sh.variant == "V119"; let r = w.decode_v119(); if !ok { return if r.is_ok() { bad("decode_v119 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v119", r)?; Ok(()) }
            280 => { let ok = sh.variant == "V120"; let r = w.into_v120(); if !ok { return if r.is_ok() { bad("into_v120 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v120", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            281 => { let ok = sh.variant == "V120"; let r = w.decode_v120(); if !ok { return if r.is_ok() { bad("decode_v120 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V120(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v120", f0, r) }
            282 => { let ok = sh.variant == "V120"; let r = w.v120_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v120_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V120(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v120_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            283 => { let ok = sh.variant == "V121"; let r = w.into_v121(); if !ok { return if r.is_ok() { bad("into_v121 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v121", r)?; Ok(()) }
            284 => { let ok = sh.variant == "V121"; let r = w.decode_v121(); if !ok { return if r.is_ok() { bad("decode_v121 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v121", r)?; Ok(()) }
            285 => { let ok = sh.variant == "V122"; let r = w.into_v122(); if !ok { return if r.is_ok() { bad("into_v122 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v122", r)?; Ok(()) }
            286 => { let ok = sh.variant == "V122"; let r = w.decode_v122(); if !ok { return if r.is_ok() { bad("decode_v122 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v122", r)?; Ok(()) }
            287 => { let ok = sh.variant == "V123"; let r = w.into_v123(); if !ok { return if r.is_ok() { bad("into_v123 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v123", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            288 => { let ok = sh.variant == "V123"; let r = w.decode_v123(); if !ok { return if r.is_ok() { bad("decode_v123 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V123(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v123", f0, r) }
            289 => { let ok = sh.variant == "V123"; let r = w.v123_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v123_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V123(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v123_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            290 => { let ok = sh.variant == "V124"; let r = w.into_v124(); if !ok { return if r.is_ok() { bad("into_v124 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v124", r)?; Ok(()) }
            291 => { let ok = sh.variant == "V124"; let r = w.decode_v124(); if !ok { return if r.is_ok() { bad("decode_v124 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v124", r)?; Ok(()) }
            292 => { let ok = sh.variant == "V125"; let r = w.into_v125(); if !ok { return if r.is_ok() { bad("into_v125 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v125", r)?; Ok(()) }
            293 => { let ok = sh.variant == "V125"; let r = w.decode_v125(); if !ok { return if r.is_ok() { bad("decode_v125 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v125", r)?; Ok(()) }
            294 => { let ok = sh.variant == "V126"; let r = w.into_v126(); if !ok { return if r.is_ok() { bad("into_v126 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v126", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            295 => { let ok = sh.variant == "V126"; let r = w.decode_v126(); if !ok { return if r.is_ok() { bad("decode_v126 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V126(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v126", f0, r) }
            296 => { let ok = sh.variant == "V126"; let r = w.v126_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v126_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V126(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v126_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            297 => { let ok = sh.variant == "V127"; let r = w.into_v127(); if !ok { return if r.is_ok() { bad("into_v127 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v127", r)?; Ok(()) }
            298 => { let ok = sh.variant == "V127"; let r = w.decode_v127(); if !ok { return if r.is_ok() { bad("decode_v127 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v127", r)?; Ok(()) }
            299 => { let ok = sh.variant == "V128"; let r = w.into_v128(); if !ok { return if r.is_ok() { bad("into_v128 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v128", r)?; Ok(()) }
            300 => { let ok = sh.variant == "V128"; let r = w.decode_v128(); if !ok { return if r.is_ok() { bad("decode_v128 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v128", r)?; Ok(()) }
            301 => { let ok = sh.variant == "V129"; let r = w.into_v129(); if !ok { return if r.is_ok() { bad("into_v129 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v129", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            302 => { let ok = sh.variant == "V129"; let r = w.decode_v129(); if !ok { return if r.is_ok() { bad("decode_v129 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V129(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v129", f0, r) }
            303 => { let ok = sh.variant == "V129"; let r = w.v129_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v129_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V129(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v129_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            304 => { let ok = sh.variant == "V130"; let r = w.into_v130(); if !ok { return if r.is_ok() { bad("into_v130 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v130", r)?; Ok(()) }
            305 => { let ok = sh.variant == "V130"; let r = w.decode_v130(); if !ok { return if r.is_ok() { bad("decode_v130 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v130", r)?; Ok(()) }
            306 => { let ok = sh.variant == "V131"; let r = w.into_v131(); if !ok { return if r.is_ok() { bad("into_v131 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v131", r)?; Ok(()) }
            307 => { let ok = sh.variant == "V131"; let r = w.decode_v131(); if !ok { return if r.is_ok() { bad("decode_v131 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v131", r)?; Ok(()) }
            308 => { let ok = sh.variant == "V132"; let r = w.into_v132(); if !ok { return if r.is_ok() { bad("into_v132 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v132", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            309 => { let ok = sh.variant == "V132"; let r = w.decode_v132(); if !ok { return if r.is_ok() { bad("decode_v132 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V132(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v132", f0, r) }
            310 => { let ok = sh.variant == "V132"; let r = w.v132_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v132_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V132(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v132_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            311 => { let ok = sh.variant == "V133"; let r = w.into_v133(); if !ok { return if r.is_ok() { bad("into_v133 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v133", r)?; Ok(()) }
            312 => { let ok = sh.variant == "V133"; let r = w.decode_v133(); if !ok { return if r.is_ok() { bad("decode_v133 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v133", r)?; Ok(()) }
            313 => { let ok = sh.variant == "V134"; let r = w.into_v134(); if !ok { return if r.is_ok() { bad("into_v134 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v134", r)?; Ok(()) }
            314 => { let ok = sh.variant == "V134"; let r = w.decode_v134(); if !ok { return if r.is_ok() { bad("decode_v134 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v134", r)?; Ok(()) }
            315 => { let ok = sh.variant == "V135"; let r = w.into_v135(); if !ok { return if r.is_ok() { bad("into_v135 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v135", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            316 => { let ok = sh.variant == "V135"; let r = w.decode_v135(); if !ok { return if r.is_ok() { bad("decode_v135 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V135(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v135", f0, r) }
            317 => { let ok = sh.variant == "V135"; let r = w.v135_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v135_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V135(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v135_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            318 => { let ok = sh.variant == "V136"; let r = w.into_v136(); if !ok { return if r.is_ok() { bad("into_v136 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v136", r)?; Ok(()) }
            319 => { let ok = sh.variant == "V136"; let r = w.decode_v136(); if !ok { return if r.is_ok() { bad("decode_v136 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v136", r)?; Ok(()) }
            320 => { let ok = sh.variant == "V137"; let r = w.into_v137(); if !ok { return if r.is_ok() { bad("into_v137 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v137", r)?; Ok(()) }
            321 => { let ok = sh.variant == "V137"; let r = w.decode_v137(); if !ok { return if r.is_ok() { bad("decode_v137 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v137", r)?; Ok(()) }
            322 => { let ok = sh.variant == "V138"; let r = w.into_v138(); if !ok { return if r.is_ok() { bad("into_v138 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v138", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            323 => { let ok = sh.variant == "V138"; let r = w.decode_v138(); if !ok { return if r.is_ok() { bad("decode_v138 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V138(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v138", f0, r) }
            324 => { let ok = sh.variant == "V138"; let r = w.v138_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v138_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V138(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v138_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            325 => { let ok = sh.variant == "V139"; let r = w.into_v139(); if !ok { return if r.is_ok() { bad("into_v139 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v139", r)?; Ok(()) }
            326 => { let ok = sh.variant == "V139"; let r = w.decode_v139(); if !ok { return if r.is_ok() { bad("decode_v139 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v139", r)?; Ok(()) }
            327 => { let ok = sh.variant == "V140"; let r = w.into_v140(); if !ok { return if r.is_ok() { bad("into_v140 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v140", r)?; Ok(()) }
            328 => { let ok = sh.variant == "V140"; let r = w.decode_v140(); if !ok { return if r.is_ok() { bad("decode_v140 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v140", r)?; Ok(()) }
            329 => { let ok = sh.variant == "V141"; let r = w.into_v141(); if !ok { return if r.is_ok() { bad("into_v141 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v141", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            330 => { let ok = sh.variant == "V141"; let r = w.decode_v141(); if !ok { return if r.is_ok() { bad("decode_v141 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V141(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v141", f0, r) }
            331 => { let ok = sh.variant == "V141"; let r = w.v141_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v141_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V141(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v141_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            332 => { let ok = sh.variant == "V142"; let r = w.into_v142(); if !ok { return if r.is_ok() { bad("into_v142 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v142", r)?; Ok(()) }
            333 => { let ok = sh.variant == "V142"; let r = w.decode_v142(); if !ok { return if r.is_ok() { bad("decode_v142 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v142", r)?; Ok(()) }
            334 => { let ok = sh.variant == "V143"; let r = w.into_v143(); if !ok { return if r.is_ok() { bad("into_v143 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v143", r)?; Ok(()) }
            335 => { let ok = sh.variant == "V143"; let r = w.decode_v143(); if !ok { return if r.is_ok() { bad("decode_v143 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v143", r)?; Ok(()) }
            336 => { let ok = sh.variant == "V144"; let r = w.into_v144(); if !ok { return if r.is_ok() { bad("into_v144 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v144", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            337 => { let ok = sh.variant == "V144"; let r = w.decode_v144(); if !ok { return if r.is_ok() { bad("decode_v144 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V144(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v144", f0, r) }
            338 => { let ok = sh.variant == "V144"; let r = w.v144_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v144_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V144(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v144_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            339 => { let ok = sh.variant == "V145"; let r = w.into_v145(); if !ok { return if r.is_ok() { bad("into_v145 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v145", r)?; Ok(()) }
            340 => { let ok = sh.variant == "V145"; let r = w.decode_v145(); if !ok { return if r.is_ok() { bad("decode_v145 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v145", r)?; Ok(()) }
            341 => { let ok = sh.variant == "V146"; let r = w.into_v146(); if !ok { return if r.is_ok() { bad("into_v146 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v146", r)?; Ok(()) }
            342 => { let ok = sh.variant == "V146"; let r = w.decode_v146(); if !ok { return if r.is_ok() { bad("decode_v146 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v146", r)?; Ok(()) }
            343 => { let ok = sh.variant == "V147"; let r = w.into_v147(); if !ok { return if r.is_ok() { bad("into_v147 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v147", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            344 => { let ok = sh.variant == "V147"; let r = w.decode_v147(); if !ok { return if r.is_ok() { bad("decode_v147 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V147(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v147", f0, r) }
            345 => { let ok = sh.variant == "V147"; let r = w.v147_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v147_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V147(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v147_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            346 => { let ok = sh.variant == "V148"; let r = w.into_v148(); if !ok { return if r.is_ok() { bad("into_v148 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v148", r)?; Ok(()) }
            347 => { let ok = sh.variant == "V148"; let r = w.decode_v148(); if !ok { return if r.is_ok() { bad("decode_v148 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v148", r)?; Ok(()) }
            348 => { let ok = sh.variant == "V149"; let r = w.into_v149(); if !ok { return if r.is_ok() { bad("into_v149 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v149", r)?; Ok(()) }
            349 => { let ok = sh.variant == "V149"; let r = w.decode_v149(); if !ok { return if r.is_ok() { bad("decode_v149 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v149", r)?; Ok(()) }
            350 => { let ok = sh.variant == "V150"; let r = w.into_v150(); if !ok { return if r.is_ok() { bad("into_v150 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v150", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            351 => { let ok = sh.variant == "V150"; let r = w.decode_v150(); if !ok { return if r.is_ok() { bad("decode_v150 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V150(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v150", f0, r) }
            352 => { let ok = sh.variant == "V150"; let r = w.v150_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v150_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V150(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v150_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            353 => { let ok = sh.variant == "V151"; let r = w.into_v151(); if !ok { return if r.is_ok() { bad("into_v151 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v151", r)?; Ok(()) }
            354 => { let ok = sh.variant == "V151"; let r = w.decode_v151(); if !ok { return if r.is_ok() { bad("decode_v151 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v151", r)?; Ok(()) }
            355 => { let ok = sh.variant == "V152"; let r = w.into_v152(); if !ok { return if r.is_ok() { bad("into_v152 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v152", r)?; Ok(()) }
            356 => { let ok = sh.variant == "V152"; let r = w.decode_v152(); if !ok { return if r.is_ok() { bad("decode_v152 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v152", r)?; Ok(()) }
            357 => { let ok = sh.variant == "V153"; let r = w.into_v153(); if !ok { return if r.is_ok() { bad("into_v153 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v153", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            358 => { let ok = sh.variant == "V153"; let r = w.decode_v153(); if !ok { return if r.is_ok() { bad("decode_v153 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V153(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v153", f0, r) }
            359 => { let ok = sh.variant == "V153"; let r = w.v153_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v153_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V153(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v153_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            360 => { let ok = sh.variant == "V154"; let r = w.into_v154(); if !ok { return if r.is_ok() { bad("into_v154 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v154", r)?; Ok(()) }
            361 => { let ok = sh.variant == "V154"; let r = w.decode_v154(); if !ok { return if r.is_ok() { bad("decode_v154 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v154", r)?; Ok(()) }
            362 => { let ok = sh.variant == "V155"; let r = w.into_v155(); if !ok { return if r.is_ok() { bad("into_v155 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v155", r)?; Ok(()) }
            363 => { let ok = sh.variant == "V155"; let r = w.decode_v155(); if !ok { return if r.is_ok() { bad("decode_v155 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v155", r)?; Ok(()) }
            364 => { let ok = sh.variant == "V156"; let r = w.into_v156(); if !ok { return if r.is_ok() { bad("into_v156 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v156", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            365 => { let ok = sh.variant == "V156"; let r = w.decode_v156(); if !ok { return if r.is_ok() { bad("decode_v156 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V156(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v156", f0, r) }
            366 => { let ok = sh.variant == "V156"; let r = w.v156_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v156_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V156(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v156_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            367 => { let ok = sh.variant == "V157"; let r = w.into_v157(); if !ok { return if r.is_ok() { bad("into_v157 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v157", r)?; Ok(()) }
            368 => { let ok = sh.variant == "V157"; let r = w.decode_v157(); if !ok { return if r.is_ok() { bad("decode_v157 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v157", r)?; Ok(()) }
            369 => { let ok = sh.variant == "V158"; let r = w.into_v158(); if !ok { return if r.is_ok() { bad("into_v158 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v158", r)?; Ok(()) }
            370 => { let ok = sh.variant == "V158"; let r = w.decode_v158(); if !ok { return if r.is_ok() { bad("decode_v158 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v158", r)?; Ok(()) }
            371 => { let ok = sh.variant == "V159"; let r = w.into_v159(); if !ok { return if r.is_ok() { bad("into_v159 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v159", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            372 => { let ok = sh.variant == "V159"; let r = w.decode_v159(); if !ok { return if r.is_ok() { bad("decode_v159 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V159(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v159", f0, r) }
            373 => { let ok = sh.variant == "V159"; let r = w.v159_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v159_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V159(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v159_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            374 => { let ok = sh.variant == "V160"; let r = w.into_v160(); if !ok { return if r.is_ok() { bad("into_v160 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v160", r)?; Ok(()) }
            375 => { let ok = sh.variant == "V160"; let r = w.decode_v160(); if !ok { return if r.is_ok() { bad("decode_v160 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v160", r)?; Ok(()) }
            376 => { let ok = sh.variant == "V161"; let r = w.into_v161(); if !ok { return if r.is_ok() { bad("into_v161 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v161", r)?; Ok(()) }
            377 => { let ok = sh.variant == "V161"; let r = w.decode_v161(); if !ok { return if r.is_ok() { bad("decode_v161 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v161", r)?; Ok(()) }
            378 => { let ok = sh.variant == "V162"; let r = w.into_v162(); if !ok { return if r.is_ok() { bad("into_v162 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v162", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            379 => { let ok = sh.variant == "V162"; let r = w.decode_v162(); if !ok { return if r.is_ok() { bad("decode_v162 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V162(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v162", f0, r) }
            380 => { let ok = sh.variant == "V162"; let r = w.v162_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v162_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V162(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v162_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            381 => { let ok = sh.variant == "V163"; let r = w.into_v163(); if !ok { return if r.is_ok() { bad("into_v163 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v163", r)?; Ok(()) }
            382 => { let ok = sh.variant == "V163"; let r = w.decode_v163(); if !ok { return if r.is_ok() { bad("decode_v163 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v163", r)?; Ok(()) }
            383 => { let ok = sh.variant == "V164"; let r = w.into_v164(); if !ok { return if r.is_ok() { bad("into_v164 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v164", r)?; Ok(()) }
            384 => { let ok = sh.variant == "V164"; let r = w.decode_v164(); if !ok { return if r.is_ok() { bad("decode_v164 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v164", r)?; Ok(()) }
            385 => { let ok = sh.variant == "V165"; let r = w.into_v165(); if !ok { return if r.is_ok() { bad("into_v165 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v165", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            386 => { let ok = sh.variant == "V165"; let r = w.decode_v165(); if !ok { return if r.is_ok() { bad("decode_v165 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V165(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v165", f0, r) }
            387 => { let ok = sh.variant == "V165"; let r = w.v165_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v165_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V165(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v165_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            388 => { let ok = sh.variant == "V166"; let r = w.into_v166(); if !ok { return if r.is_ok() { bad("into_v166 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v166", r)?; Ok(()) }
            389 => { let ok = sh.variant == "V166"; let r = w.decode_v166(); if !ok { return if r.is_ok() { bad("decode_v166 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v166", r)?; Ok(()) }
            390 => { let ok = sh.variant == "V167"; let r = w.into_v167(); if !ok { return if r.is_ok() { bad("into_v167 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v167", r)?; Ok(()) }
            391 => { let ok = sh.variant == "V167"; let r = w.decode_v167(); if !ok { return if r.is_ok() { bad("decode_v167 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v167", r)?; Ok(()) }
            392 => { let ok = sh.variant == "V168"; let r = w.into_v168(); if !ok { return if r.is_ok() { bad("into_v168 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v168", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            393 => { let ok = sh.variant == "V168"; let r = w.decode_v168(); if !ok { return if r.is_ok() { bad("decode_v168 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V168(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v168", f0, r) }
            394 => { let ok = sh.variant == "V168"; let r = w.v168_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v168_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V168(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v168_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            395 => { let ok = sh.variant == "V169"; let r = w.into_v169(); if !ok { return if r.is_ok() { bad("into_v169 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v169", r)?; Ok(()) }
            396 => { let ok = sh.variant == "V169"; let r = w.decode_v169(); if !ok { return if r.is_ok() { bad("decode_v169 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v169", r)?; Ok(()) }
            397 => { let ok = sh.variant == "V170"; let r = w.into_v170(); if !ok { return if r.is_ok() { bad("into_v170 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v170", r)?; Ok(()) }
            398 => { let ok = sh.variant == "V170"; let r = w.decode_v170(); if !ok { return if r.is_ok() { bad("decode_v170 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v170", r)?; Ok(()) }
            399 => { let ok = sh.variant == "V171"; let r = w.into_v171(); if !ok { return if r.is_ok() { bad("into_v171 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v171", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            400 => { let ok = sh.variant == "V171"; let r = w.decode_v171(); if !ok { return if r.is_ok() { bad("decode_v171 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V171(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v171", f0, r) }
            401 => { let ok = sh.variant == "V171"; let r = w.v171_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v171_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V171(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v171_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            402 => { let ok = sh.variant == "V172"; let r = w.into_v172(); if !ok { return if r.is_ok() { bad("into_v172 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v172", r)?; Ok(()) }
            403 => { let ok = sh.variant == "V172"; let r = w.decode_v172(); if !ok { return if r.is_ok() { bad("decode_v172 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v172", r)?; Ok(()) }
            404 => { let ok = sh.variant == "V173"; let r = w.into_v173(); if !ok { return if r.is_ok() { bad("into_v173 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v173", r)?; Ok(()) }
            405 => { let ok = sh.variant == "V173"; let r = w.decode_v173(); if !ok { return if r.is_ok() { bad("decode_v173 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v173", r)?; Ok(()) }
            406 => { let ok = sh.variant == "V174"; let r = w.into_v174(); if !ok { return if r.is_ok() { bad("into_v174 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v174", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            407 => { let ok = sh.variant == "V174"; let r = w.decode_v174(); if !ok { return if r.is_ok() { bad("decode_v174 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V174(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v174", f0, r) }
            408 => { let ok = sh.variant == "V174"; let r = w.v174_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v174_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V174(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v174_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            409 => { let ok = sh.variant == "V175"; let r = w.into_v175(); if !ok { return if r.is_ok() { bad("into_v175 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v175", r)?; Ok(()) }
            410 => { let ok = sh.variant == "V175"; let r = w.decode_v175(); if !ok { return if r.is_ok() { bad("decode_v175 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v175", r)?; Ok(()) }
            411 => { let ok = sh.variant == "V176"; let r = w.into_v176(); if !ok { return if r.is_ok() { bad("into_v176 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v176", r)?; Ok(()) }
            412 => { let ok = sh.variant == "V176"; let r = w.decode_v176(); if !ok { return if r.is_ok() { bad("decode_v176 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v176", r)?; Ok(()) }
            413 => { let ok = sh.variant == "V177"; let r = w.into_v177(); if !ok { return if r.is_ok() { bad("into_v177 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v177", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            414 => { let ok = sh.variant == "V177"; let r = w.decode_v177(); if !ok { return if r.is_ok() { bad("decode_v177 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V177(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v177", f0, r) }
            415 => { let ok = sh.variant == "V177"; let r = w.v177_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v177_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V177(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v177_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            416 => { let ok = sh.variant == "V178"; let r = w.into_v178(); if !ok { return if r.is_ok() { bad("into_v178 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v178", r)?; Ok(()) }
            417 => { let ok = sh.variant == "V178"; let r = w.decode_v178(); if !ok { return if r.is_ok() { bad("decode_v178 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v178", r)?; Ok(()) }
            418 => { let ok = sh.variant == "V179"; let r = w.into_v179(); if !ok { return if r.is_ok() { bad("into_v179 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v179", r)?; Ok(()) }
            419 => { let ok = sh.variant == "V179"; let r = w.decode_v179(); if !ok { return if r.is_ok() { bad("decode_v179 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v179", r)?; Ok(()) }
            420 => { let ok = sh.variant == "V180"; let r = w.into_v180(); if !ok { return if r.is_ok() { bad("into_v180 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v180", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            421 => { let ok = sh.variant == "V180"; let r = w.decode_v180(); if !ok { return if r.is_ok() { bad("decode_v180 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V180(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v180", f0, r) }
            422 => { let ok = sh.variant == "V180"; let r = w.v180_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v180_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V180(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v180_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            423 => { let ok = sh.variant == "V181"; let r = w.into_v181(); if !ok { return if r.is_ok() { bad("into_v181 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v181", r)?; Ok(()) }
            424 => { let ok = sh.variant == "V181"; let r = w.decode_v181(); if !ok { return if r.is_ok() { bad("decode_v181 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v181", r)?; Ok(()) }
            425 => { let ok = sh.variant == "V182"; let r = w.into_v182(); if !ok { return if r.is_ok() { bad("into_v182 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v182", r)?; Ok(()) }
            426 => { let ok = sh.variant == "V182"; let r = w.decode_v182(); if !ok { return if r.is_ok() { bad("decode_v182 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v182", r)?; Ok(()) }
            427 => { let ok = sh.variant == "V183"; let r = w.into_v183(); if !ok { return if r.is_ok() { bad("into_v183 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v183", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            428 => { let ok = sh.variant == "V183"; let r = w.decode_v183(); if !ok { return if r.is_ok() { bad("decode_v183 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V183(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v183", f0, r) }
            429 => { let ok = sh.variant == "V183"; let r = w.v183_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v183_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V183(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v183_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            430 => { let ok = sh.variant == "V184"; let r = w.into_v184(); if !ok { return if r.is_ok() { bad("into_v184 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v184", r)?; Ok(()) }
            431 => { let ok = sh.variant == "V184"; let r = w.decode_v184(); if !ok { return if r.is_ok() { bad("decode_v184 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v184", r)?; Ok(()) }
            432 => { let ok = sh.variant == "V185"; let r = w.into_v185(); if !ok { return if r.is_ok() { bad("into_v185 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v185", r)?; Ok(()) }
            433 => { let ok = sh.variant == "V185"; let r = w.decode_v185(); if !ok { return if r.is_ok() { bad("decode_v185 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v185", r)?; Ok(()) }
            434 => { let ok = sh.variant == "V186"; let r = w.into_v186(); if !ok { return if r.is_ok() { bad("into_v186 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v186", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            435 => { let ok = sh.variant == "V186"; let r = w.decode_v186(); if !ok { return if r.is_ok() { bad("decode_v186 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V186(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v186", f0, r) }
            436 => { let ok = sh.variant == "V186"; let r = w.v186_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v186_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V186(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v186_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            437 => { let ok = sh.variant == "V187"; let r = w.into_v187(); if !ok { return if r.is_ok() { bad("into_v187 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v187", r)?; Ok(()) }
            438 => { let ok = sh.variant == "V187"; let r = w.decode_v187(); if !ok { return if r.is_ok() { bad("decode_v187 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v187", r)?; Ok(()) }
            439 => { let ok = sh.variant == "V188"; let r = w.into_v188(); if !ok { return if r.is_ok() { bad("into_v188 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v188", r)?; Ok(()) }
            440 => { let ok = sh.variant == "V188"; let r = w.decode_v188(); if !ok { return if r.is_ok() { bad("decode_v188 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v188", r)?; Ok(()) }
            441 => { let ok = sh.variant == "V189"; let r = w.into_v189(); if !ok { return if r.is_ok() { bad("into_v189 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v189", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            442 => { let ok = sh.variant == "V189"; let r = w.decode_v189(); if !ok { return if r.is_ok() { bad("decode_v189 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V189(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v189", f0, r) }
            443 => { let ok = sh.variant == "V189"; let r = w.v189_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v189_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V189(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v189_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            444 => { let ok = sh.variant == "V190"; let r = w.into_v190(); if !ok { return if r.is_ok() { bad("into_v190 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v190", r)?; Ok(()) }
            445 => { let ok = sh.variant == "V190"; let r = w.decode_v190(); if !ok { return if r.is_ok() { bad("decode_v190 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v190", r)?; Ok(()) }
            446 => { let ok = sh.variant == "V191"; let r = w.into_v191(); if !ok { return if r.is_ok() { bad("into_v191 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v191", r)?; Ok(()) }
            447 => { let ok = sh.variant == "V191"; let r = w.decode_v191(); if !ok { return if r.is_ok() { bad("decode_v191 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v191", r)?; Ok(()) }
            448 => { let ok = sh.variant == "V192"; let r = w.into_v192(); if !ok { return if r.is_ok() { bad("into_v192 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v192", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            449 => { let ok = sh.variant == "V192"; let r = w.decode_v192(); if !ok { return if r.is_ok() { bad("decode_v192 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V192(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v192", f0, r) }
            450 => { let ok = sh.variant == "V192"; let r = w.v192_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v192_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V192(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v192_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            451 => { let ok = sh.variant == "V193"; let r = w.into_v193(); if !ok { return if r.is_ok() { bad("into_v193 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v193", r)?; Ok(()) }
            452 => { let ok = sh.variant == "V193"; let r = w.decode_v193(); if !ok { return if r.is_ok() { bad("decode_v193 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v193", r)?; Ok(()) }
            453 => { let ok = sh.variant == "V194"; let r = w.into_v194(); if !ok { return if r.is_ok() { bad("into_v194 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v194", r)?; Ok(()) }
            454 => { let ok = sh.variant == "V194"; let r = w.decode_v194(); if !ok { return if r.is_ok() { bad("decode_v194 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v194", r)?; Ok(()) }
            455 => { let ok = sh.variant == "V195"; let r = w.into_v195(); if !ok { return if r.is_ok() { bad("into_v195 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v195", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            456 => { let ok = sh.variant == "V195"; let r = w.decode_v195(); if !ok { return if r.is_ok() { bad("decode_v195 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V195(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v195", f0, r) }
            457 => { let ok = sh.variant == "V195"; let r = w.v195_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v195_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V195(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v195_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            458 => { let ok = sh.variant == "V196"; let r = w.into_v196(); if !ok { return if r.is_ok() { bad("into_v196 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v196", r)?; Ok(()) }
            459 => { let ok = sh.variant == "V196"; let r = w.decode_v196(); if !ok { return if r.is_ok() { bad("decode_v196 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v196", r)?; Ok(()) }
            460 => { let ok = sh.variant == "V197"; let r = w.into_v197(); if !ok { return if r.is_ok() { bad("into_v197 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v197", r)?; Ok(()) }
            461 => { let ok = sh.variant == "V197"; let r = w.decode_v197(); if !ok { return if r.is_ok() { bad("decode_v197 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v197", r)?; Ok(()) }
            462 => { let ok = sh.variant == "V198"; let r = w.into_v198(); if !ok { return if r.is_ok() { bad("into_v198 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v198", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            463 => { let ok = sh.variant == "V198"; let r = w.decode_v198(); if !ok { return if r.is_ok() { bad("decode_v198 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V198(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v198", f0, r) }
            464 => { let ok = sh.variant == "V198"; let r = w.v198_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v198_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V198(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v198_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            465 => { let ok = sh.variant == "V199"; let r = w.into_v199(); if !ok { return if r.is_ok() { bad("into_v199 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v199", r)?; Ok(()) }
            466 => { let ok = sh.variant == "V199"; let r = w.decode_v199(); if !ok { return if r.is_ok() { bad("decode_v199 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v199", r)?; Ok(()) }
            467 => { let ok = sh.variant == "V200"; let r = w.into_v200(); if !ok { return if r.is_ok() { bad("into_v200 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v200", r)?; Ok(()) }
            468 => { let ok = sh.variant == "V200"; let r = w.decode_v200(); if !ok { return if r.is_ok() { bad("decode_v200 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v200", r)?; Ok(()) }
            469 => { let ok = sh.variant == "V201"; let r = w.into_v201(); if !ok { return if r.is_ok() { bad("into_v201 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v201", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            470 => { let ok = sh.variant == "V201"; let r = w.decode_v201(); if !ok { return if r.is_ok() { bad("decode_v201 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V201(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v201", f0, r) }
            471 => { let ok = sh.variant == "V201"; let r = w.v201_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v201_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V201(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v201_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            472 => { let ok = sh.variant == "V202"; let r = w.into_v202(); if !ok { return if r.is_ok() { bad("into_v202 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v202", r)?; Ok(()) }
            473 => { let ok = sh.variant == "V202"; let r = w.decode_v202(); if !ok { return if r.is_ok() { bad("decode_v202 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v202", r)?; Ok(()) }
            474 => { let ok = sh.variant == "V203"; let r = w.into_v203(); if !ok { return if r.is_ok() { bad("into_v203 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v203", r)?; Ok(()) }
            475 => { let ok = sh.variant == "V203"; let r = w.decode_v203(); if !ok { return if r.is_ok() { bad("decode_v203 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v203", r)?; Ok(()) }
            476 => { let ok = sh.variant == "V204"; let r = w.into_v204(); if !ok { return if r.is_ok() { bad("into_v204 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v204", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            477 => { let ok = sh.variant == "V204"; let r = w.decode_v204(); if !ok { return if r.is_ok() { bad("decode_v204 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V204(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v204", f0, r) }
            478 => { let ok = sh.variant == "V204"; let r = w.v204_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v204_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V204(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v204_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            479 => { let ok = sh.variant == "V205"; let r = w.into_v205(); if !ok { return if r.is_ok() { bad("into_v205 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v205", r)?; Ok(()) }
            480 => { let ok = sh.variant == "V205"; let r = w.decode_v205(); if !ok { return if r.is_ok() { bad("decode_v205 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v205", r)?; Ok(()) }
            481 => { let ok = sh.variant == "V206"; let r = w.into_v206(); if !ok { return if r.is_ok() { bad("into_v206 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v206", r)?; Ok(()) }
            482 => { let ok = sh.variant == "V206"; let r = w.decode_v206(); if !ok { return if r.is_ok() { bad("decode_v206 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v206", r)?; Ok(()) }
            483 => { let ok = sh.variant == "V207"; let r = w.into_v207(); if !ok { return if r.is_ok() { bad("into_v207 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v207", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            484 => { let ok = sh.variant == "V207"; let r = w.decode_v207(); if !ok { return if r.is_ok() { bad("decode_v207 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V207(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v207", f0, r) }
            485 => { let ok = sh.variant == "V207"; let r = w.v207_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v207_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V207(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v207_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            486 => { let ok = sh.variant == "V208"; let r = w.into_v208(); if !ok { return if r.is_ok() { bad("into_v208 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v208", r)?; Ok(()) }
            487 => { let ok = sh.variant == "V208"; let r = w.decode_v208(); if !ok { return if r.is_ok() { bad("decode_v208 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v208", r)?; Ok(()) }
            488 => { let ok = sh.variant == "V209"; let r = w.into_v209(); if !ok { return if r.is_ok() { bad("into_v209 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v209", r)?; Ok(()) }
            489 => { let ok = sh.variant == "V209"; let r = w.decode_v209(); if !ok { return if r.is_ok() { bad("decode_v209 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v209", r)?; Ok(()) }
            490 => { let ok = sh.variant == "V210"; let r = w.into_v210(); if !ok { return if r.is_ok() { bad("into_v210 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v210", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            491 => { let ok = sh.variant == "V210"; let r = w.decode_v210(); if !ok { return if r.is_ok() { bad("decode_v210 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V210(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v210", f0, r) }
            492 => { let ok = sh.variant == "V210"; let r = w.v210_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v210_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V210(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v210_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            493 => { let ok = sh.variant == "V211"; let r = w.into_v211(); if !ok { return if r.is_ok() { bad("into_v211 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v211", r)?; Ok(()) }
            494 => { let ok = sh.variant == "V211"; let r = w.decode_v211(); if !ok { return if r.is_ok() { bad("decode_v211 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v211", r)?; Ok(()) }
            495 => { let ok = sh.variant == "V212"; let r = w.into_v212(); if !ok { return if r.is_ok() { bad("into_v212 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v212", r)?; Ok(()) }
            496 => { let ok = sh.variant == "V212"; let r = w.decode_v212(); if !ok { return if r.is_ok() { bad("decode_v212 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v212", r)?; Ok(()) }
            497 => { let ok = sh.variant == "V213"; let r = w.into_v213(); if !ok { return if r.is_ok() { bad("into_v213 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v213", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            498 => { let ok = sh.variant == "V213"; let r = w.decode_v213(); if !ok { return if r.is_ok() { bad("decode_v213 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V213(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v213", f0, r) }
            499 => { let ok = sh.variant == "V213"; let r = w.v213_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v213_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V213(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v213_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            500 => { let ok = sh.variant == "V214"; let r = w.into_v214(); if !ok { return if r.is_ok() { bad("into_v214 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v214", r)?; Ok(()) }
            501 => { let ok = sh.variant == "V214"; let r = w.decode_v214(); if !ok { return if r.is_ok() { bad("decode_v214 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v214", r)?; Ok(()) }
            502 => { let ok = sh.variant == "V215"; let r = w.into_v215(); if !ok { return if r.is_ok() { bad("into_v215 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v215", r)?; Ok(()) }
            503 => { let ok = sh.variant == "V215"; let r = w.decode_v215(); if !ok { return if r.is_ok() { bad("decode_v215 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v215", r)?; Ok(()) }
            504 => { let ok = sh.variant == "V216"; let r = w.into_v216(); if !ok { return if r.is_ok() { bad("into_v216 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v216", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            505 => { let ok = sh.variant == "V216"; let r = w.decode_v216(); if !ok { return if r.is_ok() { bad("decode_v216 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V216(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v216", f0, r) }
            506 => { let ok = sh.variant == "V216"; let r = w.v216_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v216_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V216(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v216_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            507 => { let ok = sh.variant == "V217"; let r = w.into_v217(); if !ok { return if r.is_ok() { bad("into_v217 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v217", r)?; Ok(()) }
            508 => { let ok = sh.variant == "V217"; let r = w.decode_v217(); if !ok { return if r.is_ok() { bad("decode_v217 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v217", r)?; Ok(()) }
            509 => { let ok = sh.variant == "V218"; let r = w.into_v218(); if !ok { return if r.is_ok() { bad("into_v218 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v218", r)?; Ok(()) }
            510 => { let ok = sh.variant == "V218"; let r = w.decode_v218(); if !ok { return if r.is_ok() { bad("decode_v218 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v218", r)?; Ok(()) }
            511 => { let ok = sh.variant == "V219"; let r = w.into_v219(); if !ok { return if r.is_ok() { bad("into_v219 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v219", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            512 => { let ok = sh.variant == "V219"; let r = w.decode_v219(); if !ok { return if r.is_ok() { bad("decode_v219 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V219(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v219", f0, r) }
            513 => { let ok = sh.variant == "V219"; let r = w.v219_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v219_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V219(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v219_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            514 => { let ok = sh.variant == "V220"; let r = w.into_v220(); if !ok { return if r.is_ok() { bad("into_v220 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v220", r)?; Ok(()) }
            515 => { let ok = sh.variant == "V220"; let r = w.decode_v220(); if !ok { return if r.is_ok() { bad("decode_v220 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v220", r)?; Ok(()) }
            516 => { let ok = sh.variant == "V221"; let r = w.into_v221(); if !ok { return if r.is_ok() { bad("into_v221 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v221", r)?; Ok(()) }
            517 => { let ok = sh.variant == "V221"; let r = w.decode_v221(); if !ok { return if r.is_ok() { bad("decode_v221 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v221", r)?; Ok(()) }
            518 => { let ok = sh.variant == "V222"; let r = w.into_v222(); if !ok { return if r.is_ok() { bad("into_v222 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v222", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            519 => { let ok = sh.variant == "V222"; let r = w.decode_v222(); if !ok { return if r.is_ok() { bad("decode_v222 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V222(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v222", f0, r) }
            520 => { let ok = sh.variant == "V222"; let r = w.v222_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v222_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V222(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v222_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            521 => { let ok = sh.variant == "V223"; let r = w.into_v223(); if !ok { return if r.is_ok() { bad("into_v223 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v223", r)?; Ok(()) }
            522 => { let ok = sh.variant == "V223"; let r = w.decode_v223(); if !ok { return if r.is_ok() { bad("decode_v223 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v223", r)?; Ok(()) }
            523 => { let ok = sh.variant == "V224"; let r = w.into_v224(); if !ok { return if r.is_ok() { bad("into_v224 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v224", r)?; Ok(()) }
            524 => { let ok = sh.variant == "V224"; let r = w.decode_v224(); if !ok { return if r.is_ok() { bad("decode_v224 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v224", r)?; Ok(()) }
            525 => { let ok = sh.variant == "V225"; let r = w.into_v225(); if !ok { return if r.is_ok() { bad("into_v225 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v225", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            526 => { let ok = sh.variant == "V225"; let r = w.decode_v225(); if !ok { return if r.is_ok() { bad("decode_v225 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V225(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v225", f0, r) }
            527 => { let ok = sh.variant == "V225"; let r = w.v225_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v225_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V225(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v225_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            528 => { let ok = sh.variant == "V226"; let r = w.into_v226(); if !ok { return if r.is_ok() { bad("into_v226 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v226", r)?; Ok(()) }
            529 => { let ok = sh.variant == "V226"; let r = w.decode_v226(); if !ok { return if r.is_ok() { bad("decode_v226 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v226", r)?; Ok(()) }
            530 => { let ok = sh.variant == "V227"; let r = w.into_v227(); if !ok { return if r.is_ok() { bad("into_v227 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v227", r)?; Ok(()) }
            531 => { let ok = sh.variant == "V227"; let r = w.decode_v227(); if !ok { return if r.is_ok() { bad("decode_v227 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v227", r)?; Ok(()) }
            532 => { let ok = sh.variant == "V228"; let r = w.into_v228(); if !ok { return if r.is_ok() { bad("into_v228 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v228", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            533 => { let ok = sh.variant == "V228"; let r = w.decode_v228(); if !ok { return if r.is_ok() { bad("decode_v228 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V228(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v228", f0, r) }
            534 => { let ok = sh.variant == "V228"; let r = w.v228_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v228_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V228(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v228_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            535 => { let ok = sh.variant == "V229"; let r = w.into_v229(); if !ok { return if r.is_ok() { bad("into_v229 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v229", r)?; Ok(()) }
            536 => { let ok = sh.variant == "V229"; let r = w.decode_v229(); if !ok { return if r.is_ok() { bad("decode_v229 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v229", r)?; Ok(()) }
            537 => { let ok = sh.variant == "V230"; let r = w.into_v230(); if !ok { return if r.is_ok() { bad("into_v230 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v230", r)?; Ok(()) }
            538 => { let ok = sh.variant == "V230"; let r = w.decode_v230(); if !ok { return if r.is_ok() { bad("decode_v230 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v230", r)?; Ok(()) }
            539 => { let ok = sh.variant == "V231"; let r = w.into_v231(); if !ok { return if r.is_ok() { bad("into_v231 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v231", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            540 => { let ok = sh.variant == "V231"; let r = w.decode_v231(); if !ok { return if r.is_ok() { bad("decode_v231 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V231(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v231", f0, r) }
            541 => { let ok = sh.variant == "V231"; let r = w.v231_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v231_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V231(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v231_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            542 => { let ok = sh.variant == "V232"; let r = w.into_v232(); if !ok { return if r.is_ok() { bad("into_v232 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v232", r)?; Ok(()) }
            543 => { let ok = sh.variant == "V232"; let r = w.decode_v232(); if !ok { return if r.is_ok() { bad("decode_v232 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v232", r)?; Ok(()) }
            544 => { let ok = sh.variant == "V233"; let r = w.into_v233(); if !ok { return if r.is_ok() { bad("into_v233 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v233", r)?; Ok(()) }
            545 => { let ok = sh.variant == "V233"; let r = w.decode_v233(); if !ok { return if r.is_ok() { bad("decode_v233 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v233", r)?; Ok(()) }
            546 => { let ok = sh.variant == "V234"; let r = w.into_v234(); if !ok { return if r.is_ok() { bad("into_v234 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v234", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            547 => { let ok = sh.variant == "V234"; let r = w.decode_v234(); if !ok { return if r.is_ok() { bad("decode_v234 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V234(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v234", f0, r) }
            548 => { let ok = sh.variant == "V234"; let r = w.v234_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v234_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V234(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v234_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            549 => { let ok = sh.variant == "V235"; let r = w.into_v235(); if !ok { return if r.is_ok() { bad("into_v235 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v235", r)?; Ok(()) }
            550 => { let ok = sh.variant == "V235"; let r = w.decode_v235(); if !ok { return if r.is_ok() { bad("decode_v235 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v235", r)?; Ok(()) }
            551 => { let ok = sh.variant == "V236"; let r = w.into_v236(); if !ok { return if r.is_ok() { bad("into_v236 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v236", r)?; Ok(()) }
            552 => { let ok = sh.variant == "V236"; let r = w.decode_v236(); if !ok { return if r.is_ok() { bad("decode_v236 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v236", r)?; Ok(()) }
            553 => { let ok = sh.variant == "V237"; let r = w.into_v237(); if !ok { return if r.is_ok() { bad("into_v237 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v237", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            554 => { let ok = sh.variant == "V237"; let r = w.decode_v237(); if !ok { return if r.is_ok() { bad("decode_v237 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V237(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v237", f0, r) }
            555 => { let ok = sh.variant == "V237"; let r = w.v237_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v237_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V237(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v237_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            556 => { let ok = sh.variant == "V238"; let r = w.into_v238(); if !ok { return if r.is_ok() { bad("into_v238 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v238", r)?; Ok(()) }
            557 => { let ok = sh.variant == "V238"; let r = w.decode_v238(); if !ok { return if r.is_ok() { bad("decode_v238 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v238", r)?; Ok(()) }
            558 => { let ok = sh.variant == "V239"; let r = w.into_v239(); if !ok { return if r.is_ok() { bad("into_v239 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v239", r)?; Ok(()) }
            559 => { let ok = sh.variant == "V239"; let r = w.decode_v239(); if !ok { return if r.is_ok() { bad("decode_v239 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v239", r)?; Ok(()) }
            560 => { let ok = sh.variant == "V240"; let r = w.into_v240(); if !ok { return if r.is_ok() { bad("into_v240 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v240", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            561 => { let ok = sh.variant == "V240"; let r = w.decode_v240(); if !ok { return if r.is_ok() { bad("decode_v240 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V240(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v240", f0, r) }
            562 => { let ok = sh.variant == "V240"; let r = w.v240_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v240_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V240(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v240_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            563 => { let ok = sh.variant == "V241"; let r = w.into_v241(); if !ok { return if r.is_ok() { bad("into_v241 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v241", r)?; Ok(()) }
            564 => { let ok = sh.variant == "V241"; let r = w.decode_v241(); if !ok { return if r.is_ok() { bad("decode_v241 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v241", r)?; Ok(()) }
            565 => { let ok = sh.variant == "V242"; let r = w.into_v242(); if !ok { return if r.is_ok() { bad("into_v242 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v242", r)?; Ok(()) }
            566 => { let ok = sh.variant == "V242"; let r = w.decode_v242(); if !ok { return if r.is_ok() { bad("decode_v242 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v242", r)?; Ok(()) }
            567 => { let ok = sh.variant == "V243"; let r = w.into_v243(); if !ok { return if r.is_ok() { bad("into_v243 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v243", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            568 => { let ok = sh.variant == "V243"; let r = w.decode_v243(); if !ok { return if r.is_ok() { bad("decode_v243 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V243(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v243", f0, r) }
            569 => { let ok = sh.variant == "V243"; let r = w.v243_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v243_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V243(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v243_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            570 => { let ok = sh.variant == "V244"; let r = w.into_v244(); if !ok { return if r.is_ok() { bad("into_v244 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v244", r)?; Ok(()) }
            571 => { let ok = sh.variant == "V244"; let r = w.decode_v244(); if !ok { return if r.is_ok() { bad("decode_v244 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v244", r)?; Ok(()) }
            572 => { let ok = sh.variant == "V245"; let r = w.into_v245(); if !ok { return if r.is_ok() { bad("into_v245 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v245", r)?; Ok(()) }
            573 => { let ok = sh.variant == "V245"; let r = w.decode_v245(); if !ok { return if r.is_ok() { bad("decode_v245 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v245", r)?; Ok(()) }
            574 => { let ok = sh.variant == "V246"; let r = w.into_v246(); if !ok { return if r.is_ok() { bad("into_v246 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v246", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            575 => { let ok = sh.variant == "V246"; let r = w.decode_v246(); if !ok { return if r.is_ok() { bad("decode_v246 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V246(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v246", f0, r) }
            576 => { let ok = sh.variant == "V246"; let r = w.v246_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v246_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V246(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v246_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            577 => { let ok = sh.variant == "V247"; let r = w.into_v247(); if !ok { return if r.is_ok() { bad("into_v247 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v247", r)?; Ok(()) }
            578 => { let ok = sh.variant == "V247"; let r = w.decode_v247(); if !ok { return if r.is_ok() { bad("decode_v247 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v247", r)?; Ok(()) }
            579 => { let ok = sh.variant == "V248"; let r = w.into_v248(); if !ok { return if r.is_ok() { bad("into_v248 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v248", r)?; Ok(()) }
            580 => { let ok = sh.variant == "V248"; let r = w.decode_v248(); if !ok { return if r.is_ok() { bad("decode_v248 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v248", r)?; Ok(()) }
            581 => { let ok = sh.variant == "V249"; let r = w.into_v249(); if !ok { return if r.is_ok() { bad("into_v249 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v249", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            582 => { let ok = sh.variant == "V249"; let r = w.decode_v249(); if !ok { return if r.is_ok() { bad("decode_v249 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V249(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v249", f0, r) }
            583 => { let ok = sh.variant == "V249"; let r = w.v249_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v249_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V249(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v249_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            584 => { let ok = sh.variant == "V250"; let r = w.into_v250(); if !ok { return if r.is_ok() { bad("into_v250 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v250", r)?; Ok(()) }
            585 => { let ok = sh.variant == "V250"; let r = w.decode_v250(); if !ok { return if r.is_ok() { bad("decode_v250 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v250", r)?; Ok(()) }
            586 => { let ok = sh.variant == "V251"; let r = w.into_v251(); if !ok { return if r.is_ok() { bad("into_v251 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v251", r)?; Ok(()) }
            587 => { let ok = sh.variant == "V251"; let r = w.decode_v251(); if !ok { return if r.is_ok() { bad("decode_v251 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v251", r)?; Ok(()) }
            588 => { let ok = sh.variant == "V252"; let r = w.into_v252(); if !ok { return if r.is_ok() { bad("into_v252 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v252", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            589 => { let ok = sh.variant == "V252"; let r = w.decode_v252(); if !ok { return if r.is_ok() { bad("decode_v252 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V252(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v252", f0, r) }
            590 => { let ok = sh.variant == "V252"; let r = w.v252_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v252_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V252(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v252_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            591 => { let ok = sh.variant == "V253"; let r = w.into_v253(); if !ok { return if r.is_ok() { bad("into_v253 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v253", r)?; Ok(()) }
            592 => { let ok = sh.variant == "V253"; let r = w.decode_v253(); if !ok { return if r.is_ok() { bad("decode_v253 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v253", r)?; Ok(()) }
            593 => { let ok = sh.variant == "V254"; let r = w.into_v254(); if !ok { return if r.is_ok() { bad("into_v254 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v254", r)?; Ok(()) }
            594 => { let ok = sh.variant == "V254"; let r = w.decode_v254(); if !ok { return if r.is_ok() { bad("decode_v254 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v254", r)?; Ok(()) }
            595 => { let ok = sh.variant == "V255"; let r = w.into_v255(); if !ok { return if r.is_ok() { bad("into_v255 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v255", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            596 => { let ok = sh.variant == "V255"; let r = w.decode_v255(); if !ok { return if r.is_ok() { bad("decode_v255 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V255(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v255", f0, r) }
            597 => { let ok = sh.variant == "V255"; let r = w.v255_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v255_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V255(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v255_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            598 => { let ok = sh.variant == "V256"; let r = w.into_v256(); if !ok { return if r.is_ok() { bad("into_v256 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v256", r)?; Ok(()) }
            599 => { let ok = sh.variant == "V256"; let r = w.decode_v256(); if !ok { return if r.is_ok() { bad("decode_v256 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v256", r)?; Ok(()) }
            600 => { let ok = sh.variant == "V257"; let r = w.into_v257(); if !ok { return if r.is_ok() { bad("into_v257 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v257", r)?; Ok(()) }
            601 => { let ok = sh.variant == "V257"; let r = w.decode_v257(); if !ok { return if r.is_ok() { bad("decode_v257 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v257", r)?; Ok(()) }
            602 => { let ok = sh.variant == "V258"; let r = w.into_v258(); if !ok { return if r.is_ok() { bad("into_v258 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v258", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            603 => { let ok = sh.variant == "V258"; let r = w.decode_v258(); if !ok { return if r.is_ok() { bad("decode_v258 of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V258(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v258", f0, r) }
            604 => { let ok = sh.variant == "V258"; let r = w.v258_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v258_view of another variant succeeded") } else { Err(Stop::Expected) } } let N6::V258(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v258_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            605 => { let ok = sh.variant == "V259"; let r = w.into_v259(); if !ok { return if r.is_ok() { bad("into_v259 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v259", r)?; Ok(()) }
            606 => { let ok = sh.variant == "V259"; let r = w.decode_v259(); if !ok { return if r.is_ok() { bad("decode_v259 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v259", r)?; Ok(()) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(1, optimised))]
#[derive(Debug, Clone)]
pub enum N7 {
    #[revision(size = "varlen")] V0(u16),
    #[revision(size = "inline")] V1,
    #[revision(size = "inline")] V2,
    #[revision(size = "varlen")] V3(u16),
    #[revision(size = "inline")] V4,
    #[revision(size = "inline")] V5,
    #[revision(size = "varlen")] V6(u16),
    #[revision(size = "inline")] V7,
    #[revision(size = "inline")] V8,
    #[revision(size = "varlen")] V9(u16),
    #[revision(size = "inline")] V10,
    #[revision(size = "inline")] V11,
    #[revision(size = "varlen")] V12(u16),
    #[revision(size = "inline")] V13,
    #[revision(size = "inline")] V14,
    #[revision(size = "varlen")] V15(u16),
    #[revision(size = "inline")] V16,
    #[revision(size = "inline")] V17,
    #[revision(size = "varlen")] V18(u16),
    #[revision(size = "inline")] V19,
    #[revision(size = "inline")] V20,
    #[revision(size = "varlen")] V21(u16),
    #[revision(size = "inline")] V22,
    #[revision(size = "inline")] V23,
    #[revision(size = "varlen")] V24(u16),
    #[revision(size = "inline")] V25,
    #[revision(size = "inline")] V26,
    #[revision(size = "varlen")] V27(u16),
    #[revision(size = "inline")] V28,
    #[revision(size = "inline")] V29,
    #[revision(size = "varlen")] V30(u16),
    #[revision(size = "inline")] V31,
}
impl N7 {
    fn vname(&self) -> &'static str { match self { N7::V0 { .. } => "V0", N7::V1 { .. } => "V1", N7::V2 { .. } => "V2", N7::V3 { .. } => "V3", N7::V4 { .. } => "V4", N7::V5 { .. } => "V5", N7::V6 { .. } => "V6", N7::V7 { .. } => "V7", N7::V8 { .. } => "V8", N7::V9 { .. } => "V9", N7::V10 { .. } => "V10", N7::V11 { .. } => "V11", N7::V12 { .. } => "V12", N7::V13 { .. } => "V13", N7::V14 { .. } => "V14", N7::V15 { .. } => "V15", N7::V16 { .. } => "V16", N7::V17 { .. } => "V17", N7::V18 { .. } => "V18", N7::V19 { .. } => "V19", N7::V20 { .. } => "V20", N7::V21 { .. } => "V21", N7::V22 { .. } => "V22", N7::V23 { .. } => "V23", N7::V24 { .. } => "V24", N7::V25 { .. } => "V25", N7::V26 { .. } => "V26", N7::V27 { .. } => "V27", N7::V28 { .. } => "V28", N7::V29 { .. } => "V29", N7::V30 { .. } => "V30", N7::V31 { .. } => "V31" } }
}
impl Spec for N7 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        match self {
            N7::V0(f0) => { o.push(64); put_payload(o, &with_offsets(&[enc1::<Plain, u16>(f0)], false)); }
            N7::V1 => { o.push(1); }
            N7::V2 => { o.push(2); }
            N7::V3(f0) => { o.push(67); put_payload(o, &with_offsets(&[enc1::<Plain, u16>(f0)], false)); }
            N7::V4 => { o.push(4); }
            N7::V5 => { o.push(5); }
            N7::V6(f0) => { o.push(70); put_payload(o, &with_offsets(&[enc1::<Plain, u16>(f0)], false)); }
            N7::V7 => { o.push(7); }
            N7::V8 => { o.push(8); }
            N7::V9(f0) => { o.push(73); put_payload(o, &with_offsets(&[enc1::<Plain, u16>(f0)], false)); }
            N7::V10 => { o.push(10); }
            N7::V11 => { o.push(11); }
            N7::V12(f0) => { o.push(76); put_payload(o, &with_offsets(&[enc1::<Plain, u16>(f0)], false)); }
            N7::V13 => { o.push(13); }
            N7::V14 => { o.push(14); }
            N7::V15(f0) => { o.push(79); put_payload(o, &with_offsets(&[enc1::<Plain, u16>(f0)], false)); }
            N7::V16 => { o.push(16); }
            N7::V17 => { o.push(17); }
            N7::V18(f0) => { o.push(82); put_payload(o, &with_offsets(&[enc1::<Plain, u16>(f0)], false)); }
            N7::V19 => { o.push(19); }
            N7::V20 => { o.push(20); }
            N7::V21(f0) => { o.push(85); put_payload(o, &with_offsets(&[enc1::<Plain, u16>(f0)], false)); }
            N7::V22 => { o.push(22); }
            N7::V23 => { o.push(23); }
            N7::V24(f0) => { o.push(88); put_payload(o, &with_offsets(&[enc1::<Plain, u16>(f0)], false)); }
            N7::V25 => { o.push(25); }
            N7::V26 => { o.push(26); }
            N7::V27(f0) => { o.push(91); put_payload(o, &with_offsets(&[enc1::<Plain, u16>(f0)], false)); }
            N7::V28 => { o.push(28); }
            N7::V29 => { o.push(29); }
            N7::V30(f0) => { o.push(94); put_payload(o, &with_offsets(&[enc1::<Plain, u16>(f0)], false)); }
            N7::V31 => { o.push(31); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (N7::V0(a0), N7::V0(b0)) => a0.same(b0), (N7::V1, N7::V1) => true, (N7::V2, N7::V2) => true, (N7::V3(a0), N7::V3(b0)) => a0.same(b0), (N7::V4, N7::V4) => true, (N7::V5, N7::V5) => true, (N7::V6(a0), N7::V6(b0)) => a0.same(b0), (N7::V7, N7::V7) => true, (N7::V8, N7::V8) => true, (N7::V9(a0), N7::V9(b0)) => a0.same(b0), (N7::V10, N7::V10) => true, (N7::V11, N7::V11) => true, (N7::V12(a0), N7::V12(b0)) => a0.same(b0), (N7::V13, N7::V13) => true, (N7::V14, N7::V14) => true, (N7::V15(a0), N7::V15(b0)) => a0.same(b0), (N7::V16, N7::V16) => true, (N7::V17, N7::V17) => true, (N7::V18(a0), N7::V18(b0)) => a0.same(b0), (N7::V19, N7::V19) => true, (N7::V20, N7::V20) => true, (N7::V21(a0), N7::V21(b0)) => a0.same(b0), (N7::V22, N7::V22) => true, (N7::V23, N7::V23) => true, (N7::V24(a0), N7::V24(b0)) => a0.same(b0), (N7::V25, N7::V25) => true, (N7::V26, N7::V26) => true, (N7::V27(a0), N7::V27(b0)) => a0.same(b0), (N7::V28, N7::V28) => true, (N7::V29, N7::V29) => true, (N7::V30(a0), N7::V30(b0)) => a0.same(b0), (N7::V31, N7::V31) => true, _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(32) { 0 => N7::V0(<u16 as Spec>::random(g)), 1 => N7::V1, 2 => N7::V2, 3 => N7::V3(<u16 as Spec>::random(g)), 4 => N7::V4, 5 => N7::V5, 6 => N7::V6(<u16 as Spec>::random(g)), 7 => N7::V7, 8 => N7::V8, 9 => N7::V9(<u16 as Spec>::random(g)), 10 => N7::V10, 11 => N7::V11, 12 => N7::V12(<u16 as Spec>::random(g)), 13 => N7::V13, 14 => N7::V14, 15 => N7::V15(<u16 as Spec>::random(g)), 16 => N7::V16, 17 => N7::V17, 18 => N7::V18(<u16 as Spec>::random(g)), 19 => N7::V19, 20 => N7::V20, 21 => N7::V21(<u16 as Spec>::random(g)), 22 => N7::V22, 23 => N7::V23, 24 => N7::V24(<u16 as Spec>::random(g)), 25 => N7::V25, 26 => N7::V26, 27 => N7::V27(<u16 as Spec>::random(g)), 28 => N7::V28, 29 => N7::V29, 30 => N7::V30(<u16 as Spec>::random(g)), _ => N7::V31, }) }
}
impl Hist for N7 {
    const LATEST: u16 = 1;
    const REVISION: u16 = N7::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(32) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, u16>(g)], false)); }
                1 => { o.push(1); }
                2 => { o.push(2); }
                3 => { o.push(67); put_payload(o, &with_offsets(&[gen1::<Plain, u16>(g)], false)); }
                4 => { o.push(4); }
                5 => { o.push(5); }
                6 => { o.push(70); put_payload(o, &with_offsets(&[gen1::<Plain, u16>(g)], false)); }
                7 => { o.push(7); }
                8 => { o.push(8); }
                9 => { o.push(73); put_payload(o, &with_offsets(&[gen1::<Plain, u16>(g)], false)); }
                10 => { o.push(10); }
                11 => { o.push(11); }
                12 => { o.push(76); put_payload(o, &with_offsets(&[gen1::<Plain, u16>(g)], false)); }
                13 => { o.push(13); }
                14 => { o.push(14); }
                15 => { o.push(79); put_payload(o, &with_offsets(&[gen1::<Plain, u16>(g)], false)); }
                16 => { o.push(16); }
                17 => { o.push(17); }
                18 => { o.push(82); put_payload(o, &with_offsets(&[gen1::<Plain, u16>(g)], false)); }
                19 => { o.push(19); }
                20 => { o.push(20); }
                21 => { o.push(85); put_payload(o, &with_offsets(&[gen1::<Plain, u16>(g)], false)); }
                22 => { o.push(22); }
                23 => { o.push(23); }
                24 => { o.push(88); put_payload(o, &with_offsets(&[gen1::<Plain, u16>(g)], false)); }
                25 => { o.push(25); }
                26 => { o.push(26); }
                27 => { o.push(91); put_payload(o, &with_offsets(&[gen1::<Plain, u16>(g)], false)); }
                28 => { o.push(28); }
                29 => { o.push(29); }
                30 => { o.push(94); put_payload(o, &with_offsets(&[gen1::<Plain, u16>(g)], false)); }
                _ => { o.push(31); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 1);
        let v = match rev {
            1 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V0(f0)
                }
                (1, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V1
                }
                (2, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V2
                }
                (3, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V3(f0)
                }
                (4, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V4
                }
                (5, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V5
                }
                (6, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V6(f0)
                }
                (7, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V7
                }
                (8, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V8
                }
                (9, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V9(f0)
                }
                (10, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V10
                }
                (11, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V11
                }
                (12, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V12(f0)
                }
                (13, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V13
                }
                (14, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V14
                }
                (15, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V15(f0)
                }
                (16, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V16
                }
                (17, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V17
                }
                (18, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V18(f0)
                }
                (19, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V19
                }
                (20, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V20
                }
                (21, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V21(f0)
                }
                (22, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V22
                }
                (23, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V23
                }
                (24, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V24(f0)
                }
                (25, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V25
                }
                (26, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V26
                }
                (27, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V27(f0)
                }
                (28, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V28
                }
                (29, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V29
                }
                (30, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V30(f0)
                }
                (31, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    N7::V31
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("V0", 0), ("V1", 1), ("V2", 2), ("V3", 3), ("V4", 4), ("V5", 5), ("V6", 6), ("V7", 7), ("V8", 8), ("V9", 9), ("V10", 10), ("V11", 11), ("V12", 12), ("V13", 13), ("V14", 14), ("V15", 15), ("V16", 16), ("V17", 17), ("V18", 18), ("V19", 19), ("V20", 20), ("V21", 21), ("V22", 22), ("V23", 23), ("V24", 24), ("V25", 25), ("V26", 26), ("V27", 27), ("V28", 28), ("V29", 29), ("V30", 30), ("V31", 31)];
        if N7::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", N7::walk_revisioned_variant_table(1))) }
        for d in 0..34 { if N7::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        if !N7::walk_revisioned_variant_table(2).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for N7 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(75) {
                    0 => { let _ = w.into_v0(); }
                    1 => { let _ = w.decode_v0(); }
                    2 => { let _ = w.v0_view(); }
                    3 => { let _ = w.into_v1(); }
                    4 => { let _ = w.decode_v1(); }
                    5 => { let _ = w.into_v2(); }
                    6 => { let _ = w.decode_v2(); }
                    7 => { let _ = w.into_v3(); }
                    8 => { let _ = w.decode_v3(); }
                    9 => { let _ = w.v3_view(); }
                    10 => { let _ = w.into_v4(); }
                    11 => { let _ = w.decode_v4(); }
                    12 => { let _ = w.into_v5(); }
                    13 => { let _ = w.decode_v5(); }
                    14 => { let _ = w.into_v6(); }
                    15 => { let _ = w.decode_v6(); }
                    16 => { let _ = w.v6_view(); }
                    17 => { let _ = w.into_v7(); }
                    18 => { let _ = w.decode_v7(); }
                    19 => { let _ = w.into_v8(); }
                    20 => { let _ = w.decode_v8(); }
                    21 => { let _ = w.into_v9(); }
                    22 => { let _ = w.decode_v9(); }
                    23 => { let _ = w.v9_view(); }
                    24 => { let _ = w.into_v10(); }
                    25 => { let _ = w.decode_v10(); }
                    26 => { let _ = w.into_v11(); }
                    27 => { let _ = w.decode_v11(); }
                    28 => { let _ = w.into_v12(); }
                    29 => { let _ = w.decode_v12(); }
                    30 => { let _ = w.v12_view(); }
                    31 => { let _ = w.into_v13(); }
                    32 => { let _ = w.decode_v13(); }
                    33 => { let _ = w.into_v14(); }
                    34 => { let _ = w.decode_v14(); }
                    35 => { let _ = w.into_v15(); }
                    36 => { let _ = w.decode_v15(); }
                    37 => { let _ = w.v15_view(); }
                    38 => { let _ = w.into_v16(); }
                    39 => { let _ = w.decode_v16(); }
                    40 => { let _ = w.into_v17(); }
                    41 => { let _ = w.decode_v17(); }
                    42 => { let _ = w.into_v18(); }
                    43 => { let _ = w.decode_v18(); }
                    44 => { let _ = w.v18_view(); }
                    45 => { let _ = w.into_v19(); }
                    46 => { let _ = w.decode_v19(); }
                    47 => { let _ = w.into_v20(); }
                    48 => { let _ = w.decode_v20(); }
                    49 => { let _ = w.into_v21(); }
                    50 => { let _ = w.decode_v21(); }
                    51 => { let _ = w.v21_view(); }
                    52 => { let _ = w.into_v22(); }
                    53 => { let _ = w.decode_v22(); }
                    54 => { let _ = w.into_v23(); }
                    55 => { let _ = w.decode_v23(); }
                    56 => { let _ = w.into_v24(); }
                    57 => { let _ = w.decode_v24(); }
                    58 => { let _ = w.v24_view(); }
                    59 => { let _ = w.into_v25(); }
                    60 => { let _ = w.decode_v25(); }
                    61 => { let _ = w.into_v26(); }
                    62 => { let _ = w.decode_v26(); }
                    63 => { let _ = w.into_v27(); }
                    64 => { let _ = w.decode_v27(); }
                    65 => { let _ = w.v27_view(); }
                    66 => { let _ = w.into_v28(); }
                    67 => { let _ = w.decode_v28(); }
                    68 => { let _ = w.into_v29(); }
                    69 => { let _ = w.decode_v29(); }
                    70 => { let _ = w.into_v30(); }
                    71 => { let _ = w.decode_v30(); }
                    72 => { let _ = w.v30_view(); }
                    73 => { let _ = w.into_v31(); }
                    74 => { let _ = w.decode_v31(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if N7::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("V0", w.is_v0()), ("V1", w.is_v1()), ("V2", w.is_v2()), ("V3", w.is_v3()), ("V4", w.is_v4()), ("V5", w.is_v5()), ("V6", w.is_v6()), ("V7", w.is_v7()), ("V8", w.is_v8()), ("V9", w.is_v9()), ("V10", w.is_v10()), ("V11", w.is_v11()), ("V12", w.is_v12()), ("V13", w.is_v13()), ("V14", w.is_v14()), ("V15", w.is_v15()), ("V16", w.is_v16()), ("V17", w.is_v17()), ("V18", w.is_v18()), ("V19", w.is_v19()), ("V20", w.is_v20()), ("V21", w.is_v21()), ("V22", w.is_v22()), ("V23", w.is_v23()), ("V24", w.is_v24()), ("V25", w.is_v25()), ("V26", w.is_v26()), ("V27", w.is_v27()), ("V28", w.is_v28()), ("V29", w.is_v29()), ("V30", w.is_v30()), ("V31", w.is_v31())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(75);
        if g.below(5) != 0 { k = match sh.variant { "V0" => 0 + g.below(3), "V1" => 3 + g.below(2), "V2" => 5 + g.below(2), "V3" => 7 + g.below(3), "V4" => 10 + g.below(2), "V5" => 12 + g.below(2), "V6" => 14 + g.below(3), "V7" => 17 + g.below(2), "V8" => 19 + g.below(2), "V9" => 21 + g.below(3), "V10" => 24 + g.below(2), "V11" => 26 + g.below(2), "V12" => 28 + g.below(3), "V13" => 31 + g.below(2), "V14" => 33 + g.below(2), "V15" => 35 + g.below(3), "V16" => 38 + g.below(2), "V17" => 40 + g.below(2), "V18" => 42 + g.below(3), "V19" => 45 + g.below(2), "V20" => 47 + g.below(2), "V21" => 49 + g.below(3), "V22" => 52 + g.below(2), "V23" => 54 + g.below(2), "V24" => 56 + g.below(3), "V25" => 59 + g.below(2), "V26" => 61 + g.below(2), "V27" => 63 + g.below(3), "V28" => 66 + g.below(2), "V29" => 68 + g.below(2), "V30" => 70 + g.below(3), "V31" => 73 + g.below(2), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "V0"; let r = w.into_v0(); if !ok { return if r.is_ok() { bad("into_v0 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v0", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "V0"; let r = w.decode_v0(); if !ok { return if r.is_ok() { bad("decode_v0 of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V0(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v0", f0, r) }
            2 => { let ok = sh.variant == "V0"; let r = w.v0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v0_view of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V0(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v0_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            3 => { let ok = sh.variant == "V1"; let r = w.into_v1(); if !ok { return if r.is_ok() { bad("into_v1 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v1", r)?; Ok(()) }
            4 => { let ok = sh.variant == "V1"; let r = w.decode_v1(); if !ok { return if r.is_ok() { bad("decode_v1 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v1", r)?; Ok(()) }
            5 => { let ok = sh.variant == "V2"; let r = w.into_v2(); if !ok { return if r.is_ok() { bad("into_v2 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v2", r)?; Ok(()) }
            6 => { let ok = sh.variant == "V2"; let r = w.decode_v2(); if !ok { return if r.is_ok() { bad("decode_v2 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v2", r)?; Ok(()) }
            7 => { let ok = sh.variant == "V3"; let r = w.into_v3(); if !ok { return if r.is_ok() { bad("into_v3 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v3", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            8 => { let ok = sh.variant == "V3"; let r = w.decode_v3(); if !ok { return if r.is_ok() { bad("decode_v3 of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V3(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v3", f0, r) }
            9 => { let ok = sh.variant == "V3"; let r = w.v3_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v3_view of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V3(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v3_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            10 => { let ok = sh.variant == "V4"; let r = w.into_v4(); if !ok { return if r.is_ok() { bad("into_v4 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v4", r)?; Ok(()) }
            11 => { let ok = sh.variant == "V4"; let r = w.decode_v4(); if !ok { return if r.is_ok() { bad("decode_v4 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v4", r)?; Ok(()) }
            12 => { let ok = sh.variant == "V5"; let r = w.into_v5(); if !ok { return if r.is_ok() { bad("into_v5 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v5", r)?; Ok(()) }
            13 => { let ok = sh.variant == "V5"; let r = w.decode_v5(); if !ok { return if r.is_ok() { bad("decode_v5 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v5", r)?; Ok(()) }
            14 => { let ok = sh.variant == "V6"; let r = w.into_v6(); if !ok { return if r.is_ok() { bad("into_v6 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v6", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            15 => { let ok = sh.variant == "V6"; let r = w.decode_v6(); if !ok { return if r.is_ok() { bad("decode_v6 of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V6(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v6", f0, r) }
            16 => { let ok = sh.variant == "V6"; let r = w.v6_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v6_view of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V6(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v6_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            17 => { let ok = sh.variant == "V7"; let r = w.into_v7(); if !ok { return if r.is_ok() { bad("into_v7 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v7", r)?; Ok(()) }
            18 => { let ok = sh.variant == "V7"; let r = w.decode_v7(); if !ok { return if r.is_ok() { bad("decode_v7 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v7", r)?; Ok(()) }
            19 => { let ok = sh.variant == "V8"; let r = w.into_v8(); if !ok { return if r.is_ok() { bad("into_v8 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v8", r)?; Ok(()) }
            20 => { let ok = sh.variant == "V8"; let r = w.decode_v8(); if !ok { return if r.is_ok() { bad("decode_v8 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v8", r)?; Ok(()) }
            21 => { let ok = sh.variant == "V9"; let r = w.into_v9(); if !ok { return if r.is_ok() { bad("into_v9 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v9", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            22 => { let ok = sh.variant == "V9"; let r = w.decode_v9(); if !ok { return if r.is_ok() { bad("decode_v9 of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V9(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v9", f0, r) }
            23 => { let ok = sh.variant == "V9"; let r = w.v9_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v9_view of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V9(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v9_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            24 => { let ok = sh.variant == "V10"; let r = w.into_v10(); if !ok { return if r.is_ok() { bad("into_v10 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v10", r)?; Ok(()) }
            25 => { let ok = sh.variant == "V10"; let r = w.decode_v10(); if !ok { return if r.is_ok() { bad("decode_v10 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v10", r)?; Ok(()) }
            26 => { let ok = sh.variant == "V11"; let r = w.into_v11(); if !ok { return if r.is_ok() { bad("into_v11 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v11", r)?; Ok(()) }
            27 => { let ok = sh.variant == "V11"; let r = w.decode_v11(); if !ok { return if r.is_ok() { bad("decode_v11 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v11", r)?; Ok(()) }
            28 => { let ok = sh.variant == "V12"; let r = w.into_v12(); if !ok { return if r.is_ok() { bad("into_v12 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v12", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            29 => { let ok = sh.variant == "V12"; let r = w.decode_v12(); if !ok { return if r.is_ok() { bad("decode_v12 of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V12(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v12", f0, r) }
            30 => { let ok = sh.variant == "V12"; let r = w.v12_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v12_view of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V12(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v12_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            31 => { let ok = sh.variant == "V13"; let r = w.into_v13(); if !ok { return if r.is_ok() { bad("into_v13 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v13", r)?; Ok(()) }
            32 => { let ok = sh.variant == "V13"; let r = w.decode_v13(); if !ok { return if r.is_ok() { bad("decode_v13 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v13", r)?; Ok(()) }
            33 => { let ok = sh.variant == "V14"; let r = w.into_v14(); if !ok { return if r.is_ok() { bad("into_v14 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v14", r)?; Ok(()) }
            34 => { let ok = sh.variant == "V14"; let r = w.decode_v14(); if !ok { return if r.is_ok() { bad("decode_v14 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v14", r)?; Ok(()) }
            35 => { let ok = sh.variant == "V15"; let r = w.into_v15(); if !ok { return if r.is_ok() { bad("into_v15 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v15", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            36 => { let ok = sh.variant == "V15"; let r = w.decode_v15(); if !ok { return if r.is_ok() { bad("decode_v15 of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V15(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v15", f0, r) }
            37 => { let ok = sh.variant == "V15"; let r = w.v15_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v15_view of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V15(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v15_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            38 => { let ok = sh.variant == "V16"; let r = w.into_v16(); if !ok { return if r.is_ok() { bad("into_v16 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v16", r)?; Ok(()) }
            39 => { let ok = sh.variant == "V16"; let r = w.decode_v16(); if !ok { return if r.is_ok() { bad("decode_v16 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v16", r)?; Ok(()) }
            40 => { let ok = sh.variant == "V17"; let r = w.into_v17(); if !ok { return if r.is_ok() { bad("into_v17 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v17", r)?; Ok(()) }
            41 => { let ok = sh.variant == "V17"; let r = w.decode_v17(); if !ok { return if r.is_ok() { bad("decode_v17 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v17", r)?; Ok(()) }
            42 => { let ok = sh.variant == "V18"; let r = w.into_v18(); if !ok { return if r.is_ok() { bad("into_v18 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v18", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            43 => { let ok = sh.variant == "V18"; let r = w.decode_v18(); if !ok { return if r.is_ok() { bad("decode_v18 of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V18(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v18", f0, r) }
            44 => { let ok = sh.variant == "V18"; let r = w.v18_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v18_view of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V18(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v18_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            45 => { let ok = sh.variant == "V19"; let r = w.into_v19(); if !ok { return if r.is_ok() { bad("into_v19 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v19", r)?; Ok(()) }
            46 => { let ok = sh.variant == "V19"; let r = w.decode_v19(); if !ok { return if r.is_ok() { bad("decode_v19 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v19", r)?; Ok(()) }
            47 => { let ok = sh.variant == "V20"; let r = w.into_v20(); if !ok { return if r.is_ok() { bad("into_v20 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v20", r)?; Ok(()) }
            48 => { let ok = sh.variant == "V20"; let r = w.decode_v20(); if !ok { return if r.is_ok() { bad("decode_v20 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v20", r)?; Ok(()) }
            49 => { let ok = sh.variant == "V21"; let r = w.into_v21(); if !ok { return if r.is_ok() { bad("into_v21 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v21", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            50 => { let ok = sh.variant == "V21"; let r = w.decode_v21(); if !ok { return if r.is_ok() { bad("decode_v21 of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V21(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v21", f0, r) }
            51 => { let ok = sh.variant == "V21"; let r = w.v21_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v21_view of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V21(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v21_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            52 => { let ok = sh.variant == "V22"; let r = w.into_v22(); if !ok { return if r.is_ok() { bad("into_v22 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v22", r)?; Ok(()) }
            53 => { let ok = sh.variant == "V22"; let r = w.decode_v22(); if !ok { return if r.is_ok() { bad("decode_v22 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v22", r)?; Ok(()) }
            54 => { let ok = sh.variant == "V23"; let r = w.into_v23(); if !ok { return if r.is_ok() { bad("into_v23 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v23", r)?; Ok(()) }
            55 => { let ok = sh.variant == "V23"; let r = w.decode_v23(); if !ok { return if r.is_ok() { bad("decode_v23 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v23", r)?; Ok(()) }
            56 => { let ok = sh.variant == "V24"; let r = w.into_v24(); if !ok { return if r.is_ok() { bad("into_v24 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v24", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            57 => { let ok = sh.variant == "V24"; let r = w.decode_v24(); if !ok { return if r.is_ok() { bad("decode_v24 of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V24(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v24", f0, r) }
            58 => { let ok = sh.variant == "V24"; let r = w.v24_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v24_view of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V24(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v24_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            59 => { let ok = sh.variant == "V25"; let r = w.into_v25(); if !ok { return if r.is_ok() { bad("into_v25 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v25", r)?; Ok(()) }
            60 => { let ok = sh.variant == "V25"; let r = w.decode_v25(); if !ok { return if r.is_ok() { bad("decode_v25 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v25", r)?; Ok(()) }
            61 => { let ok = sh.variant == "V26"; let r = w.into_v26(); if !ok { return if r.is_ok() { bad("into_v26 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v26", r)?; Ok(()) }
            62 => { let ok = sh.variant == "V26"; let r = w.decode_v26(); if !ok { return if r.is_ok() { bad("decode_v26 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v26", r)?; Ok(()) }
            63 => { let ok = sh.variant == "V27"; let r = w.into_v27(); if !ok { return if r.is_ok() { bad("into_v27 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v27", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            64 => { let ok = sh.variant == "V27"; let r = w.decode_v27(); if !ok { return if r.is_ok() { bad("decode_v27 of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V27(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v27", f0, r) }
            65 => { let ok = sh.variant == "V27"; let r = w.v27_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v27_view of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V27(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v27_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            66 => { let ok = sh.variant == "V28"; let r = w.into_v28(); if !ok { return if r.is_ok() { bad("into_v28 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v28", r)?; Ok(()) }
            67 => { let ok = sh.variant == "V28"; let r = w.decode_v28(); if !ok { return if r.is_ok() { bad("decode_v28 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v28", r)?; Ok(()) }
            68 => { let ok = sh.variant == "V29"; let r = w.into_v29(); if !ok { return if r.is_ok() { bad("into_v29 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v29", r)?; Ok(()) }
            69 => { let ok = sh.variant == "V29"; let r = w.decode_v29(); if !ok { return if r.is_ok() { bad("decode_v29 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v29", r)?; Ok(()) }
            70 => { let ok = sh.variant == "V30"; let r = w.into_v30(); if !ok { return if r.is_ok() { bad("into_v30 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_v30", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            71 => { let ok = sh.variant == "V30"; let r = w.decode_v30(); if !ok { return if r.is_ok() { bad("decode_v30 of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V30(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v30", f0, r) }
            72 => { let ok = sh.variant == "V30"; let r = w.v30_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v30_view of another variant succeeded") } else { Err(Stop::Expected) } } let N7::V30(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v30_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            73 => { let ok = sh.variant == "V31"; let r = w.into_v31(); if !ok { return if r.is_ok() { bad("into_v31 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v31", r)?; Ok(()) }
            74 => { let ok = sh.variant == "V31"; let r = w.decode_v31(); if !ok { return if r.is_ok() { bad("decode_v31 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v31", r)?; Ok(()) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision = 2)]
#[derive(Debug, Clone)]
pub enum N8 {
    Fx(#[revision(fixed)] u64),
    Bk(#[revision(specialised)] Vec<u16>),
    Both { #[revision(fixed)] f0: i128, #[revision(specialised)] f1: Vec<bool>, #[revision(start = 2)] f2: u8 },
}
impl N8 {
    fn vname(&self) -> &'static str { match self { N8::Fx { .. } => "Fx", N8::Bk { .. } => "Bk", N8::Both { .. } => "Both" } }
}
impl Spec for N8 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        match self {
            N8::Fx(f0) => { (0u32).enc(o); o.extend(enc1::<Fixed, u64>(f0)); }
            N8::Bk(f0) => { (1u32).enc(o); o.extend(enc1::<Bulk, Vec<u16>>(f0)); }
            N8::Both { f0, f1, f2 } => { (2u32).enc(o); o.extend(enc1::<Fixed, i128>(f0)); o.extend(enc1::<Bulk, Vec<bool>>(f1)); o.extend(enc1::<Plain, u8>(f2)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (N8::Fx(a0), N8::Fx(b0)) => a0.same(b0), (N8::Bk(a0), N8::Bk(b0)) => a0.same(b0), (N8::Both { f0: a0, f1: a1, f2: a2 }, N8::Both { f0: b0, f1: b1, f2: b2 }) => a0.same(b0) && a1.same(b1) && a2.same(b2), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(3) { 0 => N8::Fx(<u64 as Spec>::random(g)), 1 => N8::Bk(<Vec<u16> as Spec>::random(g)), _ => N8::Both { f0: <i128 as Spec>::random(g), f1: <Vec<bool> as Spec>::random(g), f2: <u8 as Spec>::random(g) }, }) }
}
impl Hist for N8 {
    const LATEST: u16 = 2;
    const REVISION: u16 = N8::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(3) {
                0 => { (0u32).enc(o); o.extend(gen1::<Fixed, u64>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Bulk, Vec<u16>>(g)); }
                _ => { (2u32).enc(o); o.extend(gen1::<Fixed, i128>(g)); o.extend(gen1::<Bulk, Vec<bool>>(g)); }
            },
            2 => match g.below(3) {
                0 => { (0u32).enc(o); o.extend(gen1::<Fixed, u64>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Bulk, Vec<u16>>(g)); }
                _ => { (2u32).enc(o); o.extend(gen1::<Fixed, i128>(g)); o.extend(gen1::<Bulk, Vec<bool>>(g)); o.extend(gen1::<Plain, u8>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 3);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Fixed, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N8::Fx(f0)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Bulk, Vec<u16>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N8::Bk(f0)
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Fixed, i128>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Bulk, Vec<bool>>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = <u8 as Default>::default();
                    sh.body = (a, c.pos);
                    N8::Both { f0, f1, f2 }
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Fixed, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N8::Fx(f0)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Bulk, Vec<u16>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N8::Bk(f0)
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Fixed, i128>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Bulk, Vec<bool>>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, u8>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    N8::Both { f0, f1, f2 }
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("Fx", 0), ("Bk", 1), ("Both", 2)];
        if N8::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", N8::walk_revisioned_variant_table(1))) }
        for d in 0..5 { if N8::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("Fx", 0), ("Bk", 1), ("Both", 2)];
        if N8::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", N8::walk_revisioned_variant_table(2))) }
        for d in 0..5 { if N8::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        if !N8::walk_revisioned_variant_table(3).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for N8 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(7) {
                    0 => { let _ = w.into_fx(); }
                    1 => { let _ = w.decode_fx(); }
                    2 => { let _ = w.fx_view(); }
                    3 => { let _ = w.into_bk(); }
                    4 => { let _ = w.decode_bk(); }
                    5 => { let _ = w.bk_view(); }
                    6 => { let _ = w.both_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if N8::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Fx", w.is_fx()), ("Bk", w.is_bk()), ("Both", w.is_both())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(7);
        if g.below(5) != 0 { k = match sh.variant { "Fx" => 0 + g.below(3), "Bk" => 3 + g.below(3), "Both" => 6 + g.below(1), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Fx"; let r = w.into_fx(); if !ok { return if r.is_ok() { bad("into_fx of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u64 as W>::WALKABLE && false; if nested::<u64, R>("into_fx", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "Fx"; let r = w.decode_fx(); if !ok { return if r.is_ok() { bad("decode_fx of another variant succeeded") } else { Err(Stop::Expected) } } let N8::Fx(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_fx", f0, r) }
            2 => { let ok = sh.variant == "Fx"; let r = w.fx_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("fx_view of another variant succeeded") } else { Err(Stop::Expected) } } let N8::Fx(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("fx_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Fixed, u64>(f0)]) }
            3 => { let ok = sh.variant == "Bk"; let r = w.into_bk(); if !ok { return if r.is_ok() { bad("into_bk of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <Vec<u16> as W>::WALKABLE && false; if nested::<Vec<u16>, R>("into_bk", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            4 => { let ok = sh.variant == "Bk"; let r = w.decode_bk(); if !ok { return if r.is_ok() { bad("decode_bk of another variant succeeded") } else { Err(Stop::Expected) } } let N8::Bk(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_bk", f0, r) }
            5 => { let ok = sh.variant == "Bk"; let r = w.bk_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("bk_view of another variant succeeded") } else { Err(Stop::Expected) } } let N8::Bk(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("bk_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Bulk, Vec<u16>>(f0)]) }
            6 => { let ok = sh.variant == "Both"; let r = w.both_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("both_view of another variant succeeded") } else { Err(Stop::Expected) } } let N8::Both { f0, f1, f2 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Fixed, i128>(f0), enc1::<Bulk, Vec<bool>>(f1), enc1::<Plain, u8>(f2)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("both_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("both_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision = 1)]
#[derive(Debug, Clone)]
pub enum N9 {
    Only(String),
}
impl N9 {
    fn vname(&self) -> &'static str { match self { N9::Only { .. } => "Only" } }
}
impl Spec for N9 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        match self {
            N9::Only(f0) => { (0u32).enc(o); o.extend(enc1::<Plain, String>(f0)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (N9::Only(a0), N9::Only(b0)) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(1) { _ => N9::Only(<String as Spec>::random(g)), }) }
}
impl Hist for N9 {
    const LATEST: u16 = 1;
    const REVISION: u16 = N9::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(1) {
                _ => { (0u32).enc(o); o.extend(gen1::<Plain, String>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 1);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    N9::Only(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("Only", 0)];
        if N9::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", N9::walk_revisioned_variant_table(1))) }
        for d in 0..3 { if N9::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        if !N9::walk_revisioned_variant_table(2).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for N9 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(3) {
                    0 => { let _ = w.into_only(); }
                    1 => { let _ = w.decode_only(); }
                    2 => { let _ = w.only_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if N9::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Only", w.is_only())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(3);
        if g.below(5) != 0 { k = match sh.variant { "Only" => 0 + g.below(3), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Only"; let r = w.into_only(); if !ok { return if r.is_ok() { bad("into_only of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <String as W>::WALKABLE && true; if nested::<String, R>("into_only", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "Only"; let r = w.decode_only(); if !ok { return if r.is_ok() { bad("decode_only of another variant succeeded") } else { Err(Stop::Expected) } } let N9::Only(f0) = &v; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_only", f0, r) }
            2 => { let ok = sh.variant == "Only"; let r = w.only_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("only_view of another variant succeeded") } else { Err(Stop::Expected) } } let N9::Only(f0) = &v; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("only_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, String>(f0)]) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision = 1)]
#[derive(Debug, Clone)]
pub struct P1 { pub f0: N1, pub f1: Vec<H2>, pub f2: Option<N3>, pub f3: Box<N2>, pub f4: BTreeMap<u8, I1>, pub f5: I6 }
impl P1 {
}
impl Spec for P1 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        o.extend(enc1::<Plain, N1>(&self.f0));
        o.extend(enc1::<Plain, Vec<H2>>(&self.f1));
        o.extend(enc1::<Plain, Option<N3>>(&self.f2));
        o.extend(enc1::<Plain, Box<N2>>(&self.f3));
        o.extend(enc1::<Plain, BTreeMap<u8, I1>>(&self.f4));
        o.extend(enc1::<Plain, I6>(&self.f5));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.f2.same(&o.f2) && self.f3.same(&o.f3) && self.f4.same(&o.f4) && self.f5.same(&o.f5) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; P1 { f0: <N1 as Spec>::random(g), f1: <Vec<H2> as Spec>::random(g), f2: <Option<N3> as Spec>::random(g), f3: <Box<N2> as Spec>::random(g), f4: <BTreeMap<u8, I1> as Spec>::random(g), f5: <I6 as Spec>::random(g) } }) }
}
impl Hist for P1 {
    const LATEST: u16 = 1;
    const REVISION: u16 = P1::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, N1>(g)); o.extend(gen1::<Plain, Vec<H2>>(g)); o.extend(gen1::<Plain, Option<N3>>(g)); o.extend(gen1::<Plain, Box<N2>>(g)); o.extend(gen1::<Plain, BTreeMap<u8, I1>>(g)); o.extend(gen1::<Plain, I6>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 6);
        match rev {
            1 => {
                let f0 = rd::<Plain, N1>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, Vec<H2>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Option<N3>>(c, &mut sh, Some(2))?;
                let f3 = rd::<Plain, Box<N2>>(c, &mut sh, Some(3))?;
                let f4 = rd::<Plain, BTreeMap<u8, I1>>(c, &mut sh, Some(4))?;
                let f5 = rd::<Plain, I6>(c, &mut sh, Some(5))?;
                #[allow(unused_mut)]
                let mut v = P1 { f0: f0, f1: f1, f2: f2, f3: f3, f4: f4, f5: f5 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if P1::walk_revisioned_field_names(1) != ["f0", "f1", "f2", "f3", "f4", "f5"] as [&str; 6] { return Err("field names at revision 1".into()) }
        if !P1::walk_revisioned_field_names(0).is_empty() || !P1::walk_revisioned_field_names(2).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for P1 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_f2().is_ok() && w.decode_f3().is_ok() && w.decode_f4().is_ok() && w.decode_f5().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(18) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_f2(); } 7 => { let _ = w.skip_f2(); } 8 => { let _ = w.walk_f2(); }
                    9 => { let _ = w.decode_f3(); } 10 => { let _ = w.skip_f3(); } 11 => { let _ = w.walk_f3(); }
                    12 => { let _ = w.decode_f4(); } 13 => { let _ = w.skip_f4(); } 14 => { let _ = w.walk_f4(); }
                    15 => { let _ = w.decode_f5(); } 16 => { let _ = w.skip_f5(); } 17 => { let _ = w.walk_f5(); }
                    _ => {} } }
                match g.below(13) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_f2(); } 5 => { let _ = w.into_f2_bytes(); }
                    6 => { let _ = w.into_walk_f3(); } 7 => { let _ = w.into_f3_bytes(); }
                    8 => { let _ = w.into_walk_f4(); } 9 => { let _ = w.into_f4_bytes(); }
                    10 => { let _ = w.into_walk_f5(); } 11 => { let _ = w.into_f5_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 6, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, N1, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, Vec<H2>, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, Option<N3>, Plain, false, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                3 => sfield!(plain w c g v sh R; 3, Box<N2>, Plain, false, f3, decode_f3, skip_f3, walk_f3, into_walk_f3, into_f3_bytes),
                4 => sfield!(plain w c g v sh R; 4, BTreeMap<u8, I1>, Plain, false, f4, decode_f4, skip_f4, walk_f4, into_walk_f4, into_f4_bytes),
                5 => sfield!(plain w c g v sh R; 5, I6, Plain, false, f5, decode_f5, skip_f5, walk_f5, into_walk_f5, into_f5_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(1, optimised, indexed_struct))]
#[derive(Debug, Clone)]
pub struct P2(pub N4, pub Vec<N3>, pub O1, pub Option<H8>);
impl P2 {
}
impl Spec for P2 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, N4>(&self.0), enc1::<Plain, Vec<N3>>(&self.1), enc1::<Plain, O1>(&self.2), enc1::<Plain, Option<H8>>(&self.3)], true));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; P2(<N4 as Spec>::random(g), <Vec<N3> as Spec>::random(g), <O1 as Spec>::random(g), <Option<H8> as Spec>::random(g)) }) }
}
impl Hist for P2 {
    const LATEST: u16 = 1;
    const REVISION: u16 = P2::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[gen1::<Plain, N4>(g), gen1::<Plain, Vec<N3>>(g), gen1::<Plain, O1>(g), gen1::<Plain, Option<H8>>(g)], true)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 4);
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(16)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, N4>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Plain, Vec<N3>>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Plain, O1>(c, &mut sh, Some(2))?;
                sh.odd |= idx::u32at(offs, 3) as usize != c.pos - base;
                let f3 = rd::<Plain, Option<H8>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = P2(f0, f1, f2, f3);
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if P2::walk_revisioned_field_names(1) != ["0", "1", "2", "3"] as [&str; 4] { return Err("field names at revision 1".into()) }
        if !P2::walk_revisioned_field_names(0).is_empty() || !P2::walk_revisioned_field_names(2).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for P2 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok() && w.decode_field_2().is_ok() && w.decode_field_3().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[false]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(12) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    6 => { let _ = w.decode_field_2(); } 7 => { let _ = w.skip_field_2(); } 8 => { let _ = w.walk_field_2(); }
                    9 => { let _ = w.decode_field_3(); } 10 => { let _ = w.skip_field_3(); } 11 => { let _ = w.walk_field_3(); }
                    _ => {} } }
                match g.below(9) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    4 => { let _ = w.into_walk_field_2(); } 5 => { let _ = w.into_field_2_bytes(); }
                    6 => { let _ = w.into_walk_field_3(); } 7 => { let _ = w.into_field_3_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 4, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, N4, Plain, false, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(plain w c g v sh R; 1, Vec<N3>, Plain, false, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                2 => sfield!(plain w c g v sh R; 2, O1, Plain, false, 2, decode_field_2, skip_field_2, walk_field_2, into_walk_field_2, into_field_2_bytes),
                3 => sfield!(plain w c g v sh R; 3, Option<H8>, Plain, false, 3, decode_field_3, skip_field_3, walk_field_3, into_walk_field_3, into_field_3_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision = 1)]
#[derive(Debug, Clone)]
pub enum P3 {
    A(H6),
    B(Vec<N2>),
    C { f0: I2, f1: N5 },
    D(N9),
}
impl P3 {
    fn vname(&self) -> &'static str { match self { P3::A { .. } => "A", P3::B { .. } => "B", P3::C { .. } => "C", P3::D { .. } => "D" } }
}
impl Spec for P3 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        match self {
            P3::A(f0) => { (0u32).enc(o); o.extend(enc1::<Plain, H6>(f0)); }
            P3::B(f0) => { (1u32).enc(o); o.extend(enc1::<Plain, Vec<N2>>(f0)); }
            P3::C { f0, f1 } => { (2u32).enc(o); o.extend(enc1::<Plain, I2>(f0)); o.extend(enc1::<Plain, N5>(f1)); }
            P3::D(f0) => { (3u32).enc(o); o.extend(enc1::<Plain, N9>(f0)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (P3::A(a0), P3::A(b0)) => a0.same(b0), (P3::B(a0), P3::B(b0)) => a0.same(b0), (P3::C { f0: a0, f1: a1 }, P3::C { f0: b0, f1: b1 }) => a0.same(b0) && a1.same(b1), (P3::D(a0), P3::D(b0)) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(4) { 0 => P3::A(<H6 as Spec>::random(g)), 1 => P3::B(<Vec<N2> as Spec>::random(g)), 2 => P3::C { f0: <I2 as Spec>::random(g), f1: <N5 as Spec>::random(g) }, _ => P3::D(<N9 as Spec>::random(g)), }) }
}
impl Hist for P3 {
    const LATEST: u16 = 1;
    const REVISION: u16 = P3::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(4) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, H6>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, Vec<N2>>(g)); }
                2 => { (2u32).enc(o); o.extend(gen1::<Plain, I2>(g)); o.extend(gen1::<Plain, N5>(g)); }
                _ => { (3u32).enc(o); o.extend(gen1::<Plain, N9>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 2);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, H6>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    P3::A(f0)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<N2>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    P3::B(f0)
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, I2>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, N5>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    P3::C { f0, f1 }
                }
                3 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, N9>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    P3::D(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("A", 0), ("B", 1), ("C", 2), ("D", 3)];
        if P3::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", P3::walk_revisioned_variant_table(1))) }
        for d in 0..6 { if P3::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        if !P3::walk_revisioned_variant_table(2).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for P3 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(10) {
                    0 => { let _ = w.into_a(); }
                    1 => { let _ = w.decode_a(); }
                    2 => { let _ = w.a_view(); }
                    3 => { let _ = w.into_b(); }
                    4 => { let _ = w.decode_b(); }
                    5 => { let _ = w.b_view(); }
                    6 => { let _ = w.c_view(); }
                    7 => { let _ = w.into_d(); }
                    8 => { let _ = w.decode_d(); }
                    9 => { let _ = w.d_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if P3::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("A", w.is_a()), ("B", w.is_b()), ("C", w.is_c()), ("D", w.is_d())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(10);
        if g.below(5) != 0 { k = match sh.variant { "A" => 0 + g.below(3), "B" => 3 + g.below(3), "C" => 6 + g.below(1), "D" => 7 + g.below(3), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "A"; let r = w.into_a(); if !ok { return if r.is_ok() { bad("into_a of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <H6 as W>::WALKABLE && true; if nested::<H6, R>("into_a", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "A"; let r = w.decode_a(); if !ok { return if r.is_ok() { bad("decode_a of another variant succeeded") } else { Err(Stop::Expected) } } let P3::A(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_a", f0, r) }
            2 => { let ok = sh.variant == "A"; let r = w.a_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("a_view of another variant succeeded") } else { Err(Stop::Expected) } } let P3::A(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("a_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, H6>(f0)]) }
            3 => { let ok = sh.variant == "B"; let r = w.into_b(); if !ok { return if r.is_ok() { bad("into_b of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <Vec<N2> as W>::WALKABLE && true; if nested::<Vec<N2>, R>("into_b", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            4 => { let ok = sh.variant == "B"; let r = w.decode_b(); if !ok { return if r.is_ok() { bad("decode_b of another variant succeeded") } else { Err(Stop::Expected) } } let P3::B(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_b", f0, r) }
            5 => { let ok = sh.variant == "B"; let r = w.b_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("b_view of another variant succeeded") } else { Err(Stop::Expected) } } let P3::B(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("b_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, Vec<N2>>(f0)]) }
            6 => { let ok = sh.variant == "C"; let r = w.c_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("c_view of another variant succeeded") } else { Err(Stop::Expected) } } let P3::C { f0, f1 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, I2>(f0), enc1::<Plain, N5>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("c_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("c_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            7 => { let ok = sh.variant == "D"; let r = w.into_d(); if !ok { return if r.is_ok() { bad("into_d of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <N9 as W>::WALKABLE && true; if nested::<N9, R>("into_d", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            8 => { let ok = sh.variant == "D"; let r = w.decode_d(); if !ok { return if r.is_ok() { bad("decode_d of another variant succeeded") } else { Err(Stop::Expected) } } let P3::D(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_d", f0, r) }
            9 => { let ok = sh.variant == "D"; let r = w.d_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("d_view of another variant succeeded") } else { Err(Stop::Expected) } } let P3::D(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("d_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, N9>(f0)]) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(1, optimised))]
#[derive(Debug, Clone)]
pub enum P4 {
    #[revision(size = "varlen")] A(H6),
    #[revision(size = "varlen")] B(Vec<N2>),
    #[revision(size = "varlen")] C { f0: I2, f1: N5 },
}
impl P4 {
    fn vname(&self) -> &'static str { match self { P4::A { .. } => "A", P4::B { .. } => "B", P4::C { .. } => "C" } }
}
impl Spec for P4 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        match self {
            P4::A(f0) => { o.push(64); put_payload(o, &with_offsets(&[enc1::<Plain, H6>(f0)], false)); }
            P4::B(f0) => { o.push(65); put_payload(o, &with_offsets(&[enc1::<Plain, Vec<N2>>(f0)], false)); }
            P4::C { f0, f1 } => { o.push(66); put_payload(o, &with_offsets(&[enc1::<Plain, I2>(f0), enc1::<Plain, N5>(f1)], false)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (P4::A(a0), P4::A(b0)) => a0.same(b0), (P4::B(a0), P4::B(b0)) => a0.same(b0), (P4::C { f0: a0, f1: a1 }, P4::C { f0: b0, f1: b1 }) => a0.same(b0) && a1.same(b1), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(3) { 0 => P4::A(<H6 as Spec>::random(g)), 1 => P4::B(<Vec<N2> as Spec>::random(g)), _ => P4::C { f0: <I2 as Spec>::random(g), f1: <N5 as Spec>::random(g) }, }) }
}
impl Hist for P4 {
    const LATEST: u16 = 1;
    const REVISION: u16 = P4::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(3) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, H6>(g)], false)); }
                1 => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, Vec<N2>>(g)], false)); }
                _ => { o.push(66); put_payload(o, &with_offsets(&[gen1::<Plain, I2>(g), gen1::<Plain, N5>(g)], false)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 2);
        let v = match rev {
            1 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, H6>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    P4::A(f0)
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<N2>>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    P4::B(f0)
                }
                (2, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, I2>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, N5>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    P4::C { f0, f1 }
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("A", 0), ("B", 1), ("C", 2)];
        if P4::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", P4::walk_revisioned_variant_table(1))) }
        for d in 0..5 { if P4::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        if !P4::walk_revisioned_variant_table(2).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for P4 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(7) {
                    0 => { let _ = w.into_a(); }
                    1 => { let _ = w.decode_a(); }
                    2 => { let _ = w.a_view(); }
                    3 => { let _ = w.into_b(); }
                    4 => { let _ = w.decode_b(); }
                    5 => { let _ = w.b_view(); }
                    6 => { let _ = w.c_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if P4::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("A", w.is_a()), ("B", w.is_b()), ("C", w.is_c())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(7);
        if g.below(5) != 0 { k = match sh.variant { "A" => 0 + g.below(3), "B" => 3 + g.below(3), "C" => 6 + g.below(1), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "A"; let r = w.into_a(); if !ok { return if r.is_ok() { bad("into_a of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <H6 as W>::WALKABLE && true; if nested::<H6, R>("into_a", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "A"; let r = w.decode_a(); if !ok { return if r.is_ok() { bad("decode_a of another variant succeeded") } else { Err(Stop::Expected) } } let P4::A(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_a", f0, r) }
            2 => { let ok = sh.variant == "A"; let r = w.a_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("a_view of another variant succeeded") } else { Err(Stop::Expected) } } let P4::A(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("a_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, H6>(f0)]) }
            3 => { let ok = sh.variant == "B"; let r = w.into_b(); if !ok { return if r.is_ok() { bad("into_b of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <Vec<N2> as W>::WALKABLE && true; if nested::<Vec<N2>, R>("into_b", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            4 => { let ok = sh.variant == "B"; let r = w.decode_b(); if !ok { return if r.is_ok() { bad("decode_b of another variant succeeded") } else { Err(Stop::Expected) } } let P4::B(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_b", f0, r) }
            5 => { let ok = sh.variant == "B"; let r = w.b_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("b_view of another variant succeeded") } else { Err(Stop::Expected) } } let P4::B(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("b_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, Vec<N2>>(f0)]) }
            6 => { let ok = sh.variant == "C"; let r = w.c_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("c_view of another variant succeeded") } else { Err(Stop::Expected) } } let P4::C { f0, f1 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, I2>(f0), enc1::<Plain, N5>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("c_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("c_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            _ => unreachable!(),
        }
    }
}

#[revisioned()]
#[revision(revision = 2)]
#[derive(Debug, Clone)]
pub struct S1 { pub f0: i64, pub f1: Result<u64, String> }
impl S1 {
}
impl Spec for S1 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        o.extend(enc1::<Plain, i64>(&self.f0));
        o.extend(enc1::<Plain, Result<u64, String>>(&self.f1));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S1 { f0: <i64 as Spec>::random(g), f1: <Result<u64, String> as Spec>::random(g) } }) }
}
impl Hist for S1 {
    const LATEST: u16 = 2;
    const REVISION: u16 = S1::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, i64>(g)); o.extend(gen1::<Plain, Result<u64, String>>(g)); }
            2 => { o.extend(gen1::<Plain, i64>(g)); o.extend(gen1::<Plain, Result<u64, String>>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 2);
        match rev {
            1 => {
                let f0 = rd::<Plain, i64>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, Result<u64, String>>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S1 { f0: f0, f1: f1 };
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, i64>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, Result<u64, String>>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S1 { f0: f0, f1: f1 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S1::walk_revisioned_field_names(1) != ["f0", "f1"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if S1::walk_revisioned_field_names(2) != ["f0", "f1"] as [&str; 2] { return Err("field names at revision 2".into()) }
        if !S1::walk_revisioned_field_names(0).is_empty() || !S1::walk_revisioned_field_names(3).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S1 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(6) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    _ => {} } }
                match g.below(5) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 2, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, i64, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, Result<u64, String>, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision = 4)]
#[derive(Debug, Clone)]
pub struct S2 { pub f0: Vec<String>, #[revision(default_fn = "d_1", convert_fn = "c_1", end = 3, start = 2)] pub f1: BTreeMap<u8, String>, pub acc: u64, pub f3: u16, pub f4: String }
impl S2 {
    fn d_1(rev: u16) -> Result<BTreeMap<u8, String>, Error> { Ok(dflt::<BTreeMap<u8, String>>(rev, 1)) }
    fn c_1(&mut self, rev: u16, v: BTreeMap<u8, String>) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
}
impl Spec for S2 {
    fn enc(&self, o: &mut Vec<u8>) {
        4u16.enc(o);
        o.extend(enc1::<Plain, Vec<String>>(&self.f0));
        o.extend(enc1::<Plain, u64>(&self.acc));
        o.extend(enc1::<Plain, u16>(&self.f3));
        o.extend(enc1::<Plain, String>(&self.f4));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.acc.same(&o.acc) && self.f3.same(&o.f3) && self.f4.same(&o.f4) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S2 { f0: <Vec<String> as Spec>::random(g), acc: <u64 as Spec>::random(g), f3: <u16 as Spec>::random(g), f4: <String as Spec>::random(g) } }) }
}
impl Hist for S2 {
    const LATEST: u16 = 4;
    const REVISION: u16 = S2::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); }
            2 => { o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); }
            3 => { o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); }
            4 => { o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 4, 4);
        sh.conv = rev != 4;
        match rev {
            1 => {
                let f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                let f2 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u16>(c, &mut sh, Some(2))?;
                let f4 = rd::<Plain, String>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S2 { f0: f0, acc: f2, f3: f3, f4: f4 };
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, None)?;
                let f2 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u16>(c, &mut sh, Some(2))?;
                let f4 = rd::<Plain, String>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S2 { f0: f0, acc: f2, f3: f3, f4: f4 };
                v.acc = mix(v.acc, 2, &f1.bytes());
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                let f2 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u16>(c, &mut sh, Some(2))?;
                let f4 = rd::<Plain, String>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S2 { f0: f0, acc: f2, f3: f3, f4: f4 };
                Ok((v, sh))
            }
            4 => {
                let f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                let f2 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, u16>(c, &mut sh, Some(2))?;
                let f4 = rd::<Plain, String>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S2 { f0: f0, acc: f2, f3: f3, f4: f4 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S2::walk_revisioned_field_names(1) != ["f0", "acc", "f3", "f4"] as [&str; 4] { return Err("field names at revision 1".into()) }
        if S2::walk_revisioned_field_names(2) != ["f0", "f1", "acc", "f3", "f4"] as [&str; 5] { return Err("field names at revision 2".into()) }
        if S2::walk_revisioned_field_names(3) != ["f0", "acc", "f3", "f4"] as [&str; 4] { return Err("field names at revision 3".into()) }
        if S2::walk_revisioned_field_names(4) != ["f0", "acc", "f3", "f4"] as [&str; 4] { return Err("field names at revision 4".into()) }
        if !S2::walk_revisioned_field_names(0).is_empty() || !S2::walk_revisioned_field_names(5).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S2 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_acc().is_ok() && w.decode_f3().is_ok() && w.decode_f4().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(12) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_acc(); } 4 => { let _ = w.skip_acc(); } 5 => { let _ = w.walk_acc(); }
                    6 => { let _ = w.decode_f3(); } 7 => { let _ = w.skip_f3(); } 8 => { let _ = w.walk_f3(); }
                    9 => { let _ = w.decode_f4(); } 10 => { let _ = w.skip_f4(); } 11 => { let _ = w.walk_f4(); }
                    _ => {} } }
                match g.below(9) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_acc(); } 3 => { let _ = w.into_acc_bytes(); }
                    4 => { let _ = w.into_walk_f3(); } 5 => { let _ = w.into_f3_bytes(); }
                    6 => { let _ = w.into_walk_f4(); } 7 => { let _ = w.into_f4_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 4, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, Vec<String>, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, u64, Plain, false, acc, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
                2 => sfield!(plain w c g v sh R; 2, u16, Plain, false, f3, decode_f3, skip_f3, walk_f3, into_walk_f3, into_f3_bytes),
                3 => sfield!(plain w c g v sh R; 3, String, Plain, false, f4, decode_f4, skip_f4, walk_f4, into_walk_f4, into_f4_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision(1), revision(2), revision(3), revision(4), revision(5), revision(6))]
#[derive(Debug, Clone)]
pub struct S3(pub Option<N4>, pub (u16, String), #[revision(start = 5, default_fn = "d_2")] pub Option<H9>);
impl S3 {
    fn d_2(rev: u16) -> Result<Option<H9>, Error> { Ok(dflt::<Option<H9>>(rev, 2)) }
}
impl Spec for S3 {
    fn enc(&self, o: &mut Vec<u8>) {
        6u16.enc(o);
        o.extend(enc1::<Plain, Option<N4>>(&self.0));
        o.extend(enc1::<Plain, (u16, String)>(&self.1));
        o.extend(enc1::<Plain, Option<H9>>(&self.2));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S3(<Option<N4> as Spec>::random(g), <(u16, String) as Spec>::random(g), <Option<H9> as Spec>::random(g)) }) }
}
impl Hist for S3 {
    const LATEST: u16 = 6;
    const REVISION: u16 = S3::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, Option<N4>>(g)); o.extend(gen1::<Plain, (u16, String)>(g)); }
            2 => { o.extend(gen1::<Plain, Option<N4>>(g)); o.extend(gen1::<Plain, (u16, String)>(g)); }
            3 => { o.extend(gen1::<Plain, Option<N4>>(g)); o.extend(gen1::<Plain, (u16, String)>(g)); }
            4 => { o.extend(gen1::<Plain, Option<N4>>(g)); o.extend(gen1::<Plain, (u16, String)>(g)); }
            5 => { o.extend(gen1::<Plain, Option<N4>>(g)); o.extend(gen1::<Plain, (u16, String)>(g)); o.extend(gen1::<Plain, Option<H9>>(g)); }
            6 => { o.extend(gen1::<Plain, Option<N4>>(g)); o.extend(gen1::<Plain, (u16, String)>(g)); o.extend(gen1::<Plain, Option<H9>>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 6, 3);
        match rev {
            1 => {
                let f0 = rd::<Plain, Option<N4>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, (u16, String)>(c, &mut sh, Some(1))?;
                let f2 = dflt::<Option<H9>>(1, 2);
                #[allow(unused_mut)]
                let mut v = S3(f0, f1, f2);
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, Option<N4>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, (u16, String)>(c, &mut sh, Some(1))?;
                let f2 = dflt::<Option<H9>>(2, 2);
                #[allow(unused_mut)]
                let mut v = S3(f0, f1, f2);
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, Option<N4>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, (u16, String)>(c, &mut sh, Some(1))?;
                let f2 = dflt::<Option<H9>>(3, 2);
                #[allow(unused_mut)]
                let mut v = S3(f0, f1, f2);
                Ok((v, sh))
            }
            4 => {
                let f0 = rd::<Plain, Option<N4>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, (u16, String)>(c, &mut sh, Some(1))?;
                let f2 = dflt::<Option<H9>>(4, 2);
                #[allow(unused_mut)]
                let mut v = S3(f0, f1, f2);
                Ok((v, sh))
            }
            5 => {
                let f0 = rd::<Plain, Option<N4>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, (u16, String)>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Option<H9>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S3(f0, f1, f2);
                Ok((v, sh))
            }
            6 => {
                let f0 = rd::<Plain, Option<N4>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, (u16, String)>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Option<H9>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S3(f0, f1, f2);
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S3::walk_revisioned_field_names(1) != ["0", "1"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if S3::walk_revisioned_field_names(2) != ["0", "1"] as [&str; 2] { return Err("field names at revision 2".into()) }
        if S3::walk_revisioned_field_names(3) != ["0", "1"] as [&str; 2] { return Err("field names at revision 3".into()) }
        if S3::walk_revisioned_field_names(4) != ["0", "1"] as [&str; 2] { return Err("field names at revision 4".into()) }
        if S3::walk_revisioned_field_names(5) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 5".into()) }
        if S3::walk_revisioned_field_names(6) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 6".into()) }
        if !S3::walk_revisioned_field_names(0).is_empty() || !S3::walk_revisioned_field_names(7).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S3 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok() && w.decode_field_2().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true, true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(9) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    6 => { let _ = w.decode_field_2(); } 7 => { let _ = w.skip_field_2(); } 8 => { let _ = w.walk_field_2(); }
                    _ => {} } }
                match g.below(7) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    4 => { let _ = w.into_walk_field_2(); } 5 => { let _ = w.into_field_2_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 3, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, Option<N4>, Plain, false, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(plain w c g v sh R; 1, (u16, String), Plain, false, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                2 => sfield!(plain w c g v sh R; 2, Option<H9>, Plain, false, 2, decode_field_2, skip_field_2, walk_field_2, into_walk_field_2, into_field_2_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision = 4)]
#[derive(Debug, Clone)]
pub struct S4 { #[revision(start = 1)] pub f0: Vec<Option<u32>>, #[revision(default_fn = "d_1", start = 3)] pub f1: i64, pub f2: String }
impl S4 {
    fn d_1(rev: u16) -> Result<i64, Error> { Ok(dflt::<i64>(rev, 1)) }
}
impl Spec for S4 {
    fn enc(&self, o: &mut Vec<u8>) {
        4u16.enc(o);
        o.extend(enc1::<Plain, Vec<Option<u32>>>(&self.f0));
        o.extend(enc1::<Plain, i64>(&self.f1));
        o.extend(enc1::<Plain, String>(&self.f2));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.f2.same(&o.f2) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S4 { f0: <Vec<Option<u32>> as Spec>::random(g), f1: <i64 as Spec>::random(g), f2: <String as Spec>::random(g) } }) }
}
impl Hist for S4 {
    const LATEST: u16 = 4;
    const REVISION: u16 = S4::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, Vec<Option<u32>>>(g)); o.extend(gen1::<Plain, String>(g)); }
            2 => { o.extend(gen1::<Plain, Vec<Option<u32>>>(g)); o.extend(gen1::<Plain, String>(g)); }
            3 => { o.extend(gen1::<Plain, Vec<Option<u32>>>(g)); o.extend(gen1::<Plain, i64>(g)); o.extend(gen1::<Plain, String>(g)); }
            4 => { o.extend(gen1::<Plain, Vec<Option<u32>>>(g)); o.extend(gen1::<Plain, i64>(g)); o.extend(gen1::<Plain, String>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 4, 3);
        match rev {
            1 => {
                let f0 = rd::<Plain, Vec<Option<u32>>>(c, &mut sh, Some(0))?;
                let f1 = dflt::<i64>(1, 1);
                let f2 = rd::<Plain, String>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S4 { f0: f0, f1: f1, f2: f2 };
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, Vec<Option<u32>>>(c, &mut sh, Some(0))?;
                let f1 = dflt::<i64>(2, 1);
                let f2 = rd::<Plain, String>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S4 { f0: f0, f1: f1, f2: f2 };
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, Vec<Option<u32>>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i64>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, String>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S4 { f0: f0, f1: f1, f2: f2 };
                Ok((v, sh))
            }
            4 => {
                let f0 = rd::<Plain, Vec<Option<u32>>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i64>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, String>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S4 { f0: f0, f1: f1, f2: f2 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S4::walk_revisioned_field_names(1) != ["f0", "f2"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if S4::walk_revisioned_field_names(2) != ["f0", "f2"] as [&str; 2] { return Err("field names at revision 2".into()) }
        if S4::walk_revisioned_field_names(3) != ["f0", "f1", "f2"] as [&str; 3] { return Err("field names at revision 3".into()) }
        if S4::walk_revisioned_field_names(4) != ["f0", "f1", "f2"] as [&str; 3] { return Err("field names at revision 4".into()) }
        if !S4::walk_revisioned_field_names(0).is_empty() || !S4::walk_revisioned_field_names(5).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S4 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_f2().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(9) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_f2(); } 7 => { let _ = w.skip_f2(); } 8 => { let _ = w.walk_f2(); }
                    _ => {} } }
                match g.below(7) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_f2(); } 5 => { let _ = w.into_f2_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 3, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, Vec<Option<u32>>, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, i64, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, String, Plain, false, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision(1), revision(2), revision(3), revision(4), revision(5), revision(6))]
#[derive(Debug, Clone)]
pub struct S5(pub Option<u32>, pub i32, pub BTreeMap<u8, String>);
impl S5 {
}
impl Spec for S5 {
    fn enc(&self, o: &mut Vec<u8>) {
        6u16.enc(o);
        o.extend(enc1::<Plain, Option<u32>>(&self.0));
        o.extend(enc1::<Plain, i32>(&self.1));
        o.extend(enc1::<Plain, BTreeMap<u8, String>>(&self.2));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S5(<Option<u32> as Spec>::random(g), <i32 as Spec>::random(g), <BTreeMap<u8, String> as Spec>::random(g)) }) }
}
impl Hist for S5 {
    const LATEST: u16 = 6;
    const REVISION: u16 = S5::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, Option<u32>>(g)); o.extend(gen1::<Plain, i32>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); }
            2 => { o.extend(gen1::<Plain, Option<u32>>(g)); o.extend(gen1::<Plain, i32>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); }
            3 => { o.extend(gen1::<Plain, Option<u32>>(g)); o.extend(gen1::<Plain, i32>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); }
            4 => { o.extend(gen1::<Plain, Option<u32>>(g)); o.extend(gen1::<Plain, i32>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); }
            5 => { o.extend(gen1::<Plain, Option<u32>>(g)); o.extend(gen1::<Plain, i32>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); }
            6 => { o.extend(gen1::<Plain, Option<u32>>(g)); o.extend(gen1::<Plain, i32>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 6, 3);
        match rev {
            1 => {
                let f0 = rd::<Plain, Option<u32>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i32>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S5(f0, f1, f2);
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, Option<u32>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i32>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S5(f0, f1, f2);
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, Option<u32>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i32>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S5(f0, f1, f2);
                Ok((v, sh))
            }
            4 => {
                let f0 = rd::<Plain, Option<u32>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i32>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S5(f0, f1, f2);
                Ok((v, sh))
            }
            5 => {
                let f0 = rd::<Plain, Option<u32>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i32>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S5(f0, f1, f2);
                Ok((v, sh))
            }
            6 => {
                let f0 = rd::<Plain, Option<u32>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i32>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S5(f0, f1, f2);
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S5::walk_revisioned_field_names(1) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 1".into()) }
        if S5::walk_revisioned_field_names(2) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 2".into()) }
        if S5::walk_revisioned_field_names(3) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 3".into()) }
        if S5::walk_revisioned_field_names(4) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 4".into()) }
        if S5::walk_revisioned_field_names(5) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 5".into()) }
        if S5::walk_revisioned_field_names(6) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 6".into()) }
        if !S5::walk_revisioned_field_names(0).is_empty() || !S5::walk_revisioned_field_names(7).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S5 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok() && w.decode_field_2().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true, true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(9) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    6 => { let _ = w.decode_field_2(); } 7 => { let _ = w.skip_field_2(); } 8 => { let _ = w.walk_field_2(); }
                    _ => {} } }
                match g.below(7) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    4 => { let _ = w.into_walk_field_2(); } 5 => { let _ = w.into_field_2_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 3, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, Option<u32>, Plain, false, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(plain w c g v sh R; 1, i32, Plain, false, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                2 => sfield!(plain w c g v sh R; 2, BTreeMap<u8, String>, Plain, false, 2, decode_field_2, skip_field_2, walk_field_2, into_walk_field_2, into_field_2_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision(1))]
#[derive(Debug, Clone)]
pub struct S6(#[revision(start = 1, default_fn = "d_0")] pub BTreeMap<u8, String>, pub char);
impl S6 {
    fn d_0(rev: u16) -> Result<BTreeMap<u8, String>, Error> { Ok(dflt::<BTreeMap<u8, String>>(rev, 0)) }
}
impl Spec for S6 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        o.extend(enc1::<Plain, BTreeMap<u8, String>>(&self.0));
        o.extend(enc1::<Plain, char>(&self.1));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S6(<BTreeMap<u8, String> as Spec>::random(g), <char as Spec>::random(g)) }) }
}
impl Hist for S6 {
    const LATEST: u16 = 1;
    const REVISION: u16 = S6::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); o.extend(gen1::<Plain, char>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 2);
        match rev {
            1 => {
                let f0 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, char>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S6(f0, f1);
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S6::walk_revisioned_field_names(1) != ["0", "1"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if !S6::walk_revisioned_field_names(0).is_empty() || !S6::walk_revisioned_field_names(2).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S6 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(6) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    _ => {} } }
                match g.below(5) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 2, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, BTreeMap<u8, String>, Plain, false, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(plain w c g v sh R; 1, char, Plain, false, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision(2))]
#[revision(revision(1))]
#[derive(Debug, Clone)]
pub struct S7 { #[revision(start = 2)] pub f0: u16, #[revision(start = 2)] pub f1: String }
impl S7 {
}
impl Spec for S7 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        o.extend(enc1::<Plain, u16>(&self.f0));
        o.extend(enc1::<Plain, String>(&self.f1));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S7 { f0: <u16 as Spec>::random(g), f1: <String as Spec>::random(g) } }) }
}
impl Hist for S7 {
    const LATEST: u16 = 2;
    const REVISION: u16 = S7::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => {  }
            2 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, String>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 2);
        match rev {
            1 => {
                let f0 = <u16 as Default>::default();
                let f1 = <String as Default>::default();
                #[allow(unused_mut)]
                let mut v = S7 { f0: f0, f1: f1 };
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S7 { f0: f0, f1: f1 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S7::walk_revisioned_field_names(1) != [] as [&str; 0] { return Err("field names at revision 1".into()) }
        if S7::walk_revisioned_field_names(2) != ["f0", "f1"] as [&str; 2] { return Err("field names at revision 2".into()) }
        if !S7::walk_revisioned_field_names(0).is_empty() || !S7::walk_revisioned_field_names(3).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S7 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(6) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    _ => {} } }
                match g.below(5) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 2, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u16, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, String, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision = 5)]
#[derive(Debug, Clone)]
pub struct S8(pub Duration, #[revision(start = 4)] #[revision(default_fn = "d_1")] pub u32, #[revision(start = 4, default_fn = "d_2")] pub i32, #[revision(start = 4)] pub String, pub i64, #[revision(start = 5)] pub u64);
impl S8 {
    fn d_1(rev: u16) -> Result<u32, Error> { Ok(dflt::<u32>(rev, 1)) }
    fn d_2(rev: u16) -> Result<i32, Error> { Ok(dflt::<i32>(rev, 2)) }
}
impl Spec for S8 {
    fn enc(&self, o: &mut Vec<u8>) {
        5u16.enc(o);
        o.extend(enc1::<Plain, Duration>(&self.0));
        o.extend(enc1::<Plain, u32>(&self.1));
        o.extend(enc1::<Plain, i32>(&self.2));
        o.extend(enc1::<Plain, String>(&self.3));
        o.extend(enc1::<Plain, i64>(&self.4));
        o.extend(enc1::<Plain, u64>(&self.5));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3) && self.4.same(&o.4) && self.5.same(&o.5) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S8(<Duration as Spec>::random(g), <u32 as Spec>::random(g), <i32 as Spec>::random(g), <String as Spec>::random(g), <i64 as Spec>::random(g), <u64 as Spec>::random(g)) }) }
}
impl Hist for S8 {
    const LATEST: u16 = 5;
    const REVISION: u16 = S8::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, Duration>(g)); o.extend(gen1::<Plain, i64>(g)); }
            2 => { o.extend(gen1::<Plain, Duration>(g)); o.extend(gen1::<Plain, i64>(g)); }
            3 => { o.extend(gen1::<Plain, Duration>(g)); o.extend(gen1::<Plain, i64>(g)); }
            4 => { o.extend(gen1::<Plain, Duration>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, i32>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, i64>(g)); }
            5 => { o.extend(gen1::<Plain, Duration>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, i32>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, i64>(g)); o.extend(gen1::<Plain, u64>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 5, 6);
        match rev {
            1 => {
                let f0 = rd::<Plain, Duration>(c, &mut sh, Some(0))?;
                let f1 = dflt::<u32>(1, 1);
                let f2 = dflt::<i32>(1, 2);
                let f3 = <String as Default>::default();
                let f4 = rd::<Plain, i64>(c, &mut sh, Some(4))?;
                let f5 = <u64 as Default>::default();
                #[allow(unused_mut)]
                let mut v = S8(f0, f1, f2, f3, f4, f5);
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, Duration>(c, &mut sh, Some(0))?;
                let f1 = dflt::<u32>(2, 1);
                let f2 = dflt::<i32>(2, 2);
                let f3 = <String as Default>::default();
                let f4 = rd::<Plain, i64>(c, &mut sh, Some(4))?;
                let f5 = <u64 as Default>::default();
                #[allow(unused_mut)]
                let mut v = S8(f0, f1, f2, f3, f4, f5);
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, Duration>(c, &mut sh, Some(0))?;
                let f1 = dflt::<u32>(3, 1);
                let f2 = dflt::<i32>(3, 2);
                let f3 = <String as Default>::default();
                let f4 = rd::<Plain, i64>(c, &mut sh, Some(4))?;
                let f5 = <u64 as Default>::default();
                #[allow(unused_mut)]
                let mut v = S8(f0, f1, f2, f3, f4, f5);
                Ok((v, sh))
            }
            4 => {
                let f0 = rd::<Plain, Duration>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, u32>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, i32>(c, &mut sh, Some(2))?;
                let f3 = rd::<Plain, String>(c, &mut sh, Some(3))?;
                let f4 = rd::<Plain, i64>(c, &mut sh, Some(4))?;
                let f5 = <u64 as Default>::default();
                #[allow(unused_mut)]
                let mut v = S8(f0, f1, f2, f3, f4, f5);
                Ok((v, sh))
            }
            5 => {
                let f0 = rd::<Plain, Duration>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, u32>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, i32>(c, &mut sh, Some(2))?;
                let f3 = rd::<Plain, String>(c, &mut sh, Some(3))?;
                let f4 = rd::<Plain, i64>(c, &mut sh, Some(4))?;
                let f5 = rd::<Plain, u64>(c, &mut sh, Some(5))?;
                #[allow(unused_mut)]
                let mut v = S8(f0, f1, f2, f3, f4, f5);
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S8::walk_revisioned_field_names(1) != ["0", "4"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if S8::walk_revisioned_field_names(2) != ["0", "4"] as [&str; 2] { return Err("field names at revision 2".into()) }
        if S8::walk_revisioned_field_names(3) != ["0", "4"] as [&str; 2] { return Err("field names at revision 3".into()) }
        if S8::walk_revisioned_field_names(4) != ["0", "1", "2", "3", "4"] as [&str; 5] { return Err("field names at revision 4".into()) }
        if S8::walk_revisioned_field_names(5) != ["0", "1", "2", "3", "4", "5"] as [&str; 6] { return Err("field names at revision 5".into()) }
        if !S8::walk_revisioned_field_names(0).is_empty() || !S8::walk_revisioned_field_names(6).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S8 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok() && w.decode_field_2().is_ok() && w.decode_field_3().is_ok() && w.decode_field_4().is_ok() && w.decode_field_5().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(18) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    6 => { let _ = w.decode_field_2(); } 7 => { let _ = w.skip_field_2(); } 8 => { let _ = w.walk_field_2(); }
                    9 => { let _ = w.decode_field_3(); } 10 => { let _ = w.skip_field_3(); } 11 => { let _ = w.walk_field_3(); }
                    12 => { let _ = w.decode_field_4(); } 13 => { let _ = w.skip_field_4(); } 14 => { let _ = w.walk_field_4(); }
                    15 => { let _ = w.decode_field_5(); } 16 => { let _ = w.skip_field_5(); } 17 => { let _ = w.walk_field_5(); }
                    _ => {} } }
                match g.below(13) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    4 => { let _ = w.into_walk_field_2(); } 5 => { let _ = w.into_field_2_bytes(); }
                    6 => { let _ = w.into_walk_field_3(); } 7 => { let _ = w.into_field_3_bytes(); }
                    8 => { let _ = w.into_walk_field_4(); } 9 => { let _ = w.into_field_4_bytes(); }
                    10 => { let _ = w.into_walk_field_5(); } 11 => { let _ = w.into_field_5_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 6, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, Duration, Plain, false, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(plain w c g v sh R; 1, u32, Plain, false, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                2 => sfield!(plain w c g v sh R; 2, i32, Plain, false, 2, decode_field_2, skip_field_2, walk_field_2, into_walk_field_2, into_field_2_bytes),
                3 => sfield!(plain w c g v sh R; 3, String, Plain, false, 3, decode_field_3, skip_field_3, walk_field_3, into_walk_field_3, into_field_3_bytes),
                4 => sfield!(plain w c g v sh R; 4, i64, Plain, false, 4, decode_field_4, skip_field_4, walk_field_4, into_walk_field_4, into_field_4_bytes),
                5 => sfield!(plain w c g v sh R; 5, u64, Plain, false, 5, decode_field_5, skip_field_5, walk_field_5, into_walk_field_5, into_field_5_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision(5))]
#[revision(revision(4))]
#[revision(revision(3))]
#[revision(revision(2))]
#[revision(revision(1))]
#[derive(Debug, Clone)]
pub struct S9(#[revision(start = 3, default_fn = "d_0")] pub N1, pub bool, pub Vec<Option<u32>>);
impl S9 {
    fn d_0(rev: u16) -> Result<N1, Error> { Ok(dflt::<N1>(rev, 0)) }
}
impl Spec for S9 {
    fn enc(&self, o: &mut Vec<u8>) {
        5u16.enc(o);
        o.extend(enc1::<Plain, N1>(&self.0));
        o.extend(enc1::<Plain, bool>(&self.1));
        o.extend(enc1::<Plain, Vec<Option<u32>>>(&self.2));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S9(<N1 as Spec>::random(g), <bool as Spec>::random(g), <Vec<Option<u32>> as Spec>::random(g)) }) }
}
impl Hist for S9 {
    const LATEST: u16 = 5;
    const REVISION: u16 = S9::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, bool>(g)); o.extend(gen1::<Plain, Vec<Option<u32>>>(g)); }
            2 => { o.extend(gen1::<Plain, bool>(g)); o.extend(gen1::<Plain, Vec<Option<u32>>>(g)); }
            3 => { o.extend(gen1::<Plain, N1>(g)); o.extend(gen1::<Plain, bool>(g)); o.extend(gen1::<Plain, Vec<Option<u32>>>(g)); }
            4 => { o.extend(gen1::<Plain, N1>(g)); o.extend(gen1::<Plain, bool>(g)); o.extend(gen1::<Plain, Vec<Option<u32>>>(g)); }
            5 => { o.extend(gen1::<Plain, N1>(g)); o.extend(gen1::<Plain, bool>(g)); o.extend(gen1::<Plain, Vec<Option<u32>>>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 5, 3);
        match rev {
            1 => {
                let f0 = dflt::<N1>(1, 0);
                let f1 = rd::<Plain, bool>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<Option<u32>>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S9(f0, f1, f2);
                Ok((v, sh))
            }
            2 => {
                let f0 = dflt::<N1>(2, 0);
                let f1 = rd::<Plain, bool>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<Option<u32>>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S9(f0, f1, f2);
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, N1>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, bool>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<Option<u32>>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S9(f0, f1, f2);
                Ok((v, sh))
            }
            4 => {
                let f0 = rd::<Plain, N1>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, bool>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<Option<u32>>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S9(f0, f1, f2);
                Ok((v, sh))
            }
            5 => {
                let f0 = rd::<Plain, N1>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, bool>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<Option<u32>>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S9(f0, f1, f2);
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S9::walk_revisioned_field_names(1) != ["1", "2"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if S9::walk_revisioned_field_names(2) != ["1", "2"] as [&str; 2] { return Err("field names at revision 2".into()) }
        if S9::walk_revisioned_field_names(3) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 3".into()) }
        if S9::walk_revisioned_field_names(4) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 4".into()) }
        if S9::walk_revisioned_field_names(5) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 5".into()) }
        if !S9::walk_revisioned_field_names(0).is_empty() || !S9::walk_revisioned_field_names(6).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S9 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok() && w.decode_field_2().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(9) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    6 => { let _ = w.decode_field_2(); } 7 => { let _ = w.skip_field_2(); } 8 => { let _ = w.walk_field_2(); }
                    _ => {} } }
                match g.below(7) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    4 => { let _ = w.into_walk_field_2(); } 5 => { let _ = w.into_field_2_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 3, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, N1, Plain, false, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(plain w c g v sh R; 1, bool, Plain, false, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                2 => sfield!(plain w c g v sh R; 2, Vec<Option<u32>>, Plain, false, 2, decode_field_2, skip_field_2, walk_field_2, into_walk_field_2, into_field_2_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision = 5)]
#[derive(Debug, Clone)]
pub struct S10(pub u32, pub N2, #[revision(start = 4, default_fn = "d_2")] pub Vec<String>);
impl S10 {
    fn d_2(rev: u16) -> Result<Vec<String>, Error> { Ok(dflt::<Vec<String>>(rev, 2)) }
}
impl Spec for S10 {
    fn enc(&self, o: &mut Vec<u8>) {
        5u16.enc(o);
        o.extend(enc1::<Plain, u32>(&self.0));
        o.extend(enc1::<Plain, N2>(&self.1));
        o.extend(enc1::<Plain, Vec<String>>(&self.2));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S10(<u32 as Spec>::random(g), <N2 as Spec>::random(g), <Vec<String> as Spec>::random(g)) }) }
}
impl Hist for S10 {
    const LATEST: u16 = 5;
    const REVISION: u16 = S10::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, N2>(g)); }
            2 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, N2>(g)); }
            3 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, N2>(g)); }
            4 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, N2>(g)); o.extend(gen1::<Plain, Vec<String>>(g)); }
            5 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, N2>(g)); o.extend(gen1::<Plain, Vec<String>>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 5, 3);
        match rev {
            1 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, N2>(c, &mut sh, Some(1))?;
                let f2 = dflt::<Vec<String>>(1, 2);
                #[allow(unused_mut)]
                let mut v = S10(f0, f1, f2);
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, N2>(c, &mut sh, Some(1))?;
                let f2 = dflt::<Vec<String>>(2, 2);
                #[allow(unused_mut)]
                let mut v = S10(f0, f1, f2);
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, N2>(c, &mut sh, Some(1))?;
                let f2 = dflt::<Vec<String>>(3, 2);
                #[allow(unused_mut)]
                let mut v = S10(f0, f1, f2);
                Ok((v, sh))
            }
            4 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, N2>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<String>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S10(f0, f1, f2);
                Ok((v, sh))
            }
            5 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, N2>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<String>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S10(f0, f1, f2);
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S10::walk_revisioned_field_names(1) != ["0", "1"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if S10::walk_revisioned_field_names(2) != ["0", "1"] as [&str; 2] { return Err("field names at revision 2".into()) }
        if S10::walk_revisioned_field_names(3) != ["0", "1"] as [&str; 2] { return Err("field names at revision 3".into()) }
        if S10::walk_revisioned_field_names(4) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 4".into()) }
        if S10::walk_revisioned_field_names(5) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 5".into()) }
        if !S10::walk_revisioned_field_names(0).is_empty() || !S10::walk_revisioned_field_names(6).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S10 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok() && w.decode_field_2().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(9) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    6 => { let _ = w.decode_field_2(); } 7 => { let _ = w.skip_field_2(); } 8 => { let _ = w.walk_field_2(); }
                    _ => {} } }
                match g.below(7) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    4 => { let _ = w.into_walk_field_2(); } 5 => { let _ = w.into_field_2_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 3, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u32, Plain, false, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(plain w c g v sh R; 1, N2, Plain, false, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                2 => sfield!(plain w c g v sh R; 2, Vec<String>, Plain, false, 2, decode_field_2, skip_field_2, walk_field_2, into_walk_field_2, into_field_2_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision = 4)]
#[derive(Debug, Clone)]
pub struct S11 { pub f0: Result<u64, String> }
impl S11 {
}
impl Spec for S11 {
    fn enc(&self, o: &mut Vec<u8>) {
        4u16.enc(o);
        o.extend(enc1::<Plain, Result<u64, String>>(&self.f0));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S11 { f0: <Result<u64, String> as Spec>::random(g) } }) }
}
impl Hist for S11 {
    const LATEST: u16 = 4;
    const REVISION: u16 = S11::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, Result<u64, String>>(g)); }
            2 => { o.extend(gen1::<Plain, Result<u64, String>>(g)); }
            3 => { o.extend(gen1::<Plain, Result<u64, String>>(g)); }
            4 => { o.extend(gen1::<Plain, Result<u64, String>>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 4, 1);
        match rev {
            1 => {
                let f0 = rd::<Plain, Result<u64, String>>(c, &mut sh, Some(0))?;
                #[allow(unused_mut)]
                let mut v = S11 { f0: f0 };
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, Result<u64, String>>(c, &mut sh, Some(0))?;
                #[allow(unused_mut)]
                let mut v = S11 { f0: f0 };
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, Result<u64, String>>(c, &mut sh, Some(0))?;
                #[allow(unused_mut)]
                let mut v = S11 { f0: f0 };
                Ok((v, sh))
            }
            4 => {
                let f0 = rd::<Plain, Result<u64, String>>(c, &mut sh, Some(0))?;
                #[allow(unused_mut)]
                let mut v = S11 { f0: f0 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S11::walk_revisioned_field_names(1) != ["f0"] as [&str; 1] { return Err("field names at revision 1".into()) }
        if S11::walk_revisioned_field_names(2) != ["f0"] as [&str; 1] { return Err("field names at revision 2".into()) }
        if S11::walk_revisioned_field_names(3) != ["f0"] as [&str; 1] { return Err("field names at revision 3".into()) }
        if S11::walk_revisioned_field_names(4) != ["f0"] as [&str; 1] { return Err("field names at revision 4".into()) }
        if !S11::walk_revisioned_field_names(0).is_empty() || !S11::walk_revisioned_field_names(5).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S11 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(3) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    _ => {} } }
                match g.below(3) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 1, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, Result<u64, String>, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision = 1)]
#[derive(Debug, Clone)]
pub struct S12 { pub f0: i16, pub f1: Vec<String>, pub f2: BTreeMap<u8, String> }
impl S12 {
}
impl Spec for S12 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        o.extend(enc1::<Plain, i16>(&self.f0));
        o.extend(enc1::<Plain, Vec<String>>(&self.f1));
        o.extend(enc1::<Plain, BTreeMap<u8, String>>(&self.f2));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.f2.same(&o.f2) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S12 { f0: <i16 as Spec>::random(g), f1: <Vec<String> as Spec>::random(g), f2: <BTreeMap<u8, String> as Spec>::random(g) } }) }
}
impl Hist for S12 {
    const LATEST: u16 = 1;
    const REVISION: u16 = S12::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, i16>(g)); o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 3);
        match rev {
            1 => {
                let f0 = rd::<Plain, i16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, Vec<String>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S12 { f0: f0, f1: f1, f2: f2 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S12::walk_revisioned_field_names(1) != ["f0", "f1", "f2"] as [&str; 3] { return Err("field names at revision 1".into()) }
        if !S12::walk_revisioned_field_names(0).is_empty() || !S12::walk_revisioned_field_names(2).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S12 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_f2().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(9) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_f2(); } 7 => { let _ = w.skip_f2(); } 8 => { let _ = w.walk_f2(); }
                    _ => {} } }
                match g.below(7) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_f2(); } 5 => { let _ = w.into_f2_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 3, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, i16, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, Vec<String>, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, BTreeMap<u8, String>, Plain, false, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(2), revision(4), revision(6), revision(1), revision(3), revision(5))]
#[derive(Debug, Clone)]
pub struct S13 { #[revision(start = 6, default_fn = "d_0")] pub f0: u32, pub f1: Vec<I6>, pub f2: Vec<u32>, #[revision(start = 3)] #[revision(default_fn = "d_3")] pub f3: Vec<I4> }
impl S13 {
    fn d_0(rev: u16) -> Result<u32, Error> { Ok(dflt::<u32>(rev, 0)) }
    fn d_3(rev: u16) -> Result<Vec<I4>, Error> { Ok(dflt::<Vec<I4>>(rev, 3)) }
}
impl Spec for S13 {
    fn enc(&self, o: &mut Vec<u8>) {
        6u16.enc(o);
        o.extend(enc1::<Plain, u32>(&self.f0));
        o.extend(enc1::<Plain, Vec<I6>>(&self.f1));
        o.extend(enc1::<Plain, Vec<u32>>(&self.f2));
        o.extend(enc1::<Plain, Vec<I4>>(&self.f3));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.f2.same(&o.f2) && self.f3.same(&o.f3) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S13 { f0: <u32 as Spec>::random(g), f1: <Vec<I6> as Spec>::random(g), f2: <Vec<u32> as Spec>::random(g), f3: <Vec<I4> as Spec>::random(g) } }) }
}
impl Hist for S13 {
    const LATEST: u16 = 6;
    const REVISION: u16 = S13::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, Vec<I6>>(g)); o.extend(gen1::<Plain, Vec<u32>>(g)); }
            2 => { o.extend(gen1::<Plain, Vec<I6>>(g)); o.extend(gen1::<Plain, Vec<u32>>(g)); }
            3 => { o.extend(gen1::<Plain, Vec<I6>>(g)); o.extend(gen1::<Plain, Vec<u32>>(g)); o.extend(gen1::<Plain, Vec<I4>>(g)); }
            4 => { o.extend(gen1::<Plain, Vec<I6>>(g)); o.extend(gen1::<Plain, Vec<u32>>(g)); o.extend(gen1::<Plain, Vec<I4>>(g)); }
            5 => { o.extend(gen1::<Plain, Vec<I6>>(g)); o.extend(gen1::<Plain, Vec<u32>>(g)); o.extend(gen1::<Plain, Vec<I4>>(g)); }
            6 => { o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, Vec<I6>>(g)); o.extend(gen1::<Plain, Vec<u32>>(g)); o.extend(gen1::<Plain, Vec<I4>>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 6, 4);
        match rev {
            1 => {
                let f0 = dflt::<u32>(1, 0);
                let f1 = rd::<Plain, Vec<I6>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(2))?;
                let f3 = dflt::<Vec<I4>>(1, 3);
                #[allow(unused_mut)]
                let mut v = S13 { f0: f0, f1: f1, f2: f2, f3: f3 };
                Ok((v, sh))
            }
            2 => {
                let f0 = dflt::<u32>(2, 0);
                let f1 = rd::<Plain, Vec<I6>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(2))?;
                let f3 = dflt::<Vec<I4>>(2, 3);
                #[allow(unused_mut)]
                let mut v = S13 { f0: f0, f1: f1, f2: f2, f3: f3 };
                Ok((v, sh))
            }
            3 => {
                let f0 = dflt::<u32>(3, 0);
                let f1 = rd::<Plain, Vec<I6>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(2))?;
                let f3 = rd::<Plain, Vec<I4>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S13 { f0: f0, f1: f1, f2: f2, f3: f3 };
                Ok((v, sh))
            }
            4 => {
                let f0 = dflt::<u32>(4, 0);
                let f1 = rd::<Plain, Vec<I6>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(2))?;
                let f3 = rd::<Plain, Vec<I4>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S13 { f0: f0, f1: f1, f2: f2, f3: f3 };
                Ok((v, sh))
            }
            5 => {
                let f0 = dflt::<u32>(5, 0);
                let f1 = rd::<Plain, Vec<I6>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(2))?;
                let f3 = rd::<Plain, Vec<I4>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S13 { f0: f0, f1: f1, f2: f2, f3: f3 };
                Ok((v, sh))
            }
            6 => {
                let f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, Vec<I6>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(2))?;
                let f3 = rd::<Plain, Vec<I4>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S13 { f0: f0, f1: f1, f2: f2, f3: f3 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S13::walk_revisioned_field_names(1) != ["f1", "f2"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if S13::walk_revisioned_field_names(2) != ["f1", "f2"] as [&str; 2] { return Err("field names at revision 2".into()) }
        if S13::walk_revisioned_field_names(3) != ["f1", "f2", "f3"] as [&str; 3] { return Err("field names at revision 3".into()) }
        if S13::walk_revisioned_field_names(4) != ["f1", "f2", "f3"] as [&str; 3] { return Err("field names at revision 4".into()) }
        if S13::walk_revisioned_field_names(5) != ["f1", "f2", "f3"] as [&str; 3] { return Err("field names at revision 5".into()) }
        if S13::walk_revisioned_field_names(6) != ["f0", "f1", "f2", "f3"] as [&str; 4] { return Err("field names at revision 6".into()) }
        if !S13::walk_revisioned_field_names(0).is_empty() || !S13::walk_revisioned_field_names(7).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S13 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_f2().is_ok() && w.decode_f3().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true, true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(12) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_f2(); } 7 => { let _ = w.skip_f2(); } 8 => { let _ = w.walk_f2(); }
                    9 => { let _ = w.decode_f3(); } 10 => { let _ = w.skip_f3(); } 11 => { let _ = w.walk_f3(); }
                    _ => {} } }
                match g.below(9) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_f2(); } 5 => { let _ = w.into_f2_bytes(); }
                    6 => { let _ = w.into_walk_f3(); } 7 => { let _ = w.into_f3_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 4, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u32, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, Vec<I6>, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, Vec<u32>, Plain, false, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                3 => sfield!(plain w c g v sh R; 3, Vec<I4>, Plain, false, f3, decode_f3, skip_f3, walk_f3, into_walk_f3, into_f3_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision(1), revision(2), revision(3), revision(4), revision(5))]
#[derive(Debug, Clone)]
pub struct S14 { #[revision(start = 2)] pub f0: u16 }
impl S14 {
}
impl Spec for S14 {
    fn enc(&self, o: &mut Vec<u8>) {
        5u16.enc(o);
        o.extend(enc1::<Plain, u16>(&self.f0));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S14 { f0: <u16 as Spec>::random(g) } }) }
}
impl Hist for S14 {
    const LATEST: u16 = 5;
    const REVISION: u16 = S14::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => {  }
            2 => { o.extend(gen1::<Plain, u16>(g)); }
            3 => { o.extend(gen1::<Plain, u16>(g)); }
            4 => { o.extend(gen1::<Plain, u16>(g)); }
            5 => { o.extend(gen1::<Plain, u16>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 5, 1);
        match rev {
            1 => {
                let f0 = <u16 as Default>::default();
                #[allow(unused_mut)]
                let mut v = S14 { f0: f0 };
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                #[allow(unused_mut)]
                let mut v = S14 { f0: f0 };
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                #[allow(unused_mut)]
                let mut v = S14 { f0: f0 };
                Ok((v, sh))
            }
            4 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                #[allow(unused_mut)]
                let mut v = S14 { f0: f0 };
                Ok((v, sh))
            }
            5 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                #[allow(unused_mut)]
                let mut v = S14 { f0: f0 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S14::walk_revisioned_field_names(1) != [] as [&str; 0] { return Err("field names at revision 1".into()) }
        if S14::walk_revisioned_field_names(2) != ["f0"] as [&str; 1] { return Err("field names at revision 2".into()) }
        if S14::walk_revisioned_field_names(3) != ["f0"] as [&str; 1] { return Err("field names at revision 3".into()) }
        if S14::walk_revisioned_field_names(4) != ["f0"] as [&str; 1] { return Err("field names at revision 4".into()) }
        if S14::walk_revisioned_field_names(5) != ["f0"] as [&str; 1] { return Err("field names at revision 5".into()) }
        if !S14::walk_revisioned_field_names(0).is_empty() || !S14::walk_revisioned_field_names(6).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S14 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(3) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    _ => {} } }
                match g.below(3) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 1, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u16, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision = 1)]
#[derive(Debug, Clone)]
pub enum E15 {
    V0 { f0: String },
    #[revision(start = 1)] V1,
}
impl E15 {
    fn vname(&self) -> &'static str { match self { E15::V0 { .. } => "V0", E15::V1 { .. } => "V1" } }
}
impl Spec for E15 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        match self {
            E15::V0 { f0 } => { (0u32).enc(o); o.extend(enc1::<Plain, String>(f0)); }
            E15::V1 => { (1u32).enc(o);  }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E15::V0 { f0: a0 }, E15::V0 { f0: b0 }) => a0.same(b0), (E15::V1, E15::V1) => true, _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(2) { 0 => E15::V0 { f0: <String as Spec>::random(g) }, _ => E15::V1, }) }
}
impl Hist for E15 {
    const LATEST: u16 = 1;
    const REVISION: u16 = E15::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(2) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, String>(g)); }
                _ => { (1u32).enc(o);  }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 1);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E15::V0 { f0 }
                }
                1 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E15::V1
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("V0", 0), ("V1", 1)];
        if E15::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E15::walk_revisioned_variant_table(1))) }
        for d in 0..4 { if E15::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        if !E15::walk_revisioned_variant_table(2).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E15 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(3) {
                    0 => { let _ = w.v0_view(); }
                    1 => { let _ = w.into_v1(); }
                    2 => { let _ = w.decode_v1(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E15::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("V0", w.is_v0()), ("V1", w.is_v1())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(3);
        if g.below(5) != 0 { k = match sh.variant { "V0" => 0 + g.below(1), "V1" => 1 + g.below(2), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "V0"; let r = w.v0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E15::V0 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, String>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v0_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v0_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            1 => { let ok = sh.variant == "V1"; let r = w.into_v1(); if !ok { return if r.is_ok() { bad("into_v1 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v1", r)?; Ok(()) }
            2 => { let ok = sh.variant == "V1"; let r = w.decode_v1(); if !ok { return if r.is_ok() { bad("decode_v1 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v1", r)?; Ok(()) }
            _ => unreachable!(),
        }
    }
}

#[revisioned()]
#[revision(revision = 3)]
#[derive(Debug, Clone)]
pub enum E16 {
    #[revision(start = 3)] Item0 { #[revision(start = 2)] f0: Option<u32> },
    #[revision(start = 2, override(revision = 2, discriminant = 7))] FooBar1,
    #[revision(start = 1, override(revision = 1, discriminant = 3))] V2(#[revision(default_fn = "d_2_0", start = 3)] Vec<u8>, H1),
    #[revision(start = 2, fields_name = "E16X3Named")] Item3(#[revision(start = 3)] #[revision(default_fn = "d_3_0")] (u16, String), #[revision(start = 3, default_fn = "d_3_1")] O5),
    #[revision(override(revision = 1, discriminant = 10), override(revision = 3, discriminant = 70000))] V4,
    #[revision(start = 3)] FooBar5 { #[revision(start = 2, default_fn = "d_5_0")] f0: String },
}
impl E16 {
    fn d_2_0(rev: u16) -> Result<Vec<u8>, Error> { Ok(dflt::<Vec<u8>>(rev, 200)) }
    fn d_3_0(rev: u16) -> Result<(u16, String), Error> { Ok(dflt::<(u16, String)>(rev, 300)) }
    fn d_3_1(rev: u16) -> Result<O5, Error> { Ok(dflt::<O5>(rev, 301)) }
    fn d_5_0(rev: u16) -> Result<String, Error> { Ok(dflt::<String>(rev, 500)) }
    fn vname(&self) -> &'static str { match self { E16::Item0 { .. } => "Item0", E16::FooBar1 { .. } => "FooBar1", E16::V2 { .. } => "V2", E16::Item3 { .. } => "Item3", E16::V4 { .. } => "V4", E16::FooBar5 { .. } => "FooBar5" } }
}
impl Spec for E16 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        match self {
            E16::Item0 { f0 } => { (0u32).enc(o); o.extend(enc1::<Plain, Option<u32>>(f0)); }
            E16::FooBar1 => { (1u32).enc(o);  }
            E16::V2(f0, f1) => { (2u32).enc(o); o.extend(enc1::<Plain, Vec<u8>>(f0)); o.extend(enc1::<Plain, H1>(f1)); }
            E16::Item3(f0, f1) => { (3u32).enc(o); o.extend(enc1::<Plain, (u16, String)>(f0)); o.extend(enc1::<Plain, O5>(f1)); }
            E16::V4 => { (70000u32).enc(o);  }
            E16::FooBar5 { f0 } => { (4u32).enc(o); o.extend(enc1::<Plain, String>(f0)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E16::Item0 { f0: a0 }, E16::Item0 { f0: b0 }) => a0.same(b0), (E16::FooBar1, E16::FooBar1) => true, (E16::V2(a0, a1), E16::V2(b0, b1)) => a0.same(b0) && a1.same(b1), (E16::Item3(a0, a1), E16::Item3(b0, b1)) => a0.same(b0) && a1.same(b1), (E16::V4, E16::V4) => true, (E16::FooBar5 { f0: a0 }, E16::FooBar5 { f0: b0 }) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(6) { 0 => E16::Item0 { f0: <Option<u32> as Spec>::random(g) }, 1 => E16::FooBar1, 2 => E16::V2(<Vec<u8> as Spec>::random(g), <H1 as Spec>::random(g)), 3 => E16::Item3(<(u16, String) as Spec>::random(g), <O5 as Spec>::random(g)), 4 => E16::V4, _ => E16::FooBar5 { f0: <String as Spec>::random(g) }, }) }
}
impl Hist for E16 {
    const LATEST: u16 = 3;
    const REVISION: u16 = E16::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(2) {
                0 => { (3u32).enc(o); o.extend(gen1::<Plain, H1>(g)); }
                _ => { (10u32).enc(o);  }
            },
            2 => match g.below(4) {
                0 => { (7u32).enc(o);  }
                1 => { (0u32).enc(o); o.extend(gen1::<Plain, H1>(g)); }
                2 => { (1u32).enc(o);  }
                _ => { (2u32).enc(o);  }
            },
            3 => match g.below(6) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, Option<u32>>(g)); }
                1 => { (1u32).enc(o);  }
                2 => { (2u32).enc(o); o.extend(gen1::<Plain, Vec<u8>>(g)); o.extend(gen1::<Plain, H1>(g)); }
                3 => { (3u32).enc(o); o.extend(gen1::<Plain, (u16, String)>(g)); o.extend(gen1::<Plain, O5>(g)); }
                4 => { (70000u32).enc(o);  }
                _ => { (4u32).enc(o); o.extend(gen1::<Plain, String>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 2);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                3 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = dflt::<Vec<u8>>(1, 200);
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, H1>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    E16::V2(f0, f1)
                }
                10 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E16::V4
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                match <u32 as Spec>::dec(c)? {
                7 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E16::FooBar1
                }
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = dflt::<Vec<u8>>(2, 200);
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, H1>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    E16::V2(f0, f1)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = dflt::<(u16, String)>(2, 300);
                    #[allow(unused_mut)] let mut f1 = dflt::<O5>(2, 301);
                    sh.body = (a, c.pos);
                    E16::Item3(f0, f1)
                }
                2 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E16::V4
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Option<u32>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E16::Item0 { f0 }
                }
                1 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E16::FooBar1
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<u8>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, H1>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    E16::V2(f0, f1)
                }
                3 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, (u16, String)>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, O5>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    E16::Item3(f0, f1)
                }
                70000 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E16::V4
                }
                4 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E16::FooBar5 { f0 }
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("V2", 3), ("V4", 10)];
        if E16::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E16::walk_revisioned_variant_table(1))) }
        for d in 0..13 { if E16::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("FooBar1", 7), ("V2", 0), ("Item3", 1), ("V4", 2)];
        if E16::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E16::walk_revisioned_variant_table(2))) }
        for d in 0..10 { if E16::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("Item0", 0), ("FooBar1", 1), ("V2", 2), ("Item3", 3), ("V4", 70000), ("FooBar5", 4)];
        if E16::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", E16::walk_revisioned_variant_table(3))) }
        for d in 0..70003 { if E16::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        if !E16::walk_revisioned_variant_table(4).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E16 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(8) {
                    0 => { let _ = w.item0_view(); }
                    1 => { let _ = w.into_foo_bar1(); }
                    2 => { let _ = w.decode_foo_bar1(); }
                    3 => { let _ = w.v2_view(); }
                    4 => { let _ = w.item3_view(); }
                    5 => { let _ = w.into_v4(); }
                    6 => { let _ = w.decode_v4(); }
                    7 => { let _ = w.foo_bar5_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E16::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Item0", w.is_item0()), ("FooBar1", w.is_foo_bar1()), ("V2", w.is_v2()), ("Item3", w.is_item3()), ("V4", w.is_v4()), ("FooBar5", w.is_foo_bar5())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(8);
        if g.below(5) != 0 { k = match sh.variant { "Item0" => 0 + g.below(1), "FooBar1" => 1 + g.below(2), "V2" => 3 + g.below(1), "Item3" => 4 + g.below(1), "V4" => 5 + g.below(2), "FooBar5" => 7 + g.below(1), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Item0"; let r = w.item0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E16::Item0 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, Option<u32>>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("item0_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("item0_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            1 => { let ok = sh.variant == "FooBar1"; let r = w.into_foo_bar1(); if !ok { return if r.is_ok() { bad("into_foo_bar1 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_foo_bar1", r)?; Ok(()) }
            2 => { let ok = sh.variant == "FooBar1"; let r = w.decode_foo_bar1(); if !ok { return if r.is_ok() { bad("decode_foo_bar1 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_foo_bar1", r)?; Ok(()) }
            3 => { let ok = sh.variant == "V2"; let r = w.v2_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v2_view of another variant succeeded") } else { Err(Stop::Expected) } } let E16::V2(f0, f1) = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, Vec<u8>>(f0), enc1::<Plain, H1>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v2_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v2_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            4 => { let ok = sh.variant == "Item3"; let r = w.item3_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item3_view of another variant succeeded") } else { Err(Stop::Expected) } } let E16::Item3(f0, f1) = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, (u16, String)>(f0), enc1::<Plain, O5>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("item3_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("item3_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            5 => { let ok = sh.variant == "V4"; let r = w.into_v4(); if !ok { return if r.is_ok() { bad("into_v4 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v4", r)?; Ok(()) }
            6 => { let ok = sh.variant == "V4"; let r = w.decode_v4(); if !ok { return if r.is_ok() { bad("decode_v4 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v4", r)?; Ok(()) }
            7 => { let ok = sh.variant == "FooBar5"; let r = w.foo_bar5_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar5_view of another variant succeeded") } else { Err(Stop::Expected) } } let E16::FooBar5 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, String>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar5_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar5_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            _ => unreachable!(),
        }
    }
}

#[revisioned()]
#[revision(revision(2))]
#[revision(revision(1))]
#[derive(Debug, Clone)]
pub enum E17 {
    #[revision(override(revision = 2, discriminant = 70000))] V0(Box<O1>, Vec<String>, bool),
    FooBar1,
}
impl E17 {
    fn vname(&self) -> &'static str { match self { E17::V0 { .. } => "V0", E17::FooBar1 { .. } => "FooBar1" } }
}
impl Spec for E17 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        match self {
            E17::V0(f0, f1, f2) => { (70000u32).enc(o); o.extend(enc1::<Plain, Box<O1>>(f0)); o.extend(enc1::<Plain, Vec<String>>(f1)); o.extend(enc1::<Plain, bool>(f2)); }
            E17::FooBar1 => { (0u32).enc(o);  }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E17::V0(a0, a1, a2), E17::V0(b0, b1, b2)) => a0.same(b0) && a1.same(b1) && a2.same(b2), (E17::FooBar1, E17::FooBar1) => true, _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(2) { 0 => E17::V0(<Box<O1> as Spec>::random(g), <Vec<String> as Spec>::random(g), <bool as Spec>::random(g)), _ => E17::FooBar1, }) }
}
impl Hist for E17 {
    const LATEST: u16 = 2;
    const REVISION: u16 = E17::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(2) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, Box<O1>>(g)); o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Plain, bool>(g)); }
                _ => { (1u32).enc(o);  }
            },
            2 => match g.below(2) {
                0 => { (70000u32).enc(o); o.extend(gen1::<Plain, Box<O1>>(g)); o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Plain, bool>(g)); }
                _ => { (0u32).enc(o);  }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 3);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Box<O1>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Vec<String>>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, bool>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E17::V0(f0, f1, f2)
                }
                1 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E17::FooBar1
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                match <u32 as Spec>::dec(c)? {
                70000 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Box<O1>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Vec<String>>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, bool>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E17::V0(f0, f1, f2)
                }
                0 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E17::FooBar1
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("V0", 0), ("FooBar1", 1)];
        if E17::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E17::walk_revisioned_variant_table(1))) }
        for d in 0..4 { if E17::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("V0", 70000), ("FooBar1", 0)];
        if E17::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E17::walk_revisioned_variant_table(2))) }
        for d in 0..70003 { if E17::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        if !E17::walk_revisioned_variant_table(3).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E17 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(3) {
                    0 => { let _ = w.v0_view(); }
                    1 => { let _ = w.into_foo_bar1(); }
                    2 => { let _ = w.decode_foo_bar1(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E17::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("V0", w.is_v0()), ("FooBar1", w.is_foo_bar1())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(3);
        if g.below(5) != 0 { k = match sh.variant { "V0" => 0 + g.below(1), "FooBar1" => 1 + g.below(2), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "V0"; let r = w.v0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E17::V0(f0, f1, f2) = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, Box<O1>>(f0), enc1::<Plain, Vec<String>>(f1), enc1::<Plain, bool>(f2)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v0_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v0_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            1 => { let ok = sh.variant == "FooBar1"; let r = w.into_foo_bar1(); if !ok { return if r.is_ok() { bad("into_foo_bar1 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_foo_bar1", r)?; Ok(()) }
            2 => { let ok = sh.variant == "FooBar1"; let r = w.decode_foo_bar1(); if !ok { return if r.is_ok() { bad("decode_foo_bar1 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_foo_bar1", r)?; Ok(()) }
            _ => unreachable!(),
        }
    }
}

#[revisioned()]
#[revision(revision(2))]
#[revision(revision(1))]
#[derive(Debug, Clone)]
pub enum E18 {
    V0 { #[revision(start = 2, default_fn = "d_0_0")] f0: u128 },
    #[revision(start = 2)] FooBar1,
    #[revision(fields_name = "E18X2Named")] V2(#[revision(start = 2)] Option<u32>),
    FooBar3(#[revision(default_fn = "d_3_0", start = 2)] Option<P4>, i64),
    #[revision(start = 2)] Item4,
    FooBar5(#[revision(start = 2)] Vec<String>, #[revision(start = 2, default_fn = "d_5_1")] O2, i8),
}
impl E18 {
    fn d_0_0(rev: u16) -> Result<u128, Error> { Ok(dflt::<u128>(rev, 0)) }
    fn d_3_0(rev: u16) -> Result<Option<P4>, Error> { Ok(dflt::<Option<P4>>(rev, 300)) }
    fn d_5_1(rev: u16) -> Result<O2, Error> { Ok(dflt::<O2>(rev, 501)) }
    fn vname(&self) -> &'static str { match self { E18::V0 { .. } => "V0", E18::FooBar1 { .. } => "FooBar1", E18::V2 { .. } => "V2", E18::FooBar3 { .. } => "FooBar3", E18::Item4 { .. } => "Item4", E18::FooBar5 { .. } => "FooBar5" } }
}
impl Spec for E18 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        match self {
            E18::V0 { f0 } => { (0u32).enc(o); o.extend(enc1::<Plain, u128>(f0)); }
            E18::FooBar1 => { (1u32).enc(o);  }
            E18::V2(f0) => { (2u32).enc(o); o.extend(enc1::<Plain, Option<u32>>(f0)); }
            E18::FooBar3(f0, f1) => { (3u32).enc(o); o.extend(enc1::<Plain, Option<P4>>(f0)); o.extend(enc1::<Plain, i64>(f1)); }
            E18::Item4 => { (4u32).enc(o);  }
            E18::FooBar5(f0, f1, f2) => { (5u32).enc(o); o.extend(enc1::<Plain, Vec<String>>(f0)); o.extend(enc1::<Plain, O2>(f1)); o.extend(enc1::<Plain, i8>(f2)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E18::V0 { f0: a0 }, E18::V0 { f0: b0 }) => a0.same(b0), (E18::FooBar1, E18::FooBar1) => true, (E18::V2(a0), E18::V2(b0)) => a0.same(b0), (E18::FooBar3(a0, a1), E18::FooBar3(b0, b1)) => a0.same(b0) && a1.same(b1), (E18::Item4, E18::Item4) => true, (E18::FooBar5(a0, a1, a2), E18::FooBar5(b0, b1, b2)) => a0.same(b0) && a1.same(b1) && a2.same(b2), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(6) { 0 => E18::V0 { f0: <u128 as Spec>::random(g) }, 1 => E18::FooBar1, 2 => E18::V2(<Option<u32> as Spec>::random(g)), 3 => E18::FooBar3(<Option<P4> as Spec>::random(g), <i64 as Spec>::random(g)), 4 => E18::Item4, _ => E18::FooBar5(<Vec<String> as Spec>::random(g), <O2 as Spec>::random(g), <i8 as Spec>::random(g)), }) }
}
impl Hist for E18 {
    const LATEST: u16 = 2;
    const REVISION: u16 = E18::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(4) {
                0 => { (0u32).enc(o);  }
                1 => { (1u32).enc(o);  }
                2 => { (2u32).enc(o); o.extend(gen1::<Plain, i64>(g)); }
                _ => { (3u32).enc(o); o.extend(gen1::<Plain, i8>(g)); }
            },
            2 => match g.below(6) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u128>(g)); }
                1 => { (1u32).enc(o);  }
                2 => { (2u32).enc(o); o.extend(gen1::<Plain, Option<u32>>(g)); }
                3 => { (3u32).enc(o); o.extend(gen1::<Plain, Option<P4>>(g)); o.extend(gen1::<Plain, i64>(g)); }
                4 => { (4u32).enc(o);  }
                _ => { (5u32).enc(o); o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Plain, O2>(g)); o.extend(gen1::<Plain, i8>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 3);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = dflt::<u128>(1, 0);
                    sh.body = (a, c.pos);
                    E18::V0 { f0 }
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = <Option<u32> as Default>::default();
                    sh.body = (a, c.pos);
                    E18::V2(f0)
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = dflt::<Option<P4>>(1, 300);
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, i64>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    E18::FooBar3(f0, f1)
                }
                3 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = <Vec<String> as Default>::default();
                    #[allow(unused_mut)] let mut f1 = dflt::<O2>(1, 501);
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, i8>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E18::FooBar5(f0, f1, f2)
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u128>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E18::V0 { f0 }
                }
                1 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E18::FooBar1
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Option<u32>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E18::V2(f0)
                }
                3 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Option<P4>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, i64>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    E18::FooBar3(f0, f1)
                }
                4 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E18::Item4
                }
                5 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, O2>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, i8>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E18::FooBar5(f0, f1, f2)
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("V0", 0), ("V2", 1), ("FooBar3", 2), ("FooBar5", 3)];
        if E18::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E18::walk_revisioned_variant_table(1))) }
        for d in 0..6 { if E18::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("V0", 0), ("FooBar1", 1), ("V2", 2), ("FooBar3", 3), ("Item4", 4), ("FooBar5", 5)];
        if E18::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E18::walk_revisioned_variant_table(2))) }
        for d in 0..8 { if E18::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        if !E18::walk_revisioned_variant_table(3).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E18 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(10) {
                    0 => { let _ = w.v0_view(); }
                    1 => { let _ = w.into_foo_bar1(); }
                    2 => { let _ = w.decode_foo_bar1(); }
                    3 => { let _ = w.into_v2(); }
                    4 => { let _ = w.decode_v2(); }
                    5 => { let _ = w.v2_view(); }
                    6 => { let _ = w.foo_bar3_view(); }
                    7 => { let _ = w.into_item4(); }
                    8 => { let _ = w.decode_item4(); }
                    9 => { let _ = w.foo_bar5_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E18::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("V0", w.is_v0()), ("FooBar1", w.is_foo_bar1()), ("V2", w.is_v2()), ("FooBar3", w.is_foo_bar3()), ("Item4", w.is_item4()), ("FooBar5", w.is_foo_bar5())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(10);
        if g.below(5) != 0 { k = match sh.variant { "V0" => 0 + g.below(1), "FooBar1" => 1 + g.below(2), "V2" => 3 + g.below(3), "FooBar3" => 6 + g.below(1), "Item4" => 7 + g.below(2), "FooBar5" => 9 + g.below(1), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "V0"; let r = w.v0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E18::V0 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, u128>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v0_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v0_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            1 => { let ok = sh.variant == "FooBar1"; let r = w.into_foo_bar1(); if !ok { return if r.is_ok() { bad("into_foo_bar1 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_foo_bar1", r)?; Ok(()) }
            2 => { let ok = sh.variant == "FooBar1"; let r = w.decode_foo_bar1(); if !ok { return if r.is_ok() { bad("decode_foo_bar1 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_foo_bar1", r)?; Ok(()) }
            3 => { let ok = sh.variant == "V2"; let r = w.into_v2(); if !ok { return if r.is_ok() { bad("into_v2 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <Option<u32> as W>::WALKABLE && true; if nested::<Option<u32>, R>("into_v2", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            4 => { let ok = sh.variant == "V2"; let r = w.decode_v2(); if !ok { return if r.is_ok() { bad("decode_v2 of another variant succeeded") } else { Err(Stop::Expected) } } let E18::V2(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v2", f0, r) }
            5 => { let ok = sh.variant == "V2"; let r = w.v2_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v2_view of another variant succeeded") } else { Err(Stop::Expected) } } let E18::V2(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v2_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, Option<u32>>(f0)]) }
            6 => { let ok = sh.variant == "FooBar3"; let r = w.foo_bar3_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar3_view of another variant succeeded") } else { Err(Stop::Expected) } } let E18::FooBar3(f0, f1) = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, Option<P4>>(f0), enc1::<Plain, i64>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar3_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar3_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            7 => { let ok = sh.variant == "Item4"; let r = w.into_item4(); if !ok { return if r.is_ok() { bad("into_item4 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_item4", r)?; Ok(()) }
            8 => { let ok = sh.variant == "Item4"; let r = w.decode_item4(); if !ok { return if r.is_ok() { bad("decode_item4 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_item4", r)?; Ok(()) }
            9 => { let ok = sh.variant == "FooBar5"; let r = w.foo_bar5_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar5_view of another variant succeeded") } else { Err(Stop::Expected) } } let E18::FooBar5(f0, f1, f2) = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, Vec<String>>(f0), enc1::<Plain, O2>(f1), enc1::<Plain, i8>(f2)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar5_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar5_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision = 3)]
#[derive(Debug, Clone)]
pub enum E19 {
    Acc(u64),
    FooBar0 { #[revision(start = 2, default_fn = "d_1_0")] f0: Vec<S9>, f1: u8, f2: u8 },
    #[revision(start = 3)] FooBar1 { #[revision(start = 3, default_fn = "d_2_0")] f0: i32 },
    #[revision(end = 2, convert_fn = "cv_3")] FooBar2(u64, #[revision(end = 2, convert_fn = "c_3_1")] Box<S10>, #[revision(start = 2, end = 3, convert_fn = "c_3_2", default_fn = "d_3_2")] Box<O3>),
}
impl E19 {
    fn d_1_0(rev: u16) -> Result<Vec<S9>, Error> { Ok(dflt::<Vec<S9>>(rev, 100)) }
    fn d_2_0(rev: u16) -> Result<i32, Error> { Ok(dflt::<i32>(rev, 200)) }
    fn c_3_1(x: &mut E19FooBar2Fields, rev: u16, v: Box<S10>) -> Result<(), Error> { x.0 = mix(x.0, rev, &v.bytes()); Ok(()) }
    fn d_3_2(rev: u16) -> Result<Box<O3>, Error> { Ok(dflt::<Box<O3>>(rev, 302)) }
    fn c_3_2(x: &mut E19FooBar2Fields, rev: u16, v: Box<O3>) -> Result<(), Error> { x.0 = mix(x.0, rev, &v.bytes()); Ok(()) }
    fn cv_3(x: E19FooBar2Fields, rev: u16) -> Result<Self, Error> { let _ = &x; #[allow(unused_mut)] let mut h = mix(3, rev, &[]); h = mix(h, rev, &x.0.bytes()); Ok(E19::Acc(h)) }
    fn vname(&self) -> &'static str { match self { E19::Acc { .. } => "Acc", E19::FooBar0 { .. } => "FooBar0", E19::FooBar1 { .. } => "FooBar1" } }
}
impl Spec for E19 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        match self {
            E19::Acc(f0) => { (0u32).enc(o); o.extend(enc1::<Plain, u64>(f0)); }
            E19::FooBar0 { f0, f1, f2 } => { (1u32).enc(o); o.extend(enc1::<Plain, Vec<S9>>(f0)); o.extend(enc1::<Plain, u8>(f1)); o.extend(enc1::<Plain, u8>(f2)); }
            E19::FooBar1 { f0 } => { (2u32).enc(o); o.extend(enc1::<Plain, i32>(f0)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E19::Acc(a0), E19::Acc(b0)) => a0.same(b0), (E19::FooBar0 { f0: a0, f1: a1, f2: a2 }, E19::FooBar0 { f0: b0, f1: b1, f2: b2 }) => a0.same(b0) && a1.same(b1) && a2.same(b2), (E19::FooBar1 { f0: a0 }, E19::FooBar1 { f0: b0 }) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(3) { 0 => E19::Acc(<u64 as Spec>::random(g)), 1 => E19::FooBar0 { f0: <Vec<S9> as Spec>::random(g), f1: <u8 as Spec>::random(g), f2: <u8 as Spec>::random(g) }, _ => E19::FooBar1 { f0: <i32 as Spec>::random(g) }, }) }
}
impl Hist for E19 {
    const LATEST: u16 = 3;
    const REVISION: u16 = E19::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(3) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, u8>(g)); }
                _ => { (2u32).enc(o); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, Box<S10>>(g)); }
            },
            2 => match g.below(2) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                _ => { (1u32).enc(o); o.extend(gen1::<Plain, Vec<S9>>(g)); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, u8>(g)); }
            },
            3 => match g.below(3) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, Vec<S9>>(g)); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, u8>(g)); }
                _ => { (2u32).enc(o); o.extend(gen1::<Plain, i32>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 3);
        sh.conv = rev != 3;
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E19::Acc(f0)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = dflt::<Vec<S9>>(1, 100);
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, u8>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, u8>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E19::FooBar0 { f0, f1, f2 }
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Box<S10>>(c, &mut sh, None)?;
                    sh.body = (a, c.pos);
                    f0 = mix(f0, 1, &f1.bytes());
                    #[allow(unused_mut)] let mut h = mix(3, 1, &[]);
                    h = mix(h, 1, &f0.bytes());
                    E19::Acc(h)
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E19::Acc(f0)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<S9>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, u8>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, u8>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E19::FooBar0 { f0, f1, f2 }
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E19::Acc(f0)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<S9>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, u8>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, u8>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E19::FooBar0 { f0, f1, f2 }
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, i32>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E19::FooBar1 { f0 }
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("Acc", 0), ("FooBar0", 1), ("FooBar2", 2)];
        if E19::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E19::walk_revisioned_variant_table(1))) }
        for d in 0..5 { if E19::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("Acc", 0), ("FooBar0", 1)];
        if E19::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E19::walk_revisioned_variant_table(2))) }
        for d in 0..4 { if E19::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("Acc", 0), ("FooBar0", 1), ("FooBar1", 2)];
        if E19::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", E19::walk_revisioned_variant_table(3))) }
        for d in 0..5 { if E19::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        if !E19::walk_revisioned_variant_table(4).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E19 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(5) {
                    0 => { let _ = w.into_acc(); }
                    1 => { let _ = w.decode_acc(); }
                    2 => { let _ = w.acc_view(); }
                    3 => { let _ = w.foo_bar0_view(); }
                    4 => { let _ = w.foo_bar1_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E19::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Acc", w.is_acc()), ("FooBar0", w.is_foo_bar0()), ("FooBar1", w.is_foo_bar1())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(5);
        if g.below(5) != 0 { k = match sh.variant { "Acc" => 0 + g.below(3), "FooBar0" => 3 + g.below(1), "FooBar1" => 4 + g.below(1), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Acc"; let r = w.into_acc(); if !ok { return if r.is_ok() { bad("into_acc of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u64 as W>::WALKABLE && true; if nested::<u64, R>("into_acc", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "Acc"; let r = w.decode_acc(); if !ok { return if r.is_ok() { bad("decode_acc of another variant succeeded") } else { Err(Stop::Expected) } } let E19::Acc(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_acc", f0, r) }
            2 => { let ok = sh.variant == "Acc"; let r = w.acc_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("acc_view of another variant succeeded") } else { Err(Stop::Expected) } } let E19::Acc(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("acc_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u64>(f0)]) }
            3 => { let ok = sh.variant == "FooBar0"; let r = w.foo_bar0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E19::FooBar0 { f0, f1, f2 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, Vec<S9>>(f0), enc1::<Plain, u8>(f1), enc1::<Plain, u8>(f2)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar0_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar0_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            4 => { let ok = sh.variant == "FooBar1"; let r = w.foo_bar1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E19::FooBar1 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, i32>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar1_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar1_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(1))]
#[derive(Debug, Clone)]
pub enum E20 {
    FooBar0 { f0: u8, f1: BTreeMap<u8, String> },
    FooBar1 { f0: String },
    Item2(bool),
}
impl E20 {
    fn vname(&self) -> &'static str { match self { E20::FooBar0 { .. } => "FooBar0", E20::FooBar1 { .. } => "FooBar1", E20::Item2 { .. } => "Item2" } }
}
impl Spec for E20 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        match self {
            E20::FooBar0 { f0, f1 } => { (0u32).enc(o); o.extend(enc1::<Plain, u8>(f0)); o.extend(enc1::<Plain, BTreeMap<u8, String>>(f1)); }
            E20::FooBar1 { f0 } => { (1u32).enc(o); o.extend(enc1::<Plain, String>(f0)); }
            E20::Item2(f0) => { (2u32).enc(o); o.extend(enc1::<Plain, bool>(f0)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E20::FooBar0 { f0: a0, f1: a1 }, E20::FooBar0 { f0: b0, f1: b1 }) => a0.same(b0) && a1.same(b1), (E20::FooBar1 { f0: a0 }, E20::FooBar1 { f0: b0 }) => a0.same(b0), (E20::Item2(a0), E20::Item2(b0)) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(3) { 0 => E20::FooBar0 { f0: <u8 as Spec>::random(g), f1: <BTreeMap<u8, String> as Spec>::random(g) }, 1 => E20::FooBar1 { f0: <String as Spec>::random(g) }, _ => E20::Item2(<bool as Spec>::random(g)), }) }
}
impl Hist for E20 {
    const LATEST: u16 = 1;
    const REVISION: u16 = E20::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(3) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, String>(g)); }
                _ => { (2u32).enc(o); o.extend(gen1::<Plain, bool>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 2);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    E20::FooBar0 { f0, f1 }
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E20::FooBar1 { f0 }
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, bool>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E20::Item2(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("FooBar0", 0), ("FooBar1", 1), ("Item2", 2)];
        if E20::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E20::walk_revisioned_variant_table(1))) }
        for d in 0..5 { if E20::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        if !E20::walk_revisioned_variant_table(2).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E20 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(5) {
                    0 => { let _ = w.foo_bar0_view(); }
                    1 => { let _ = w.foo_bar1_view(); }
                    2 => { let _ = w.into_item2(); }
                    3 => { let _ = w.decode_item2(); }
                    4 => { let _ = w.item2_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E20::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("FooBar0", w.is_foo_bar0()), ("FooBar1", w.is_foo_bar1()), ("Item2", w.is_item2())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(5);
        if g.below(5) != 0 { k = match sh.variant { "FooBar0" => 0 + g.below(1), "FooBar1" => 1 + g.below(1), "Item2" => 2 + g.below(3), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "FooBar0"; let r = w.foo_bar0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E20::FooBar0 { f0, f1 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, u8>(f0), enc1::<Plain, BTreeMap<u8, String>>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar0_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar0_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            1 => { let ok = sh.variant == "FooBar1"; let r = w.foo_bar1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E20::FooBar1 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, String>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar1_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar1_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            2 => { let ok = sh.variant == "Item2"; let r = w.into_item2(); if !ok { return if r.is_ok() { bad("into_item2 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <bool as W>::WALKABLE && true; if nested::<bool, R>("into_item2", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            3 => { let ok = sh.variant == "Item2"; let r = w.decode_item2(); if !ok { return if r.is_ok() { bad("decode_item2 of another variant succeeded") } else { Err(Stop::Expected) } } let E20::Item2(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_item2", f0, r) }
            4 => { let ok = sh.variant == "Item2"; let r = w.item2_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item2_view of another variant succeeded") } else { Err(Stop::Expected) } } let E20::Item2(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("item2_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, bool>(f0)]) }
            _ => unreachable!(),
        }
    }
}

#[revisioned()]
#[revision(revision(1), revision(2), revision(3))]
#[derive(Debug, Clone)]
pub enum E21 {
    FooBar0(#[revision(start = 2, default_fn = "d_0_0")] u16),
    FooBar1,
}
impl E21 {
    fn d_0_0(rev: u16) -> Result<u16, Error> { Ok(dflt::<u16>(rev, 0)) }
    fn vname(&self) -> &'static str { match self { E21::FooBar0 { .. } => "FooBar0", E21::FooBar1 { .. } => "FooBar1" } }
}
impl Spec for E21 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        match self {
            E21::FooBar0(f0) => { (0u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            E21::FooBar1 => { (1u32).enc(o);  }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E21::FooBar0(a0), E21::FooBar0(b0)) => a0.same(b0), (E21::FooBar1, E21::FooBar1) => true, _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(2) { 0 => E21::FooBar0(<u16 as Spec>::random(g)), _ => E21::FooBar1, }) }
}
impl Hist for E21 {
    const LATEST: u16 = 3;
    const REVISION: u16 = E21::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(2) {
                0 => { (0u32).enc(o);  }
                _ => { (1u32).enc(o);  }
            },
            2 => match g.below(2) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                _ => { (1u32).enc(o);  }
            },
            3 => match g.below(2) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                _ => { (1u32).enc(o);  }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 1);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = dflt::<u16>(1, 0);
                    sh.body = (a, c.pos);
                    E21::FooBar0(f0)
                }
                1 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E21::FooBar1
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E21::FooBar0(f0)
                }
                1 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E21::FooBar1
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E21::FooBar0(f0)
                }
                1 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E21::FooBar1
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("FooBar0", 0), ("FooBar1", 1)];
        if E21::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E21::walk_revisioned_variant_table(1))) }
        for d in 0..4 { if E21::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("FooBar0", 0), ("FooBar1", 1)];
        if E21::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E21::walk_revisioned_variant_table(2))) }
        for d in 0..4 { if E21::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("FooBar0", 0), ("FooBar1", 1)];
        if E21::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", E21::walk_revisioned_variant_table(3))) }
        for d in 0..4 { if E21::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        if !E21::walk_revisioned_variant_table(4).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E21 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(5) {
                    0 => { let _ = w.into_foo_bar0(); }
                    1 => { let _ = w.decode_foo_bar0(); }
                    2 => { let _ = w.foo_bar0_view(); }
                    3 => { let _ = w.into_foo_bar1(); }
                    4 => { let _ = w.decode_foo_bar1(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E21::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("FooBar0", w.is_foo_bar0()), ("FooBar1", w.is_foo_bar1())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(5);
        if g.below(5) != 0 { k = match sh.variant { "FooBar0" => 0 + g.below(3), "FooBar1" => 3 + g.below(2), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "FooBar0"; let r = w.into_foo_bar0(); if !ok { return if r.is_ok() { bad("into_foo_bar0 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_foo_bar0", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "FooBar0"; let r = w.decode_foo_bar0(); if !ok { return if r.is_ok() { bad("decode_foo_bar0 of another variant succeeded") } else { Err(Stop::Expected) } } let E21::FooBar0(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_foo_bar0", f0, r) }
            2 => { let ok = sh.variant == "FooBar0"; let r = w.foo_bar0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E21::FooBar0(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("foo_bar0_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            3 => { let ok = sh.variant == "FooBar1"; let r = w.into_foo_bar1(); if !ok { return if r.is_ok() { bad("into_foo_bar1 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_foo_bar1", r)?; Ok(()) }
            4 => { let ok = sh.variant == "FooBar1"; let r = w.decode_foo_bar1(); if !ok { return if r.is_ok() { bad("decode_foo_bar1 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_foo_bar1", r)?; Ok(()) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(3), revision(2), revision(1))]
#[derive(Debug, Clone)]
pub enum E22 {
    #[revision(end = 3, convert_fn = "cv_0")] V0(#[revision(start = 2, default_fn = "d_0_0")] u32),
    #[revision(override(revision = 3, discriminant = 10))] Acc(u64),
    #[revision(start = 2)] #[revision(override(revision = 3, discriminant = 9))] FooBar1 { acc: u64, #[revision(end = 2)] #[revision(convert_fn = "c_2_1")] f1: bool },
    #[revision(start = 2, end = 3, convert_fn = "cv_3")] V2,
    #[revision(start = 2)] Item3(#[revision(start = 3, default_fn = "d_4_0")] bool, #[revision(start = 3)] Vec<String>),
    #[revision(override(revision = 2, discriminant = 5), override(revision = 1, discriminant = 70000))] Item4 { #[revision(default_fn = "d_5_0")] #[revision(start = 3)] f0: Option<u32>, #[revision(default_fn = "d_5_1", start = 3)] f1: S14 },
    #[revision(start = 3)] FooBar5(#[revision(start = 3)] #[revision(default_fn = "d_6_0")] u16),
}
impl E22 {
    fn d_0_0(rev: u16) -> Result<u32, Error> { Ok(dflt::<u32>(rev, 0)) }
    fn cv_0(x: E22V0Fields, rev: u16) -> Result<Self, Error> { let _ = &x; #[allow(unused_mut)] let mut h = mix(0, rev, &[]); h = mix(h, rev, &x.0.bytes()); Ok(E22::Acc(h)) }
    fn c_2_1(x: &mut E22FooBar1Fields, rev: u16, v: bool) -> Result<(), Error> { x.acc = mix(x.acc, rev, &v.bytes()); Ok(()) }
    fn cv_3(x: E22V2Fields, rev: u16) -> Result<Self, Error> { let _ = &x; #[allow(unused_mut)] let mut h = mix(3, rev, &[]); Ok(E22::Acc(h)) }
    fn d_4_0(rev: u16) -> Result<bool, Error> { Ok(dflt::<bool>(rev, 400)) }
    fn d_5_0(rev: u16) -> Result<Option<u32>, Error> { Ok(dflt::<Option<u32>>(rev, 500)) }
    fn d_5_1(rev: u16) -> Result<S14, Error> { Ok(dflt::<S14>(rev, 501)) }
    fn d_6_0(rev: u16) -> Result<u16, Error> { Ok(dflt::<u16>(rev, 600)) }
    fn vname(&self) -> &'static str { match self { E22::Acc { .. } => "Acc", E22::FooBar1 { .. } => "FooBar1", E22::Item3 { .. } => "Item3", E22::Item4 { .. } => "Item4", E22::FooBar5 { .. } => "FooBar5" } }
}
impl Spec for E22 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        match self {
            E22::Acc(f0) => { (10u32).enc(o); o.extend(enc1::<Plain, u64>(f0)); }
            E22::FooBar1 { acc: f0 } => { (9u32).enc(o); o.extend(enc1::<Plain, u64>(f0)); }
            E22::Item3(f0, f1) => { (0u32).enc(o); o.extend(enc1::<Plain, bool>(f0)); o.extend(enc1::<Plain, Vec<String>>(f1)); }
            E22::Item4 { f0, f1 } => { (1u32).enc(o); o.extend(enc1::<Plain, Option<u32>>(f0)); o.extend(enc1::<Plain, S14>(f1)); }
            E22::FooBar5(f0) => { (2u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E22::Acc(a0), E22::Acc(b0)) => a0.same(b0), (E22::FooBar1 { acc: a0 }, E22::FooBar1 { acc: b0 }) => a0.same(b0), (E22::Item3(a0, a1), E22::Item3(b0, b1)) => a0.same(b0) && a1.same(b1), (E22::Item4 { f0: a0, f1: a1 }, E22::Item4 { f0: b0, f1: b1 }) => a0.same(b0) && a1.same(b1), (E22::FooBar5(a0), E22::FooBar5(b0)) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(5) { 0 => E22::Acc(<u64 as Spec>::random(g)), 1 => E22::FooBar1 { acc: <u64 as Spec>::random(g) }, 2 => E22::Item3(<bool as Spec>::random(g), <Vec<String> as Spec>::random(g)), 3 => E22::Item4 { f0: <Option<u32> as Spec>::random(g), f1: <S14 as Spec>::random(g) }, _ => E22::FooBar5(<u16 as Spec>::random(g)), }) }
}
impl Hist for E22 {
    const LATEST: u16 = 3;
    const REVISION: u16 = E22::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(3) {
                0 => { (0u32).enc(o);  }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                _ => { (70000u32).enc(o);  }
            },
            2 => match g.below(6) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u32>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                2 => { (2u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                3 => { (3u32).enc(o);  }
                4 => { (4u32).enc(o);  }
                _ => { (5u32).enc(o);  }
            },
            3 => match g.below(5) {
                0 => { (10u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                1 => { (9u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                2 => { (0u32).enc(o); o.extend(gen1::<Plain, bool>(g)); o.extend(gen1::<Plain, Vec<String>>(g)); }
                3 => { (1u32).enc(o); o.extend(gen1::<Plain, Option<u32>>(g)); o.extend(gen1::<Plain, S14>(g)); }
                _ => { (2u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 2);
        sh.conv = rev != 3;
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = dflt::<u32>(1, 0);
                    sh.body = (a, c.pos);
                    #[allow(unused_mut)] let mut h = mix(0, 1, &[]);
                    h = mix(h, 1, &f0.bytes());
                    E22::Acc(h)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E22::Acc(f0)
                }
                70000 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = dflt::<Option<u32>>(1, 500);
                    #[allow(unused_mut)] let mut f1 = dflt::<S14>(1, 501);
                    sh.body = (a, c.pos);
                    E22::Item4 { f0, f1 }
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    #[allow(unused_mut)] let mut h = mix(0, 2, &[]);
                    h = mix(h, 2, &f0.bytes());
                    E22::Acc(h)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E22::Acc(f0)
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E22::FooBar1 { acc: f0 }
                }
                3 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    #[allow(unused_mut)] let mut h = mix(3, 2, &[]);
                    E22::Acc(h)
                }
                4 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = dflt::<bool>(2, 400);
                    #[allow(unused_mut)] let mut f1 = <Vec<String> as Default>::default();
                    sh.body = (a, c.pos);
                    E22::Item3(f0, f1)
                }
                5 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = dflt::<Option<u32>>(2, 500);
                    #[allow(unused_mut)] let mut f1 = dflt::<S14>(2, 501);
                    sh.body = (a, c.pos);
                    E22::Item4 { f0, f1 }
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                match <u32 as Spec>::dec(c)? {
                10 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E22::Acc(f0)
                }
                9 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E22::FooBar1 { acc: f0 }
                }
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, bool>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Vec<String>>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    E22::Item3(f0, f1)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Option<u32>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, S14>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    E22::Item4 { f0, f1 }
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E22::FooBar5(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("V0", 0), ("Acc", 1), ("Item4", 70000)];
        if E22::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E22::walk_revisioned_variant_table(1))) }
        for d in 0..70003 { if E22::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("V0", 0), ("Acc", 1), ("FooBar1", 2), ("V2", 3), ("Item3", 4), ("Item4", 5)];
        if E22::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E22::walk_revisioned_variant_table(2))) }
        for d in 0..8 { if E22::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("Acc", 10), ("FooBar1", 9), ("Item3", 0), ("Item4", 1), ("FooBar5", 2)];
        if E22::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", E22::walk_revisioned_variant_table(3))) }
        for d in 0..13 { if E22::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        if !E22::walk_revisioned_variant_table(4).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E22 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(9) {
                    0 => { let _ = w.into_acc(); }
                    1 => { let _ = w.decode_acc(); }
                    2 => { let _ = w.acc_view(); }
                    3 => { let _ = w.foo_bar1_view(); }
                    4 => { let _ = w.item3_view(); }
                    5 => { let _ = w.item4_view(); }
                    6 => { let _ = w.into_foo_bar5(); }
                    7 => { let _ = w.decode_foo_bar5(); }
                    8 => { let _ = w.foo_bar5_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E22::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Acc", w.is_acc()), ("FooBar1", w.is_foo_bar1()), ("Item3", w.is_item3()), ("Item4", w.is_item4()), ("FooBar5", w.is_foo_bar5())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(9);
        if g.below(5) != 0 { k = match sh.variant { "Acc" => 0 + g.below(3), "FooBar1" => 3 + g.below(1), "Item3" => 4 + g.below(1), "Item4" => 5 + g.below(1), "FooBar5" => 6 + g.below(3), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Acc"; let r = w.into_acc(); if !ok { return if r.is_ok() { bad("into_acc of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u64 as W>::WALKABLE && true; if nested::<u64, R>("into_acc", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "Acc"; let r = w.decode_acc(); if !ok { return if r.is_ok() { bad("decode_acc of another variant succeeded") } else { Err(Stop::Expected) } } let E22::Acc(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_acc", f0, r) }
            2 => { let ok = sh.variant == "Acc"; let r = w.acc_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("acc_view of another variant succeeded") } else { Err(Stop::Expected) } } let E22::Acc(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("acc_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u64>(f0)]) }
            3 => { let ok = sh.variant == "FooBar1"; let r = w.foo_bar1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E22::FooBar1 { acc: f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, u64>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar1_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar1_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            4 => { let ok = sh.variant == "Item3"; let r = w.item3_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item3_view of another variant succeeded") } else { Err(Stop::Expected) } } let E22::Item3(f0, f1) = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, bool>(f0), enc1::<Plain, Vec<String>>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("item3_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("item3_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            5 => { let ok = sh.variant == "Item4"; let r = w.item4_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item4_view of another variant succeeded") } else { Err(Stop::Expected) } } let E22::Item4 { f0, f1 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, Option<u32>>(f0), enc1::<Plain, S14>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("item4_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("item4_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            6 => { let ok = sh.variant == "FooBar5"; let r = w.into_foo_bar5(); if !ok { return if r.is_ok() { bad("into_foo_bar5 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u16 as W>::WALKABLE && true; if nested::<u16, R>("into_foo_bar5", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            7 => { let ok = sh.variant == "FooBar5"; let r = w.decode_foo_bar5(); if !ok { return if r.is_ok() { bad("decode_foo_bar5 of another variant succeeded") } else { Err(Stop::Expected) } } let E22::FooBar5(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_foo_bar5", f0, r) }
            8 => { let ok = sh.variant == "FooBar5"; let r = w.foo_bar5_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar5_view of another variant succeeded") } else { Err(Stop::Expected) } } let E22::FooBar5(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("foo_bar5_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u16>(f0)]) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(2), revision(4), revision(1), revision(3))]
#[derive(Debug, Clone)]
pub enum E23 {
    Acc(u64),
    #[revision(override(revision = 2, discriminant = 4), override(revision = 1, discriminant = 10), convert_fn = "cv_1", end = 3)] V0(#[revision(start = 3)] bool),
    #[revision(start = 4)] FooBar1 { acc: u64, #[revision(start = 2, end = 3, convert_fn = "c_2_1")] f1: Vec<String>, #[revision(convert_fn = "c_2_2")] #[revision(end = 4)] f2: Vec<String> },
    Item2(Box<u32>, #[revision(start = 3, default_fn = "d_3_1")] Duration, #[revision(default_fn = "d_3_2")] #[revision(convert_fn = "c_3_2")] #[revision(end = 3)] #[revision(start = 2)] u16, u64),
    #[revision(start = 3)] Item3(i64),
    #[revision(start = 2, override(revision = 2, discriminant = 6))] FooBar4(u64, #[revision(start = 2, end = 3, convert_fn = "c_5_1", default_fn = "d_5_1")] u32),
    FooBar5 { #[revision(start = 4)] f0: Box<u32> },
}
impl E23 {
    fn cv_1(x: E23V0Fields, rev: u16) -> Result<Self, Error> { let _ = &x; if rev % 2 == 1 { return Err(Error::Conversion("no".into())) } #[allow(unused_mut)] let mut h = mix(1, rev, &[]); h = mix(h, rev, &x.0.bytes()); Ok(E23::Acc(h)) }
    fn c_2_1(x: &mut E23FooBar1Fields, rev: u16, v: Vec<String>) -> Result<(), Error> { x.acc = mix(x.acc, rev, &v.bytes()); Ok(()) }
    fn c_2_2(x: &mut E23FooBar1Fields, rev: u16, v: Vec<String>) -> Result<(), Error> { x.acc = mix(x.acc, rev, &v.bytes()); Ok(()) }
    fn d_3_1(rev: u16) -> Result<Duration, Error> { Ok(dflt::<Duration>(rev, 301)) }
    fn d_3_2(rev: u16) -> Result<u16, Error> { Ok(dflt::<u16>(rev, 302)) }
    fn c_3_2(x: &mut E23Item2Fields, rev: u16, v: u16) -> Result<(), Error> { x.2 = mix(x.2, rev, &v.bytes()); Ok(()) }
    fn d_5_1(rev: u16) -> Result<u32, Error> { Ok(dflt::<u32>(rev, 501)) }
    fn c_5_1(x: &mut E23FooBar4Fields, rev: u16, v: u32) -> Result<(), Error> { x.0 = mix(x.0, rev, &v.bytes()); Ok(()) }
    fn vname(&self) -> &'static str { match self { E23::Acc { .. } => "Acc", E23::FooBar1 { .. } => "FooBar1", E23::Item2 { .. } => "Item2", E23::Item3 { .. } => "Item3", E23::FooBar4 { .. } => "FooBar4", E23::FooBar5 { .. } => "FooBar5" } }
}
impl Spec for E23 {
    fn enc(&self, o: &mut Vec<u8>) {
        4u16.enc(o);
        match self {
            E23::Acc(f0) => { (0u32).enc(o); o.extend(enc1::<Plain, u64>(f0)); }
            E23::FooBar1 { acc: f0 } => { (1u32).enc(o); o.extend(enc1::<Plain, u64>(f0)); }
            E23::Item2(f0, f1, f3) => { (2u32).enc(o); o.extend(enc1::<Plain, Box<u32>>(f0)); o.extend(enc1::<Plain, Duration>(f1)); o.extend(enc1::<Plain, u64>(f3)); }
            E23::Item3(f0) => { (3u32).enc(o); o.extend(enc1::<Plain, i64>(f0)); }
            E23::FooBar4(f0) => { (4u32).enc(o); o.extend(enc1::<Plain, u64>(f0)); }
            E23::FooBar5 { f0 } => { (5u32).enc(o); o.extend(enc1::<Plain, Box<u32>>(f0)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E23::Acc(a0), E23::Acc(b0)) => a0.same(b0), (E23::FooBar1 { acc: a0 }, E23::FooBar1 { acc: b0 }) => a0.same(b0), (E23::Item2(a0, a1, a3), E23::Item2(b0, b1, b3)) => a0.same(b0) && a1.same(b1) && a3.same(b3), (E23::Item3(a0), E23::Item3(b0)) => a0.same(b0), (E23::FooBar4(a0), E23::FooBar4(b0)) => a0.same(b0), (E23::FooBar5 { f0: a0 }, E23::FooBar5 { f0: b0 }) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(6) { 0 => E23::Acc(<u64 as Spec>::random(g)), 1 => E23::FooBar1 { acc: <u64 as Spec>::random(g) }, 2 => E23::Item2(<Box<u32> as Spec>::random(g), <Duration as Spec>::random(g), <u64 as Spec>::random(g)), 3 => E23::Item3(<i64 as Spec>::random(g)), 4 => E23::FooBar4(<u64 as Spec>::random(g)), _ => E23::FooBar5 { f0: <Box<u32> as Spec>::random(g) }, }) }
}
impl Hist for E23 {
    const LATEST: u16 = 4;
    const REVISION: u16 = E23::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(4) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                1 => { (10u32).enc(o);  }
                2 => { (1u32).enc(o); o.extend(gen1::<Plain, Box<u32>>(g)); o.extend(gen1::<Plain, u64>(g)); }
                _ => { (2u32).enc(o);  }
            },
            2 => match g.below(5) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                1 => { (4u32).enc(o);  }
                2 => { (1u32).enc(o); o.extend(gen1::<Plain, Box<u32>>(g)); o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, u64>(g)); }
                3 => { (6u32).enc(o); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, u32>(g)); }
                _ => { (2u32).enc(o);  }
            },
            3 => match g.below(5) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, Box<u32>>(g)); o.extend(gen1::<Plain, Duration>(g)); o.extend(gen1::<Plain, u64>(g)); }
                2 => { (2u32).enc(o); o.extend(gen1::<Plain, i64>(g)); }
                3 => { (3u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                _ => { (4u32).enc(o);  }
            },
            4 => match g.below(6) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                2 => { (2u32).enc(o); o.extend(gen1::<Plain, Box<u32>>(g)); o.extend(gen1::<Plain, Duration>(g)); o.extend(gen1::<Plain, u64>(g)); }
                3 => { (3u32).enc(o); o.extend(gen1::<Plain, i64>(g)); }
                4 => { (4u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                _ => { (5u32).enc(o); o.extend(gen1::<Plain, Box<u32>>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 4, 3);
        sh.conv = rev != 4;
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E23::Acc(f0)
                }
                10 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = <bool as Default>::default();
                    sh.body = (a, c.pos);
                    let _ = f0; return Err(Bad::Other)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Box<u32>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = dflt::<Duration>(1, 301);
                    #[allow(unused_mut)] let mut f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E23::Item2(f0, f1, f3)
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = <Box<u32> as Default>::default();
                    sh.body = (a, c.pos);
                    E23::FooBar5 { f0 }
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E23::Acc(f0)
                }
                4 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = <bool as Default>::default();
                    sh.body = (a, c.pos);
                    #[allow(unused_mut)] let mut h = mix(1, 2, &[]);
                    h = mix(h, 2, &f0.bytes());
                    E23::Acc(h)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Box<u32>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = dflt::<Duration>(2, 301);
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, u16>(c, &mut sh, None)?;
                    #[allow(unused_mut)] let mut f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    f3 = mix(f3, 2, &f2.bytes());
                    E23::Item2(f0, f1, f3)
                }
                6 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, u32>(c, &mut sh, None)?;
                    sh.body = (a, c.pos);
                    f0 = mix(f0, 2, &f1.bytes());
                    E23::FooBar4(f0)
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = <Box<u32> as Default>::default();
                    sh.body = (a, c.pos);
                    E23::FooBar5 { f0 }
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E23::Acc(f0)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Box<u32>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Duration>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E23::Item2(f0, f1, f3)
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, i64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E23::Item3(f0)
                }
                3 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E23::FooBar4(f0)
                }
                4 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = <Box<u32> as Default>::default();
                    sh.body = (a, c.pos);
                    E23::FooBar5 { f0 }
                }
                _ => return Err(Bad::Other),
                }
            }
            4 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E23::Acc(f0)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E23::FooBar1 { acc: f0 }
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Box<u32>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Duration>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f3 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E23::Item2(f0, f1, f3)
                }
                3 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, i64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E23::Item3(f0)
                }
                4 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E23::FooBar4(f0)
                }
                5 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Box<u32>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E23::FooBar5 { f0 }
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("Acc", 0), ("V0", 10), ("Item2", 1), ("FooBar5", 2)];
        if E23::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E23::walk_revisioned_variant_table(1))) }
        for d in 0..13 { if E23::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("Acc", 0), ("V0", 4), ("Item2", 1), ("FooBar4", 6), ("FooBar5", 2)];
        if E23::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E23::walk_revisioned_variant_table(2))) }
        for d in 0..9 { if E23::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("Acc", 0), ("Item2", 1), ("Item3", 2), ("FooBar4", 3), ("FooBar5", 4)];
        if E23::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", E23::walk_revisioned_variant_table(3))) }
        for d in 0..7 { if E23::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        let want: &[(&str, u32)] = &[("Acc", 0), ("FooBar1", 1), ("Item2", 2), ("Item3", 3), ("FooBar4", 4), ("FooBar5", 5)];
        if E23::walk_revisioned_variant_table(4) != want { return Err(format!("variant table at revision 4: {:?}", E23::walk_revisioned_variant_table(4))) }
        for d in 0..8 { if E23::walk_revisioned_variant_name(4, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 4")) } }
        if !E23::walk_revisioned_variant_table(5).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E23 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(12) {
                    0 => { let _ = w.into_acc(); }
                    1 => { let _ = w.decode_acc(); }
                    2 => { let _ = w.acc_view(); }
                    3 => { let _ = w.foo_bar1_view(); }
                    4 => { let _ = w.item2_view(); }
                    5 => { let _ = w.into_item3(); }
                    6 => { let _ = w.decode_item3(); }
                    7 => { let _ = w.item3_view(); }
                    8 => { let _ = w.into_foo_bar4(); }
                    9 => { let _ = w.decode_foo_bar4(); }
                    10 => { let _ = w.foo_bar4_view(); }
                    11 => { let _ = w.foo_bar5_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E23::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Acc", w.is_acc()), ("FooBar1", w.is_foo_bar1()), ("Item2", w.is_item2()), ("Item3", w.is_item3()), ("FooBar4", w.is_foo_bar4()), ("FooBar5", w.is_foo_bar5())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(12);
        if g.below(5) != 0 { k = match sh.variant { "Acc" => 0 + g.below(3), "FooBar1" => 3 + g.below(1), "Item2" => 4 + g.below(1), "Item3" => 5 + g.below(3), "FooBar4" => 8 + g.below(3), "FooBar5" => 11 + g.below(1), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Acc"; let r = w.into_acc(); if !ok { return if r.is_ok() { bad("into_acc of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u64 as W>::WALKABLE && true; if nested::<u64, R>("into_acc", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "Acc"; let r = w.decode_acc(); if !ok { return if r.is_ok() { bad("decode_acc of another variant succeeded") } else { Err(Stop::Expected) } } let E23::Acc(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_acc", f0, r) }
            2 => { let ok = sh.variant == "Acc"; let r = w.acc_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("acc_view of another variant succeeded") } else { Err(Stop::Expected) } } let E23::Acc(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("acc_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u64>(f0)]) }
            3 => { let ok = sh.variant == "FooBar1"; let r = w.foo_bar1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E23::FooBar1 { acc: f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, u64>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar1_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar1_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            4 => { let ok = sh.variant == "Item2"; let r = w.item2_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item2_view of another variant succeeded") } else { Err(Stop::Expected) } } let E23::Item2(f0, f1, f3) = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, Box<u32>>(f0), enc1::<Plain, Duration>(f1), enc1::<Plain, u64>(f3)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("item2_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("item2_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            5 => { let ok = sh.variant == "Item3"; let r = w.into_item3(); if !ok { return if r.is_ok() { bad("into_item3 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <i64 as W>::WALKABLE && true; if nested::<i64, R>("into_item3", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            6 => { let ok = sh.variant == "Item3"; let r = w.decode_item3(); if !ok { return if r.is_ok() { bad("decode_item3 of another variant succeeded") } else { Err(Stop::Expected) } } let E23::Item3(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_item3", f0, r) }
            7 => { let ok = sh.variant == "Item3"; let r = w.item3_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item3_view of another variant succeeded") } else { Err(Stop::Expected) } } let E23::Item3(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("item3_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, i64>(f0)]) }
            8 => { let ok = sh.variant == "FooBar4"; let r = w.into_foo_bar4(); if !ok { return if r.is_ok() { bad("into_foo_bar4 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u64 as W>::WALKABLE && true; if nested::<u64, R>("into_foo_bar4", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            9 => { let ok = sh.variant == "FooBar4"; let r = w.decode_foo_bar4(); if !ok { return if r.is_ok() { bad("decode_foo_bar4 of another variant succeeded") } else { Err(Stop::Expected) } } let E23::FooBar4(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_foo_bar4", f0, r) }
            10 => { let ok = sh.variant == "FooBar4"; let r = w.foo_bar4_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar4_view of another variant succeeded") } else { Err(Stop::Expected) } } let E23::FooBar4(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("foo_bar4_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u64>(f0)]) }
            11 => { let ok = sh.variant == "FooBar5"; let r = w.foo_bar5_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar5_view of another variant succeeded") } else { Err(Stop::Expected) } } let E23::FooBar5 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, Box<u32>>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar5_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar5_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            _ => unreachable!(),
        }
    }
}

#[revisioned()]
#[revision(revision(1), revision(2), revision(3))]
#[derive(Debug, Clone)]
pub enum E24 {
    #[revision(override(revision = 1, discriminant = 70000))] Item0 { f0: Vec<u32> },
    #[revision(start = 2)] #[revision(override(revision = 2, discriminant = 1))] #[revision(override(revision = 3, discriminant = 3))] Item1(Duration),
    #[revision(start = 2, override(revision = 3, discriminant = 0))] V2(#[revision(start = 2)] Vec<String>, Option<u32>, #[revision(start = 2, default_fn = "d_2_2")] Option<u32>),
    #[revision(start = 3)] Item3,
}
impl E24 {
    fn d_2_2(rev: u16) -> Result<Option<u32>, Error> { Ok(dflt::<Option<u32>>(rev, 202)) }
    fn vname(&self) -> &'static str { match self { E24::Item0 { .. } => "Item0", E24::Item1 { .. } => "Item1", E24::V2 { .. } => "V2", E24::Item3 { .. } => "Item3" } }
}
impl Spec for E24 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        match self {
            E24::Item0 { f0 } => { (1u32).enc(o); o.extend(enc1::<Plain, Vec<u32>>(f0)); }
            E24::Item1(f0) => { (3u32).enc(o); o.extend(enc1::<Plain, Duration>(f0)); }
            E24::V2(f0, f1, f2) => { (0u32).enc(o); o.extend(enc1::<Plain, Vec<String>>(f0)); o.extend(enc1::<Plain, Option<u32>>(f1)); o.extend(enc1::<Plain, Option<u32>>(f2)); }
            E24::Item3 => { (2u32).enc(o);  }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E24::Item0 { f0: a0 }, E24::Item0 { f0: b0 }) => a0.same(b0), (E24::Item1(a0), E24::Item1(b0)) => a0.same(b0), (E24::V2(a0, a1, a2), E24::V2(b0, b1, b2)) => a0.same(b0) && a1.same(b1) && a2.same(b2), (E24::Item3, E24::Item3) => true, _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(4) { 0 => E24::Item0 { f0: <Vec<u32> as Spec>::random(g) }, 1 => E24::Item1(<Duration as Spec>::random(g)), 2 => E24::V2(<Vec<String> as Spec>::random(g), <Option<u32> as Spec>::random(g), <Option<u32> as Spec>::random(g)), _ => E24::Item3, }) }
}
impl Hist for E24 {
    const LATEST: u16 = 3;
    const REVISION: u16 = E24::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(1) {
                _ => { (70000u32).enc(o); o.extend(gen1::<Plain, Vec<u32>>(g)); }
            },
            2 => match g.below(3) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, Vec<u32>>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, Duration>(g)); }
                _ => { (2u32).enc(o); o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Plain, Option<u32>>(g)); o.extend(gen1::<Plain, Option<u32>>(g)); }
            },
            3 => match g.below(4) {
                0 => { (1u32).enc(o); o.extend(gen1::<Plain, Vec<u32>>(g)); }
                1 => { (3u32).enc(o); o.extend(gen1::<Plain, Duration>(g)); }
                2 => { (0u32).enc(o); o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Plain, Option<u32>>(g)); o.extend(gen1::<Plain, Option<u32>>(g)); }
                _ => { (2u32).enc(o);  }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 3);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                70000 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E24::Item0 { f0 }
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E24::Item0 { f0 }
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Duration>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E24::Item1(f0)
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Option<u32>>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, Option<u32>>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E24::V2(f0, f1, f2)
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                match <u32 as Spec>::dec(c)? {
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E24::Item0 { f0 }
                }
                3 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Duration>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E24::Item1(f0)
                }
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Option<u32>>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, Option<u32>>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E24::V2(f0, f1, f2)
                }
                2 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E24::Item3
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("Item0", 70000)];
        if E24::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E24::walk_revisioned_variant_table(1))) }
        for d in 0..70003 { if E24::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("Item0", 0), ("Item1", 1), ("V2", 2)];
        if E24::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E24::walk_revisioned_variant_table(2))) }
        for d in 0..5 { if E24::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("Item0", 1), ("Item1", 3), ("V2", 0), ("Item3", 2)];
        if E24::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", E24::walk_revisioned_variant_table(3))) }
        for d in 0..6 { if E24::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        if !E24::walk_revisioned_variant_table(4).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E24 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(7) {
                    0 => { let _ = w.item0_view(); }
                    1 => { let _ = w.into_item1(); }
                    2 => { let _ = w.decode_item1(); }
                    3 => { let _ = w.item1_view(); }
                    4 => { let _ = w.v2_view(); }
                    5 => { let _ = w.into_item3(); }
                    6 => { let _ = w.decode_item3(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E24::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Item0", w.is_item0()), ("Item1", w.is_item1()), ("V2", w.is_v2()), ("Item3", w.is_item3())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(7);
        if g.below(5) != 0 { k = match sh.variant { "Item0" => 0 + g.below(1), "Item1" => 1 + g.below(3), "V2" => 4 + g.below(1), "Item3" => 5 + g.below(2), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Item0"; let r = w.item0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E24::Item0 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, Vec<u32>>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("item0_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("item0_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            1 => { let ok = sh.variant == "Item1"; let r = w.into_item1(); if !ok { return if r.is_ok() { bad("into_item1 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <Duration as W>::WALKABLE && true; if nested::<Duration, R>("into_item1", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            2 => { let ok = sh.variant == "Item1"; let r = w.decode_item1(); if !ok { return if r.is_ok() { bad("decode_item1 of another variant succeeded") } else { Err(Stop::Expected) } } let E24::Item1(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_item1", f0, r) }
            3 => { let ok = sh.variant == "Item1"; let r = w.item1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E24::Item1(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("item1_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, Duration>(f0)]) }
            4 => { let ok = sh.variant == "V2"; let r = w.v2_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v2_view of another variant succeeded") } else { Err(Stop::Expected) } } let E24::V2(f0, f1, f2) = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, Vec<String>>(f0), enc1::<Plain, Option<u32>>(f1), enc1::<Plain, Option<u32>>(f2)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v2_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v2_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            5 => { let ok = sh.variant == "Item3"; let r = w.into_item3(); if !ok { return if r.is_ok() { bad("into_item3 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_item3", r)?; Ok(()) }
            6 => { let ok = sh.variant == "Item3"; let r = w.decode_item3(); if !ok { return if r.is_ok() { bad("decode_item3 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_item3", r)?; Ok(()) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision = 4)]
#[derive(Debug, Clone)]
pub enum E25 {
    #[revision(override(revision = 2, discriminant = 9), override(revision = 1, discriminant = 1))] V0(Vec<String>),
    #[revision(start = 4)] Item1 { f0: u16 },
    #[revision(start = 4)] V2,
    #[revision(override(revision = 4, discriminant = 0))] V3 { #[revision(start = 2, default_fn = "d_3_0")] f0: BTreeMap<u8, String> },
}
impl E25 {
    fn d_3_0(rev: u16) -> Result<BTreeMap<u8, String>, Error> { Ok(dflt::<BTreeMap<u8, String>>(rev, 300)) }
    fn vname(&self) -> &'static str { match self { E25::V0 { .. } => "V0", E25::Item1 { .. } => "Item1", E25::V2 { .. } => "V2", E25::V3 { .. } => "V3" } }
}
impl Spec for E25 {
    fn enc(&self, o: &mut Vec<u8>) {
        4u16.enc(o);
        match self {
            E25::V0(f0) => { (1u32).enc(o); o.extend(enc1::<Plain, Vec<String>>(f0)); }
            E25::Item1 { f0 } => { (2u32).enc(o); o.extend(enc1::<Plain, u16>(f0)); }
            E25::V2 => { (3u32).enc(o);  }
            E25::V3 { f0 } => { (0u32).enc(o); o.extend(enc1::<Plain, BTreeMap<u8, String>>(f0)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E25::V0(a0), E25::V0(b0)) => a0.same(b0), (E25::Item1 { f0: a0 }, E25::Item1 { f0: b0 }) => a0.same(b0), (E25::V2, E25::V2) => true, (E25::V3 { f0: a0 }, E25::V3 { f0: b0 }) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(4) { 0 => E25::V0(<Vec<String> as Spec>::random(g)), 1 => E25::Item1 { f0: <u16 as Spec>::random(g) }, 2 => E25::V2, _ => E25::V3 { f0: <BTreeMap<u8, String> as Spec>::random(g) }, }) }
}
impl Hist for E25 {
    const LATEST: u16 = 4;
    const REVISION: u16 = E25::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(2) {
                0 => { (1u32).enc(o); o.extend(gen1::<Plain, Vec<String>>(g)); }
                _ => { (0u32).enc(o);  }
            },
            2 => match g.below(2) {
                0 => { (9u32).enc(o); o.extend(gen1::<Plain, Vec<String>>(g)); }
                _ => { (0u32).enc(o); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); }
            },
            3 => match g.below(2) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, Vec<String>>(g)); }
                _ => { (1u32).enc(o); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); }
            },
            4 => match g.below(4) {
                0 => { (1u32).enc(o); o.extend(gen1::<Plain, Vec<String>>(g)); }
                1 => { (2u32).enc(o); o.extend(gen1::<Plain, u16>(g)); }
                2 => { (3u32).enc(o);  }
                _ => { (0u32).enc(o); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 4, 1);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E25::V0(f0)
                }
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = dflt::<BTreeMap<u8, String>>(1, 300);
                    sh.body = (a, c.pos);
                    E25::V3 { f0 }
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                match <u32 as Spec>::dec(c)? {
                9 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E25::V0(f0)
                }
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E25::V3 { f0 }
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E25::V0(f0)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E25::V3 { f0 }
                }
                _ => return Err(Bad::Other),
                }
            }
            4 => {
                match <u32 as Spec>::dec(c)? {
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E25::V0(f0)
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E25::Item1 { f0 }
                }
                3 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E25::V2
                }
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E25::V3 { f0 }
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("V0", 1), ("V3", 0)];
        if E25::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E25::walk_revisioned_variant_table(1))) }
        for d in 0..4 { if E25::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("V0", 9), ("V3", 0)];
        if E25::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E25::walk_revisioned_variant_table(2))) }
        for d in 0..12 { if E25::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("V0", 0), ("V3", 1)];
        if E25::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", E25::walk_revisioned_variant_table(3))) }
        for d in 0..4 { if E25::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        let want: &[(&str, u32)] = &[("V0", 1), ("Item1", 2), ("V2", 3), ("V3", 0)];
        if E25::walk_revisioned_variant_table(4) != want { return Err(format!("variant table at revision 4: {:?}", E25::walk_revisioned_variant_table(4))) }
        for d in 0..6 { if E25::walk_revisioned_variant_name(4, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 4")) } }
        if !E25::walk_revisioned_variant_table(5).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E25 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(7) {
                    0 => { let _ = w.into_v0(); }
                    1 => { let _ = w.decode_v0(); }
                    2 => { let _ = w.v0_view(); }
                    3 => { let _ = w.item1_view(); }
                    4 => { let _ = w.into_v2(); }
                    5 => { let _ = w.decode_v2(); }
                    6 => { let _ = w.v3_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E25::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("V0", w.is_v0()), ("Item1", w.is_item1()), ("V2", w.is_v2()), ("V3", w.is_v3())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(7);
        if g.below(5) != 0 { k = match sh.variant { "V0" => 0 + g.below(3), "Item1" => 3 + g.below(1), "V2" => 4 + g.below(2), "V3" => 6 + g.below(1), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "V0"; let r = w.into_v0(); if !ok { return if r.is_ok() { bad("into_v0 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <Vec<String> as W>::WALKABLE && true; if nested::<Vec<String>, R>("into_v0", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "V0"; let r = w.decode_v0(); if !ok { return if r.is_ok() { bad("decode_v0 of another variant succeeded") } else { Err(Stop::Expected) } } let E25::V0(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v0", f0, r) }
            2 => { let ok = sh.variant == "V0"; let r = w.v0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E25::V0(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v0_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, Vec<String>>(f0)]) }
            3 => { let ok = sh.variant == "Item1"; let r = w.item1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E25::Item1 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, u16>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("item1_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("item1_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            4 => { let ok = sh.variant == "V2"; let r = w.into_v2(); if !ok { return if r.is_ok() { bad("into_v2 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v2", r)?; Ok(()) }
            5 => { let ok = sh.variant == "V2"; let r = w.decode_v2(); if !ok { return if r.is_ok() { bad("decode_v2 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v2", r)?; Ok(()) }
            6 => { let ok = sh.variant == "V3"; let r = w.v3_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v3_view of another variant succeeded") } else { Err(Stop::Expected) } } let E25::V3 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, BTreeMap<u8, String>>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v3_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v3_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            _ => unreachable!(),
        }
    }
}

#[revisioned()]
#[revision(revision(3))]
#[revision(revision(2))]
#[revision(revision(1))]
#[derive(Debug, Clone)]
pub enum E26 {
    #[revision(start = 3)] V0(Vec<String>, u32),
    V1 { #[revision(start = 2)] f0: u8, #[revision(start = 2)] #[revision(default_fn = "d_1_1")] f1: BTreeMap<u8, String>, f2: i64 },
    FooBar2 { f0: u32, f1: String, #[revision(start = 3)] #[revision(default_fn = "d_2_2")] f2: u8 },
}
impl E26 {
    fn d_1_1(rev: u16) -> Result<BTreeMap<u8, String>, Error> { Ok(dflt::<BTreeMap<u8, String>>(rev, 101)) }
    fn d_2_2(rev: u16) -> Result<u8, Error> { Ok(dflt::<u8>(rev, 202)) }
    fn vname(&self) -> &'static str { match self { E26::V0 { .. } => "V0", E26::V1 { .. } => "V1", E26::FooBar2 { .. } => "FooBar2" } }
}
impl Spec for E26 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        match self {
            E26::V0(f0, f1) => { (0u32).enc(o); o.extend(enc1::<Plain, Vec<String>>(f0)); o.extend(enc1::<Plain, u32>(f1)); }
            E26::V1 { f0, f1, f2 } => { (1u32).enc(o); o.extend(enc1::<Plain, u8>(f0)); o.extend(enc1::<Plain, BTreeMap<u8, String>>(f1)); o.extend(enc1::<Plain, i64>(f2)); }
            E26::FooBar2 { f0, f1, f2 } => { (2u32).enc(o); o.extend(enc1::<Plain, u32>(f0)); o.extend(enc1::<Plain, String>(f1)); o.extend(enc1::<Plain, u8>(f2)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E26::V0(a0, a1), E26::V0(b0, b1)) => a0.same(b0) && a1.same(b1), (E26::V1 { f0: a0, f1: a1, f2: a2 }, E26::V1 { f0: b0, f1: b1, f2: b2 }) => a0.same(b0) && a1.same(b1) && a2.same(b2), (E26::FooBar2 { f0: a0, f1: a1, f2: a2 }, E26::FooBar2 { f0: b0, f1: b1, f2: b2 }) => a0.same(b0) && a1.same(b1) && a2.same(b2), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(3) { 0 => E26::V0(<Vec<String> as Spec>::random(g), <u32 as Spec>::random(g)), 1 => E26::V1 { f0: <u8 as Spec>::random(g), f1: <BTreeMap<u8, String> as Spec>::random(g), f2: <i64 as Spec>::random(g) }, _ => E26::FooBar2 { f0: <u32 as Spec>::random(g), f1: <String as Spec>::random(g), f2: <u8 as Spec>::random(g) }, }) }
}
impl Hist for E26 {
    const LATEST: u16 = 3;
    const REVISION: u16 = E26::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(2) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, i64>(g)); }
                _ => { (1u32).enc(o); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, String>(g)); }
            },
            2 => match g.below(2) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); o.extend(gen1::<Plain, i64>(g)); }
                _ => { (1u32).enc(o); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, String>(g)); }
            },
            3 => match g.below(3) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Plain, u32>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, u8>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); o.extend(gen1::<Plain, i64>(g)); }
                _ => { (2u32).enc(o); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, u8>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 3);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = <u8 as Default>::default();
                    #[allow(unused_mut)] let mut f1 = dflt::<BTreeMap<u8, String>>(1, 101);
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, i64>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E26::V1 { f0, f1, f2 }
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = dflt::<u8>(1, 202);
                    sh.body = (a, c.pos);
                    E26::FooBar2 { f0, f1, f2 }
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, i64>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E26::V1 { f0, f1, f2 }
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = dflt::<u8>(2, 202);
                    sh.body = (a, c.pos);
                    E26::FooBar2 { f0, f1, f2 }
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, u32>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    E26::V0(f0, f1)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, i64>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E26::V1 { f0, f1, f2 }
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, u8>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E26::FooBar2 { f0, f1, f2 }
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("V1", 0), ("FooBar2", 1)];
        if E26::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E26::walk_revisioned_variant_table(1))) }
        for d in 0..4 { if E26::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("V1", 0), ("FooBar2", 1)];
        if E26::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E26::walk_revisioned_variant_table(2))) }
        for d in 0..4 { if E26::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("V0", 0), ("V1", 1), ("FooBar2", 2)];
        if E26::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", E26::walk_revisioned_variant_table(3))) }
        for d in 0..5 { if E26::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        if !E26::walk_revisioned_variant_table(4).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E26 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(3) {
                    0 => { let _ = w.v0_view(); }
                    1 => { let _ = w.v1_view(); }
                    2 => { let _ = w.foo_bar2_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E26::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("V0", w.is_v0()), ("V1", w.is_v1()), ("FooBar2", w.is_foo_bar2())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(3);
        if g.below(5) != 0 { k = match sh.variant { "V0" => 0 + g.below(1), "V1" => 1 + g.below(1), "FooBar2" => 2 + g.below(1), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "V0"; let r = w.v0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E26::V0(f0, f1) = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, Vec<String>>(f0), enc1::<Plain, u32>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v0_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v0_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            1 => { let ok = sh.variant == "V1"; let r = w.v1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E26::V1 { f0, f1, f2 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, u8>(f0), enc1::<Plain, BTreeMap<u8, String>>(f1), enc1::<Plain, i64>(f2)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v1_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v1_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            2 => { let ok = sh.variant == "FooBar2"; let r = w.foo_bar2_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar2_view of another variant succeeded") } else { Err(Stop::Expected) } } let E26::FooBar2 { f0, f1, f2 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, u32>(f0), enc1::<Plain, String>(f1), enc1::<Plain, u8>(f2)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar2_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar2_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(2, optimised, indexed_struct), revision(4, optimised), revision(1), revision(3, optimised))]
#[derive(Debug, Clone)]
pub struct S27 { pub acc: u64, pub f1: Vec<S9>, #[revision(start = 2)] #[revision(end = 4)] #[revision(convert_fn = "c_2")] #[revision(default_fn = "d_2")] pub f2: Duration, #[revision(start = 1, end = 3, convert_fn = "c_3", default_fn = "d_3")] pub f3: String }
impl S27 {
    fn d_2(rev: u16) -> Result<Duration, Error> { Ok(dflt::<Duration>(rev, 2)) }
    fn c_2(&mut self, rev: u16, v: Duration) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
    fn d_3(rev: u16) -> Result<String, Error> { Ok(dflt::<String>(rev, 3)) }
    fn c_3(&mut self, rev: u16, v: String) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
}
impl Spec for S27 {
    fn enc(&self, o: &mut Vec<u8>) {
        4u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, u64>(&self.acc), enc1::<Plain, Vec<S9>>(&self.f1)], false));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.acc.same(&o.acc) && self.f1.same(&o.f1) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S27 { acc: <u64 as Spec>::random(g), f1: <Vec<S9> as Spec>::random(g) } }) }
}
impl Hist for S27 {
    const LATEST: u16 = 4;
    const REVISION: u16 = S27::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, Vec<S9>>(g)); o.extend(gen1::<Plain, String>(g)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g), gen1::<Plain, Vec<S9>>(g), gen1::<Plain, Duration>(g), gen1::<Plain, String>(g)], true)); }
            3 => { put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g), gen1::<Plain, Vec<S9>>(g), gen1::<Plain, Duration>(g)], false)); }
            4 => { put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g), gen1::<Plain, Vec<S9>>(g)], false)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 4, 2);
        sh.conv = rev != 4;
        match rev {
            1 => {
                let f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, Vec<S9>>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, String>(c, &mut sh, None)?;
                #[allow(unused_mut)]
                let mut v = S27 { acc: f0, f1: f1 };
                v.acc = mix(v.acc, 1, &f3.bytes());
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(16)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Plain, Vec<S9>>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Plain, Duration>(c, &mut sh, None)?;
                sh.odd |= idx::u32at(offs, 3) as usize != c.pos - base;
                let f3 = rd::<Plain, String>(c, &mut sh, None)?;
                #[allow(unused_mut)]
                let mut v = S27 { acc: f0, f1: f1 };
                v.acc = mix(v.acc, 2, &f2.bytes());
                v.acc = mix(v.acc, 2, &f3.bytes());
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            3 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, Vec<S9>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Duration>(c, &mut sh, None)?;
                #[allow(unused_mut)]
                let mut v = S27 { acc: f0, f1: f1 };
                v.acc = mix(v.acc, 3, &f2.bytes());
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            4 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, Vec<S9>>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S27 { acc: f0, f1: f1 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S27::walk_revisioned_field_names(1) != ["acc", "f1", "f3"] as [&str; 3] { return Err("field names at revision 1".into()) }
        if S27::walk_revisioned_field_names(2) != ["acc", "f1", "f2", "f3"] as [&str; 4] { return Err("field names at revision 2".into()) }
        if S27::walk_revisioned_field_names(3) != ["acc", "f1", "f2"] as [&str; 3] { return Err("field names at revision 3".into()) }
        if S27::walk_revisioned_field_names(4) != ["acc", "f1"] as [&str; 2] { return Err("field names at revision 4".into()) }
        if !S27::walk_revisioned_field_names(0).is_empty() || !S27::walk_revisioned_field_names(5).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S27 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_acc().is_ok() && w.decode_f1().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, false, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(6) {
                    0 => { let _ = w.decode_acc(); } 1 => { let _ = w.skip_acc(); } 2 => { let _ = w.walk_acc(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    _ => {} } }
                match g.below(5) {
                    0 => { let _ = w.into_walk_acc(); } 1 => { let _ = w.into_acc_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 2, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u64, Plain, false, acc, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
                1 => sfield!(plain w c g v sh R; 1, Vec<S9>, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision(1, optimised))]
#[derive(Debug, Clone)]
pub struct S28(#[revision(start = 1)] pub Vec<Option<u32>>);
impl S28 {
}
impl Spec for S28 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, Vec<Option<u32>>>(&self.0)], false));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S28(<Vec<Option<u32>> as Spec>::random(g)) }) }
}
impl Hist for S28 {
    const LATEST: u16 = 1;
    const REVISION: u16 = S28::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[gen1::<Plain, Vec<Option<u32>>>(g)], false)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 1);
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Plain, Vec<Option<u32>>>(c, &mut sh, Some(0))?;
                #[allow(unused_mut)]
                let mut v = S28(f0);
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S28::walk_revisioned_field_names(1) != ["0"] as [&str; 1] { return Err("field names at revision 1".into()) }
        if !S28::walk_revisioned_field_names(0).is_empty() || !S28::walk_revisioned_field_names(2).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S28 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(3) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    _ => {} } }
                match g.below(3) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 1, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, Vec<Option<u32>>, Plain, false, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(2), revision(1), revision(3, optimised))]
#[derive(Debug, Clone)]
pub struct S29(pub u64, #[revision(start = 2, end = 3, convert_fn = "c_1")] pub u128, #[revision(start = 2, end = 3, convert_fn = "c_2", default_fn = "d_2", indexed_map)] pub BTreeMap<u8, String>, pub i128);
impl S29 {
    fn c_1(&mut self, rev: u16, v: u128) -> Result<(), Error> { self.0 = mix(self.0, rev, &v.bytes()); Ok(()) }
    fn d_2(rev: u16) -> Result<BTreeMap<u8, String>, Error> { Ok(dflt::<BTreeMap<u8, String>>(rev, 2)) }
    fn c_2(&mut self, rev: u16, v: BTreeMap<u8, String>) -> Result<(), Error> { self.0 = mix(self.0, rev, &v.bytes()); Ok(()) }
}
impl Spec for S29 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, u64>(&self.0), enc1::<Plain, i128>(&self.1)], false));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S29(<u64 as Spec>::random(g), <i128 as Spec>::random(g)) }) }
}
impl Hist for S29 {
    const LATEST: u16 = 3;
    const REVISION: u16 = S29::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, i128>(g)); }
            2 => { o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, u128>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); o.extend(gen1::<Plain, i128>(g)); }
            3 => { put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g), gen1::<Plain, i128>(g)], false)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 2);
        sh.conv = rev != 3;
        match rev {
            1 => {
                let f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                let f3 = rd::<Plain, i128>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S29(f0, f3);
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, u128>(c, &mut sh, None)?;
                let f2 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, None)?;
                let f3 = rd::<Plain, i128>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S29(f0, f3);
                v.0 = mix(v.0, 2, &f1.bytes());
                v.0 = mix(v.0, 2, &f2.bytes());
                Ok((v, sh))
            }
            3 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                let f3 = rd::<Plain, i128>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S29(f0, f3);
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S29::walk_revisioned_field_names(1) != ["0", "3"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if S29::walk_revisioned_field_names(2) != ["0", "1", "2", "3"] as [&str; 4] { return Err("field names at revision 2".into()) }
        if S29::walk_revisioned_field_names(3) != ["0", "3"] as [&str; 2] { return Err("field names at revision 3".into()) }
        if !S29::walk_revisioned_field_names(0).is_empty() || !S29::walk_revisioned_field_names(4).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S29 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(6) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    _ => {} } }
                match g.below(5) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 2, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u64, Plain, false, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(plain w c g v sh R; 1, i128, Plain, false, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(2, optimised, indexed_struct), revision(1))]
#[derive(Debug, Clone)]
pub struct S30 { pub acc: u64, pub f1: u64, #[revision(start = 2, default_fn = "d_2")] pub f2: Option<O1>, #[revision(start = 2, default_fn = "d_3")] pub f3: u64, #[revision(start = 1, end = 2, convert_fn = "c_4", default_fn = "d_4")] pub f4: Vec<u8> }
impl S30 {
    fn d_2(rev: u16) -> Result<Option<O1>, Error> { Ok(dflt::<Option<O1>>(rev, 2)) }
    fn d_3(rev: u16) -> Result<u64, Error> { Ok(dflt::<u64>(rev, 3)) }
    fn d_4(rev: u16) -> Result<Vec<u8>, Error> { Ok(dflt::<Vec<u8>>(rev, 4)) }
    fn c_4(&mut self, rev: u16, v: Vec<u8>) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
}
impl Spec for S30 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, u64>(&self.acc), enc1::<Plain, u64>(&self.f1), enc1::<Plain, Option<O1>>(&self.f2), enc1::<Plain, u64>(&self.f3)], true));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.acc.same(&o.acc) && self.f1.same(&o.f1) && self.f2.same(&o.f2) && self.f3.same(&o.f3) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S30 { acc: <u64 as Spec>::random(g), f1: <u64 as Spec>::random(g), f2: <Option<O1> as Spec>::random(g), f3: <u64 as Spec>::random(g) } }) }
}
impl Hist for S30 {
    const LATEST: u16 = 2;
    const REVISION: u16 = S30::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, Vec<u8>>(g)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g), gen1::<Plain, u64>(g), gen1::<Plain, Option<O1>>(g), gen1::<Plain, u64>(g)], true)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 4);
        sh.conv = rev != 2;
        match rev {
            1 => {
                let f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                let f2 = dflt::<Option<O1>>(1, 2);
                let f3 = dflt::<u64>(1, 3);
                let f4 = rd::<Plain, Vec<u8>>(c, &mut sh, None)?;
                #[allow(unused_mut)]
                let mut v = S30 { acc: f0, f1: f1, f2: f2, f3: f3 };
                v.acc = mix(v.acc, 1, &f4.bytes());
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(16)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Plain, Option<O1>>(c, &mut sh, Some(2))?;
                sh.odd |= idx::u32at(offs, 3) as usize != c.pos - base;
                let f3 = rd::<Plain, u64>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S30 { acc: f0, f1: f1, f2: f2, f3: f3 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S30::walk_revisioned_field_names(1) != ["acc", "f1", "f4"] as [&str; 3] { return Err("field names at revision 1".into()) }
        if S30::walk_revisioned_field_names(2) != ["acc", "f1", "f2", "f3"] as [&str; 4] { return Err("field names at revision 2".into()) }
        if !S30::walk_revisioned_field_names(0).is_empty() || !S30::walk_revisioned_field_names(3).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S30 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_acc().is_ok() && w.decode_f1().is_ok() && w.decode_f2().is_ok() && w.decode_f3().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, false]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(12) {
                    0 => { let _ = w.decode_acc(); } 1 => { let _ = w.skip_acc(); } 2 => { let _ = w.walk_acc(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_f2(); } 7 => { let _ = w.skip_f2(); } 8 => { let _ = w.walk_f2(); }
                    9 => { let _ = w.decode_f3(); } 10 => { let _ = w.skip_f3(); } 11 => { let _ = w.walk_f3(); }
                    _ => {} } }
                match g.below(9) {
                    0 => { let _ = w.into_walk_acc(); } 1 => { let _ = w.into_acc_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_f2(); } 5 => { let _ = w.into_f2_bytes(); }
                    6 => { let _ = w.into_walk_f3(); } 7 => { let _ = w.into_f3_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 4, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u64, Plain, false, acc, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
                1 => sfield!(plain w c g v sh R; 1, u64, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, Option<O1>, Plain, false, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                3 => sfield!(plain w c g v sh R; 3, u64, Plain, false, f3, decode_f3, skip_f3, walk_f3, into_walk_f3, into_f3_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(1, optimised), revision(2, optimised, indexed_struct))]
#[derive(Debug, Clone)]
pub struct S31 { #[revision(default_fn = "d_0", start = 2)] pub f0: Vec<N9>, #[revision(indexed_seq)] pub f1: Vec<String>, pub f2: Duration }
impl S31 {
    fn d_0(rev: u16) -> Result<Vec<N9>, Error> { Ok(dflt::<Vec<N9>>(rev, 0)) }
}
impl Spec for S31 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, Vec<N9>>(&self.f0), enc1::<Index, Vec<String>>(&self.f1), enc1::<Plain, Duration>(&self.f2)], true));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.f2.same(&o.f2) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S31 { f0: <Vec<N9> as Spec>::random(g), f1: <Vec<String> as Spec>::random(g), f2: <Duration as Spec>::random(g) } }) }
}
impl Hist for S31 {
    const LATEST: u16 = 2;
    const REVISION: u16 = S31::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[gen1::<Index, Vec<String>>(g), gen1::<Plain, Duration>(g)], false)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Plain, Vec<N9>>(g), gen1::<Index, Vec<String>>(g), gen1::<Plain, Duration>(g)], true)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 3);
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = dflt::<Vec<N9>>(1, 0);
                let f1 = rd::<Index, Vec<String>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Duration>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S31 { f0: f0, f1: f1, f2: f2 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(12)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, Vec<N9>>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Index, Vec<String>>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Plain, Duration>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S31 { f0: f0, f1: f1, f2: f2 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S31::walk_revisioned_field_names(1) != ["f1", "f2"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if S31::walk_revisioned_field_names(2) != ["f0", "f1", "f2"] as [&str; 3] { return Err("field names at revision 2".into()) }
        if !S31::walk_revisioned_field_names(0).is_empty() || !S31::walk_revisioned_field_names(3).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S31 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_f2().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, false]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(9) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_f2(); } 7 => { let _ = w.skip_f2(); } 8 => { let _ = w.walk_f2(); }
                    _ => {} } }
                match g.below(7) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_f2(); } 5 => { let _ = w.into_f2_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 3, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, Vec<N9>, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(index w c g v sh R; 1, Vec<String>, Index, true, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, Duration, Plain, false, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(1), revision(2, optimised))]
#[derive(Debug, Clone)]
pub struct S32 { #[revision(start = 2, default_fn = "d_0", indexed_seq)] pub f0: Vec<String> }
impl S32 {
    fn d_0(rev: u16) -> Result<Vec<String>, Error> { Ok(dflt::<Vec<String>>(rev, 0)) }
}
impl Spec for S32 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Index, Vec<String>>(&self.f0)], false));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S32 { f0: <Vec<String> as Spec>::random(g) } }) }
}
impl Hist for S32 {
    const LATEST: u16 = 2;
    const REVISION: u16 = S32::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => {  }
            2 => { put_payload(o, &with_offsets(&[gen1::<Index, Vec<String>>(g)], false)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 1);
        match rev {
            1 => {
                let f0 = dflt::<Vec<String>>(1, 0);
                #[allow(unused_mut)]
                let mut v = S32 { f0: f0 };
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Index, Vec<String>>(c, &mut sh, Some(0))?;
                #[allow(unused_mut)]
                let mut v = S32 { f0: f0 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S32::walk_revisioned_field_names(1) != [] as [&str; 0] { return Err("field names at revision 1".into()) }
        if S32::walk_revisioned_field_names(2) != ["f0"] as [&str; 1] { return Err("field names at revision 2".into()) }
        if !S32::walk_revisioned_field_names(0).is_empty() || !S32::walk_revisioned_field_names(3).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S32 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(3) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    _ => {} } }
                match g.below(3) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 1, sh.any_order) {
            match i {
                0 => sfield!(index w c g v sh R; 0, Vec<String>, Index, true, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(1, optimised, indexed_struct))]
#[derive(Debug, Clone)]
pub struct S33 { pub f0: Vec<Option<u32>>, pub f1: Result<u64, String>, pub f2: u32 }
impl S33 {
}
impl Spec for S33 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, Vec<Option<u32>>>(&self.f0), enc1::<Plain, Result<u64, String>>(&self.f1), enc1::<Plain, u32>(&self.f2)], true));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.f2.same(&o.f2) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S33 { f0: <Vec<Option<u32>> as Spec>::random(g), f1: <Result<u64, String> as Spec>::random(g), f2: <u32 as Spec>::random(g) } }) }
}
impl Hist for S33 {
    const LATEST: u16 = 1;
    const REVISION: u16 = S33::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[gen1::<Plain, Vec<Option<u32>>>(g), gen1::<Plain, Result<u64, String>>(g), gen1::<Plain, u32>(g)], true)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 3);
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(12)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, Vec<Option<u32>>>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Plain, Result<u64, String>>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Plain, u32>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S33 { f0: f0, f1: f1, f2: f2 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S33::walk_revisioned_field_names(1) != ["f0", "f1", "f2"] as [&str; 3] { return Err("field names at revision 1".into()) }
        if !S33::walk_revisioned_field_names(0).is_empty() || !S33::walk_revisioned_field_names(2).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S33 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_f2().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[false]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(9) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_f2(); } 7 => { let _ = w.skip_f2(); } 8 => { let _ = w.walk_f2(); }
                    _ => {} } }
                match g.below(7) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_f2(); } 5 => { let _ = w.into_f2_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 3, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, Vec<Option<u32>>, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, Result<u64, String>, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, u32, Plain, false, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision(1, optimised), revision(2, optimised, indexed_struct))]
#[derive(Debug, Clone)]
pub struct S34(pub Option<String>, pub BTreeMap<u8, String>, #[revision(start = 2, default_fn = "d_2", indexed_map)] pub BTreeMap<String, u64>, pub u128, #[revision(start = 2, default_fn = "d_4")] pub Vec<String>);
impl S34 {
    fn d_2(rev: u16) -> Result<BTreeMap<String, u64>, Error> { Ok(dflt::<BTreeMap<String, u64>>(rev, 2)) }
    fn d_4(rev: u16) -> Result<Vec<String>, Error> { Ok(dflt::<Vec<String>>(rev, 4)) }
}
impl Spec for S34 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, Option<String>>(&self.0), enc1::<Plain, BTreeMap<u8, String>>(&self.1), enc1::<Index, BTreeMap<String, u64>>(&self.2), enc1::<Plain, u128>(&self.3), enc1::<Plain, Vec<String>>(&self.4)], true));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3) && self.4.same(&o.4) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S34(<Option<String> as Spec>::random(g), <BTreeMap<u8, String> as Spec>::random(g), <BTreeMap<String, u64> as Spec>::random(g), <u128 as Spec>::random(g), <Vec<String> as Spec>::random(g)) }) }
}
impl Hist for S34 {
    const LATEST: u16 = 2;
    const REVISION: u16 = S34::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[gen1::<Plain, Option<String>>(g), gen1::<Plain, BTreeMap<u8, String>>(g), gen1::<Plain, u128>(g)], false)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Plain, Option<String>>(g), gen1::<Plain, BTreeMap<u8, String>>(g), gen1::<Index, BTreeMap<String, u64>>(g), gen1::<Plain, u128>(g), gen1::<Plain, Vec<String>>(g)], true)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 5);
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Plain, Option<String>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(1))?;
                let f2 = dflt::<BTreeMap<String, u64>>(1, 2);
                let f3 = rd::<Plain, u128>(c, &mut sh, Some(3))?;
                let f4 = dflt::<Vec<String>>(1, 4);
                #[allow(unused_mut)]
                let mut v = S34(f0, f1, f2, f3, f4);
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(20)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, Option<String>>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Index, BTreeMap<String, u64>>(c, &mut sh, Some(2))?;
                sh.odd |= idx::u32at(offs, 3) as usize != c.pos - base;
                let f3 = rd::<Plain, u128>(c, &mut sh, Some(3))?;
                sh.odd |= idx::u32at(offs, 4) as usize != c.pos - base;
                let f4 = rd::<Plain, Vec<String>>(c, &mut sh, Some(4))?;
                #[allow(unused_mut)]
                let mut v = S34(f0, f1, f2, f3, f4);
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S34::walk_revisioned_field_names(1) != ["0", "1", "3"] as [&str; 3] { return Err("field names at revision 1".into()) }
        if S34::walk_revisioned_field_names(2) != ["0", "1", "2", "3", "4"] as [&str; 5] { return Err("field names at revision 2".into()) }
        if !S34::walk_revisioned_field_names(0).is_empty() || !S34::walk_revisioned_field_names(3).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S34 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok() && w.decode_field_2().is_ok() && w.decode_field_3().is_ok() && w.decode_field_4().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, false]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(15) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    6 => { let _ = w.decode_field_2(); } 7 => { let _ = w.skip_field_2(); } 8 => { let _ = w.walk_field_2(); }
                    9 => { let _ = w.decode_field_3(); } 10 => { let _ = w.skip_field_3(); } 11 => { let _ = w.walk_field_3(); }
                    12 => { let _ = w.decode_field_4(); } 13 => { let _ = w.skip_field_4(); } 14 => { let _ = w.walk_field_4(); }
                    _ => {} } }
                match g.below(11) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    4 => { let _ = w.into_walk_field_2(); } 5 => { let _ = w.into_field_2_bytes(); }
                    6 => { let _ = w.into_walk_field_3(); } 7 => { let _ = w.into_field_3_bytes(); }
                    8 => { let _ = w.into_walk_field_4(); } 9 => { let _ = w.into_field_4_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 5, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, Option<String>, Plain, false, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(plain w c g v sh R; 1, BTreeMap<u8, String>, Plain, false, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                2 => sfield!(index w c g v sh R; 2, BTreeMap<String, u64>, Index, true, 2, decode_field_2, skip_field_2, walk_field_2, into_walk_field_2, into_field_2_bytes),
                3 => sfield!(plain w c g v sh R; 3, u128, Plain, false, 3, decode_field_3, skip_field_3, walk_field_3, into_walk_field_3, into_field_3_bytes),
                4 => sfield!(plain w c g v sh R; 4, Vec<String>, Plain, false, 4, decode_field_4, skip_field_4, walk_field_4, into_walk_field_4, into_field_4_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(3, optimised, indexed_struct), revision(2), revision(1))]
#[derive(Debug, Clone)]
pub struct S35(#[revision(start = 2)] pub u16, pub i128, pub i64, #[revision(start = 3)] #[revision(indexed_seq)] pub Vec<u32>);
impl S35 {
}
impl Spec for S35 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, u16>(&self.0), enc1::<Plain, i128>(&self.1), enc1::<Plain, i64>(&self.2), enc1::<Index, Vec<u32>>(&self.3)], true));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S35(<u16 as Spec>::random(g), <i128 as Spec>::random(g), <i64 as Spec>::random(g), <Vec<u32> as Spec>::random(g)) }) }
}
impl Hist for S35 {
    const LATEST: u16 = 3;
    const REVISION: u16 = S35::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, i128>(g)); o.extend(gen1::<Plain, i64>(g)); }
            2 => { o.extend(gen1::<Plain, u16>(g)); o.extend(gen1::<Plain, i128>(g)); o.extend(gen1::<Plain, i64>(g)); }
            3 => { put_payload(o, &with_offsets(&[gen1::<Plain, u16>(g), gen1::<Plain, i128>(g), gen1::<Plain, i64>(g), gen1::<Index, Vec<u32>>(g)], true)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 4);
        match rev {
            1 => {
                let f0 = <u16 as Default>::default();
                let f1 = rd::<Plain, i128>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, i64>(c, &mut sh, Some(2))?;
                let f3 = <Vec<u32> as Default>::default();
                #[allow(unused_mut)]
                let mut v = S35(f0, f1, f2, f3);
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i128>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, i64>(c, &mut sh, Some(2))?;
                let f3 = <Vec<u32> as Default>::default();
                #[allow(unused_mut)]
                let mut v = S35(f0, f1, f2, f3);
                Ok((v, sh))
            }
            3 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(16)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, u16>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Plain, i128>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Plain, i64>(c, &mut sh, Some(2))?;
                sh.odd |= idx::u32at(offs, 3) as usize != c.pos - base;
                let f3 = rd::<Index, Vec<u32>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S35(f0, f1, f2, f3);
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S35::walk_revisioned_field_names(1) != ["1", "2"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if S35::walk_revisioned_field_names(2) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 2".into()) }
        if S35::walk_revisioned_field_names(3) != ["0", "1", "2", "3"] as [&str; 4] { return Err("field names at revision 3".into()) }
        if !S35::walk_revisioned_field_names(0).is_empty() || !S35::walk_revisioned_field_names(4).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S35 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok() && w.decode_field_2().is_ok() && w.decode_field_3().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, false]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(12) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    6 => { let _ = w.decode_field_2(); } 7 => { let _ = w.skip_field_2(); } 8 => { let _ = w.walk_field_2(); }
                    9 => { let _ = w.decode_field_3(); } 10 => { let _ = w.skip_field_3(); } 11 => { let _ = w.walk_field_3(); }
                    _ => {} } }
                match g.below(9) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    4 => { let _ = w.into_walk_field_2(); } 5 => { let _ = w.into_field_2_bytes(); }
                    6 => { let _ = w.into_walk_field_3(); } 7 => { let _ = w.into_field_3_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 4, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u16, Plain, false, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(plain w c g v sh R; 1, i128, Plain, false, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                2 => sfield!(plain w c g v sh R; 2, i64, Plain, false, 2, decode_field_2, skip_field_2, walk_field_2, into_walk_field_2, into_field_2_bytes),
                3 => sfield!(index w c g v sh R; 3, Vec<u32>, Index, true, 3, decode_field_3, skip_field_3, walk_field_3, into_walk_field_3, into_field_3_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(5, optimised), revision(4, optimised, indexed_struct), revision(3, optimised), revision(2), revision(1))]
#[derive(Debug, Clone)]
pub struct S36 { #[revision(indexed_set)] pub f0: BTreeSet<String>, pub f1: i64 }
impl S36 {
}
impl Spec for S36 {
    fn enc(&self, o: &mut Vec<u8>) {
        5u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Index, BTreeSet<String>>(&self.f0), enc1::<Plain, i64>(&self.f1)], false));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S36 { f0: <BTreeSet<String> as Spec>::random(g), f1: <i64 as Spec>::random(g) } }) }
}
impl Hist for S36 {
    const LATEST: u16 = 5;
    const REVISION: u16 = S36::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, BTreeSet<String>>(g)); o.extend(gen1::<Plain, i64>(g)); }
            2 => { o.extend(gen1::<Plain, BTreeSet<String>>(g)); o.extend(gen1::<Plain, i64>(g)); }
            3 => { put_payload(o, &with_offsets(&[gen1::<Index, BTreeSet<String>>(g), gen1::<Plain, i64>(g)], false)); }
            4 => { put_payload(o, &with_offsets(&[gen1::<Index, BTreeSet<String>>(g), gen1::<Plain, i64>(g)], true)); }
            5 => { put_payload(o, &with_offsets(&[gen1::<Index, BTreeSet<String>>(g), gen1::<Plain, i64>(g)], false)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 5, 2);
        match rev {
            1 => {
                let f0 = rd::<Plain, BTreeSet<String>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i64>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S36 { f0: f0, f1: f1 };
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, BTreeSet<String>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i64>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S36 { f0: f0, f1: f1 };
                Ok((v, sh))
            }
            3 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Index, BTreeSet<String>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i64>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S36 { f0: f0, f1: f1 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            4 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(8)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Index, BTreeSet<String>>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Plain, i64>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S36 { f0: f0, f1: f1 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            5 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Index, BTreeSet<String>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i64>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S36 { f0: f0, f1: f1 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S36::walk_revisioned_field_names(1) != ["f0", "f1"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if S36::walk_revisioned_field_names(2) != ["f0", "f1"] as [&str; 2] { return Err("field names at revision 2".into()) }
        if S36::walk_revisioned_field_names(3) != ["f0", "f1"] as [&str; 2] { return Err("field names at revision 3".into()) }
        if S36::walk_revisioned_field_names(4) != ["f0", "f1"] as [&str; 2] { return Err("field names at revision 4".into()) }
        if S36::walk_revisioned_field_names(5) != ["f0", "f1"] as [&str; 2] { return Err("field names at revision 5".into()) }
        if !S36::walk_revisioned_field_names(0).is_empty() || !S36::walk_revisioned_field_names(6).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S36 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true, false, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(6) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    _ => {} } }
                match g.below(5) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 2, sh.any_order) {
            match i {
                0 => sfield!(index w c g v sh R; 0, BTreeSet<String>, Index, true, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, i64, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(1, optimised), revision(2, optimised, indexed_struct))]
#[derive(Debug, Clone)]
pub struct S37 { #[revision(start = 2)] pub f0: u8, #[revision(indexed_seq)] pub f1: Vec<u32>, pub f2: Box<O5> }
impl S37 {
}
impl Spec for S37 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, u8>(&self.f0), enc1::<Index, Vec<u32>>(&self.f1), enc1::<Plain, Box<O5>>(&self.f2)], true));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.f2.same(&o.f2) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S37 { f0: <u8 as Spec>::random(g), f1: <Vec<u32> as Spec>::random(g), f2: <Box<O5> as Spec>::random(g) } }) }
}
impl Hist for S37 {
    const LATEST: u16 = 2;
    const REVISION: u16 = S37::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[gen1::<Index, Vec<u32>>(g), gen1::<Plain, Box<O5>>(g)], false)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Plain, u8>(g), gen1::<Index, Vec<u32>>(g), gen1::<Plain, Box<O5>>(g)], true)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 3);
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = <u8 as Default>::default();
                let f1 = rd::<Index, Vec<u32>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Box<O5>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S37 { f0: f0, f1: f1, f2: f2 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(12)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Index, Vec<u32>>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Plain, Box<O5>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S37 { f0: f0, f1: f1, f2: f2 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S37::walk_revisioned_field_names(1) != ["f1", "f2"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if S37::walk_revisioned_field_names(2) != ["f0", "f1", "f2"] as [&str; 3] { return Err("field names at revision 2".into()) }
        if !S37::walk_revisioned_field_names(0).is_empty() || !S37::walk_revisioned_field_names(3).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S37 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_f2().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, false]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(9) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_f2(); } 7 => { let _ = w.skip_f2(); } 8 => { let _ = w.walk_f2(); }
                    _ => {} } }
                match g.below(7) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_f2(); } 5 => { let _ = w.into_f2_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 3, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u8, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(index w c g v sh R; 1, Vec<u32>, Index, true, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, Box<O5>, Plain, false, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(1, optimised))]
#[derive(Debug, Clone)]
pub struct S38 { pub f0: String }
impl S38 {
}
impl Spec for S38 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, String>(&self.f0)], false));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S38 { f0: <String as Spec>::random(g) } }) }
}
impl Hist for S38 {
    const LATEST: u16 = 1;
    const REVISION: u16 = S38::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[gen1::<Plain, String>(g)], false)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 1);
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                #[allow(unused_mut)]
                let mut v = S38 { f0: f0 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S38::walk_revisioned_field_names(1) != ["f0"] as [&str; 1] { return Err("field names at revision 1".into()) }
        if !S38::walk_revisioned_field_names(0).is_empty() || !S38::walk_revisioned_field_names(2).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S38 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(3) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    _ => {} } }
                match g.below(3) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 1, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, String, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(1), revision(2, optimised))]
#[derive(Debug, Clone)]
pub enum E39 {
    #[revision(start = 1, size = "fixed(0)")] FooBar0,
}
impl E39 {
    fn vname(&self) -> &'static str { match self { E39::FooBar0 { .. } => "FooBar0" } }
}
impl Spec for E39 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        match self {
            E39::FooBar0 => { o.push(32);  }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E39::FooBar0, E39::FooBar0) => true, _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(1) { _ => E39::FooBar0, }) }
}
impl Hist for E39 {
    const LATEST: u16 = 2;
    const REVISION: u16 = E39::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(1) {
                _ => { (0u32).enc(o);  }
            },
            2 => match g.below(1) {
                _ => { o.push(32);  }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 0);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E39::FooBar0
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 1) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E39::FooBar0
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("FooBar0", 0)];
        if E39::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E39::walk_revisioned_variant_table(1))) }
        for d in 0..3 { if E39::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("FooBar0", 0)];
        if E39::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E39::walk_revisioned_variant_table(2))) }
        for d in 0..3 { if E39::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        if !E39::walk_revisioned_variant_table(3).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E39 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(2) {
                    0 => { let _ = w.into_foo_bar0(); }
                    1 => { let _ = w.decode_foo_bar0(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E39::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("FooBar0", w.is_foo_bar0())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(2);
        if g.below(5) != 0 { k = match sh.variant { "FooBar0" => 0 + g.below(2), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "FooBar0"; let r = w.into_foo_bar0(); if !ok { return if r.is_ok() { bad("into_foo_bar0 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_foo_bar0", r)?; Ok(()) }
            1 => { let ok = sh.variant == "FooBar0"; let r = w.decode_foo_bar0(); if !ok { return if r.is_ok() { bad("decode_foo_bar0 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_foo_bar0", r)?; Ok(()) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(2, optimised), revision(4, optimised), revision(1), revision(3, optimised))]
#[derive(Debug, Clone)]
pub enum E40 {
    #[revision(fields_name = "E40X0Named", size = "varlen", override(revision = 1, discriminant = 7), override(revision = 2, discriminant = 8))] Item0 { f0: String },
    #[revision(override(revision = 3, discriminant = 31), size = "inline", start = 2)] V1,
    #[revision(fields_name = "E40X2Named", size = "fixed(9)", override(revision = 1, discriminant = 10))] V2([u8; 5], f32),
    #[revision(start = 2, size = "fixed(8)", override(revision = 4, discriminant = 5))] FooBar3(f64),
    #[revision(override(revision = 4, discriminant = 3), override(revision = 3, discriminant = 10), override(revision = 2, discriminant = 10), size = "fixed(0)", start = 2)] FooBar4,
}
impl E40 {
    fn vname(&self) -> &'static str { match self { E40::Item0 { .. } => "Item0", E40::V1 { .. } => "V1", E40::V2 { .. } => "V2", E40::FooBar3 { .. } => "FooBar3", E40::FooBar4 { .. } => "FooBar4" } }
}
impl Spec for E40 {
    fn enc(&self, o: &mut Vec<u8>) {
        4u16.enc(o);
        match self {
            E40::Item0 { f0 } => { o.push(64); put_payload(o, &with_offsets(&[enc1::<Plain, String>(f0)], false)); }
            E40::V1 => { o.push(1); }
            E40::V2(f0, f1) => { o.push(34); o.extend(enc1::<Plain, [u8; 5]>(f0)); o.extend(enc1::<Plain, f32>(f1)); }
            E40::FooBar3(f0) => { o.push(37); o.extend(enc1::<Plain, f64>(f0)); }
            E40::FooBar4 => { o.push(35);  }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E40::Item0 { f0: a0 }, E40::Item0 { f0: b0 }) => a0.same(b0), (E40::V1, E40::V1) => true, (E40::V2(a0, a1), E40::V2(b0, b1)) => a0.same(b0) && a1.same(b1), (E40::FooBar3(a0), E40::FooBar3(b0)) => a0.same(b0), (E40::FooBar4, E40::FooBar4) => true, _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(5) { 0 => E40::Item0 { f0: <String as Spec>::random(g) }, 1 => E40::V1, 2 => E40::V2(<[u8; 5] as Spec>::random(g), <f32 as Spec>::random(g)), 3 => E40::FooBar3(<f64 as Spec>::random(g)), _ => E40::FooBar4, }) }
}
impl Hist for E40 {
    const LATEST: u16 = 4;
    const REVISION: u16 = E40::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(2) {
                0 => { (7u32).enc(o); o.extend(gen1::<Plain, String>(g)); }
                _ => { (10u32).enc(o); o.extend(gen1::<Plain, [u8; 5]>(g)); o.extend(gen1::<Plain, f32>(g)); }
            },
            2 => match g.below(5) {
                0 => { o.push(72); put_payload(o, &with_offsets(&[gen1::<Plain, String>(g)], false)); }
                1 => { o.push(0); }
                2 => { o.push(33); o.extend(gen1::<Plain, [u8; 5]>(g)); o.extend(gen1::<Plain, f32>(g)); }
                3 => { o.push(34); o.extend(gen1::<Plain, f64>(g)); }
                _ => { o.push(42);  }
            },
            3 => match g.below(5) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, String>(g)], false)); }
                1 => { o.push(31); }
                2 => { o.push(33); o.extend(gen1::<Plain, [u8; 5]>(g)); o.extend(gen1::<Plain, f32>(g)); }
                3 => { o.push(34); o.extend(gen1::<Plain, f64>(g)); }
                _ => { o.push(42);  }
            },
            4 => match g.below(5) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, String>(g)], false)); }
                1 => { o.push(1); }
                2 => { o.push(34); o.extend(gen1::<Plain, [u8; 5]>(g)); o.extend(gen1::<Plain, f32>(g)); }
                3 => { o.push(37); o.extend(gen1::<Plain, f64>(g)); }
                _ => { o.push(35);  }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 4, 2);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                7 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E40::Item0 { f0 }
                }
                10 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, f32>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    E40::V2(f0, f1)
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (8, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E40::Item0 { f0 }
                }
                (0, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E40::V1
                }
                (1, 1) => {
                    let (mut sub, end) = window(c, 9)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, f32>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E40::V2(f0, f1)
                }
                (2, 1) => {
                    let (mut sub, end) = window(c, 8)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, f64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E40::FooBar3(f0)
                }
                (10, 1) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E40::FooBar4
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E40::Item0 { f0 }
                }
                (31, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E40::V1
                }
                (1, 1) => {
                    let (mut sub, end) = window(c, 9)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, f32>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E40::V2(f0, f1)
                }
                (2, 1) => {
                    let (mut sub, end) = window(c, 8)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, f64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E40::FooBar3(f0)
                }
                (10, 1) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E40::FooBar4
                }
                _ => return Err(Bad::Other),
                }
            }
            4 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E40::Item0 { f0 }
                }
                (1, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E40::V1
                }
                (2, 1) => {
                    let (mut sub, end) = window(c, 9)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, f32>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E40::V2(f0, f1)
                }
                (5, 1) => {
                    let (mut sub, end) = window(c, 8)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, f64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E40::FooBar3(f0)
                }
                (3, 1) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E40::FooBar4
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("Item0", 7), ("V2", 10)];
        if E40::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E40::walk_revisioned_variant_table(1))) }
        for d in 0..13 { if E40::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("Item0", 8), ("V1", 0), ("V2", 1), ("FooBar3", 2), ("FooBar4", 10)];
        if E40::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E40::walk_revisioned_variant_table(2))) }
        for d in 0..13 { if E40::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("Item0", 0), ("V1", 31), ("V2", 1), ("FooBar3", 2), ("FooBar4", 10)];
        if E40::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", E40::walk_revisioned_variant_table(3))) }
        for d in 0..34 { if E40::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        let want: &[(&str, u32)] = &[("Item0", 0), ("V1", 1), ("V2", 2), ("FooBar3", 5), ("FooBar4", 3)];
        if E40::walk_revisioned_variant_table(4) != want { return Err(format!("variant table at revision 4: {:?}", E40::walk_revisioned_variant_table(4))) }
        for d in 0..8 { if E40::walk_revisioned_variant_name(4, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 4")) } }
        if !E40::walk_revisioned_variant_table(5).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E40 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(9) {
                    0 => { let _ = w.item0_view(); }
                    1 => { let _ = w.into_v1(); }
                    2 => { let _ = w.decode_v1(); }
                    3 => { let _ = w.v2_view(); }
                    4 => { let _ = w.into_foo_bar3(); }
                    5 => { let _ = w.decode_foo_bar3(); }
                    6 => { let _ = w.foo_bar3_view(); }
                    7 => { let _ = w.into_foo_bar4(); }
                    8 => { let _ = w.decode_foo_bar4(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E40::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Item0", w.is_item0()), ("V1", w.is_v1()), ("V2", w.is_v2()), ("FooBar3", w.is_foo_bar3()), ("FooBar4", w.is_foo_bar4())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(9);
        if g.below(5) != 0 { k = match sh.variant { "Item0" => 0 + g.below(1), "V1" => 1 + g.below(2), "V2" => 3 + g.below(1), "FooBar3" => 4 + g.below(3), "FooBar4" => 7 + g.below(2), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Item0"; let r = w.item0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E40::Item0 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, String>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("item0_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("item0_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            1 => { let ok = sh.variant == "V1"; let r = w.into_v1(); if !ok { return if r.is_ok() { bad("into_v1 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v1", r)?; Ok(()) }
            2 => { let ok = sh.variant == "V1"; let r = w.decode_v1(); if !ok { return if r.is_ok() { bad("decode_v1 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v1", r)?; Ok(()) }
            3 => { let ok = sh.variant == "V2"; let r = w.v2_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v2_view of another variant succeeded") } else { Err(Stop::Expected) } } let E40::V2(f0, f1) = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, [u8; 5]>(f0), enc1::<Plain, f32>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v2_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v2_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            4 => { let ok = sh.variant == "FooBar3"; let r = w.into_foo_bar3(); if !ok { return if r.is_ok() { bad("into_foo_bar3 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <f64 as W>::WALKABLE && true; if nested::<f64, R>("into_foo_bar3", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            5 => { let ok = sh.variant == "FooBar3"; let r = w.decode_foo_bar3(); if !ok { return if r.is_ok() { bad("decode_foo_bar3 of another variant succeeded") } else { Err(Stop::Expected) } } let E40::FooBar3(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_foo_bar3", f0, r) }
            6 => { let ok = sh.variant == "FooBar3"; let r = w.foo_bar3_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar3_view of another variant succeeded") } else { Err(Stop::Expected) } } let E40::FooBar3(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("foo_bar3_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, f64>(f0)]) }
            7 => { let ok = sh.variant == "FooBar4"; let r = w.into_foo_bar4(); if !ok { return if r.is_ok() { bad("into_foo_bar4 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_foo_bar4", r)?; Ok(()) }
            8 => { let ok = sh.variant == "FooBar4"; let r = w.decode_foo_bar4(); if !ok { return if r.is_ok() { bad("decode_foo_bar4 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_foo_bar4", r)?; Ok(()) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(1, optimised))]
#[derive(Debug, Clone)]
pub enum E41 {
    #[revision(size = "varlen")] Item0(u32),
    #[revision(size = "varlen", start = 1)] Item1(Option<String>),
    #[revision(size = "varlen")] V2,
    #[revision(size = "fixed(4)")] Item3 { f0: f32 },
    #[revision(size = "fixed(1)")] V4 { f0: i8 },
    #[revision(size = "fixed(5)")] V5 { f0: [u8; 5] },
}
impl E41 {
    fn vname(&self) -> &'static str { match self { E41::Item0 { .. } => "Item0", E41::Item1 { .. } => "Item1", E41::V2 { .. } => "V2", E41::Item3 { .. } => "Item3", E41::V4 { .. } => "V4", E41::V5 { .. } => "V5" } }
}
impl Spec for E41 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        match self {
            E41::Item0(f0) => { o.push(64); put_payload(o, &with_offsets(&[enc1::<Plain, u32>(f0)], false)); }
            E41::Item1(f0) => { o.push(65); put_payload(o, &with_offsets(&[enc1::<Plain, Option<String>>(f0)], false)); }
            E41::V2 => { o.push(66); put_payload(o, &with_offsets(&[], false)); }
            E41::Item3 { f0 } => { o.push(35); o.extend(enc1::<Plain, f32>(f0)); }
            E41::V4 { f0 } => { o.push(36); o.extend(enc1::<Plain, i8>(f0)); }
            E41::V5 { f0 } => { o.push(37); o.extend(enc1::<Plain, [u8; 5]>(f0)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E41::Item0(a0), E41::Item0(b0)) => a0.same(b0), (E41::Item1(a0), E41::Item1(b0)) => a0.same(b0), (E41::V2, E41::V2) => true, (E41::Item3 { f0: a0 }, E41::Item3 { f0: b0 }) => a0.same(b0), (E41::V4 { f0: a0 }, E41::V4 { f0: b0 }) => a0.same(b0), (E41::V5 { f0: a0 }, E41::V5 { f0: b0 }) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(6) { 0 => E41::Item0(<u32 as Spec>::random(g)), 1 => E41::Item1(<Option<String> as Spec>::random(g)), 2 => E41::V2, 3 => E41::Item3 { f0: <f32 as Spec>::random(g) }, 4 => E41::V4 { f0: <i8 as Spec>::random(g) }, _ => E41::V5 { f0: <[u8; 5] as Spec>::random(g) }, }) }
}
impl Hist for E41 {
    const LATEST: u16 = 1;
    const REVISION: u16 = E41::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(6) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, u32>(g)], false)); }
                1 => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, Option<String>>(g)], false)); }
                2 => { o.push(66); put_payload(o, &with_offsets(&[], false)); }
                3 => { o.push(35); o.extend(gen1::<Plain, f32>(g)); }
                4 => { o.push(36); o.extend(gen1::<Plain, i8>(g)); }
                _ => { o.push(37); o.extend(gen1::<Plain, [u8; 5]>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 1);
        let v = match rev {
            1 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E41::Item0(f0)
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Option<String>>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E41::Item1(f0)
                }
                (2, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E41::V2
                }
                (3, 1) => {
                    let (mut sub, end) = window(c, 4)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, f32>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E41::Item3 { f0 }
                }
                (4, 1) => {
                    let (mut sub, end) = window(c, 1)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, i8>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E41::V4 { f0 }
                }
                (5, 1) => {
                    let (mut sub, end) = window(c, 5)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E41::V5 { f0 }
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("Item0", 0), ("Item1", 1), ("V2", 2), ("Item3", 3), ("V4", 4), ("V5", 5)];
        if E41::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E41::walk_revisioned_variant_table(1))) }
        for d in 0..8 { if E41::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        if !E41::walk_revisioned_variant_table(2).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E41 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(11) {
                    0 => { let _ = w.into_item0(); }
                    1 => { let _ = w.decode_item0(); }
                    2 => { let _ = w.item0_view(); }
                    3 => { let _ = w.into_item1(); }
                    4 => { let _ = w.decode_item1(); }
                    5 => { let _ = w.item1_view(); }
                    6 => { let _ = w.into_v2(); }
                    7 => { let _ = w.decode_v2(); }
                    8 => { let _ = w.item3_view(); }
                    9 => { let _ = w.v4_view(); }
                    10 => { let _ = w.v5_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E41::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Item0", w.is_item0()), ("Item1", w.is_item1()), ("V2", w.is_v2()), ("Item3", w.is_item3()), ("V4", w.is_v4()), ("V5", w.is_v5())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(11);
        if g.below(5) != 0 { k = match sh.variant { "Item0" => 0 + g.below(3), "Item1" => 3 + g.below(3), "V2" => 6 + g.below(2), "Item3" => 8 + g.below(1), "V4" => 9 + g.below(1), "V5" => 10 + g.below(1), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Item0"; let r = w.into_item0(); if !ok { return if r.is_ok() { bad("into_item0 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u32 as W>::WALKABLE && true; if nested::<u32, R>("into_item0", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "Item0"; let r = w.decode_item0(); if !ok { return if r.is_ok() { bad("decode_item0 of another variant succeeded") } else { Err(Stop::Expected) } } let E41::Item0(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_item0", f0, r) }
            2 => { let ok = sh.variant == "Item0"; let r = w.item0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E41::Item0(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("item0_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u32>(f0)]) }
            3 => { let ok = sh.variant == "Item1"; let r = w.into_item1(); if !ok { return if r.is_ok() { bad("into_item1 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <Option<String> as W>::WALKABLE && true; if nested::<Option<String>, R>("into_item1", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            4 => { let ok = sh.variant == "Item1"; let r = w.decode_item1(); if !ok { return if r.is_ok() { bad("decode_item1 of another variant succeeded") } else { Err(Stop::Expected) } } let E41::Item1(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_item1", f0, r) }
            5 => { let ok = sh.variant == "Item1"; let r = w.item1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E41::Item1(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("item1_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, Option<String>>(f0)]) }
            6 => { let ok = sh.variant == "V2"; let r = w.into_v2(); if !ok { return if r.is_ok() { bad("into_v2 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v2", r)?; Ok(()) }
            7 => { let ok = sh.variant == "V2"; let r = w.decode_v2(); if !ok { return if r.is_ok() { bad("decode_v2 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v2", r)?; Ok(()) }
            8 => { let ok = sh.variant == "Item3"; let r = w.item3_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item3_view of another variant succeeded") } else { Err(Stop::Expected) } } let E41::Item3 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, f32>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("item3_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("item3_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            9 => { let ok = sh.variant == "V4"; let r = w.v4_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v4_view of another variant succeeded") } else { Err(Stop::Expected) } } let E41::V4 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, i8>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v4_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v4_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            10 => { let ok = sh.variant == "V5"; let r = w.v5_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v5_view of another variant succeeded") } else { Err(Stop::Expected) } } let E41::V5 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, [u8; 5]>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v5_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v5_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(2), revision(4, optimised), revision(1), revision(3, optimised))]
#[derive(Debug, Clone)]
pub enum E42 {
    #[revision(start = 4)] #[revision(size = "fixed(0)")] #[revision(override(revision = 4, discriminant = 6))] V0,
    #[revision(size = "fixed(1)", override(revision = 1, discriminant = 8))] FooBar1 { f0: i8 },
    #[revision(override(revision = 3, discriminant = 0), override(revision = 1, discriminant = 3), size = "varlen")] V2(Vec<String>),
    #[revision(size = "fixed(1)", start = 4)] Item3(i8),
    #[revision(override(revision = 2, discriminant = 8))] #[revision(size = "varlen")] FooBar4(BTreeMap<u8, String>, Vec<N7>, [u8; 5]),
}
impl E42 {
    fn vname(&self) -> &'static str { match self { E42::V0 { .. } => "V0", E42::FooBar1 { .. } => "FooBar1", E42::V2 { .. } => "V2", E42::Item3 { .. } => "Item3", E42::FooBar4 { .. } => "FooBar4" } }
}
impl Spec for E42 {
    fn enc(&self, o: &mut Vec<u8>) {
        4u16.enc(o);
        match self {
            E42::V0 => { o.push(38);  }
            E42::FooBar1 { f0 } => { o.push(32); o.extend(enc1::<Plain, i8>(f0)); }
            E42::V2(f0) => { o.push(65); put_payload(o, &with_offsets(&[enc1::<Plain, Vec<String>>(f0)], false)); }
            E42::Item3(f0) => { o.push(34); o.extend(enc1::<Plain, i8>(f0)); }
            E42::FooBar4(f0, f1, f2) => { o.push(67); put_payload(o, &with_offsets(&[enc1::<Plain, BTreeMap<u8, String>>(f0), enc1::<Plain, Vec<N7>>(f1), enc1::<Plain, [u8; 5]>(f2)], false)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E42::V0, E42::V0) => true, (E42::FooBar1 { f0: a0 }, E42::FooBar1 { f0: b0 }) => a0.same(b0), (E42::V2(a0), E42::V2(b0)) => a0.same(b0), (E42::Item3(a0), E42::Item3(b0)) => a0.same(b0), (E42::FooBar4(a0, a1, a2), E42::FooBar4(b0, b1, b2)) => a0.same(b0) && a1.same(b1) && a2.same(b2), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(5) { 0 => E42::V0, 1 => E42::FooBar1 { f0: <i8 as Spec>::random(g) }, 2 => E42::V2(<Vec<String> as Spec>::random(g)), 3 => E42::Item3(<i8 as Spec>::random(g)), _ => E42::FooBar4(<BTreeMap<u8, String> as Spec>::random(g), <Vec<N7> as Spec>::random(g), <[u8; 5] as Spec>::random(g)), }) }
}
impl Hist for E42 {
    const LATEST: u16 = 4;
    const REVISION: u16 = E42::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(3) {
                0 => { (8u32).enc(o); o.extend(gen1::<Plain, i8>(g)); }
                1 => { (3u32).enc(o); o.extend(gen1::<Plain, Vec<String>>(g)); }
                _ => { (0u32).enc(o); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); o.extend(gen1::<Plain, Vec<N7>>(g)); o.extend(gen1::<Plain, [u8; 5]>(g)); }
            },
            2 => match g.below(3) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, i8>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, Vec<String>>(g)); }
                _ => { (8u32).enc(o); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); o.extend(gen1::<Plain, Vec<N7>>(g)); o.extend(gen1::<Plain, [u8; 5]>(g)); }
            },
            3 => match g.below(3) {
                0 => { o.push(33); o.extend(gen1::<Plain, i8>(g)); }
                1 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, Vec<String>>(g)], false)); }
                _ => { o.push(66); put_payload(o, &with_offsets(&[gen1::<Plain, BTreeMap<u8, String>>(g), gen1::<Plain, Vec<N7>>(g), gen1::<Plain, [u8; 5]>(g)], false)); }
            },
            4 => match g.below(5) {
                0 => { o.push(38);  }
                1 => { o.push(32); o.extend(gen1::<Plain, i8>(g)); }
                2 => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, Vec<String>>(g)], false)); }
                3 => { o.push(34); o.extend(gen1::<Plain, i8>(g)); }
                _ => { o.push(67); put_payload(o, &with_offsets(&[gen1::<Plain, BTreeMap<u8, String>>(g), gen1::<Plain, Vec<N7>>(g), gen1::<Plain, [u8; 5]>(g)], false)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 4, 3);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                8 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, i8>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E42::FooBar1 { f0 }
                }
                3 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E42::V2(f0)
                }
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Vec<N7>>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E42::FooBar4(f0, f1, f2)
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, i8>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E42::FooBar1 { f0 }
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E42::V2(f0)
                }
                8 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Vec<N7>>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E42::FooBar4(f0, f1, f2)
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (1, 1) => {
                    let (mut sub, end) = window(c, 1)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, i8>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E42::FooBar1 { f0 }
                }
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E42::V2(f0)
                }
                (2, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Vec<N7>>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(2))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E42::FooBar4(f0, f1, f2)
                }
                _ => return Err(Bad::Other),
                }
            }
            4 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (6, 1) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E42::V0
                }
                (0, 1) => {
                    let (mut sub, end) = window(c, 1)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, i8>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E42::FooBar1 { f0 }
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E42::V2(f0)
                }
                (2, 1) => {
                    let (mut sub, end) = window(c, 1)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, i8>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E42::Item3(f0)
                }
                (3, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Vec<N7>>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(2))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E42::FooBar4(f0, f1, f2)
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("FooBar1", 8), ("V2", 3), ("FooBar4", 0)];
        if E42::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E42::walk_revisioned_variant_table(1))) }
        for d in 0..11 { if E42::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("FooBar1", 0), ("V2", 1), ("FooBar4", 8)];
        if E42::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E42::walk_revisioned_variant_table(2))) }
        for d in 0..11 { if E42::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("FooBar1", 1), ("V2", 0), ("FooBar4", 2)];
        if E42::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", E42::walk_revisioned_variant_table(3))) }
        for d in 0..5 { if E42::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        let want: &[(&str, u32)] = &[("V0", 6), ("FooBar1", 0), ("V2", 1), ("Item3", 2), ("FooBar4", 3)];
        if E42::walk_revisioned_variant_table(4) != want { return Err(format!("variant table at revision 4: {:?}", E42::walk_revisioned_variant_table(4))) }
        for d in 0..9 { if E42::walk_revisioned_variant_name(4, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 4")) } }
        if !E42::walk_revisioned_variant_table(5).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E42 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(10) {
                    0 => { let _ = w.into_v0(); }
                    1 => { let _ = w.decode_v0(); }
                    2 => { let _ = w.foo_bar1_view(); }
                    3 => { let _ = w.into_v2(); }
                    4 => { let _ = w.decode_v2(); }
                    5 => { let _ = w.v2_view(); }
                    6 => { let _ = w.into_item3(); }
                    7 => { let _ = w.decode_item3(); }
                    8 => { let _ = w.item3_view(); }
                    9 => { let _ = w.foo_bar4_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E42::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("V0", w.is_v0()), ("FooBar1", w.is_foo_bar1()), ("V2", w.is_v2()), ("Item3", w.is_item3()), ("FooBar4", w.is_foo_bar4())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(10);
        if g.below(5) != 0 { k = match sh.variant { "V0" => 0 + g.below(2), "FooBar1" => 2 + g.below(1), "V2" => 3 + g.below(3), "Item3" => 6 + g.below(3), "FooBar4" => 9 + g.below(1), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "V0"; let r = w.into_v0(); if !ok { return if r.is_ok() { bad("into_v0 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v0", r)?; Ok(()) }
            1 => { let ok = sh.variant == "V0"; let r = w.decode_v0(); if !ok { return if r.is_ok() { bad("decode_v0 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v0", r)?; Ok(()) }
            2 => { let ok = sh.variant == "FooBar1"; let r = w.foo_bar1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E42::FooBar1 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, i8>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar1_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar1_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            3 => { let ok = sh.variant == "V2"; let r = w.into_v2(); if !ok { return if r.is_ok() { bad("into_v2 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <Vec<String> as W>::WALKABLE && true; if nested::<Vec<String>, R>("into_v2", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            4 => { let ok = sh.variant == "V2"; let r = w.decode_v2(); if !ok { return if r.is_ok() { bad("decode_v2 of another variant succeeded") } else { Err(Stop::Expected) } } let E42::V2(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v2", f0, r) }
            5 => { let ok = sh.variant == "V2"; let r = w.v2_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v2_view of another variant succeeded") } else { Err(Stop::Expected) } } let E42::V2(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v2_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, Vec<String>>(f0)]) }
            6 => { let ok = sh.variant == "Item3"; let r = w.into_item3(); if !ok { return if r.is_ok() { bad("into_item3 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <i8 as W>::WALKABLE && true; if nested::<i8, R>("into_item3", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            7 => { let ok = sh.variant == "Item3"; let r = w.decode_item3(); if !ok { return if r.is_ok() { bad("decode_item3 of another variant succeeded") } else { Err(Stop::Expected) } } let E42::Item3(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_item3", f0, r) }
            8 => { let ok = sh.variant == "Item3"; let r = w.item3_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item3_view of another variant succeeded") } else { Err(Stop::Expected) } } let E42::Item3(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("item3_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, i8>(f0)]) }
            9 => { let ok = sh.variant == "FooBar4"; let r = w.foo_bar4_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar4_view of another variant succeeded") } else { Err(Stop::Expected) } } let E42::FooBar4(f0, f1, f2) = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, BTreeMap<u8, String>>(f0), enc1::<Plain, Vec<N7>>(f1), enc1::<Plain, [u8; 5]>(f2)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar4_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar4_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            _ => unreachable!(),
        }
    }
}

#[revisioned()]
#[revision(revision(1, optimised), revision(2, optimised))]
#[derive(Debug, Clone)]
pub enum E43 {
    #[revision(end = 2, convert_fn = "cv_0", size = "fixed(1)")] Item0 { f0: i8 },
    #[revision(start = 2)] #[revision(size = "varlen")] Item1(I2),
    #[revision(start = 2, fields_name = "E43X2Named", size = "fixed(12)", override(revision = 2, discriminant = 2))] V2 { f0: f64, f1: f32 },
    #[revision(size = "varlen", override(revision = 1, discriminant = 8))] Acc(u64),
}
impl E43 {
    fn cv_0(x: E43Item0Fields, rev: u16) -> Result<Self, Error> { let _ = &x; #[allow(unused_mut)] let mut h = mix(0, rev, &[]); h = mix(h, rev, &x.f0.bytes()); Ok(E43::Acc(h)) }
    fn vname(&self) -> &'static str { match self { E43::Item1 { .. } => "Item1", E43::V2 { .. } => "V2", E43::Acc { .. } => "Acc" } }
}
impl Spec for E43 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        match self {
            E43::Item1(f0) => { o.push(64); put_payload(o, &with_offsets(&[enc1::<Plain, I2>(f0)], false)); }
            E43::V2 { f0, f1 } => { o.push(34); o.extend(enc1::<Plain, f64>(f0)); o.extend(enc1::<Plain, f32>(f1)); }
            E43::Acc(f0) => { o.push(65); put_payload(o, &with_offsets(&[enc1::<Plain, u64>(f0)], false)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E43::Item1(a0), E43::Item1(b0)) => a0.same(b0), (E43::V2 { f0: a0, f1: a1 }, E43::V2 { f0: b0, f1: b1 }) => a0.same(b0) && a1.same(b1), (E43::Acc(a0), E43::Acc(b0)) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(3) { 0 => E43::Item1(<I2 as Spec>::random(g)), 1 => E43::V2 { f0: <f64 as Spec>::random(g), f1: <f32 as Spec>::random(g) }, _ => E43::Acc(<u64 as Spec>::random(g)), }) }
}
impl Hist for E43 {
    const LATEST: u16 = 2;
    const REVISION: u16 = E43::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(2) {
                0 => { o.push(32); o.extend(gen1::<Plain, i8>(g)); }
                _ => { o.push(72); put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g)], false)); }
            },
            2 => match g.below(3) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, I2>(g)], false)); }
                1 => { o.push(34); o.extend(gen1::<Plain, f64>(g)); o.extend(gen1::<Plain, f32>(g)); }
                _ => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g)], false)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 2);
        sh.conv = rev != 2;
        let v = match rev {
            1 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 1) => {
                    let (mut sub, end) = window(c, 1)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, i8>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    #[allow(unused_mut)] let mut h = mix(0, 1, &[]);
                    h = mix(h, 1, &f0.bytes());
                    E43::Acc(h)
                }
                (8, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E43::Acc(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, I2>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E43::Item1(f0)
                }
                (2, 1) => {
                    let (mut sub, end) = window(c, 12)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, f64>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, f32>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E43::V2 { f0, f1 }
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E43::Acc(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("Item0", 0), ("Acc", 8)];
        if E43::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E43::walk_revisioned_variant_table(1))) }
        for d in 0..11 { if E43::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("Item1", 0), ("V2", 2), ("Acc", 1)];
        if E43::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E43::walk_revisioned_variant_table(2))) }
        for d in 0..5 { if E43::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        if !E43::walk_revisioned_variant_table(3).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E43 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(7) {
                    0 => { let _ = w.into_item1(); }
                    1 => { let _ = w.decode_item1(); }
                    2 => { let _ = w.item1_view(); }
                    3 => { let _ = w.v2_view(); }
                    4 => { let _ = w.into_acc(); }
                    5 => { let _ = w.decode_acc(); }
                    6 => { let _ = w.acc_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E43::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Item1", w.is_item1()), ("V2", w.is_v2()), ("Acc", w.is_acc())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(7);
        if g.below(5) != 0 { k = match sh.variant { "Item1" => 0 + g.below(3), "V2" => 3 + g.below(1), "Acc" => 4 + g.below(3), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Item1"; let r = w.into_item1(); if !ok { return if r.is_ok() { bad("into_item1 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <I2 as W>::WALKABLE && true; if nested::<I2, R>("into_item1", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "Item1"; let r = w.decode_item1(); if !ok { return if r.is_ok() { bad("decode_item1 of another variant succeeded") } else { Err(Stop::Expected) } } let E43::Item1(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_item1", f0, r) }
            2 => { let ok = sh.variant == "Item1"; let r = w.item1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E43::Item1(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("item1_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, I2>(f0)]) }
            3 => { let ok = sh.variant == "V2"; let r = w.v2_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v2_view of another variant succeeded") } else { Err(Stop::Expected) } } let E43::V2 { f0, f1 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, f64>(f0), enc1::<Plain, f32>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v2_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v2_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            4 => { let ok = sh.variant == "Acc"; let r = w.into_acc(); if !ok { return if r.is_ok() { bad("into_acc of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u64 as W>::WALKABLE && true; if nested::<u64, R>("into_acc", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            5 => { let ok = sh.variant == "Acc"; let r = w.decode_acc(); if !ok { return if r.is_ok() { bad("decode_acc of another variant succeeded") } else { Err(Stop::Expected) } } let E43::Acc(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_acc", f0, r) }
            6 => { let ok = sh.variant == "Acc"; let r = w.acc_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("acc_view of another variant succeeded") } else { Err(Stop::Expected) } } let E43::Acc(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("acc_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u64>(f0)]) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(1, optimised), revision(2, optimised))]
#[derive(Debug, Clone)]
pub enum E44 {
    #[revision(start = 2, size = "inline")] V0,
    #[revision(size = "varlen")] V1(Vec<String>),
    #[revision(size = "varlen")] FooBar2(Option<u32>, Box<I2>, E41),
    #[revision(size = "inline", start = 2)] FooBar3,
}
impl E44 {
    fn vname(&self) -> &'static str { match self { E44::V0 { .. } => "V0", E44::V1 { .. } => "V1", E44::FooBar2 { .. } => "FooBar2", E44::FooBar3 { .. } => "FooBar3" } }
}
impl Spec for E44 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        match self {
            E44::V0 => { o.push(0); }
            E44::V1(f0) => { o.push(65); put_payload(o, &with_offsets(&[enc1::<Plain, Vec<String>>(f0)], false)); }
            E44::FooBar2(f0, f1, f2) => { o.push(66); put_payload(o, &with_offsets(&[enc1::<Plain, Option<u32>>(f0), enc1::<Plain, Box<I2>>(f1), enc1::<Plain, E41>(f2)], false)); }
            E44::FooBar3 => { o.push(3); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E44::V0, E44::V0) => true, (E44::V1(a0), E44::V1(b0)) => a0.same(b0), (E44::FooBar2(a0, a1, a2), E44::FooBar2(b0, b1, b2)) => a0.same(b0) && a1.same(b1) && a2.same(b2), (E44::FooBar3, E44::FooBar3) => true, _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(4) { 0 => E44::V0, 1 => E44::V1(<Vec<String> as Spec>::random(g)), 2 => E44::FooBar2(<Option<u32> as Spec>::random(g), <Box<I2> as Spec>::random(g), <E41 as Spec>::random(g)), _ => E44::FooBar3, }) }
}
impl Hist for E44 {
    const LATEST: u16 = 2;
    const REVISION: u16 = E44::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(2) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, Vec<String>>(g)], false)); }
                _ => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, Option<u32>>(g), gen1::<Plain, Box<I2>>(g), gen1::<Plain, E41>(g)], false)); }
            },
            2 => match g.below(4) {
                0 => { o.push(0); }
                1 => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, Vec<String>>(g)], false)); }
                2 => { o.push(66); put_payload(o, &with_offsets(&[gen1::<Plain, Option<u32>>(g), gen1::<Plain, Box<I2>>(g), gen1::<Plain, E41>(g)], false)); }
                _ => { o.push(3); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 3);
        let v = match rev {
            1 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E44::V1(f0)
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Option<u32>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Box<I2>>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, E41>(c, &mut sh, Some(2))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E44::FooBar2(f0, f1, f2)
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E44::V0
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E44::V1(f0)
                }
                (2, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Option<u32>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Box<I2>>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, E41>(c, &mut sh, Some(2))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E44::FooBar2(f0, f1, f2)
                }
                (3, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E44::FooBar3
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("V1", 0), ("FooBar2", 1)];
        if E44::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E44::walk_revisioned_variant_table(1))) }
        for d in 0..4 { if E44::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("V0", 0), ("V1", 1), ("FooBar2", 2), ("FooBar3", 3)];
        if E44::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E44::walk_revisioned_variant_table(2))) }
        for d in 0..6 { if E44::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        if !E44::walk_revisioned_variant_table(3).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E44 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(8) {
                    0 => { let _ = w.into_v0(); }
                    1 => { let _ = w.decode_v0(); }
                    2 => { let _ = w.into_v1(); }
                    3 => { let _ = w.decode_v1(); }
                    4 => { let _ = w.v1_view(); }
                    5 => { let _ = w.foo_bar2_view(); }
                    6 => { let _ = w.into_foo_bar3(); }
                    7 => { let _ = w.decode_foo_bar3(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E44::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("V0", w.is_v0()), ("V1", w.is_v1()), ("FooBar2", w.is_foo_bar2()), ("FooBar3", w.is_foo_bar3())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(8);
        if g.below(5) != 0 { k = match sh.variant { "V0" => 0 + g.below(2), "V1" => 2 + g.below(3), "FooBar2" => 5 + g.below(1), "FooBar3" => 6 + g.below(2), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "V0"; let r = w.into_v0(); if !ok { return if r.is_ok() { bad("into_v0 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v0", r)?; Ok(()) }
            1 => { let ok = sh.variant == "V0"; let r = w.decode_v0(); if !ok { return if r.is_ok() { bad("decode_v0 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v0", r)?; Ok(()) }
            2 => { let ok = sh.variant == "V1"; let r = w.into_v1(); if !ok { return if r.is_ok() { bad("into_v1 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <Vec<String> as W>::WALKABLE && true; if nested::<Vec<String>, R>("into_v1", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            3 => { let ok = sh.variant == "V1"; let r = w.decode_v1(); if !ok { return if r.is_ok() { bad("decode_v1 of another variant succeeded") } else { Err(Stop::Expected) } } let E44::V1(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v1", f0, r) }
            4 => { let ok = sh.variant == "V1"; let r = w.v1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E44::V1(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v1_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, Vec<String>>(f0)]) }
            5 => { let ok = sh.variant == "FooBar2"; let r = w.foo_bar2_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar2_view of another variant succeeded") } else { Err(Stop::Expected) } } let E44::FooBar2(f0, f1, f2) = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, Option<u32>>(f0), enc1::<Plain, Box<I2>>(f1), enc1::<Plain, E41>(f2)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar2_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar2_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            6 => { let ok = sh.variant == "FooBar3"; let r = w.into_foo_bar3(); if !ok { return if r.is_ok() { bad("into_foo_bar3 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_foo_bar3", r)?; Ok(()) }
            7 => { let ok = sh.variant == "FooBar3"; let r = w.decode_foo_bar3(); if !ok { return if r.is_ok() { bad("decode_foo_bar3 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_foo_bar3", r)?; Ok(()) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(1, optimised))]
#[derive(Debug, Clone)]
pub enum E45 {
    #[revision(size = "varlen")] Item0(Vec<String>),
    #[revision(size = "fixed(1)")] Item1(bool),
    #[revision(size = "fixed(1)")] FooBar2(bool),
}
impl E45 {
    fn vname(&self) -> &'static str { match self { E45::Item0 { .. } => "Item0", E45::Item1 { .. } => "Item1", E45::FooBar2 { .. } => "FooBar2" } }
}
impl Spec for E45 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        match self {
            E45::Item0(f0) => { o.push(64); put_payload(o, &with_offsets(&[enc1::<Plain, Vec<String>>(f0)], false)); }
            E45::Item1(f0) => { o.push(33); o.extend(enc1::<Plain, bool>(f0)); }
            E45::FooBar2(f0) => { o.push(34); o.extend(enc1::<Plain, bool>(f0)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E45::Item0(a0), E45::Item0(b0)) => a0.same(b0), (E45::Item1(a0), E45::Item1(b0)) => a0.same(b0), (E45::FooBar2(a0), E45::FooBar2(b0)) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(3) { 0 => E45::Item0(<Vec<String> as Spec>::random(g)), 1 => E45::Item1(<bool as Spec>::random(g)), _ => E45::FooBar2(<bool as Spec>::random(g)), }) }
}
impl Hist for E45 {
    const LATEST: u16 = 1;
    const REVISION: u16 = E45::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(3) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, Vec<String>>(g)], false)); }
                1 => { o.push(33); o.extend(gen1::<Plain, bool>(g)); }
                _ => { o.push(34); o.extend(gen1::<Plain, bool>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 1);
        let v = match rev {
            1 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E45::Item0(f0)
                }
                (1, 1) => {
                    let (mut sub, end) = window(c, 1)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, bool>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E45::Item1(f0)
                }
                (2, 1) => {
                    let (mut sub, end) = window(c, 1)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, bool>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E45::FooBar2(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("Item0", 0), ("Item1", 1), ("FooBar2", 2)];
        if E45::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E45::walk_revisioned_variant_table(1))) }
        for d in 0..5 { if E45::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        if !E45::walk_revisioned_variant_table(2).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E45 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(9) {
                    0 => { let _ = w.into_item0(); }
                    1 => { let _ = w.decode_item0(); }
                    2 => { let _ = w.item0_view(); }
                    3 => { let _ = w.into_item1(); }
                    4 => { let _ = w.decode_item1(); }
                    5 => { let _ = w.item1_view(); }
                    6 => { let _ = w.into_foo_bar2(); }
                    7 => { let _ = w.decode_foo_bar2(); }
                    8 => { let _ = w.foo_bar2_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E45::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Item0", w.is_item0()), ("Item1", w.is_item1()), ("FooBar2", w.is_foo_bar2())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(9);
        if g.below(5) != 0 { k = match sh.variant { "Item0" => 0 + g.below(3), "Item1" => 3 + g.below(3), "FooBar2" => 6 + g.below(3), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Item0"; let r = w.into_item0(); if !ok { return if r.is_ok() { bad("into_item0 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <Vec<String> as W>::WALKABLE && true; if nested::<Vec<String>, R>("into_item0", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "Item0"; let r = w.decode_item0(); if !ok { return if r.is_ok() { bad("decode_item0 of another variant succeeded") } else { Err(Stop::Expected) } } let E45::Item0(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_item0", f0, r) }
            2 => { let ok = sh.variant == "Item0"; let r = w.item0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E45::Item0(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("item0_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, Vec<String>>(f0)]) }
            3 => { let ok = sh.variant == "Item1"; let r = w.into_item1(); if !ok { return if r.is_ok() { bad("into_item1 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <bool as W>::WALKABLE && true; if nested::<bool, R>("into_item1", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            4 => { let ok = sh.variant == "Item1"; let r = w.decode_item1(); if !ok { return if r.is_ok() { bad("decode_item1 of another variant succeeded") } else { Err(Stop::Expected) } } let E45::Item1(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_item1", f0, r) }
            5 => { let ok = sh.variant == "Item1"; let r = w.item1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E45::Item1(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("item1_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, bool>(f0)]) }
            6 => { let ok = sh.variant == "FooBar2"; let r = w.into_foo_bar2(); if !ok { return if r.is_ok() { bad("into_foo_bar2 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <bool as W>::WALKABLE && true; if nested::<bool, R>("into_foo_bar2", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            7 => { let ok = sh.variant == "FooBar2"; let r = w.decode_foo_bar2(); if !ok { return if r.is_ok() { bad("decode_foo_bar2 of another variant succeeded") } else { Err(Stop::Expected) } } let E45::FooBar2(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_foo_bar2", f0, r) }
            8 => { let ok = sh.variant == "FooBar2"; let r = w.foo_bar2_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar2_view of another variant succeeded") } else { Err(Stop::Expected) } } let E45::FooBar2(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("foo_bar2_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, bool>(f0)]) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(1, optimised), revision(2, optimised), revision(3, optimised))]
#[derive(Debug, Clone)]
pub enum E46 {
    #[revision(size = "fixed(7)", fields_name = "E46X0Named", start = 1)] Item0 { f0: [u8; 5], f1: i8, f2: bool },
    #[revision(end = 3, convert_fn = "cv_1", size = "fixed(8)")] V1(f32, f32),
    #[revision(size = "fixed(1)")] FooBar2(u8),
    #[revision(size = "fixed(0)", fields_name = "E46X3Named")] FooBar3,
    #[revision(size = "varlen")] Acc(u64),
    #[revision(size = "inline")] V4,
    #[revision(start = 2, end = 3, convert_fn = "cv_6", fields_name = "E46X5Named", size = "fixed(0)")] V5,
}
impl E46 {
    fn cv_1(x: E46V1Fields, rev: u16) -> Result<Self, Error> { let _ = &x; #[allow(unused_mut)] let mut h = mix(1, rev, &[]); h = mix(h, rev, &x.0.bytes()); h = mix(h, rev, &x.1.bytes()); Ok(E46::Acc(h)) }
    fn cv_6(x: E46X5Named, rev: u16) -> Result<Self, Error> { let _ = &x; #[allow(unused_mut)] let mut h = mix(6, rev, &[]); Ok(E46::Acc(h)) }
    fn vname(&self) -> &'static str { match self { E46::Item0 { .. } => "Item0", E46::FooBar2 { .. } => "FooBar2", E46::FooBar3 { .. } => "FooBar3", E46::Acc { .. } => "Acc", E46::V4 { .. } => "V4" } }
}
impl Spec for E46 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        match self {
            E46::Item0 { f0, f1, f2 } => { o.push(32); o.extend(enc1::<Plain, [u8; 5]>(f0)); o.extend(enc1::<Plain, i8>(f1)); o.extend(enc1::<Plain, bool>(f2)); }
            E46::FooBar2(f0) => { o.push(33); o.extend(enc1::<Plain, u8>(f0)); }
            E46::FooBar3 => { o.push(34);  }
            E46::Acc(f0) => { o.push(67); put_payload(o, &with_offsets(&[enc1::<Plain, u64>(f0)], false)); }
            E46::V4 => { o.push(4); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E46::Item0 { f0: a0, f1: a1, f2: a2 }, E46::Item0 { f0: b0, f1: b1, f2: b2 }) => a0.same(b0) && a1.same(b1) && a2.same(b2), (E46::FooBar2(a0), E46::FooBar2(b0)) => a0.same(b0), (E46::FooBar3, E46::FooBar3) => true, (E46::Acc(a0), E46::Acc(b0)) => a0.same(b0), (E46::V4, E46::V4) => true, _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(5) { 0 => E46::Item0 { f0: <[u8; 5] as Spec>::random(g), f1: <i8 as Spec>::random(g), f2: <bool as Spec>::random(g) }, 1 => E46::FooBar2(<u8 as Spec>::random(g)), 2 => E46::FooBar3, 3 => E46::Acc(<u64 as Spec>::random(g)), _ => E46::V4, }) }
}
impl Hist for E46 {
    const LATEST: u16 = 3;
    const REVISION: u16 = E46::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(6) {
                0 => { o.push(32); o.extend(gen1::<Plain, [u8; 5]>(g)); o.extend(gen1::<Plain, i8>(g)); o.extend(gen1::<Plain, bool>(g)); }
                1 => { o.push(33); o.extend(gen1::<Plain, f32>(g)); o.extend(gen1::<Plain, f32>(g)); }
                2 => { o.push(34); o.extend(gen1::<Plain, u8>(g)); }
                3 => { o.push(35);  }
                4 => { o.push(68); put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g)], false)); }
                _ => { o.push(5); }
            },
            2 => match g.below(7) {
                0 => { o.push(32); o.extend(gen1::<Plain, [u8; 5]>(g)); o.extend(gen1::<Plain, i8>(g)); o.extend(gen1::<Plain, bool>(g)); }
                1 => { o.push(33); o.extend(gen1::<Plain, f32>(g)); o.extend(gen1::<Plain, f32>(g)); }
                2 => { o.push(34); o.extend(gen1::<Plain, u8>(g)); }
                3 => { o.push(35);  }
                4 => { o.push(68); put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g)], false)); }
                5 => { o.push(5); }
                _ => { o.push(38);  }
            },
            3 => match g.below(5) {
                0 => { o.push(32); o.extend(gen1::<Plain, [u8; 5]>(g)); o.extend(gen1::<Plain, i8>(g)); o.extend(gen1::<Plain, bool>(g)); }
                1 => { o.push(33); o.extend(gen1::<Plain, u8>(g)); }
                2 => { o.push(34);  }
                3 => { o.push(67); put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g)], false)); }
                _ => { o.push(4); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 3);
        sh.conv = rev != 3;
        let v = match rev {
            1 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 1) => {
                    let (mut sub, end) = window(c, 7)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, i8>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, bool>(c, &mut sh, Some(2))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E46::Item0 { f0, f1, f2 }
                }
                (1, 1) => {
                    let (mut sub, end) = window(c, 8)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, f32>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, f32>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    #[allow(unused_mut)] let mut h = mix(1, 1, &[]);
                    h = mix(h, 1, &f0.bytes());
                    h = mix(h, 1, &f1.bytes());
                    E46::Acc(h)
                }
                (2, 1) => {
                    let (mut sub, end) = window(c, 1)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E46::FooBar2(f0)
                }
                (3, 1) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E46::FooBar3
                }
                (4, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E46::Acc(f0)
                }
                (5, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E46::V4
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 1) => {
                    let (mut sub, end) = window(c, 7)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, i8>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, bool>(c, &mut sh, Some(2))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E46::Item0 { f0, f1, f2 }
                }
                (1, 1) => {
                    let (mut sub, end) = window(c, 8)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, f32>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, f32>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    #[allow(unused_mut)] let mut h = mix(1, 2, &[]);
                    h = mix(h, 2, &f0.bytes());
                    h = mix(h, 2, &f1.bytes());
                    E46::Acc(h)
                }
                (2, 1) => {
                    let (mut sub, end) = window(c, 1)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E46::FooBar2(f0)
                }
                (3, 1) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E46::FooBar3
                }
                (4, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E46::Acc(f0)
                }
                (5, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E46::V4
                }
                (6, 1) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    #[allow(unused_mut)] let mut h = mix(6, 2, &[]);
                    E46::Acc(h)
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 1) => {
                    let (mut sub, end) = window(c, 7)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, i8>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, bool>(c, &mut sh, Some(2))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E46::Item0 { f0, f1, f2 }
                }
                (1, 1) => {
                    let (mut sub, end) = window(c, 1)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E46::FooBar2(f0)
                }
                (2, 1) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E46::FooBar3
                }
                (3, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E46::Acc(f0)
                }
                (4, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E46::V4
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("Item0", 0), ("V1", 1), ("FooBar2", 2), ("FooBar3", 3), ("Acc", 4), ("V4", 5)];
        if E46::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E46::walk_revisioned_variant_table(1))) }
        for d in 0..8 { if E46::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("Item0", 0), ("V1", 1), ("FooBar2", 2), ("FooBar3", 3), ("Acc", 4), ("V4", 5), ("V5", 6)];
        if E46::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E46::walk_revisioned_variant_table(2))) }
        for d in 0..9 { if E46::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("Item0", 0), ("FooBar2", 1), ("FooBar3", 2), ("Acc", 3), ("V4", 4)];
        if E46::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", E46::walk_revisioned_variant_table(3))) }
        for d in 0..7 { if E46::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        if !E46::walk_revisioned_variant_table(4).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E46 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(11) {
                    0 => { let _ = w.item0_view(); }
                    1 => { let _ = w.into_foo_bar2(); }
                    2 => { let _ = w.decode_foo_bar2(); }
                    3 => { let _ = w.foo_bar2_view(); }
                    4 => { let _ = w.into_foo_bar3(); }
                    5 => { let _ = w.decode_foo_bar3(); }
                    6 => { let _ = w.into_acc(); }
                    7 => { let _ = w.decode_acc(); }
                    8 => { let _ = w.acc_view(); }
                    9 => { let _ = w.into_v4(); }
                    10 => { let _ = w.decode_v4(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E46::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Item0", w.is_item0()), ("FooBar2", w.is_foo_bar2()), ("FooBar3", w.is_foo_bar3()), ("Acc", w.is_acc()), ("V4", w.is_v4())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(11);
        if g.below(5) != 0 { k = match sh.variant { "Item0" => 0 + g.below(1), "FooBar2" => 1 + g.below(3), "FooBar3" => 4 + g.below(2), "Acc" => 6 + g.below(3), "V4" => 9 + g.below(2), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Item0"; let r = w.item0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E46::Item0 { f0, f1, f2 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, [u8; 5]>(f0), enc1::<Plain, i8>(f1), enc1::<Plain, bool>(f2)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("item0_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("item0_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            1 => { let ok = sh.variant == "FooBar2"; let r = w.into_foo_bar2(); if !ok { return if r.is_ok() { bad("into_foo_bar2 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u8 as W>::WALKABLE && true; if nested::<u8, R>("into_foo_bar2", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            2 => { let ok = sh.variant == "FooBar2"; let r = w.decode_foo_bar2(); if !ok { return if r.is_ok() { bad("decode_foo_bar2 of another variant succeeded") } else { Err(Stop::Expected) } } let E46::FooBar2(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_foo_bar2", f0, r) }
            3 => { let ok = sh.variant == "FooBar2"; let r = w.foo_bar2_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar2_view of another variant succeeded") } else { Err(Stop::Expected) } } let E46::FooBar2(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("foo_bar2_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u8>(f0)]) }
            4 => { let ok = sh.variant == "FooBar3"; let r = w.into_foo_bar3(); if !ok { return if r.is_ok() { bad("into_foo_bar3 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_foo_bar3", r)?; Ok(()) }
            5 => { let ok = sh.variant == "FooBar3"; let r = w.decode_foo_bar3(); if !ok { return if r.is_ok() { bad("decode_foo_bar3 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_foo_bar3", r)?; Ok(()) }
            6 => { let ok = sh.variant == "Acc"; let r = w.into_acc(); if !ok { return if r.is_ok() { bad("into_acc of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u64 as W>::WALKABLE && true; if nested::<u64, R>("into_acc", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            7 => { let ok = sh.variant == "Acc"; let r = w.decode_acc(); if !ok { return if r.is_ok() { bad("decode_acc of another variant succeeded") } else { Err(Stop::Expected) } } let E46::Acc(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_acc", f0, r) }
            8 => { let ok = sh.variant == "Acc"; let r = w.acc_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("acc_view of another variant succeeded") } else { Err(Stop::Expected) } } let E46::Acc(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("acc_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u64>(f0)]) }
            9 => { let ok = sh.variant == "V4"; let r = w.into_v4(); if !ok { return if r.is_ok() { bad("into_v4 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_v4", r)?; Ok(()) }
            10 => { let ok = sh.variant == "V4"; let r = w.decode_v4(); if !ok { return if r.is_ok() { bad("decode_v4 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_v4", r)?; Ok(()) }
            _ => unreachable!(),
        }
    }
}

#[revisioned()]
#[revision(revision(1, optimised))]
#[derive(Debug, Clone)]
pub enum E47 {
    #[revision(start = 1, fields_name = "E47X0Named", size = "fixed(4)")] FooBar0(f32),
}
impl E47 {
    fn vname(&self) -> &'static str { match self { E47::FooBar0 { .. } => "FooBar0" } }
}
impl Spec for E47 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        match self {
            E47::FooBar0(f0) => { o.push(32); o.extend(enc1::<Plain, f32>(f0)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E47::FooBar0(a0), E47::FooBar0(b0)) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(1) { _ => E47::FooBar0(<f32 as Spec>::random(g)), }) }
}
impl Hist for E47 {
    const LATEST: u16 = 1;
    const REVISION: u16 = E47::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(1) {
                _ => { o.push(32); o.extend(gen1::<Plain, f32>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 1);
        let v = match rev {
            1 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 1) => {
                    let (mut sub, end) = window(c, 4)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, f32>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E47::FooBar0(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("FooBar0", 0)];
        if E47::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E47::walk_revisioned_variant_table(1))) }
        for d in 0..3 { if E47::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        if !E47::walk_revisioned_variant_table(2).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E47 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(3) {
                    0 => { let _ = w.into_foo_bar0(); }
                    1 => { let _ = w.decode_foo_bar0(); }
                    2 => { let _ = w.foo_bar0_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E47::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("FooBar0", w.is_foo_bar0())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(3);
        if g.below(5) != 0 { k = match sh.variant { "FooBar0" => 0 + g.below(3), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "FooBar0"; let r = w.into_foo_bar0(); if !ok { return if r.is_ok() { bad("into_foo_bar0 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <f32 as W>::WALKABLE && true; if nested::<f32, R>("into_foo_bar0", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "FooBar0"; let r = w.decode_foo_bar0(); if !ok { return if r.is_ok() { bad("decode_foo_bar0 of another variant succeeded") } else { Err(Stop::Expected) } } let E47::FooBar0(f0) = &v; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_foo_bar0", f0, r) }
            2 => { let ok = sh.variant == "FooBar0"; let r = w.foo_bar0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E47::FooBar0(f0) = &v; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("foo_bar0_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, f32>(f0)]) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(1, optimised))]
#[derive(Debug, Clone)]
pub enum E48 {
    #[revision(size = "varlen")] FooBar0 { f0: String },
    #[revision(fields_name = "E48X1Named", size = "varlen")] V1 { f0: E41 },
    #[revision(size = "fixed(1)")] V2(bool),
}
impl E48 {
    fn vname(&self) -> &'static str { match self { E48::FooBar0 { .. } => "FooBar0", E48::V1 { .. } => "V1", E48::V2 { .. } => "V2" } }
}
impl Spec for E48 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        match self {
            E48::FooBar0 { f0 } => { o.push(64); put_payload(o, &with_offsets(&[enc1::<Plain, String>(f0)], false)); }
            E48::V1 { f0 } => { o.push(65); put_payload(o, &with_offsets(&[enc1::<Plain, E41>(f0)], false)); }
            E48::V2(f0) => { o.push(34); o.extend(enc1::<Plain, bool>(f0)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E48::FooBar0 { f0: a0 }, E48::FooBar0 { f0: b0 }) => a0.same(b0), (E48::V1 { f0: a0 }, E48::V1 { f0: b0 }) => a0.same(b0), (E48::V2(a0), E48::V2(b0)) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(3) { 0 => E48::FooBar0 { f0: <String as Spec>::random(g) }, 1 => E48::V1 { f0: <E41 as Spec>::random(g) }, _ => E48::V2(<bool as Spec>::random(g)), }) }
}
impl Hist for E48 {
    const LATEST: u16 = 1;
    const REVISION: u16 = E48::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(3) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, String>(g)], false)); }
                1 => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, E41>(g)], false)); }
                _ => { o.push(34); o.extend(gen1::<Plain, bool>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 1);
        let v = match rev {
            1 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E48::FooBar0 { f0 }
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, E41>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E48::V1 { f0 }
                }
                (2, 1) => {
                    let (mut sub, end) = window(c, 1)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, bool>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E48::V2(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("FooBar0", 0), ("V1", 1), ("V2", 2)];
        if E48::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E48::walk_revisioned_variant_table(1))) }
        for d in 0..5 { if E48::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        if !E48::walk_revisioned_variant_table(2).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E48 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(5) {
                    0 => { let _ = w.foo_bar0_view(); }
                    1 => { let _ = w.v1_view(); }
                    2 => { let _ = w.into_v2(); }
                    3 => { let _ = w.decode_v2(); }
                    4 => { let _ = w.v2_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E48::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("FooBar0", w.is_foo_bar0()), ("V1", w.is_v1()), ("V2", w.is_v2())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(5);
        if g.below(5) != 0 { k = match sh.variant { "FooBar0" => 0 + g.below(1), "V1" => 1 + g.below(1), "V2" => 2 + g.below(3), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "FooBar0"; let r = w.foo_bar0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E48::FooBar0 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, String>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar0_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar0_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            1 => { let ok = sh.variant == "V1"; let r = w.v1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E48::V1 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, E41>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v1_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v1_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            2 => { let ok = sh.variant == "V2"; let r = w.into_v2(); if !ok { return if r.is_ok() { bad("into_v2 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <bool as W>::WALKABLE && true; if nested::<bool, R>("into_v2", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            3 => { let ok = sh.variant == "V2"; let r = w.decode_v2(); if !ok { return if r.is_ok() { bad("decode_v2 of another variant succeeded") } else { Err(Stop::Expected) } } let E48::V2(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v2", f0, r) }
            4 => { let ok = sh.variant == "V2"; let r = w.v2_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v2_view of another variant succeeded") } else { Err(Stop::Expected) } } let E48::V2(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v2_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, bool>(f0)]) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(3), revision(2, optimised), revision(1))]
#[derive(Debug, Clone)]
pub struct S49(#[revision(indexed_set)] pub BTreeSet<i64>, #[revision(end = 3, convert_fn = "c_1", indexed_seq)] pub Vec<Option<u32>>, pub u64, pub Option<E48>, #[revision(start = 2, default_fn = "d_4", fixed)] pub i64, #[revision(indexed_seq)] pub Vec<u32>, #[revision(fixed)] pub u128);
impl S49 {
    fn c_1(&mut self, rev: u16, v: Vec<Option<u32>>) -> Result<(), Error> { self.1 = mix(self.1, rev, &v.bytes()); Ok(()) }
    fn d_4(rev: u16) -> Result<i64, Error> { Ok(dflt::<i64>(rev, 4)) }
}
impl Spec for S49 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        o.extend(enc1::<Plain, BTreeSet<i64>>(&self.0));
        o.extend(enc1::<Plain, u64>(&self.1));
        o.extend(enc1::<Plain, Option<E48>>(&self.2));
        o.extend(enc1::<Fixed, i64>(&self.3));
        o.extend(enc1::<Plain, Vec<u32>>(&self.4));
        o.extend(enc1::<Fixed, u128>(&self.5));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3) && self.4.same(&o.4) && self.5.same(&o.5) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S49(<BTreeSet<i64> as Spec>::random(g), <u64 as Spec>::random(g), <Option<E48> as Spec>::random(g), <i64 as Spec>::random(g), <Vec<u32> as Spec>::random(g), <u128 as Spec>::random(g)) }) }
}
impl Hist for S49 {
    const LATEST: u16 = 3;
    const REVISION: u16 = S49::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, BTreeSet<i64>>(g)); o.extend(gen1::<Plain, Vec<Option<u32>>>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, Option<E48>>(g)); o.extend(gen1::<Plain, Vec<u32>>(g)); o.extend(gen1::<Fixed, u128>(g)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Index, BTreeSet<i64>>(g), gen1::<Index, Vec<Option<u32>>>(g), gen1::<Plain, u64>(g), gen1::<Plain, Option<E48>>(g), gen1::<Plain, i64>(g), gen1::<Index, Vec<u32>>(g), gen1::<Plain, u128>(g)], false)); }
            3 => { o.extend(gen1::<Plain, BTreeSet<i64>>(g)); o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, Option<E48>>(g)); o.extend(gen1::<Fixed, i64>(g)); o.extend(gen1::<Plain, Vec<u32>>(g)); o.extend(gen1::<Fixed, u128>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 6);
        sh.conv = rev != 3;
        match rev {
            1 => {
                let f0 = rd::<Plain, BTreeSet<i64>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, Vec<Option<u32>>>(c, &mut sh, None)?;
                let f2 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, Option<E48>>(c, &mut sh, Some(2))?;
                let f4 = dflt::<i64>(1, 4);
                let f5 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(4))?;
                let f6 = rd::<Fixed, u128>(c, &mut sh, Some(5))?;
                #[allow(unused_mut)]
                let mut v = S49(f0, f2, f3, f4, f5, f6);
                v.1 = mix(v.1, 1, &f1.bytes());
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Index, BTreeSet<i64>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Index, Vec<Option<u32>>>(c, &mut sh, None)?;
                let f2 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, Option<E48>>(c, &mut sh, Some(2))?;
                let f4 = rd::<Plain, i64>(c, &mut sh, Some(3))?;
                let f5 = rd::<Index, Vec<u32>>(c, &mut sh, Some(4))?;
                let f6 = rd::<Plain, u128>(c, &mut sh, Some(5))?;
                #[allow(unused_mut)]
                let mut v = S49(f0, f2, f3, f4, f5, f6);
                v.1 = mix(v.1, 2, &f1.bytes());
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, BTreeSet<i64>>(c, &mut sh, Some(0))?;
                let f2 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, Option<E48>>(c, &mut sh, Some(2))?;
                let f4 = rd::<Fixed, i64>(c, &mut sh, Some(3))?;
                let f5 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(4))?;
                let f6 = rd::<Fixed, u128>(c, &mut sh, Some(5))?;
                #[allow(unused_mut)]
                let mut v = S49(f0, f2, f3, f4, f5, f6);
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S49::walk_revisioned_field_names(1) != ["0", "1", "2", "3", "5", "6"] as [&str; 6] { return Err("field names at revision 1".into()) }
        if S49::walk_revisioned_field_names(2) != ["0", "1", "2", "3", "4", "5", "6"] as [&str; 7] { return Err("field names at revision 2".into()) }
        if S49::walk_revisioned_field_names(3) != ["0", "2", "3", "4", "5", "6"] as [&str; 6] { return Err("field names at revision 3".into()) }
        if !S49::walk_revisioned_field_names(0).is_empty() || !S49::walk_revisioned_field_names(4).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S49 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok() && w.decode_field_2().is_ok() && w.decode_field_3().is_ok() && w.decode_field_4().is_ok() && w.decode_field_5().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(18) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    6 => { let _ = w.decode_field_2(); } 7 => { let _ = w.skip_field_2(); } 8 => { let _ = w.walk_field_2(); }
                    9 => { let _ = w.decode_field_3(); } 10 => { let _ = w.skip_field_3(); } 11 => { let _ = w.walk_field_3(); }
                    12 => { let _ = w.decode_field_4(); } 13 => { let _ = w.skip_field_4(); } 14 => { let _ = w.walk_field_4(); }
                    15 => { let _ = w.decode_field_5(); } 16 => { let _ = w.skip_field_5(); } 17 => { let _ = w.walk_field_5(); }
                    _ => {} } }
                match g.below(13) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    4 => { let _ = w.into_walk_field_2(); } 5 => { let _ = w.into_field_2_bytes(); }
                    6 => { let _ = w.into_walk_field_3(); } 7 => { let _ = w.into_field_3_bytes(); }
                    8 => { let _ = w.into_walk_field_4(); } 9 => { let _ = w.into_field_4_bytes(); }
                    10 => { let _ = w.into_walk_field_5(); } 11 => { let _ = w.into_field_5_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 6, sh.any_order) {
            match i {
                0 => sfield!(index w c g v sh R; 0, BTreeSet<i64>, Plain, true, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(plain w c g v sh R; 1, u64, Plain, false, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                2 => sfield!(plain w c g v sh R; 2, Option<E48>, Plain, false, 2, decode_field_2, skip_field_2, walk_field_2, into_walk_field_2, into_field_2_bytes),
                3 => sfield!(plain w c g v sh R; 3, i64, Fixed, true, 3, decode_field_3, skip_field_3, walk_field_3, into_walk_field_3, into_field_3_bytes),
                4 => sfield!(index w c g v sh R; 4, Vec<u32>, Plain, true, 4, decode_field_4, skip_field_4, walk_field_4, into_walk_field_4, into_field_4_bytes),
                5 => sfield!(plain w c g v sh R; 5, u128, Fixed, true, 5, decode_field_5, skip_field_5, walk_field_5, into_walk_field_5, into_field_5_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(1, optimised), revision(2, optimised), revision(3))]
#[derive(Debug, Clone)]
pub struct S50(#[revision(start = 2, end = 3, convert_fn = "c_0", default_fn = "d_0", indexed_seq)] pub Vec<String>, #[revision(end = 3)] #[revision(convert_fn = "c_1")] pub S49, #[revision(specialised)] pub Vec<i8>, #[revision(start = 2)] #[revision(default_fn = "d_3")] #[revision(indexed_set)] pub BTreeSet<i64>, #[revision(end = 2, convert_fn = "c_4")] pub N9, pub u64);
impl S50 {
    fn d_0(rev: u16) -> Result<Vec<String>, Error> { Ok(dflt::<Vec<String>>(rev, 0)) }
    fn c_0(&mut self, rev: u16, v: Vec<String>) -> Result<(), Error> { self.2 = mix(self.2, rev, &v.bytes()); Ok(()) }
    fn c_1(&mut self, rev: u16, v: S49) -> Result<(), Error> { self.2 = mix(self.2, rev, &v.bytes()); Ok(()) }
    fn d_3(rev: u16) -> Result<BTreeSet<i64>, Error> { Ok(dflt::<BTreeSet<i64>>(rev, 3)) }
    fn c_4(&mut self, rev: u16, v: N9) -> Result<(), Error> { self.2 = mix(self.2, rev, &v.bytes()); Ok(()) }
}
impl Spec for S50 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        o.extend(enc1::<Bulk, Vec<i8>>(&self.0));
        o.extend(enc1::<Plain, BTreeSet<i64>>(&self.1));
        o.extend(enc1::<Plain, u64>(&self.2));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S50(<Vec<i8> as Spec>::random(g), <BTreeSet<i64> as Spec>::random(g), <u64 as Spec>::random(g)) }) }
}
impl Hist for S50 {
    const LATEST: u16 = 3;
    const REVISION: u16 = S50::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[gen1::<Plain, S49>(g), gen1::<Plain, Vec<i8>>(g), gen1::<Plain, N9>(g), gen1::<Plain, u64>(g)], false)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Index, Vec<String>>(g), gen1::<Plain, S49>(g), gen1::<Plain, Vec<i8>>(g), gen1::<Index, BTreeSet<i64>>(g), gen1::<Plain, u64>(g)], false)); }
            3 => { o.extend(gen1::<Bulk, Vec<i8>>(g)); o.extend(gen1::<Plain, BTreeSet<i64>>(g)); o.extend(gen1::<Plain, u64>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 3);
        sh.conv = rev != 3;
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f1 = rd::<Plain, S49>(c, &mut sh, None)?;
                let f2 = rd::<Plain, Vec<i8>>(c, &mut sh, Some(0))?;
                let f3 = dflt::<BTreeSet<i64>>(1, 3);
                let f4 = rd::<Plain, N9>(c, &mut sh, None)?;
                let f5 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S50(f2, f3, f5);
                v.2 = mix(v.2, 1, &f1.bytes());
                v.2 = mix(v.2, 1, &f4.bytes());
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Index, Vec<String>>(c, &mut sh, None)?;
                let f1 = rd::<Plain, S49>(c, &mut sh, None)?;
                let f2 = rd::<Plain, Vec<i8>>(c, &mut sh, Some(0))?;
                let f3 = rd::<Index, BTreeSet<i64>>(c, &mut sh, Some(1))?;
                let f5 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S50(f2, f3, f5);
                v.2 = mix(v.2, 2, &f0.bytes());
                v.2 = mix(v.2, 2, &f1.bytes());
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            3 => {
                let f2 = rd::<Bulk, Vec<i8>>(c, &mut sh, Some(0))?;
                let f3 = rd::<Plain, BTreeSet<i64>>(c, &mut sh, Some(1))?;
                let f5 = rd::<Plain, u64>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S50(f2, f3, f5);
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S50::walk_revisioned_field_names(1) != ["1", "2", "4", "5"] as [&str; 4] { return Err("field names at revision 1".into()) }
        if S50::walk_revisioned_field_names(2) != ["0", "1", "2", "3", "5"] as [&str; 5] { return Err("field names at revision 2".into()) }
        if S50::walk_revisioned_field_names(3) != ["2", "3", "5"] as [&str; 3] { return Err("field names at revision 3".into()) }
        if !S50::walk_revisioned_field_names(0).is_empty() || !S50::walk_revisioned_field_names(4).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S50 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok() && w.decode_field_2().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(9) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    6 => { let _ = w.decode_field_2(); } 7 => { let _ = w.skip_field_2(); } 8 => { let _ = w.walk_field_2(); }
                    _ => {} } }
                match g.below(7) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    4 => { let _ = w.into_walk_field_2(); } 5 => { let _ = w.into_field_2_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 3, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, Vec<i8>, Bulk, true, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(index w c g v sh R; 1, BTreeSet<i64>, Plain, true, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                2 => sfield!(plain w c g v sh R; 2, u64, Plain, false, 2, decode_field_2, skip_field_2, walk_field_2, into_walk_field_2, into_field_2_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision(1), revision(2, optimised, indexed_struct), revision(3), revision(4))]
#[derive(Debug, Clone)]
pub struct S51 { #[revision(start = 2, indexed_seq)] pub f0: Vec<String>, #[revision(start = 2, end = 4, convert_fn = "c_1", indexed_map)] pub f1: BTreeMap<String, u64>, pub acc: u64 }
impl S51 {
    fn c_1(&mut self, rev: u16, v: BTreeMap<String, u64>) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
}
impl Spec for S51 {
    fn enc(&self, o: &mut Vec<u8>) {
        4u16.enc(o);
        o.extend(enc1::<Plain, Vec<String>>(&self.f0));
        o.extend(enc1::<Plain, u64>(&self.acc));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.acc.same(&o.acc) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S51 { f0: <Vec<String> as Spec>::random(g), acc: <u64 as Spec>::random(g) } }) }
}
impl Hist for S51 {
    const LATEST: u16 = 4;
    const REVISION: u16 = S51::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, u64>(g)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Index, Vec<String>>(g), gen1::<Index, BTreeMap<String, u64>>(g), gen1::<Plain, u64>(g)], true)); }
            3 => { o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Plain, BTreeMap<String, u64>>(g)); o.extend(gen1::<Plain, u64>(g)); }
            4 => { o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Plain, u64>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 4, 2);
        sh.conv = rev != 4;
        match rev {
            1 => {
                let f0 = <Vec<String> as Default>::default();
                let f2 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S51 { f0: f0, acc: f2 };
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(12)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Index, Vec<String>>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Index, BTreeMap<String, u64>>(c, &mut sh, None)?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S51 { f0: f0, acc: f2 };
                v.acc = mix(v.acc, 2, &f1.bytes());
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, BTreeMap<String, u64>>(c, &mut sh, None)?;
                let f2 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S51 { f0: f0, acc: f2 };
                v.acc = mix(v.acc, 3, &f1.bytes());
                Ok((v, sh))
            }
            4 => {
                let f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                let f2 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S51 { f0: f0, acc: f2 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S51::walk_revisioned_field_names(1) != ["acc"] as [&str; 1] { return Err("field names at revision 1".into()) }
        if S51::walk_revisioned_field_names(2) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 2".into()) }
        if S51::walk_revisioned_field_names(3) != ["f0", "f1", "acc"] as [&str; 3] { return Err("field names at revision 3".into()) }
        if S51::walk_revisioned_field_names(4) != ["f0", "acc"] as [&str; 2] { return Err("field names at revision 4".into()) }
        if !S51::walk_revisioned_field_names(0).is_empty() || !S51::walk_revisioned_field_names(5).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S51 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_acc().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, false, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(6) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_acc(); } 4 => { let _ = w.skip_acc(); } 5 => { let _ = w.walk_acc(); }
                    _ => {} } }
                match g.below(5) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_acc(); } 3 => { let _ = w.into_acc_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 2, sh.any_order) {
            match i {
                0 => sfield!(index w c g v sh R; 0, Vec<String>, Plain, true, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, u64, Plain, false, acc, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(1), revision(2), revision(3), revision(4, optimised, indexed_struct))]
#[derive(Debug, Clone)]
pub struct S52 { #[revision(indexed_map)] pub f0: BTreeMap<String, u64>, #[revision(start = 2)] pub f1: bool, #[revision(indexed_seq, default_fn = "d_2", start = 2)] pub f2: Vec<Option<u32>>, #[revision(start = 1, specialised)] pub f3: Vec<i128> }
impl S52 {
    fn d_2(rev: u16) -> Result<Vec<Option<u32>>, Error> { Ok(dflt::<Vec<Option<u32>>>(rev, 2)) }
}
impl Spec for S52 {
    fn enc(&self, o: &mut Vec<u8>) {
        4u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Index, BTreeMap<String, u64>>(&self.f0), enc1::<Plain, bool>(&self.f1), enc1::<Index, Vec<Option<u32>>>(&self.f2), enc1::<Plain, Vec<i128>>(&self.f3)], true));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.f2.same(&o.f2) && self.f3.same(&o.f3) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S52 { f0: <BTreeMap<String, u64> as Spec>::random(g), f1: <bool as Spec>::random(g), f2: <Vec<Option<u32>> as Spec>::random(g), f3: <Vec<i128> as Spec>::random(g) } }) }
}
impl Hist for S52 {
    const LATEST: u16 = 4;
    const REVISION: u16 = S52::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, BTreeMap<String, u64>>(g)); o.extend(gen1::<Bulk, Vec<i128>>(g)); }
            2 => { o.extend(gen1::<Plain, BTreeMap<String, u64>>(g)); o.extend(gen1::<Plain, bool>(g)); o.extend(gen1::<Plain, Vec<Option<u32>>>(g)); o.extend(gen1::<Bulk, Vec<i128>>(g)); }
            3 => { o.extend(gen1::<Plain, BTreeMap<String, u64>>(g)); o.extend(gen1::<Plain, bool>(g)); o.extend(gen1::<Plain, Vec<Option<u32>>>(g)); o.extend(gen1::<Bulk, Vec<i128>>(g)); }
            4 => { put_payload(o, &with_offsets(&[gen1::<Index, BTreeMap<String, u64>>(g), gen1::<Plain, bool>(g), gen1::<Index, Vec<Option<u32>>>(g), gen1::<Plain, Vec<i128>>(g)], true)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 4, 4);
        match rev {
            1 => {
                let f0 = rd::<Plain, BTreeMap<String, u64>>(c, &mut sh, Some(0))?;
                let f1 = <bool as Default>::default();
                let f2 = dflt::<Vec<Option<u32>>>(1, 2);
                let f3 = rd::<Bulk, Vec<i128>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S52 { f0: f0, f1: f1, f2: f2, f3: f3 };
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, BTreeMap<String, u64>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, bool>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<Option<u32>>>(c, &mut sh, Some(2))?;
                let f3 = rd::<Bulk, Vec<i128>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S52 { f0: f0, f1: f1, f2: f2, f3: f3 };
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, BTreeMap<String, u64>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, bool>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<Option<u32>>>(c, &mut sh, Some(2))?;
                let f3 = rd::<Bulk, Vec<i128>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S52 { f0: f0, f1: f1, f2: f2, f3: f3 };
                Ok((v, sh))
            }
            4 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(16)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Index, BTreeMap<String, u64>>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Plain, bool>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Index, Vec<Option<u32>>>(c, &mut sh, Some(2))?;
                sh.odd |= idx::u32at(offs, 3) as usize != c.pos - base;
                let f3 = rd::<Plain, Vec<i128>>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S52 { f0: f0, f1: f1, f2: f2, f3: f3 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S52::walk_revisioned_field_names(1) != ["f0", "f3"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if S52::walk_revisioned_field_names(2) != ["f0", "f1", "f2", "f3"] as [&str; 4] { return Err("field names at revision 2".into()) }
        if S52::walk_revisioned_field_names(3) != ["f0", "f1", "f2", "f3"] as [&str; 4] { return Err("field names at revision 3".into()) }
        if S52::walk_revisioned_field_names(4) != ["f0", "f1", "f2", "f3"] as [&str; 4] { return Err("field names at revision 4".into()) }
        if !S52::walk_revisioned_field_names(0).is_empty() || !S52::walk_revisioned_field_names(5).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S52 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_f2().is_ok() && w.decode_f3().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true, false]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(12) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_f2(); } 7 => { let _ = w.skip_f2(); } 8 => { let _ = w.walk_f2(); }
                    9 => { let _ = w.decode_f3(); } 10 => { let _ = w.skip_f3(); } 11 => { let _ = w.walk_f3(); }
                    _ => {} } }
                match g.below(9) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_f2(); } 5 => { let _ = w.into_f2_bytes(); }
                    6 => { let _ = w.into_walk_f3(); } 7 => { let _ = w.into_f3_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 4, sh.any_order) {
            match i {
                0 => sfield!(index w c g v sh R; 0, BTreeMap<String, u64>, Index, true, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, bool, Plain, false, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(index w c g v sh R; 2, Vec<Option<u32>>, Index, true, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                3 => sfield!(plain w c g v sh R; 3, Vec<i128>, Plain, true, f3, decode_f3, skip_f3, walk_f3, into_walk_f3, into_f3_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision(1), revision(2, optimised, indexed_struct), revision(3))]
#[derive(Debug, Clone)]
pub struct S53(#[revision(indexed_seq)] pub Vec<String>, #[revision(specialised)] pub Vec<u64>);
impl S53 {
}
impl Spec for S53 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        o.extend(enc1::<Plain, Vec<String>>(&self.0));
        o.extend(enc1::<Bulk, Vec<u64>>(&self.1));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S53(<Vec<String> as Spec>::random(g), <Vec<u64> as Spec>::random(g)) }) }
}
impl Hist for S53 {
    const LATEST: u16 = 3;
    const REVISION: u16 = S53::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Bulk, Vec<u64>>(g)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Index, Vec<String>>(g), gen1::<Plain, Vec<u64>>(g)], true)); }
            3 => { o.extend(gen1::<Plain, Vec<String>>(g)); o.extend(gen1::<Bulk, Vec<u64>>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 2);
        match rev {
            1 => {
                let f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Bulk, Vec<u64>>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S53(f0, f1);
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(8)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Index, Vec<String>>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Plain, Vec<u64>>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S53(f0, f1);
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, Vec<String>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Bulk, Vec<u64>>(c, &mut sh, Some(1))?;
                #[allow(unused_mut)]
                let mut v = S53(f0, f1);
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S53::walk_revisioned_field_names(1) != ["0", "1"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if S53::walk_revisioned_field_names(2) != ["0", "1"] as [&str; 2] { return Err("field names at revision 2".into()) }
        if S53::walk_revisioned_field_names(3) != ["0", "1"] as [&str; 2] { return Err("field names at revision 3".into()) }
        if !S53::walk_revisioned_field_names(0).is_empty() || !S53::walk_revisioned_field_names(4).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S53 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, false, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(6) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    _ => {} } }
                match g.below(5) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 2, sh.any_order) {
            match i {
                0 => sfield!(index w c g v sh R; 0, Vec<String>, Plain, true, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(plain w c g v sh R; 1, Vec<u64>, Bulk, true, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision(1, optimised, indexed_struct), revision(2), revision(3))]
#[derive(Debug, Clone)]
pub struct S54 { #[revision(indexed_set)] pub f0: BTreeSet<String>, #[revision(start = 2)] #[revision(end = 3)] #[revision(convert_fn = "c_1")] #[revision(default_fn = "d_1")] #[revision(indexed_seq)] pub f1: Vec<u32>, #[revision(start = 2)] pub f2: String, #[revision(end = 3, convert_fn = "c_3", indexed_set)] pub f3: BTreeSet<i64>, #[revision(indexed_map, start = 3)] pub f4: BTreeMap<u8, String>, pub acc: u64 }
impl S54 {
    fn d_1(rev: u16) -> Result<Vec<u32>, Error> { Ok(dflt::<Vec<u32>>(rev, 1)) }
    fn c_1(&mut self, rev: u16, v: Vec<u32>) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
    fn c_3(&mut self, rev: u16, v: BTreeSet<i64>) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
}
impl Spec for S54 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        o.extend(enc1::<Plain, BTreeSet<String>>(&self.f0));
        o.extend(enc1::<Plain, String>(&self.f2));
        o.extend(enc1::<Plain, BTreeMap<u8, String>>(&self.f4));
        o.extend(enc1::<Plain, u64>(&self.acc));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f2.same(&o.f2) && self.f4.same(&o.f4) && self.acc.same(&o.acc) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S54 { f0: <BTreeSet<String> as Spec>::random(g), f2: <String as Spec>::random(g), f4: <BTreeMap<u8, String> as Spec>::random(g), acc: <u64 as Spec>::random(g) } }) }
}
impl Hist for S54 {
    const LATEST: u16 = 3;
    const REVISION: u16 = S54::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[gen1::<Index, BTreeSet<String>>(g), gen1::<Index, BTreeSet<i64>>(g), gen1::<Plain, u64>(g)], true)); }
            2 => { o.extend(gen1::<Plain, BTreeSet<String>>(g)); o.extend(gen1::<Plain, Vec<u32>>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, BTreeSet<i64>>(g)); o.extend(gen1::<Plain, u64>(g)); }
            3 => { o.extend(gen1::<Plain, BTreeSet<String>>(g)); o.extend(gen1::<Plain, String>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); o.extend(gen1::<Plain, u64>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 4);
        sh.conv = rev != 3;
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(12)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Index, BTreeSet<String>>(c, &mut sh, Some(0))?;
                let f2 = <String as Default>::default();
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f3 = rd::<Index, BTreeSet<i64>>(c, &mut sh, None)?;
                let f4 = <BTreeMap<u8, String> as Default>::default();
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f5 = rd::<Plain, u64>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S54 { f0: f0, f2: f2, f4: f4, acc: f5 };
                v.acc = mix(v.acc, 1, &f3.bytes());
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, BTreeSet<String>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, Vec<u32>>(c, &mut sh, None)?;
                let f2 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f3 = rd::<Plain, BTreeSet<i64>>(c, &mut sh, None)?;
                let f4 = <BTreeMap<u8, String> as Default>::default();
                let f5 = rd::<Plain, u64>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S54 { f0: f0, f2: f2, f4: f4, acc: f5 };
                v.acc = mix(v.acc, 2, &f1.bytes());
                v.acc = mix(v.acc, 2, &f3.bytes());
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, BTreeSet<String>>(c, &mut sh, Some(0))?;
                let f2 = rd::<Plain, String>(c, &mut sh, Some(1))?;
                let f4 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(2))?;
                let f5 = rd::<Plain, u64>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S54 { f0: f0, f2: f2, f4: f4, acc: f5 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S54::walk_revisioned_field_names(1) != ["f0", "f3", "acc"] as [&str; 3] { return Err("field names at revision 1".into()) }
        if S54::walk_revisioned_field_names(2) != ["f0", "f1", "f2", "f3", "acc"] as [&str; 5] { return Err("field names at revision 2".into()) }
        if S54::walk_revisioned_field_names(3) != ["f0", "f2", "f4", "acc"] as [&str; 4] { return Err("field names at revision 3".into()) }
        if !S54::walk_revisioned_field_names(0).is_empty() || !S54::walk_revisioned_field_names(4).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S54 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f2().is_ok() && w.decode_f4().is_ok() && w.decode_acc().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[false, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(12) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f2(); } 4 => { let _ = w.skip_f2(); } 5 => { let _ = w.walk_f2(); }
                    6 => { let _ = w.decode_f4(); } 7 => { let _ = w.skip_f4(); } 8 => { let _ = w.walk_f4(); }
                    9 => { let _ = w.decode_acc(); } 10 => { let _ = w.skip_acc(); } 11 => { let _ = w.walk_acc(); }
                    _ => {} } }
                match g.below(9) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f2(); } 3 => { let _ = w.into_f2_bytes(); }
                    4 => { let _ = w.into_walk_f4(); } 5 => { let _ = w.into_f4_bytes(); }
                    6 => { let _ = w.into_walk_acc(); } 7 => { let _ = w.into_acc_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 4, sh.any_order) {
            match i {
                0 => sfield!(index w c g v sh R; 0, BTreeSet<String>, Plain, true, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, String, Plain, false, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                2 => sfield!(index w c g v sh R; 2, BTreeMap<u8, String>, Plain, true, f4, decode_f4, skip_f4, walk_f4, into_walk_f4, into_f4_bytes),
                3 => sfield!(plain w c g v sh R; 3, u64, Plain, false, acc, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision(5, optimised))]
#[revision(revision(4, optimised, indexed_struct))]
#[revision(revision(3, optimised))]
#[revision(revision(2, optimised))]
#[revision(revision(1, optimised))]
#[derive(Debug, Clone)]
pub struct S55(pub BTreeMap<u8, String>, #[revision(fixed)] pub i32, #[revision(start = 2, default_fn = "d_2")] pub Vec<E45>);
impl S55 {
    fn d_2(rev: u16) -> Result<Vec<E45>, Error> { Ok(dflt::<Vec<E45>>(rev, 2)) }
}
impl Spec for S55 {
    fn enc(&self, o: &mut Vec<u8>) {
        5u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, BTreeMap<u8, String>>(&self.0), enc1::<Plain, i32>(&self.1), enc1::<Plain, Vec<E45>>(&self.2)], false));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S55(<BTreeMap<u8, String> as Spec>::random(g), <i32 as Spec>::random(g), <Vec<E45> as Spec>::random(g)) }) }
}
impl Hist for S55 {
    const LATEST: u16 = 5;
    const REVISION: u16 = S55::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[gen1::<Plain, BTreeMap<u8, String>>(g), gen1::<Plain, i32>(g)], false)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Plain, BTreeMap<u8, String>>(g), gen1::<Plain, i32>(g), gen1::<Plain, Vec<E45>>(g)], false)); }
            3 => { put_payload(o, &with_offsets(&[gen1::<Plain, BTreeMap<u8, String>>(g), gen1::<Plain, i32>(g), gen1::<Plain, Vec<E45>>(g)], false)); }
            4 => { put_payload(o, &with_offsets(&[gen1::<Plain, BTreeMap<u8, String>>(g), gen1::<Plain, i32>(g), gen1::<Plain, Vec<E45>>(g)], true)); }
            5 => { put_payload(o, &with_offsets(&[gen1::<Plain, BTreeMap<u8, String>>(g), gen1::<Plain, i32>(g), gen1::<Plain, Vec<E45>>(g)], false)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 5, 3);
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i32>(c, &mut sh, Some(1))?;
                let f2 = dflt::<Vec<E45>>(1, 2);
                #[allow(unused_mut)]
                let mut v = S55(f0, f1, f2);
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i32>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<E45>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S55(f0, f1, f2);
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            3 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i32>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<E45>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S55(f0, f1, f2);
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            4 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(12)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Plain, i32>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Plain, Vec<E45>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S55(f0, f1, f2);
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            5 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, i32>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<E45>>(c, &mut sh, Some(2))?;
                #[allow(unused_mut)]
                let mut v = S55(f0, f1, f2);
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S55::walk_revisioned_field_names(1) != ["0", "1"] as [&str; 2] { return Err("field names at revision 1".into()) }
        if S55::walk_revisioned_field_names(2) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 2".into()) }
        if S55::walk_revisioned_field_names(3) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 3".into()) }
        if S55::walk_revisioned_field_names(4) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 4".into()) }
        if S55::walk_revisioned_field_names(5) != ["0", "1", "2"] as [&str; 3] { return Err("field names at revision 5".into()) }
        if !S55::walk_revisioned_field_names(0).is_empty() || !S55::walk_revisioned_field_names(6).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S55 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok() && w.decode_field_2().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true, false, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(9) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    6 => { let _ = w.decode_field_2(); } 7 => { let _ = w.skip_field_2(); } 8 => { let _ = w.walk_field_2(); }
                    _ => {} } }
                match g.below(7) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    4 => { let _ = w.into_walk_field_2(); } 5 => { let _ = w.into_field_2_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 3, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, BTreeMap<u8, String>, Plain, false, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(plain w c g v sh R; 1, i32, Plain, true, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                2 => sfield!(plain w c g v sh R; 2, Vec<E45>, Plain, false, 2, decode_field_2, skip_field_2, walk_field_2, into_walk_field_2, into_field_2_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(4, optimised, indexed_struct), revision(3), revision(2), revision(1))]
#[derive(Debug, Clone)]
pub struct S56(#[revision(start = 1)] pub i64, #[revision(end = 2, convert_fn = "c_1", indexed_set)] pub BTreeSet<i64>, #[revision(end = 4)] #[revision(convert_fn = "c_2")] #[revision(indexed_set)] pub BTreeSet<i64>, #[revision(indexed_seq)] pub Vec<u32>, #[revision(indexed_seq)] #[revision(default_fn = "d_4")] #[revision(start = 4)] pub Vec<Option<u32>>, pub u64);
impl S56 {
    fn c_1(&mut self, rev: u16, v: BTreeSet<i64>) -> Result<(), Error> { self.3 = mix(self.3, rev, &v.bytes()); Ok(()) }
    fn c_2(&mut self, rev: u16, v: BTreeSet<i64>) -> Result<(), Error> { self.3 = mix(self.3, rev, &v.bytes()); Ok(()) }
    fn d_4(rev: u16) -> Result<Vec<Option<u32>>, Error> { Ok(dflt::<Vec<Option<u32>>>(rev, 4)) }
}
impl Spec for S56 {
    fn enc(&self, o: &mut Vec<u8>) {
        4u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, i64>(&self.0), enc1::<Index, Vec<u32>>(&self.1), enc1::<Index, Vec<Option<u32>>>(&self.2), enc1::<Plain, u64>(&self.3)], true));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S56(<i64 as Spec>::random(g), <Vec<u32> as Spec>::random(g), <Vec<Option<u32>> as Spec>::random(g), <u64 as Spec>::random(g)) }) }
}
impl Hist for S56 {
    const LATEST: u16 = 4;
    const REVISION: u16 = S56::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, i64>(g)); o.extend(gen1::<Plain, BTreeSet<i64>>(g)); o.extend(gen1::<Plain, BTreeSet<i64>>(g)); o.extend(gen1::<Plain, Vec<u32>>(g)); o.extend(gen1::<Plain, u64>(g)); }
            2 => { o.extend(gen1::<Plain, i64>(g)); o.extend(gen1::<Plain, BTreeSet<i64>>(g)); o.extend(gen1::<Plain, Vec<u32>>(g)); o.extend(gen1::<Plain, u64>(g)); }
            3 => { o.extend(gen1::<Plain, i64>(g)); o.extend(gen1::<Plain, BTreeSet<i64>>(g)); o.extend(gen1::<Plain, Vec<u32>>(g)); o.extend(gen1::<Plain, u64>(g)); }
            4 => { put_payload(o, &with_offsets(&[gen1::<Plain, i64>(g), gen1::<Index, Vec<u32>>(g), gen1::<Index, Vec<Option<u32>>>(g), gen1::<Plain, u64>(g)], true)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 4, 4);
        sh.conv = rev != 4;
        match rev {
            1 => {
                let f0 = rd::<Plain, i64>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, BTreeSet<i64>>(c, &mut sh, None)?;
                let f2 = rd::<Plain, BTreeSet<i64>>(c, &mut sh, None)?;
                let f3 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(1))?;
                let f4 = dflt::<Vec<Option<u32>>>(1, 4);
                let f5 = rd::<Plain, u64>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S56(f0, f3, f4, f5);
                v.3 = mix(v.3, 1, &f1.bytes());
                v.3 = mix(v.3, 1, &f2.bytes());
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, i64>(c, &mut sh, Some(0))?;
                let f2 = rd::<Plain, BTreeSet<i64>>(c, &mut sh, None)?;
                let f3 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(1))?;
                let f4 = dflt::<Vec<Option<u32>>>(2, 4);
                let f5 = rd::<Plain, u64>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S56(f0, f3, f4, f5);
                v.3 = mix(v.3, 2, &f2.bytes());
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, i64>(c, &mut sh, Some(0))?;
                let f2 = rd::<Plain, BTreeSet<i64>>(c, &mut sh, None)?;
                let f3 = rd::<Plain, Vec<u32>>(c, &mut sh, Some(1))?;
                let f4 = dflt::<Vec<Option<u32>>>(3, 4);
                let f5 = rd::<Plain, u64>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S56(f0, f3, f4, f5);
                v.3 = mix(v.3, 3, &f2.bytes());
                Ok((v, sh))
            }
            4 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(16)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, i64>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f3 = rd::<Index, Vec<u32>>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f4 = rd::<Index, Vec<Option<u32>>>(c, &mut sh, Some(2))?;
                sh.odd |= idx::u32at(offs, 3) as usize != c.pos - base;
                let f5 = rd::<Plain, u64>(c, &mut sh, Some(3))?;
                #[allow(unused_mut)]
                let mut v = S56(f0, f3, f4, f5);
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S56::walk_revisioned_field_names(1) != ["0", "1", "2", "3", "5"] as [&str; 5] { return Err("field names at revision 1".into()) }
        if S56::walk_revisioned_field_names(2) != ["0", "2", "3", "5"] as [&str; 4] { return Err("field names at revision 2".into()) }
        if S56::walk_revisioned_field_names(3) != ["0", "2", "3", "5"] as [&str; 4] { return Err("field names at revision 3".into()) }
        if S56::walk_revisioned_field_names(4) != ["0", "3", "4", "5"] as [&str; 4] { return Err("field names at revision 4".into()) }
        if !S56::walk_revisioned_field_names(0).is_empty() || !S56::walk_revisioned_field_names(5).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S56 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_field_0().is_ok() && w.decode_field_1().is_ok() && w.decode_field_2().is_ok() && w.decode_field_3().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true, false]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(12) {
                    0 => { let _ = w.decode_field_0(); } 1 => { let _ = w.skip_field_0(); } 2 => { let _ = w.walk_field_0(); }
                    3 => { let _ = w.decode_field_1(); } 4 => { let _ = w.skip_field_1(); } 5 => { let _ = w.walk_field_1(); }
                    6 => { let _ = w.decode_field_2(); } 7 => { let _ = w.skip_field_2(); } 8 => { let _ = w.walk_field_2(); }
                    9 => { let _ = w.decode_field_3(); } 10 => { let _ = w.skip_field_3(); } 11 => { let _ = w.walk_field_3(); }
                    _ => {} } }
                match g.below(9) {
                    0 => { let _ = w.into_walk_field_0(); } 1 => { let _ = w.into_field_0_bytes(); }
                    2 => { let _ = w.into_walk_field_1(); } 3 => { let _ = w.into_field_1_bytes(); }
                    4 => { let _ = w.into_walk_field_2(); } 5 => { let _ = w.into_field_2_bytes(); }
                    6 => { let _ = w.into_walk_field_3(); } 7 => { let _ = w.into_field_3_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 4, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, i64, Plain, false, 0, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
                1 => sfield!(index w c g v sh R; 1, Vec<u32>, Index, true, 1, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
                2 => sfield!(index w c g v sh R; 2, Vec<Option<u32>>, Index, true, 2, decode_field_2, skip_field_2, walk_field_2, into_walk_field_2, into_field_2_bytes),
                3 => sfield!(plain w c g v sh R; 3, u64, Plain, false, 3, decode_field_3, skip_field_3, walk_field_3, into_walk_field_3, into_field_3_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(2, optimised, indexed_struct), revision(1, optimised))]
#[derive(Debug, Clone)]
pub struct S57 { #[revision(start = 2, default_fn = "d_0")] pub f0: i64, #[revision(specialised)] pub f1: Vec<f64>, #[revision(specialised)] pub f2: Vec<bool>, #[revision(start = 2, default_fn = "d_3", specialised)] pub f3: Vec<i128>, pub f4: BTreeMap<u8, String>, #[revision(indexed_map)] pub f5: BTreeMap<String, u64> }
impl S57 {
    fn d_0(rev: u16) -> Result<i64, Error> { Ok(dflt::<i64>(rev, 0)) }
    fn d_3(rev: u16) -> Result<Vec<i128>, Error> { Ok(dflt::<Vec<i128>>(rev, 3)) }
}
impl Spec for S57 {
    fn enc(&self, o: &mut Vec<u8>) {
        2u16.enc(o);
        put_payload(o, &with_offsets(&[enc1::<Plain, i64>(&self.f0), enc1::<Plain, Vec<f64>>(&self.f1), enc1::<Plain, Vec<bool>>(&self.f2), enc1::<Plain, Vec<i128>>(&self.f3), enc1::<Plain, BTreeMap<u8, String>>(&self.f4), enc1::<Index, BTreeMap<String, u64>>(&self.f5)], true));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.f0.same(&o.f0) && self.f1.same(&o.f1) && self.f2.same(&o.f2) && self.f3.same(&o.f3) && self.f4.same(&o.f4) && self.f5.same(&o.f5) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S57 { f0: <i64 as Spec>::random(g), f1: <Vec<f64> as Spec>::random(g), f2: <Vec<bool> as Spec>::random(g), f3: <Vec<i128> as Spec>::random(g), f4: <BTreeMap<u8, String> as Spec>::random(g), f5: <BTreeMap<String, u64> as Spec>::random(g) } }) }
}
impl Hist for S57 {
    const LATEST: u16 = 2;
    const REVISION: u16 = S57::REVISION;
    const INDEXED: bool = true;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { put_payload(o, &with_offsets(&[gen1::<Plain, Vec<f64>>(g), gen1::<Plain, Vec<bool>>(g), gen1::<Plain, BTreeMap<u8, String>>(g), gen1::<Index, BTreeMap<String, u64>>(g)], false)); }
            2 => { put_payload(o, &with_offsets(&[gen1::<Plain, i64>(g), gen1::<Plain, Vec<f64>>(g), gen1::<Plain, Vec<bool>>(g), gen1::<Plain, Vec<i128>>(g), gen1::<Plain, BTreeMap<u8, String>>(g), gen1::<Index, BTreeMap<String, u64>>(g)], true)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 2, 6);
        match rev {
            1 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                let f0 = dflt::<i64>(1, 0);
                let f1 = rd::<Plain, Vec<f64>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, Vec<bool>>(c, &mut sh, Some(2))?;
                let f3 = dflt::<Vec<i128>>(1, 3);
                let f4 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(4))?;
                let f5 = rd::<Index, BTreeMap<String, u64>>(c, &mut sh, Some(5))?;
                #[allow(unused_mut)]
                let mut v = S57 { f0: f0, f1: f1, f2: f2, f3: f3, f4: f4, f5: f5 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            2 => {
                sh.opt = true;
                let (mut sub, end) = payload(c)?;
                let outer = c; let c = &mut sub; let base = c.pos; let _ = base;
                sh.any_order = !sh.conv;
                let offs = c.take(24)?; let _ = offs;
                sh.odd |= idx::u32at(offs, 0) as usize != c.pos - base;
                let f0 = rd::<Plain, i64>(c, &mut sh, Some(0))?;
                sh.odd |= idx::u32at(offs, 1) as usize != c.pos - base;
                let f1 = rd::<Plain, Vec<f64>>(c, &mut sh, Some(1))?;
                sh.odd |= idx::u32at(offs, 2) as usize != c.pos - base;
                let f2 = rd::<Plain, Vec<bool>>(c, &mut sh, Some(2))?;
                sh.odd |= idx::u32at(offs, 3) as usize != c.pos - base;
                let f3 = rd::<Plain, Vec<i128>>(c, &mut sh, Some(3))?;
                sh.odd |= idx::u32at(offs, 4) as usize != c.pos - base;
                let f4 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(4))?;
                sh.odd |= idx::u32at(offs, 5) as usize != c.pos - base;
                let f5 = rd::<Index, BTreeMap<String, u64>>(c, &mut sh, Some(5))?;
                #[allow(unused_mut)]
                let mut v = S57 { f0: f0, f1: f1, f2: f2, f3: f3, f4: f4, f5: f5 };
                sh.odd |= c.pos != end; outer.pos = end;
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S57::walk_revisioned_field_names(1) != ["f1", "f2", "f4", "f5"] as [&str; 4] { return Err("field names at revision 1".into()) }
        if S57::walk_revisioned_field_names(2) != ["f0", "f1", "f2", "f3", "f4", "f5"] as [&str; 6] { return Err("field names at revision 2".into()) }
        if !S57::walk_revisioned_field_names(0).is_empty() || !S57::walk_revisioned_field_names(3).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S57 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_f0().is_ok() && w.decode_f1().is_ok() && w.decode_f2().is_ok() && w.decode_f3().is_ok() && w.decode_f4().is_ok() && w.decode_f5().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, false]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(18) {
                    0 => { let _ = w.decode_f0(); } 1 => { let _ = w.skip_f0(); } 2 => { let _ = w.walk_f0(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_f2(); } 7 => { let _ = w.skip_f2(); } 8 => { let _ = w.walk_f2(); }
                    9 => { let _ = w.decode_f3(); } 10 => { let _ = w.skip_f3(); } 11 => { let _ = w.walk_f3(); }
                    12 => { let _ = w.decode_f4(); } 13 => { let _ = w.skip_f4(); } 14 => { let _ = w.walk_f4(); }
                    15 => { let _ = w.decode_f5(); } 16 => { let _ = w.skip_f5(); } 17 => { let _ = w.walk_f5(); }
                    _ => {} } }
                match g.below(13) {
                    0 => { let _ = w.into_walk_f0(); } 1 => { let _ = w.into_f0_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_f2(); } 5 => { let _ = w.into_f2_bytes(); }
                    6 => { let _ = w.into_walk_f3(); } 7 => { let _ = w.into_f3_bytes(); }
                    8 => { let _ = w.into_walk_f4(); } 9 => { let _ = w.into_f4_bytes(); }
                    10 => { let _ = w.into_walk_f5(); } 11 => { let _ = w.into_f5_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 6, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, i64, Plain, false, f0, decode_f0, skip_f0, walk_f0, into_walk_f0, into_f0_bytes),
                1 => sfield!(plain w c g v sh R; 1, Vec<f64>, Plain, true, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, Vec<bool>, Plain, true, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                3 => sfield!(plain w c g v sh R; 3, Vec<i128>, Plain, true, f3, decode_f3, skip_f3, walk_f3, into_walk_f3, into_f3_bytes),
                4 => sfield!(plain w c g v sh R; 4, BTreeMap<u8, String>, Plain, false, f4, decode_f4, skip_f4, walk_f4, into_walk_f4, into_f4_bytes),
                5 => sfield!(index w c g v sh R; 5, BTreeMap<String, u64>, Index, true, f5, decode_f5, skip_f5, walk_f5, into_walk_f5, into_f5_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned()]
#[revision(revision(1), revision(2), revision(3))]
#[derive(Debug, Clone)]
pub struct S58 { pub acc: u64, #[revision(indexed_map, start = 2)] pub f1: BTreeMap<u8, String>, #[revision(start = 2)] pub f2: BTreeSet<i64>, #[revision(start = 2, default_fn = "d_3", fixed)] pub f3: i32, #[revision(indexed_seq, convert_fn = "c_4", end = 3)] pub f4: Vec<Option<u32>>, #[revision(end = 2, convert_fn = "c_5")] pub f5: u32, #[revision(specialised)] pub f6: Vec<i64> }
impl S58 {
    fn d_3(rev: u16) -> Result<i32, Error> { Ok(dflt::<i32>(rev, 3)) }
    fn c_4(&mut self, rev: u16, v: Vec<Option<u32>>) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
    fn c_5(&mut self, rev: u16, v: u32) -> Result<(), Error> { self.acc = mix(self.acc, rev, &v.bytes()); Ok(()) }
}
impl Spec for S58 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        o.extend(enc1::<Plain, u64>(&self.acc));
        o.extend(enc1::<Plain, BTreeMap<u8, String>>(&self.f1));
        o.extend(enc1::<Plain, BTreeSet<i64>>(&self.f2));
        o.extend(enc1::<Fixed, i32>(&self.f3));
        o.extend(enc1::<Bulk, Vec<i64>>(&self.f6));
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    fn same(&self, o: &Self) -> bool { self.acc.same(&o.acc) && self.f1.same(&o.f1) && self.f2.same(&o.f2) && self.f3.same(&o.f3) && self.f6.same(&o.f6) }
    fn random(g: &mut Gen) -> Self { g.nest(|g| { let _ = &g; S58 { acc: <u64 as Spec>::random(g), f1: <BTreeMap<u8, String> as Spec>::random(g), f2: <BTreeSet<i64> as Spec>::random(g), f3: <i32 as Spec>::random(g), f6: <Vec<i64> as Spec>::random(g) } }) }
}
impl Hist for S58 {
    const LATEST: u16 = 3;
    const REVISION: u16 = S58::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        let _ = &g; rev.enc(o);
        match rev {
            1 => { o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, Vec<Option<u32>>>(g)); o.extend(gen1::<Plain, u32>(g)); o.extend(gen1::<Bulk, Vec<i64>>(g)); }
            2 => { o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); o.extend(gen1::<Plain, BTreeSet<i64>>(g)); o.extend(gen1::<Fixed, i32>(g)); o.extend(gen1::<Plain, Vec<Option<u32>>>(g)); o.extend(gen1::<Bulk, Vec<i64>>(g)); }
            3 => { o.extend(gen1::<Plain, u64>(g)); o.extend(gen1::<Plain, BTreeMap<u8, String>>(g)); o.extend(gen1::<Plain, BTreeSet<i64>>(g)); o.extend(gen1::<Fixed, i32>(g)); o.extend(gen1::<Bulk, Vec<i64>>(g)); }
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 5);
        sh.conv = rev != 3;
        match rev {
            1 => {
                let f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                let f1 = <BTreeMap<u8, String> as Default>::default();
                let f2 = <BTreeSet<i64> as Default>::default();
                let f3 = dflt::<i32>(1, 3);
                let f4 = rd::<Plain, Vec<Option<u32>>>(c, &mut sh, None)?;
                let f5 = rd::<Plain, u32>(c, &mut sh, None)?;
                let f6 = rd::<Bulk, Vec<i64>>(c, &mut sh, Some(4))?;
                #[allow(unused_mut)]
                let mut v = S58 { acc: f0, f1: f1, f2: f2, f3: f3, f6: f6 };
                v.acc = mix(v.acc, 1, &f4.bytes());
                v.acc = mix(v.acc, 1, &f5.bytes());
                Ok((v, sh))
            }
            2 => {
                let f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, BTreeSet<i64>>(c, &mut sh, Some(2))?;
                let f3 = rd::<Fixed, i32>(c, &mut sh, Some(3))?;
                let f4 = rd::<Plain, Vec<Option<u32>>>(c, &mut sh, None)?;
                let f6 = rd::<Bulk, Vec<i64>>(c, &mut sh, Some(4))?;
                #[allow(unused_mut)]
                let mut v = S58 { acc: f0, f1: f1, f2: f2, f3: f3, f6: f6 };
                v.acc = mix(v.acc, 2, &f4.bytes());
                Ok((v, sh))
            }
            3 => {
                let f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                let f1 = rd::<Plain, BTreeMap<u8, String>>(c, &mut sh, Some(1))?;
                let f2 = rd::<Plain, BTreeSet<i64>>(c, &mut sh, Some(2))?;
                let f3 = rd::<Fixed, i32>(c, &mut sh, Some(3))?;
                let f6 = rd::<Bulk, Vec<i64>>(c, &mut sh, Some(4))?;
                #[allow(unused_mut)]
                let mut v = S58 { acc: f0, f1: f1, f2: f2, f3: f3, f6: f6 };
                Ok((v, sh))
            }
            _ => Err(Bad::Other),
        }
    }
    fn tables() -> Result<(), String> {
        if S58::walk_revisioned_field_names(1) != ["acc", "f4", "f5", "f6"] as [&str; 4] { return Err("field names at revision 1".into()) }
        if S58::walk_revisioned_field_names(2) != ["acc", "f1", "f2", "f3", "f4", "f6"] as [&str; 6] { return Err("field names at revision 2".into()) }
        if S58::walk_revisioned_field_names(3) != ["acc", "f1", "f2", "f3", "f6"] as [&str; 5] { return Err("field names at revision 3".into()) }
        if !S58::walk_revisioned_field_names(0).is_empty() || !S58::walk_revisioned_field_names(4).is_empty() { return Err("field names of an unknown revision".into()) }
        Ok(())
    }
}
impl W for S58 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let start = c.pos;
        let (v, sh) = match Self::parse(c) {
            Ok((v, sh)) if !sh.odd => (v, sh),
            p => {
                lenient();
                if g.below(2) == 0 {
                    let all = w.decode_acc().is_ok() && w.decode_f1().is_ok() && w.decode_f2().is_ok() && w.decode_f3().is_ok() && w.decode_f6().is_ok();
                    if all && matches!(p, Err(Bad::Eof)) && c.b[start..].first() != None && wire_only(c, start, &[true, true, true]) { return bad("every field of a truncated value was decoded") }
                    return Err(Stop::Expected);
                }
                for _ in 0..g.below(6) { match g.below(15) {
                    0 => { let _ = w.decode_acc(); } 1 => { let _ = w.skip_acc(); } 2 => { let _ = w.walk_acc(); }
                    3 => { let _ = w.decode_f1(); } 4 => { let _ = w.skip_f1(); } 5 => { let _ = w.walk_f1(); }
                    6 => { let _ = w.decode_f2(); } 7 => { let _ = w.skip_f2(); } 8 => { let _ = w.walk_f2(); }
                    9 => { let _ = w.decode_f3(); } 10 => { let _ = w.skip_f3(); } 11 => { let _ = w.walk_f3(); }
                    12 => { let _ = w.decode_f6(); } 13 => { let _ = w.skip_f6(); } 14 => { let _ = w.walk_f6(); }
                    _ => {} } }
                match g.below(11) {
                    0 => { let _ = w.into_walk_acc(); } 1 => { let _ = w.into_acc_bytes(); }
                    2 => { let _ = w.into_walk_f1(); } 3 => { let _ = w.into_f1_bytes(); }
                    4 => { let _ = w.into_walk_f2(); } 5 => { let _ = w.into_f2_bytes(); }
                    6 => { let _ = w.into_walk_f3(); } 7 => { let _ = w.into_f3_bytes(); }
                    8 => { let _ = w.into_walk_f6(); } 9 => { let _ = w.into_f6_bytes(); }
                    _ => {} }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        for i in order(g, 5, sh.any_order) {
            match i {
                0 => sfield!(plain w c g v sh R; 0, u64, Plain, false, acc, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
                1 => sfield!(index w c g v sh R; 1, BTreeMap<u8, String>, Plain, true, f1, decode_f1, skip_f1, walk_f1, into_walk_f1, into_f1_bytes),
                2 => sfield!(plain w c g v sh R; 2, BTreeSet<i64>, Plain, false, f2, decode_f2, skip_f2, walk_f2, into_walk_f2, into_f2_bytes),
                3 => sfield!(plain w c g v sh R; 3, i32, Fixed, true, f3, decode_f3, skip_f3, walk_f3, into_walk_f3, into_f3_bytes),
                4 => sfield!(plain w c g v sh R; 4, Vec<i64>, Bulk, true, f6, decode_f6, skip_f6, walk_f6, into_walk_f6, into_f6_bytes),
                _ => {}
            }
        }
        Ok(())
    }
}

#[revisioned(revision(2), revision(1, optimised), revision(3))]
#[derive(Debug, Clone)]
pub enum E59 {
    #[revision(size = "varlen")] Acc(u64),
    #[revision(fields_name = "E59X0Named", size = "varlen")] V0 { f0: [u8; 5], f1: i8, f2: i8 },
    #[revision(size = "varlen", convert_fn = "cv_2", end = 3)] Item1 { f0: u8 },
    #[revision(end = 3, convert_fn = "cv_3", size = "fixed(8)")] Item2(f64),
    #[revision(start = 2, size = "varlen")] FooBar3 { #[revision(fixed)] f0: i32, #[revision(specialised)] f1: Vec<bool>, #[revision(fixed)] f2: i32 },
    #[revision(size = "inline")] FooBar4,
}
impl E59 {
    fn cv_2(x: E59Item1Fields, rev: u16) -> Result<Self, Error> { let _ = &x; #[allow(unused_mut)] let mut h = mix(2, rev, &[]); h = mix(h, rev, &x.f0.bytes()); Ok(E59::Acc(h)) }
    fn cv_3(x: E59Item2Fields, rev: u16) -> Result<Self, Error> { let _ = &x; #[allow(unused_mut)] let mut h = mix(3, rev, &[]); h = mix(h, rev, &x.0.bytes()); Ok(E59::Acc(h)) }
    fn vname(&self) -> &'static str { match self { E59::Acc { .. } => "Acc", E59::V0 { .. } => "V0", E59::FooBar3 { .. } => "FooBar3", E59::FooBar4 { .. } => "FooBar4" } }
}
impl Spec for E59 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        match self {
            E59::Acc(f0) => { (0u32).enc(o); o.extend(enc1::<Plain, u64>(f0)); }
            E59::V0 { f0, f1, f2 } => { (1u32).enc(o); o.extend(enc1::<Plain, [u8; 5]>(f0)); o.extend(enc1::<Plain, i8>(f1)); o.extend(enc1::<Plain, i8>(f2)); }
            E59::FooBar3 { f0, f1, f2 } => { (2u32).enc(o); o.extend(enc1::<Fixed, i32>(f0)); o.extend(enc1::<Bulk, Vec<bool>>(f1)); o.extend(enc1::<Fixed, i32>(f2)); }
            E59::FooBar4 => { (3u32).enc(o);  }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E59::Acc(a0), E59::Acc(b0)) => a0.same(b0), (E59::V0 { f0: a0, f1: a1, f2: a2 }, E59::V0 { f0: b0, f1: b1, f2: b2 }) => a0.same(b0) && a1.same(b1) && a2.same(b2), (E59::FooBar3 { f0: a0, f1: a1, f2: a2 }, E59::FooBar3 { f0: b0, f1: b1, f2: b2 }) => a0.same(b0) && a1.same(b1) && a2.same(b2), (E59::FooBar4, E59::FooBar4) => true, _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(4) { 0 => E59::Acc(<u64 as Spec>::random(g)), 1 => E59::V0 { f0: <[u8; 5] as Spec>::random(g), f1: <i8 as Spec>::random(g), f2: <i8 as Spec>::random(g) }, 2 => E59::FooBar3 { f0: <i32 as Spec>::random(g), f1: <Vec<bool> as Spec>::random(g), f2: <i32 as Spec>::random(g) }, _ => E59::FooBar4, }) }
}
impl Hist for E59 {
    const LATEST: u16 = 3;
    const REVISION: u16 = E59::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(5) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g)], false)); }
                1 => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, [u8; 5]>(g), gen1::<Plain, i8>(g), gen1::<Plain, i8>(g)], false)); }
                2 => { o.push(66); put_payload(o, &with_offsets(&[gen1::<Plain, u8>(g)], false)); }
                3 => { o.push(35); o.extend(gen1::<Plain, f64>(g)); }
                _ => { o.push(4); }
            },
            2 => match g.below(6) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, [u8; 5]>(g)); o.extend(gen1::<Plain, i8>(g)); o.extend(gen1::<Plain, i8>(g)); }
                2 => { (2u32).enc(o); o.extend(gen1::<Plain, u8>(g)); }
                3 => { (3u32).enc(o); o.extend(gen1::<Plain, f64>(g)); }
                4 => { (4u32).enc(o); o.extend(gen1::<Fixed, i32>(g)); o.extend(gen1::<Bulk, Vec<bool>>(g)); o.extend(gen1::<Fixed, i32>(g)); }
                _ => { (5u32).enc(o);  }
            },
            3 => match g.below(4) {
                0 => { (0u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
                1 => { (1u32).enc(o); o.extend(gen1::<Plain, [u8; 5]>(g)); o.extend(gen1::<Plain, i8>(g)); o.extend(gen1::<Plain, i8>(g)); }
                2 => { (2u32).enc(o); o.extend(gen1::<Fixed, i32>(g)); o.extend(gen1::<Bulk, Vec<bool>>(g)); o.extend(gen1::<Fixed, i32>(g)); }
                _ => { (3u32).enc(o);  }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 3);
        sh.conv = rev != 3;
        let v = match rev {
            1 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E59::Acc(f0)
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, i8>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, i8>(c, &mut sh, Some(2))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E59::V0 { f0, f1, f2 }
                }
                (2, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    #[allow(unused_mut)] let mut h = mix(2, 1, &[]);
                    h = mix(h, 1, &f0.bytes());
                    E59::Acc(h)
                }
                (3, 1) => {
                    let (mut sub, end) = window(c, 8)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, f64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    #[allow(unused_mut)] let mut h = mix(3, 1, &[]);
                    h = mix(h, 1, &f0.bytes());
                    E59::Acc(h)
                }
                (4, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E59::FooBar4
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E59::Acc(f0)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, i8>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, i8>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E59::V0 { f0, f1, f2 }
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    #[allow(unused_mut)] let mut h = mix(2, 2, &[]);
                    h = mix(h, 2, &f0.bytes());
                    E59::Acc(h)
                }
                3 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, f64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    #[allow(unused_mut)] let mut h = mix(3, 2, &[]);
                    h = mix(h, 2, &f0.bytes());
                    E59::Acc(h)
                }
                4 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Fixed, i32>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Bulk, Vec<bool>>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Fixed, i32>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E59::FooBar3 { f0, f1, f2 }
                }
                5 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E59::FooBar4
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E59::Acc(f0)
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, [u8; 5]>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, i8>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, i8>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E59::V0 { f0, f1, f2 }
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Fixed, i32>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Bulk, Vec<bool>>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Fixed, i32>(c, &mut sh, Some(2))?;
                    sh.body = (a, c.pos);
                    E59::FooBar3 { f0, f1, f2 }
                }
                3 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E59::FooBar4
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("Acc", 0), ("V0", 1), ("Item1", 2), ("Item2", 3), ("FooBar4", 4)];
        if E59::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E59::walk_revisioned_variant_table(1))) }
        for d in 0..7 { if E59::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("Acc", 0), ("V0", 1), ("Item1", 2), ("Item2", 3), ("FooBar3", 4), ("FooBar4", 5)];
        if E59::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E59::walk_revisioned_variant_table(2))) }
        for d in 0..8 { if E59::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("Acc", 0), ("V0", 1), ("FooBar3", 2), ("FooBar4", 3)];
        if E59::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", E59::walk_revisioned_variant_table(3))) }
        for d in 0..6 { if E59::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        if !E59::walk_revisioned_variant_table(4).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E59 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(7) {
                    0 => { let _ = w.into_acc(); }
                    1 => { let _ = w.decode_acc(); }
                    2 => { let _ = w.acc_view(); }
                    3 => { let _ = w.v0_view(); }
                    4 => { let _ = w.foo_bar3_view(); }
                    5 => { let _ = w.into_foo_bar4(); }
                    6 => { let _ = w.decode_foo_bar4(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E59::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Acc", w.is_acc()), ("V0", w.is_v0()), ("FooBar3", w.is_foo_bar3()), ("FooBar4", w.is_foo_bar4())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(7);
        if g.below(5) != 0 { k = match sh.variant { "Acc" => 0 + g.below(3), "V0" => 3 + g.below(1), "FooBar3" => 4 + g.below(1), "FooBar4" => 5 + g.below(2), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Acc"; let r = w.into_acc(); if !ok { return if r.is_ok() { bad("into_acc of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u64 as W>::WALKABLE && true; if nested::<u64, R>("into_acc", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "Acc"; let r = w.decode_acc(); if !ok { return if r.is_ok() { bad("decode_acc of another variant succeeded") } else { Err(Stop::Expected) } } let E59::Acc(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_acc", f0, r) }
            2 => { let ok = sh.variant == "Acc"; let r = w.acc_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("acc_view of another variant succeeded") } else { Err(Stop::Expected) } } let E59::Acc(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("acc_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u64>(f0)]) }
            3 => { let ok = sh.variant == "V0"; let r = w.v0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E59::V0 { f0, f1, f2 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, [u8; 5]>(f0), enc1::<Plain, i8>(f1), enc1::<Plain, i8>(f2)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v0_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v0_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            4 => { let ok = sh.variant == "FooBar3"; let r = w.foo_bar3_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar3_view of another variant succeeded") } else { Err(Stop::Expected) } } let E59::FooBar3 { f0, f1, f2 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Fixed, i32>(f0), enc1::<Bulk, Vec<bool>>(f1), enc1::<Fixed, i32>(f2)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar3_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar3_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            5 => { let ok = sh.variant == "FooBar4"; let r = w.into_foo_bar4(); if !ok { return if r.is_ok() { bad("into_foo_bar4 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_foo_bar4", r)?; Ok(()) }
            6 => { let ok = sh.variant == "FooBar4"; let r = w.decode_foo_bar4(); if !ok { return if r.is_ok() { bad("decode_foo_bar4 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_foo_bar4", r)?; Ok(()) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(1, optimised))]
#[derive(Debug, Clone)]
pub enum E60 {
    #[revision(size = "varlen")] #[revision(override(revision = 1, discriminant = 4))] FooBar0 { #[revision(specialised)] f0: Vec<i128>, #[revision(fixed)] f1: u32 },
    #[revision(size = "varlen")] FooBar1(#[revision(specialised)] Vec<i16>),
    #[revision(size = "varlen")] FooBar2(#[revision(fixed)] u128, #[revision(specialised)] Vec<bool>),
    #[revision(size = "varlen")] V3(#[revision(specialised)] Vec<f64>),
}
impl E60 {
    fn vname(&self) -> &'static str { match self { E60::FooBar0 { .. } => "FooBar0", E60::FooBar1 { .. } => "FooBar1", E60::FooBar2 { .. } => "FooBar2", E60::V3 { .. } => "V3" } }
}
impl Spec for E60 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        match self {
            E60::FooBar0 { f0, f1 } => { o.push(68); put_payload(o, &with_offsets(&[enc1::<Plain, Vec<i128>>(f0), enc1::<Plain, u32>(f1)], false)); }
            E60::FooBar1(f0) => { o.push(64); put_payload(o, &with_offsets(&[enc1::<Plain, Vec<i16>>(f0)], false)); }
            E60::FooBar2(f0, f1) => { o.push(65); put_payload(o, &with_offsets(&[enc1::<Plain, u128>(f0), enc1::<Plain, Vec<bool>>(f1)], false)); }
            E60::V3(f0) => { o.push(66); put_payload(o, &with_offsets(&[enc1::<Plain, Vec<f64>>(f0)], false)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E60::FooBar0 { f0: a0, f1: a1 }, E60::FooBar0 { f0: b0, f1: b1 }) => a0.same(b0) && a1.same(b1), (E60::FooBar1(a0), E60::FooBar1(b0)) => a0.same(b0), (E60::FooBar2(a0, a1), E60::FooBar2(b0, b1)) => a0.same(b0) && a1.same(b1), (E60::V3(a0), E60::V3(b0)) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(4) { 0 => E60::FooBar0 { f0: <Vec<i128> as Spec>::random(g), f1: <u32 as Spec>::random(g) }, 1 => E60::FooBar1(<Vec<i16> as Spec>::random(g)), 2 => E60::FooBar2(<u128 as Spec>::random(g), <Vec<bool> as Spec>::random(g)), _ => E60::V3(<Vec<f64> as Spec>::random(g)), }) }
}
impl Hist for E60 {
    const LATEST: u16 = 1;
    const REVISION: u16 = E60::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(4) {
                0 => { o.push(68); put_payload(o, &with_offsets(&[gen1::<Plain, Vec<i128>>(g), gen1::<Plain, u32>(g)], false)); }
                1 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, Vec<i16>>(g)], false)); }
                2 => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, u128>(g), gen1::<Plain, Vec<bool>>(g)], false)); }
                _ => { o.push(66); put_payload(o, &with_offsets(&[gen1::<Plain, Vec<f64>>(g)], false)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 2);
        let v = match rev {
            1 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (4, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<i128>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, u32>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E60::FooBar0 { f0, f1 }
                }
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<i16>>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E60::FooBar1(f0)
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u128>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Vec<bool>>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E60::FooBar2(f0, f1)
                }
                (2, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<f64>>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E60::V3(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("FooBar0", 4), ("FooBar1", 0), ("FooBar2", 1), ("V3", 2)];
        if E60::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E60::walk_revisioned_variant_table(1))) }
        for d in 0..7 { if E60::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        if !E60::walk_revisioned_variant_table(2).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E60 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(8) {
                    0 => { let _ = w.foo_bar0_view(); }
                    1 => { let _ = w.into_foo_bar1(); }
                    2 => { let _ = w.decode_foo_bar1(); }
                    3 => { let _ = w.foo_bar1_view(); }
                    4 => { let _ = w.foo_bar2_view(); }
                    5 => { let _ = w.into_v3(); }
                    6 => { let _ = w.decode_v3(); }
                    7 => { let _ = w.v3_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E60::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("FooBar0", w.is_foo_bar0()), ("FooBar1", w.is_foo_bar1()), ("FooBar2", w.is_foo_bar2()), ("V3", w.is_v3())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(8);
        if g.below(5) != 0 { k = match sh.variant { "FooBar0" => 0 + g.below(1), "FooBar1" => 1 + g.below(3), "FooBar2" => 4 + g.below(1), "V3" => 5 + g.below(3), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "FooBar0"; let r = w.foo_bar0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E60::FooBar0 { f0, f1 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, Vec<i128>>(f0), enc1::<Plain, u32>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar0_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar0_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            1 => { let ok = sh.variant == "FooBar1"; let r = w.into_foo_bar1(); if !ok { return if r.is_ok() { bad("into_foo_bar1 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <Vec<i16> as W>::WALKABLE && false; if nested::<Vec<i16>, R>("into_foo_bar1", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            2 => { let ok = sh.variant == "FooBar1"; let r = w.decode_foo_bar1(); if !ok { return if r.is_ok() { bad("decode_foo_bar1 of another variant succeeded") } else { Err(Stop::Expected) } } let E60::FooBar1(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_foo_bar1", f0, r) }
            3 => { let ok = sh.variant == "FooBar1"; let r = w.foo_bar1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E60::FooBar1(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("foo_bar1_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, Vec<i16>>(f0)]) }
            4 => { let ok = sh.variant == "FooBar2"; let r = w.foo_bar2_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar2_view of another variant succeeded") } else { Err(Stop::Expected) } } let E60::FooBar2(f0, f1) = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, u128>(f0), enc1::<Plain, Vec<bool>>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar2_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar2_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            5 => { let ok = sh.variant == "V3"; let r = w.into_v3(); if !ok { return if r.is_ok() { bad("into_v3 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <Vec<f64> as W>::WALKABLE && false; if nested::<Vec<f64>, R>("into_v3", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            6 => { let ok = sh.variant == "V3"; let r = w.decode_v3(); if !ok { return if r.is_ok() { bad("decode_v3 of another variant succeeded") } else { Err(Stop::Expected) } } let E60::V3(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v3", f0, r) }
            7 => { let ok = sh.variant == "V3"; let r = w.v3_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v3_view of another variant succeeded") } else { Err(Stop::Expected) } } let E60::V3(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v3_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, Vec<f64>>(f0)]) }
            _ => unreachable!(),
        }
    }
}

#[revisioned()]
#[revision(revision(1), revision(2, optimised), revision(3, optimised))]
#[derive(Debug, Clone)]
pub enum E61 {
    #[revision(fields_name = "E61X0Named", size = "varlen")] FooBar0 { f0: i64, #[revision(fixed)] f1: i64 },
    #[revision(start = 2, size = "fixed(4)")] V1(f32),
}
impl E61 {
    fn vname(&self) -> &'static str { match self { E61::FooBar0 { .. } => "FooBar0", E61::V1 { .. } => "V1" } }
}
impl Spec for E61 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        match self {
            E61::FooBar0 { f0, f1 } => { o.push(64); put_payload(o, &with_offsets(&[enc1::<Plain, i64>(f0), enc1::<Plain, i64>(f1)], false)); }
            E61::V1(f0) => { o.push(33); o.extend(enc1::<Plain, f32>(f0)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E61::FooBar0 { f0: a0, f1: a1 }, E61::FooBar0 { f0: b0, f1: b1 }) => a0.same(b0) && a1.same(b1), (E61::V1(a0), E61::V1(b0)) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(2) { 0 => E61::FooBar0 { f0: <i64 as Spec>::random(g), f1: <i64 as Spec>::random(g) }, _ => E61::V1(<f32 as Spec>::random(g)), }) }
}
impl Hist for E61 {
    const LATEST: u16 = 3;
    const REVISION: u16 = E61::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(1) {
                _ => { (0u32).enc(o); o.extend(gen1::<Plain, i64>(g)); o.extend(gen1::<Fixed, i64>(g)); }
            },
            2 => match g.below(2) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, i64>(g), gen1::<Plain, i64>(g)], false)); }
                _ => { o.push(33); o.extend(gen1::<Plain, f32>(g)); }
            },
            3 => match g.below(2) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, i64>(g), gen1::<Plain, i64>(g)], false)); }
                _ => { o.push(33); o.extend(gen1::<Plain, f32>(g)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 2);
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, i64>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Fixed, i64>(c, &mut sh, Some(1))?;
                    sh.body = (a, c.pos);
                    E61::FooBar0 { f0, f1 }
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, i64>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, i64>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E61::FooBar0 { f0, f1 }
                }
                (1, 1) => {
                    let (mut sub, end) = window(c, 4)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, f32>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E61::V1(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, i64>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, i64>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E61::FooBar0 { f0, f1 }
                }
                (1, 1) => {
                    let (mut sub, end) = window(c, 4)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, f32>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E61::V1(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("FooBar0", 0)];
        if E61::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E61::walk_revisioned_variant_table(1))) }
        for d in 0..3 { if E61::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("FooBar0", 0), ("V1", 1)];
        if E61::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E61::walk_revisioned_variant_table(2))) }
        for d in 0..4 { if E61::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("FooBar0", 0), ("V1", 1)];
        if E61::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", E61::walk_revisioned_variant_table(3))) }
        for d in 0..4 { if E61::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        if !E61::walk_revisioned_variant_table(4).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E61 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(4) {
                    0 => { let _ = w.foo_bar0_view(); }
                    1 => { let _ = w.into_v1(); }
                    2 => { let _ = w.decode_v1(); }
                    3 => { let _ = w.v1_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E61::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("FooBar0", w.is_foo_bar0()), ("V1", w.is_v1())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(4);
        if g.below(5) != 0 { k = match sh.variant { "FooBar0" => 0 + g.below(1), "V1" => 1 + g.below(3), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "FooBar0"; let r = w.foo_bar0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E61::FooBar0 { f0, f1 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, i64>(f0), enc1::<Plain, i64>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar0_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar0_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            1 => { let ok = sh.variant == "V1"; let r = w.into_v1(); if !ok { return if r.is_ok() { bad("into_v1 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <f32 as W>::WALKABLE && true; if nested::<f32, R>("into_v1", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            2 => { let ok = sh.variant == "V1"; let r = w.decode_v1(); if !ok { return if r.is_ok() { bad("decode_v1 of another variant succeeded") } else { Err(Stop::Expected) } } let E61::V1(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v1", f0, r) }
            3 => { let ok = sh.variant == "V1"; let r = w.v1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E61::V1(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v1_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, f32>(f0)]) }
            _ => unreachable!(),
        }
    }
}

#[revisioned()]
#[revision(revision(1, optimised))]
#[derive(Debug, Clone)]
pub enum E62 {
    #[revision(size = "varlen")] FooBar0(#[revision(fixed)] u64),
    #[revision(start = 1)] #[revision(size = "varlen")] V1 { f0: u128 },
    #[revision(fields_name = "E62X2Named", size = "fixed(17)", override(revision = 1, discriminant = 5))] FooBar2 { f0: f64, f1: bool, f2: f64 },
    #[revision(size = "varlen", override(revision = 1, discriminant = 6))] V3 { f0: String, f1: H9 },
    #[revision(size = "varlen")] V4(#[revision(specialised)] Vec<i8>),
}
impl E62 {
    fn vname(&self) -> &'static str { match self { E62::FooBar0 { .. } => "FooBar0", E62::V1 { .. } => "V1", E62::FooBar2 { .. } => "FooBar2", E62::V3 { .. } => "V3", E62::V4 { .. } => "V4" } }
}
impl Spec for E62 {
    fn enc(&self, o: &mut Vec<u8>) {
        1u16.enc(o);
        match self {
            E62::FooBar0(f0) => { o.push(64); put_payload(o, &with_offsets(&[enc1::<Plain, u64>(f0)], false)); }
            E62::V1 { f0 } => { o.push(65); put_payload(o, &with_offsets(&[enc1::<Plain, u128>(f0)], false)); }
            E62::FooBar2 { f0, f1, f2 } => { o.push(37); o.extend(enc1::<Plain, f64>(f0)); o.extend(enc1::<Plain, bool>(f1)); o.extend(enc1::<Plain, f64>(f2)); }
            E62::V3 { f0, f1 } => { o.push(70); put_payload(o, &with_offsets(&[enc1::<Plain, String>(f0), enc1::<Plain, H9>(f1)], false)); }
            E62::V4(f0) => { o.push(66); put_payload(o, &with_offsets(&[enc1::<Plain, Vec<i8>>(f0)], false)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E62::FooBar0(a0), E62::FooBar0(b0)) => a0.same(b0), (E62::V1 { f0: a0 }, E62::V1 { f0: b0 }) => a0.same(b0), (E62::FooBar2 { f0: a0, f1: a1, f2: a2 }, E62::FooBar2 { f0: b0, f1: b1, f2: b2 }) => a0.same(b0) && a1.same(b1) && a2.same(b2), (E62::V3 { f0: a0, f1: a1 }, E62::V3 { f0: b0, f1: b1 }) => a0.same(b0) && a1.same(b1), (E62::V4(a0), E62::V4(b0)) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(5) { 0 => E62::FooBar0(<u64 as Spec>::random(g)), 1 => E62::V1 { f0: <u128 as Spec>::random(g) }, 2 => E62::FooBar2 { f0: <f64 as Spec>::random(g), f1: <bool as Spec>::random(g), f2: <f64 as Spec>::random(g) }, 3 => E62::V3 { f0: <String as Spec>::random(g), f1: <H9 as Spec>::random(g) }, _ => E62::V4(<Vec<i8> as Spec>::random(g)), }) }
}
impl Hist for E62 {
    const LATEST: u16 = 1;
    const REVISION: u16 = E62::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(5) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g)], false)); }
                1 => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, u128>(g)], false)); }
                2 => { o.push(37); o.extend(gen1::<Plain, f64>(g)); o.extend(gen1::<Plain, bool>(g)); o.extend(gen1::<Plain, f64>(g)); }
                3 => { o.push(70); put_payload(o, &with_offsets(&[gen1::<Plain, String>(g), gen1::<Plain, H9>(g)], false)); }
                _ => { o.push(66); put_payload(o, &with_offsets(&[gen1::<Plain, Vec<i8>>(g)], false)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 1, 3);
        let v = match rev {
            1 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E62::FooBar0(f0)
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u128>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E62::V1 { f0 }
                }
                (5, 1) => {
                    let (mut sub, end) = window(c, 17)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, f64>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, bool>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, f64>(c, &mut sh, Some(2))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E62::FooBar2 { f0, f1, f2 }
                }
                (6, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, String>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, H9>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E62::V3 { f0, f1 }
                }
                (2, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<i8>>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E62::V4(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("FooBar0", 0), ("V1", 1), ("FooBar2", 5), ("V3", 6), ("V4", 2)];
        if E62::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E62::walk_revisioned_variant_table(1))) }
        for d in 0..9 { if E62::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        if !E62::walk_revisioned_variant_table(2).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E62 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(9) {
                    0 => { let _ = w.into_foo_bar0(); }
                    1 => { let _ = w.decode_foo_bar0(); }
                    2 => { let _ = w.foo_bar0_view(); }
                    3 => { let _ = w.v1_view(); }
                    4 => { let _ = w.foo_bar2_view(); }
                    5 => { let _ = w.v3_view(); }
                    6 => { let _ = w.into_v4(); }
                    7 => { let _ = w.decode_v4(); }
                    8 => { let _ = w.v4_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E62::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("FooBar0", w.is_foo_bar0()), ("V1", w.is_v1()), ("FooBar2", w.is_foo_bar2()), ("V3", w.is_v3()), ("V4", w.is_v4())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(9);
        if g.below(5) != 0 { k = match sh.variant { "FooBar0" => 0 + g.below(3), "V1" => 3 + g.below(1), "FooBar2" => 4 + g.below(1), "V3" => 5 + g.below(1), "V4" => 6 + g.below(3), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "FooBar0"; let r = w.into_foo_bar0(); if !ok { return if r.is_ok() { bad("into_foo_bar0 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u64 as W>::WALKABLE && false; if nested::<u64, R>("into_foo_bar0", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "FooBar0"; let r = w.decode_foo_bar0(); if !ok { return if r.is_ok() { bad("decode_foo_bar0 of another variant succeeded") } else { Err(Stop::Expected) } } let E62::FooBar0(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_foo_bar0", f0, r) }
            2 => { let ok = sh.variant == "FooBar0"; let r = w.foo_bar0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E62::FooBar0(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("foo_bar0_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u64>(f0)]) }
            3 => { let ok = sh.variant == "V1"; let r = w.v1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E62::V1 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, u128>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v1_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v1_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            4 => { let ok = sh.variant == "FooBar2"; let r = w.foo_bar2_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar2_view of another variant succeeded") } else { Err(Stop::Expected) } } let E62::FooBar2 { f0, f1, f2 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, f64>(f0), enc1::<Plain, bool>(f1), enc1::<Plain, f64>(f2)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar2_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar2_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            5 => { let ok = sh.variant == "V3"; let r = w.v3_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v3_view of another variant succeeded") } else { Err(Stop::Expected) } } let E62::V3 { f0, f1 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, String>(f0), enc1::<Plain, H9>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v3_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v3_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            6 => { let ok = sh.variant == "V4"; let r = w.into_v4(); if !ok { return if r.is_ok() { bad("into_v4 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <Vec<i8> as W>::WALKABLE && false; if nested::<Vec<i8>, R>("into_v4", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            7 => { let ok = sh.variant == "V4"; let r = w.decode_v4(); if !ok { return if r.is_ok() { bad("decode_v4 of another variant succeeded") } else { Err(Stop::Expected) } } let E62::V4(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v4", f0, r) }
            8 => { let ok = sh.variant == "V4"; let r = w.v4_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v4_view of another variant succeeded") } else { Err(Stop::Expected) } } let E62::V4(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v4_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, Vec<i8>>(f0)]) }
            _ => unreachable!(),
        }
    }
}

#[revisioned(revision(2, optimised), revision(4, optimised), revision(1), revision(3))]
#[derive(Debug, Clone)]
pub enum E63 {
    #[revision(start = 2, end = 3, convert_fn = "cv_0", size = "varlen")] V0 { #[revision(fixed)] f0: u128 },
    #[revision(size = "varlen", override(revision = 1, discriminant = 8))] Item1,
    #[revision(start = 2, end = 4, convert_fn = "cv_2", size = "varlen")] V2 { #[revision(fixed)] f0: u32 },
    #[revision(size = "varlen")] #[revision(override(revision = 1, discriminant = 5))] Acc(u64),
}
impl E63 {
    fn cv_0(x: E63V0Fields, rev: u16) -> Result<Self, Error> { let _ = &x; #[allow(unused_mut)] let mut h = mix(0, rev, &[]); h = mix(h, rev, &x.f0.bytes()); Ok(E63::Acc(h)) }
    fn cv_2(x: E63V2Fields, rev: u16) -> Result<Self, Error> { let _ = &x; #[allow(unused_mut)] let mut h = mix(2, rev, &[]); h = mix(h, rev, &x.f0.bytes()); Ok(E63::Acc(h)) }
    fn vname(&self) -> &'static str { match self { E63::Item1 { .. } => "Item1", E63::Acc { .. } => "Acc" } }
}
impl Spec for E63 {
    fn enc(&self, o: &mut Vec<u8>) {
        4u16.enc(o);
        match self {
            E63::Item1 => { o.push(64); put_payload(o, &with_offsets(&[], false)); }
            E63::Acc(f0) => { o.push(65); put_payload(o, &with_offsets(&[enc1::<Plain, u64>(f0)], false)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E63::Item1, E63::Item1) => true, (E63::Acc(a0), E63::Acc(b0)) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(2) { 0 => E63::Item1, _ => E63::Acc(<u64 as Spec>::random(g)), }) }
}
impl Hist for E63 {
    const LATEST: u16 = 4;
    const REVISION: u16 = E63::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(2) {
                0 => { (8u32).enc(o);  }
                _ => { (5u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
            },
            2 => match g.below(4) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, u128>(g)], false)); }
                1 => { o.push(65); put_payload(o, &with_offsets(&[], false)); }
                2 => { o.push(66); put_payload(o, &with_offsets(&[gen1::<Plain, u32>(g)], false)); }
                _ => { o.push(67); put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g)], false)); }
            },
            3 => match g.below(3) {
                0 => { (0u32).enc(o);  }
                1 => { (1u32).enc(o); o.extend(gen1::<Fixed, u32>(g)); }
                _ => { (2u32).enc(o); o.extend(gen1::<Plain, u64>(g)); }
            },
            4 => match g.below(2) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[], false)); }
                _ => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, u64>(g)], false)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 4, 1);
        sh.conv = rev != 4;
        let v = match rev {
            1 => {
                match <u32 as Spec>::dec(c)? {
                8 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E63::Item1
                }
                5 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E63::Acc(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u128>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    #[allow(unused_mut)] let mut h = mix(0, 2, &[]);
                    h = mix(h, 2, &f0.bytes());
                    E63::Acc(h)
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E63::Item1
                }
                (2, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    #[allow(unused_mut)] let mut h = mix(2, 2, &[]);
                    h = mix(h, 2, &f0.bytes());
                    E63::Acc(h)
                }
                (3, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E63::Acc(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                match <u32 as Spec>::dec(c)? {
                0 => {
                    let a = c.pos;
                    sh.body = (a, c.pos);
                    E63::Item1
                }
                1 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Fixed, u32>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    #[allow(unused_mut)] let mut h = mix(2, 3, &[]);
                    h = mix(h, 3, &f0.bytes());
                    E63::Acc(h)
                }
                2 => {
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.body = (a, c.pos);
                    E63::Acc(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            4 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E63::Item1
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u64>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E63::Acc(f0)
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("Item1", 8), ("Acc", 5)];
        if E63::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E63::walk_revisioned_variant_table(1))) }
        for d in 0..11 { if E63::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("V0", 0), ("Item1", 1), ("V2", 2), ("Acc", 3)];
        if E63::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E63::walk_revisioned_variant_table(2))) }
        for d in 0..6 { if E63::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("Item1", 0), ("V2", 1), ("Acc", 2)];
        if E63::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", E63::walk_revisioned_variant_table(3))) }
        for d in 0..5 { if E63::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        let want: &[(&str, u32)] = &[("Item1", 0), ("Acc", 1)];
        if E63::walk_revisioned_variant_table(4) != want { return Err(format!("variant table at revision 4: {:?}", E63::walk_revisioned_variant_table(4))) }
        for d in 0..4 { if E63::walk_revisioned_variant_name(4, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 4")) } }
        if !E63::walk_revisioned_variant_table(5).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E63 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(5) {
                    0 => { let _ = w.into_item1(); }
                    1 => { let _ = w.decode_item1(); }
                    2 => { let _ = w.into_acc(); }
                    3 => { let _ = w.decode_acc(); }
                    4 => { let _ = w.acc_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E63::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("Item1", w.is_item1()), ("Acc", w.is_acc())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(5);
        if g.below(5) != 0 { k = match sh.variant { "Item1" => 0 + g.below(2), "Acc" => 2 + g.below(3), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "Item1"; let r = w.into_item1(); if !ok { return if r.is_ok() { bad("into_item1 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_item1", r)?; Ok(()) }
            1 => { let ok = sh.variant == "Item1"; let r = w.decode_item1(); if !ok { return if r.is_ok() { bad("decode_item1 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_item1", r)?; Ok(()) }
            2 => { let ok = sh.variant == "Acc"; let r = w.into_acc(); if !ok { return if r.is_ok() { bad("into_acc of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u64 as W>::WALKABLE && true; if nested::<u64, R>("into_acc", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            3 => { let ok = sh.variant == "Acc"; let r = w.decode_acc(); if !ok { return if r.is_ok() { bad("decode_acc of another variant succeeded") } else { Err(Stop::Expected) } } let E63::Acc(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_acc", f0, r) }
            4 => { let ok = sh.variant == "Acc"; let r = w.acc_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("acc_view of another variant succeeded") } else { Err(Stop::Expected) } } let E63::Acc(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("acc_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u64>(f0)]) }
            _ => unreachable!(),
        }
    }
}

#[revisioned()]
#[revision(revision(3, optimised))]
#[revision(revision(2, optimised))]
#[revision(revision(1, optimised))]
#[derive(Debug, Clone)]
pub enum E64 {
    #[revision(override(revision = 3, discriminant = 1), size = "varlen", fields_name = "E64X0Named", start = 2)] FooBar0(u32),
    #[revision(size = "varlen")] V1(u8, #[revision(specialised)] Vec<u64>),
    #[revision(override(revision = 1, discriminant = 31), size = "inline")] FooBar2,
    #[revision(size = "varlen", start = 2)] V3(bool),
    #[revision(size = "varlen", override(revision = 1, discriminant = 8))] FooBar4 { #[revision(specialised)] f0: Vec<f32>, #[revision(fixed)] f1: u64, #[revision(specialised)] f2: Vec<f32> },
    #[revision(start = 2, size = "varlen", override(revision = 2, discriminant = 3))] Item5 { #[revision(specialised)] f0: Vec<u128> },
}
impl E64 {
    fn vname(&self) -> &'static str { match self { E64::FooBar0 { .. } => "FooBar0", E64::V1 { .. } => "V1", E64::FooBar2 { .. } => "FooBar2", E64::V3 { .. } => "V3", E64::FooBar4 { .. } => "FooBar4", E64::Item5 { .. } => "Item5" } }
}
impl Spec for E64 {
    fn enc(&self, o: &mut Vec<u8>) {
        3u16.enc(o);
        match self {
            E64::FooBar0(f0) => { o.push(65); put_payload(o, &with_offsets(&[enc1::<Plain, u32>(f0)], false)); }
            E64::V1(f0, f1) => { o.push(64); put_payload(o, &with_offsets(&[enc1::<Plain, u8>(f0), enc1::<Plain, Vec<u64>>(f1)], false)); }
            E64::FooBar2 => { o.push(2); }
            E64::V3(f0) => { o.push(67); put_payload(o, &with_offsets(&[enc1::<Plain, bool>(f0)], false)); }
            E64::FooBar4 { f0, f1, f2 } => { o.push(68); put_payload(o, &with_offsets(&[enc1::<Plain, Vec<f32>>(f0), enc1::<Plain, u64>(f1), enc1::<Plain, Vec<f32>>(f2)], false)); }
            E64::Item5 { f0 } => { o.push(69); put_payload(o, &with_offsets(&[enc1::<Plain, Vec<u128>>(f0)], false)); }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, Bad> { Ok(Self::parse(c)?.0) }
    #[allow(unreachable_patterns)]
    fn same(&self, o: &Self) -> bool { match (self, o) { (E64::FooBar0(a0), E64::FooBar0(b0)) => a0.same(b0), (E64::V1(a0, a1), E64::V1(b0, b1)) => a0.same(b0) && a1.same(b1), (E64::FooBar2, E64::FooBar2) => true, (E64::V3(a0), E64::V3(b0)) => a0.same(b0), (E64::FooBar4 { f0: a0, f1: a1, f2: a2 }, E64::FooBar4 { f0: b0, f1: b1, f2: b2 }) => a0.same(b0) && a1.same(b1) && a2.same(b2), (E64::Item5 { f0: a0 }, E64::Item5 { f0: b0 }) => a0.same(b0), _ => false } }
    fn random(g: &mut Gen) -> Self { g.nest(|g| match g.below(6) { 0 => E64::FooBar0(<u32 as Spec>::random(g)), 1 => E64::V1(<u8 as Spec>::random(g), <Vec<u64> as Spec>::random(g)), 2 => E64::FooBar2, 3 => E64::V3(<bool as Spec>::random(g)), 4 => E64::FooBar4 { f0: <Vec<f32> as Spec>::random(g), f1: <u64 as Spec>::random(g), f2: <Vec<f32> as Spec>::random(g) }, _ => E64::Item5 { f0: <Vec<u128> as Spec>::random(g) }, }) }
}
impl Hist for E64 {
    const LATEST: u16 = 3;
    const REVISION: u16 = E64::REVISION;
    const INDEXED: bool = false;
    fn gen_rev(g: &mut Gen, rev: u16, o: &mut Vec<u8>) {
        rev.enc(o);
        match rev {
            1 => match g.below(3) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, u8>(g), gen1::<Plain, Vec<u64>>(g)], false)); }
                1 => { o.push(31); }
                _ => { o.push(72); put_payload(o, &with_offsets(&[gen1::<Plain, Vec<f32>>(g), gen1::<Plain, u64>(g), gen1::<Plain, Vec<f32>>(g)], false)); }
            },
            2 => match g.below(6) {
                0 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, u32>(g)], false)); }
                1 => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, u8>(g), gen1::<Plain, Vec<u64>>(g)], false)); }
                2 => { o.push(2); }
                3 => { o.push(68); put_payload(o, &with_offsets(&[gen1::<Plain, bool>(g)], false)); }
                4 => { o.push(69); put_payload(o, &with_offsets(&[gen1::<Plain, Vec<f32>>(g), gen1::<Plain, u64>(g), gen1::<Plain, Vec<f32>>(g)], false)); }
                _ => { o.push(67); put_payload(o, &with_offsets(&[gen1::<Plain, Vec<u128>>(g)], false)); }
            },
            3 => match g.below(6) {
                0 => { o.push(65); put_payload(o, &with_offsets(&[gen1::<Plain, u32>(g)], false)); }
                1 => { o.push(64); put_payload(o, &with_offsets(&[gen1::<Plain, u8>(g), gen1::<Plain, Vec<u64>>(g)], false)); }
                2 => { o.push(2); }
                3 => { o.push(67); put_payload(o, &with_offsets(&[gen1::<Plain, bool>(g)], false)); }
                4 => { o.push(68); put_payload(o, &with_offsets(&[gen1::<Plain, Vec<f32>>(g), gen1::<Plain, u64>(g), gen1::<Plain, Vec<f32>>(g)], false)); }
                _ => { o.push(69); put_payload(o, &with_offsets(&[gen1::<Plain, Vec<u128>>(g)], false)); }
            },
            _ => unreachable!(),
        }
    }
    fn parse(c: &mut Cur) -> Result<(Self, Shape), Bad> {
        let rev = <u16 as Spec>::dec(c)?;
        let mut sh = Shape::new(rev, 3, 3);
        let v = match rev {
            1 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Vec<u64>>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E64::V1(f0, f1)
                }
                (31, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E64::FooBar2
                }
                (8, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<f32>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, Vec<f32>>(c, &mut sh, Some(2))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E64::FooBar4 { f0, f1, f2 }
                }
                _ => return Err(Bad::Other),
                }
            }
            2 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E64::FooBar0(f0)
                }
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Vec<u64>>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E64::V1(f0, f1)
                }
                (2, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E64::FooBar2
                }
                (4, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, bool>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E64::V3(f0)
                }
                (5, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<f32>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, Vec<f32>>(c, &mut sh, Some(2))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E64::FooBar4 { f0, f1, f2 }
                }
                (3, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<u128>>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E64::Item5 { f0 }
                }
                _ => return Err(Bad::Other),
                }
            }
            3 => {
                sh.opt = true;
                let tag = c.u8()?; if tag >= 128 { return Err(Bad::Huge) }
                match (tag & 31, tag >> 5) {
                (1, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u32>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E64::FooBar0(f0)
                }
                (0, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, u8>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, Vec<u64>>(c, &mut sh, Some(1))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E64::V1(f0, f1)
                }
                (2, 0) => {
                    let (mut sub, end) = window(c, 0)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E64::FooBar2
                }
                (3, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, bool>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E64::V3(f0)
                }
                (4, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<f32>>(c, &mut sh, Some(0))?;
                    #[allow(unused_mut)] let mut f1 = rd::<Plain, u64>(c, &mut sh, Some(1))?;
                    #[allow(unused_mut)] let mut f2 = rd::<Plain, Vec<f32>>(c, &mut sh, Some(2))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E64::FooBar4 { f0, f1, f2 }
                }
                (5, 2) => {
                    let (mut sub, end) = payload(c)?;
                    let outer = &mut *c; let c = &mut sub;
                    let a = c.pos;
                    #[allow(unused_mut)] let mut f0 = rd::<Plain, Vec<u128>>(c, &mut sh, Some(0))?;
                    sh.odd |= c.pos != end; sh.body = (a, end); outer.pos = end;
                    E64::Item5 { f0 }
                }
                _ => return Err(Bad::Other),
                }
            }
            _ => return Err(Bad::Other),
        };
        sh.variant = v.vname();
        Ok((v, sh))
    }
    fn tables() -> Result<(), String> {
        let want: &[(&str, u32)] = &[("V1", 0), ("FooBar2", 31), ("FooBar4", 8)];
        if E64::walk_revisioned_variant_table(1) != want { return Err(format!("variant table at revision 1: {:?}", E64::walk_revisioned_variant_table(1))) }
        for d in 0..34 { if E64::walk_revisioned_variant_name(1, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 1")) } }
        let want: &[(&str, u32)] = &[("FooBar0", 0), ("V1", 1), ("FooBar2", 2), ("V3", 4), ("FooBar4", 5), ("Item5", 3)];
        if E64::walk_revisioned_variant_table(2) != want { return Err(format!("variant table at revision 2: {:?}", E64::walk_revisioned_variant_table(2))) }
        for d in 0..8 { if E64::walk_revisioned_variant_name(2, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 2")) } }
        let want: &[(&str, u32)] = &[("FooBar0", 1), ("V1", 0), ("FooBar2", 2), ("V3", 3), ("FooBar4", 4), ("Item5", 5)];
        if E64::walk_revisioned_variant_table(3) != want { return Err(format!("variant table at revision 3: {:?}", E64::walk_revisioned_variant_table(3))) }
        for d in 0..8 { if E64::walk_revisioned_variant_name(3, d) != want.iter().find(|x| x.1 == d).map(|x| x.0) { return Err(format!("variant name {d} at revision 3")) } }
        if !E64::walk_revisioned_variant_table(4).is_empty() { return Err("variants of an unknown revision".into()) }
        Ok(())
    }
}
impl W for E64 {
    #[allow(unused_mut, unused_variables)]
    fn drive_w<R: BorrowedReader>(c: &mut Cur, mut w: Self::Walker<'_, R>, g: &mut Gen) -> Res {
        let p = Self::parse(c);
        let (v, sh) = match p {
            Ok((v, sh)) if !sh.odd => (v, sh),
            _ => {
                lenient(); let _ = w.revision(); let _ = w.discriminant();
                match g.below(11) {
                    0 => { let _ = w.into_foo_bar0(); }
                    1 => { let _ = w.decode_foo_bar0(); }
                    2 => { let _ = w.foo_bar0_view(); }
                    3 => { let _ = w.v1_view(); }
                    4 => { let _ = w.into_foo_bar2(); }
                    5 => { let _ = w.decode_foo_bar2(); }
                    6 => { let _ = w.into_v3(); }
                    7 => { let _ = w.decode_v3(); }
                    8 => { let _ = w.v3_view(); }
                    9 => { let _ = w.foo_bar4_view(); }
                    10 => { let _ = w.item5_view(); }
                    _ => {}
                }
                return Err(Stop::Expected);
            }
        };
        if w.revision() != sh.rev && !(sh.conv && w.revision() == sh.latest) { return bad(format!("revision() is {} for bytes of revision {}", w.revision(), sh.rev)) }
        if E64::walk_revisioned_variant_name(w.revision(), w.discriminant()) != Some(sh.variant) { return bad(format!("revision {} discriminant {} does not name the stored variant {}", w.revision(), w.discriminant(), sh.variant)) }
        for (name, is) in [("FooBar0", w.is_foo_bar0()), ("V1", w.is_v1()), ("FooBar2", w.is_foo_bar2()), ("V3", w.is_v3()), ("FooBar4", w.is_foo_bar4()), ("Item5", w.is_item5())] { if is != (name == sh.variant) { return bad(format!("is_{name}() is {is} for variant {}", sh.variant)) } }
        // prefer the operations of the stored variant
        let mut k = g.below(11);
        if g.below(5) != 0 { k = match sh.variant { "FooBar0" => 0 + g.below(3), "V1" => 3 + g.below(1), "FooBar2" => 4 + g.below(2), "V3" => 6 + g.below(3), "FooBar4" => 9 + g.below(1), "Item5" => 10 + g.below(1), _ => 0 } }
        match k {
            0 => { let ok = sh.variant == "FooBar0"; let r = w.into_foo_bar0(); if !ok { return if r.is_ok() { bad("into_foo_bar0 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <u32 as W>::WALKABLE && true; if nested::<u32, R>("into_foo_bar0", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            1 => { let ok = sh.variant == "FooBar0"; let r = w.decode_foo_bar0(); if !ok { return if r.is_ok() { bad("decode_foo_bar0 of another variant succeeded") } else { Err(Stop::Expected) } } let E64::FooBar0(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_foo_bar0", f0, r) }
            2 => { let ok = sh.variant == "FooBar0"; let r = w.foo_bar0_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar0_view of another variant succeeded") } else { Err(Stop::Expected) } } let E64::FooBar0(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("foo_bar0_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, u32>(f0)]) }
            3 => { let ok = sh.variant == "V1"; let r = w.v1_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v1_view of another variant succeeded") } else { Err(Stop::Expected) } } let E64::V1(f0, f1) = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, u8>(f0), enc1::<Plain, Vec<u64>>(f1)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("v1_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("v1_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            4 => { let ok = sh.variant == "FooBar2"; let r = w.into_foo_bar2(); if !ok { return if r.is_ok() { bad("into_foo_bar2 of another variant succeeded") } else { Err(Stop::Expected) } } must("into_foo_bar2", r)?; Ok(()) }
            5 => { let ok = sh.variant == "FooBar2"; let r = w.decode_foo_bar2(); if !ok { return if r.is_ok() { bad("decode_foo_bar2 of another variant succeeded") } else { Err(Stop::Expected) } } must("decode_foo_bar2", r)?; Ok(()) }
            6 => { let ok = sh.variant == "V3"; let r = w.into_v3(); if !ok { return if r.is_ok() { bad("into_v3 of another variant succeeded") } else { Err(Stop::Expected) } } let here = sh.f[0].filter(|_| !sh.conv); let want = here.is_some() && !sh.opt && <bool as W>::WALKABLE && true; if nested::<bool, R>("into_v3", c, here, want, r, g)? { Ok(()) } else { Err(Stop::Expected) } }
            7 => { let ok = sh.variant == "V3"; let r = w.decode_v3(); if !ok { return if r.is_ok() { bad("decode_v3 of another variant succeeded") } else { Err(Stop::Expected) } } let E64::V3(f0) = &v else { unreachable!() }; if sh.f[0].is_none() && !sh.conv && r.is_err() { return Err(Stop::Expected) } same_res("decode_v3", f0, r) }
            8 => { let ok = sh.variant == "V3"; let r = w.v3_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("v3_view of another variant succeeded") } else { Err(Stop::Expected) } } let E64::V3(f0) = &v else { unreachable!() }; let raw = if sh.conv { None } else { sh.raw(c, 0) }; view_ok("v3_view", r, raw, sh.opt && !sh.conv, &[f0.bytes(), enc1::<Plain, bool>(f0)]) }
            9 => { let ok = sh.variant == "FooBar4"; let r = w.foo_bar4_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("foo_bar4_view of another variant succeeded") } else { Err(Stop::Expected) } } let E64::FooBar4 { f0, f1, f2 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, Vec<f32>>(f0), enc1::<Plain, u64>(f1), enc1::<Plain, Vec<f32>>(f2)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("foo_bar4_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("foo_bar4_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            10 => { let ok = sh.variant == "Item5"; let r = w.item5_view().map(|x| x.as_bytes().to_vec()); if !ok { return if r.is_ok() { bad("item5_view of another variant succeeded") } else { Err(Stop::Expected) } } let E64::Item5 { f0 } = &v else { unreachable!() }; let raw = if sh.conv { None } else { Some(&c.b[sh.body.0..sh.body.1]) }; let e = [with_offsets(&[enc1::<Plain, Vec<u128>>(f0)], false)]; if let Err(x) = &r { return if sh.opt || sh.conv { bad(format!("item5_view failed on a stored payload: {x}")) } else { Err(Stop::Expected) } } view_ok("item5_view", r, raw, !sh.conv, &e)?; Err(Stop::Expected) }
            _ => unreachable!(),
        }
    }
}

pub fn legacy(rep: &mut Rep, k: crate::What) {
    crate::check::<H1>(rep, "H1", k);
    crate::check::<H2>(rep, "H2", k);
    crate::check::<H3>(rep, "H3", k);
    crate::check::<H4>(rep, "H4", k);
    crate::check::<H5>(rep, "H5", k);
    crate::check::<H6>(rep, "H6", k);
    crate::check::<H7>(rep, "H7", k);
    crate::check::<O1>(rep, "O1", k);
    crate::check::<O2>(rep, "O2", k);
    crate::check::<O5>(rep, "O5", k);
    crate::check::<N1>(rep, "N1", k);
    crate::check::<N2>(rep, "N2", k);
    crate::check::<N6>(rep, "N6", k);
    crate::check::<N8>(rep, "N8", k);
    crate::check::<N9>(rep, "N9", k);
    crate::check::<P1>(rep, "P1", k);
    crate::check::<P3>(rep, "P3", k);
    crate::check::<S1>(rep, "S1", k);
    crate::check::<S2>(rep, "S2", k);
    crate::check::<S3>(rep, "S3", k);
    crate::check::<S4>(rep, "S4", k);
    crate::check::<S5>(rep, "S5", k);
    crate::check::<S6>(rep, "S6", k);
    crate::check::<S7>(rep, "S7", k);
    crate::check::<S8>(rep, "S8", k);
    crate::check::<S9>(rep, "S9", k);
    crate::check::<S10>(rep, "S10", k);
    crate::check::<S11>(rep, "S11", k);
    crate::check::<S12>(rep, "S12", k);
    crate::check::<S13>(rep, "S13", k);
    crate::check::<S14>(rep, "S14", k);
    crate::check::<E15>(rep, "E15", k);
    crate::check::<E16>(rep, "E16", k);
    crate::check::<E17>(rep, "E17", k);
    crate::check::<E18>(rep, "E18", k);
    crate::check::<E19>(rep, "E19", k);
    crate::check::<E20>(rep, "E20", k);
    crate::check::<E21>(rep, "E21", k);
    crate::check::<E22>(rep, "E22", k);
    crate::check::<E23>(rep, "E23", k);
    crate::check::<E24>(rep, "E24", k);
    crate::check::<E25>(rep, "E25", k);
    crate::check::<E26>(rep, "E26", k);
    crate::check::<S58>(rep, "S58", k);
}
pub fn opt(rep: &mut Rep, k: crate::What) {
    crate::check::<H8>(rep, "H8", k);
    crate::check::<H9>(rep, "H9", k);
    crate::check::<I1>(rep, "I1", k);
    crate::check::<I2>(rep, "I2", k);
    crate::check::<I3>(rep, "I3", k);
    crate::check::<I4>(rep, "I4", k);
    crate::check::<I5>(rep, "I5", k);
    crate::check::<I6>(rep, "I6", k);
    crate::check::<O3>(rep, "O3", k);
    crate::check::<O4>(rep, "O4", k);
    crate::check::<N3>(rep, "N3", k);
    crate::check::<N4>(rep, "N4", k);
    crate::check::<N5>(rep, "N5", k);
    crate::check::<N7>(rep, "N7", k);
    crate::check::<P2>(rep, "P2", k);
    crate::check::<P4>(rep, "P4", k);
    crate::check::<S27>(rep, "S27", k);
    crate::check::<S28>(rep, "S28", k);
    crate::check::<S29>(rep, "S29", k);
    crate::check::<S30>(rep, "S30", k);
    crate::check::<S31>(rep, "S31", k);
    crate::check::<S32>(rep, "S32", k);
    crate::check::<S33>(rep, "S33", k);
    crate::check::<S34>(rep, "S34", k);
    crate::check::<S35>(rep, "S35", k);
    crate::check::<S36>(rep, "S36", k);
    crate::check::<S37>(rep, "S37", k);
    crate::check::<S38>(rep, "S38", k);
    crate::check::<E39>(rep, "E39", k);
    crate::check::<E40>(rep, "E40", k);
    crate::check::<E41>(rep, "E41", k);
    crate::check::<E42>(rep, "E42", k);
    crate::check::<E43>(rep, "E43", k);
    crate::check::<E44>(rep, "E44", k);
    crate::check::<E45>(rep, "E45", k);
    crate::check::<E46>(rep, "E46", k);
    crate::check::<E47>(rep, "E47", k);
    crate::check::<E48>(rep, "E48", k);
    crate::check::<S49>(rep, "S49", k);
    crate::check::<S50>(rep, "S50", k);
    crate::check::<S51>(rep, "S51", k);
    crate::check::<S52>(rep, "S52", k);
    crate::check::<S53>(rep, "S53", k);
    crate::check::<S54>(rep, "S54", k);
    crate::check::<S55>(rep, "S55", k);
    crate::check::<S56>(rep, "S56", k);
    crate::check::<S57>(rep, "S57", k);
    crate::check::<E59>(rep, "E59", k);
    crate::check::<E60>(rep, "E60", k);
    crate::check::<E61>(rep, "E61", k);
    crate::check::<E62>(rep, "E62", k);
    crate::check::<E63>(rep, "E63", k);
    crate::check::<E64>(rep, "E64", k);
}
pub fn ovr(rep: &mut Rep, k: crate::What) {
    crate::check::<H8>(rep, "H8", k);
    crate::check::<H9>(rep, "H9", k);
    crate::check::<I1>(rep, "I1", k);
    crate::check::<I2>(rep, "I2", k);
    crate::check::<I5>(rep, "I5", k);
    crate::check::<I6>(rep, "I6", k);
    crate::check::<O1>(rep, "O1", k);
    crate::check::<O2>(rep, "O2", k);
    crate::check::<O3>(rep, "O3", k);
    crate::check::<O4>(rep, "O4", k);
    crate::check::<O5>(rep, "O5", k);
    crate::check::<N8>(rep, "N8", k);
    crate::check::<S29>(rep, "S29", k);
    crate::check::<S31>(rep, "S31", k);
    crate::check::<S32>(rep, "S32", k);
    crate::check::<S34>(rep, "S34", k);
    crate::check::<S35>(rep, "S35", k);
    crate::check::<S36>(rep, "S36", k);
    crate::check::<S37>(rep, "S37", k);
    crate::check::<S49>(rep, "S49", k);
    crate::check::<S50>(rep, "S50", k);
    crate::check::<S51>(rep, "S51", k);
    crate::check::<S52>(rep, "S52", k);
    crate::check::<S53>(rep, "S53", k);
    crate::check::<S54>(rep, "S54", k);
    crate::check::<S55>(rep, "S55", k);
    crate::check::<S56>(rep, "S56", k);
    crate::check::<S57>(rep, "S57", k);
    crate::check::<S58>(rep, "S58", k);
    crate::check::<E59>(rep, "E59", k);
    crate::check::<E60>(rep, "E60", k);
    crate::check::<E61>(rep, "E61", k);
    crate::check::<E62>(rep, "E62", k);
    crate::check::<E63>(rep, "E63", k);
    crate::check::<E64>(rep, "E64", k);
}
hist!(H1, H2, H3, H4, H5, H6, H7, H8, H9, I1, I2, I3, I4, I5, I6, O1, O2, O3, O4, O5, N1, N2, N3, N4, N5, N6, N7, N8, N9, P1, P2, P3, P4, S1, S2, S3, S4, S5, S6, S7, S8, S9, S10, S11, S12, S13, S14, E15, E16, E17, E18, E19, E20, E21, E22, E23, E24, E25, E26, S27, S28, S29, S30, S31, S32, S33, S34, S35, S36, S37, S38, E39, E40, E41, E42, E43, E44, E45, E46, E47, E48, S49, S50, S51, S52, S53, S54, S55, S56, S57, S58, E59, E60, E61, E62, E63, E64);
plain!((u16, String), BTreeMap<String, u64>, BTreeMap<u8, String>, BTreeSet<String>, BTreeSet<i64>, Box<u32>, Duration, Option<String>, Option<u32>, Result<u64, String>, String, Vec<Option<u32>>, Vec<String>, Vec<bool>, Vec<f32>, Vec<f64>, Vec<i128>, Vec<i16>, Vec<i32>, Vec<i64>, Vec<i8>, Vec<u128>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<u8>, [u8; 5], bool, char, f32, f64, i128, i16, i32, i64, i8, u128, u16, u32, u64, u8);
nest_opt!(E48, H8, H9, N3, N4, O1, P4);
nest_vec!(E45, H2, I4, I6, N2, N3, N7, N9, S9);
vecs!(E45, H2, I4, I6, N2, N3, N7, N9, S9);
nest_box!(I2, N2, O1, O3, O5, S10);
transparent!(Box<I2> => I2, Box<N2> => N2, Box<O1> => O1, Box<O3> => O3, Box<O5> => O5, Box<S10> => S10);
nest_map!(I1);
