//!! data SizeClass
//!! data Tag
//!! data VARIANT_ID_MASK
//!! data SIZE_CLASS_MASK
//!! data SIZE_CLASS_SHIFT
//!! data EXTENDED_BIT
//!! data SIZE_CLASS_INLINE
//!! data SIZE_CLASS_FIXED
//!! data SIZE_CLASS_VARLEN
//!! data MAX_VARIANTS
//!! fn SizeClass::to_bits : C13
ensures __r as int == scb(self),
//!! fn SizeClass::from_bits : C13
ensures __r is Ok <==> $0 < 3, __r is Ok ==> scb(__r->Ok_0) == $0,
//!! fn Tag::new : C13 C19
requires $0 < 32,
ensures __r.0 as int == $0 + 32 * scb($1),
//!! begin Tag::new
    proof { tag_bits($0, 0); tag_bits($0, 1); tag_bits($0, 2); }
//!! fn Tag::variant_id : C13 C19 C20
ensures __r as int == self.0 as int % 32,
//!! begin Tag::variant_id
    proof { tag_bits(self.0, 0); }
//!! fn Tag::size_class : C13 C19 C20
ensures __r is Ok <==> (self.0 as int / 32) % 4 != 3, __r is Ok ==> scb(__r->Ok_0) == (self.0 as int / 32) % 4,
    __r is Err ==> __r->Err_0 == crate::Error::InvalidOptimisedTag(self.0),
//!! begin Tag::size_class
    proof { tag_bits(self.0, 0); }
//!! fn Tag::is_extended : C13
ensures __r <==> self.0 >= 128,
//!! begin Tag::is_extended
    proof { tag_bits(self.0, 0); }
//!! fn tag::read_tag : C13 C19 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= 1 && __r->Ok_0.0 == (*old($0)).rem()[0] && (*final($0)).rem() == (*old($0)).rem().skip(1),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= 1),
//!! fn tag::write_tag : C13 C19 C12
ensures
    __r is Ok ==> (*final($0)).written() =~= (*old($0)).written() + seq![$1.0],
    (*old($0)).wreliable() ==> (*final($0)).wreliable() && __r is Ok,
//!! fn envelope::encode_inline : C13 C12
requires $1 < 32,
ensures
    __r is Ok ==> (*final($0)).written() =~= (*old($0)).written() + seq![$1],
    (*old($0)).wreliable() ==> (*final($0)).wreliable() && __r is Ok,
//!! fn envelope::read_optimised_tag : C13 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= 1 && __r->Ok_0.0.0 == (*old($0)).rem()[0] && (*final($0)).rem() == (*old($0)).rem().skip(1)
        && scb(__r->Ok_0.1) == ((*old($0)).rem()[0] as int / 32) % 4,
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= 1 && ((*old($0)).rem()[0] as int / 32) % 4 != 3),
//!! fn envelope::read_varlen_len : C13 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= 4 && __r->Ok_0 as nat == le_val((*old($0)).rem().take(4)) && (*final($0)).rem() == (*old($0)).rem().skip(4),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= 4),
//!! begin envelope::read_varlen_len
    proof { broadcast use group_vx; p256_vals(); }
//!! fn envelope::read_varlen_slice : C13
ensures
    (*old($0)).reliable() ==> (__r is Ok <==> env_len((*old($0)).rem()) is Some),
    __r is Ok ==> env_len((*old($0)).rem()) is Some && __r->Ok_0@ =~= (*old($0)).rem().subrange(4, 4 + env_len((*old($0)).rem())->0)
        && (*final($0)).rem() =~= (*old($0)).rem().skip(4 + env_len((*old($0)).rem())->0),
//!! begin envelope::read_varlen_slice
    proof { broadcast use group_vx; p256_vals(); }
//!! fn envelope::skip_varlen : C13 C12
ensures
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> env_len((*old($0)).rem()) is Some),
    __r is Ok ==> env_len((*old($0)).rem()) is Some && (*final($0)).rem() =~= (*old($0)).rem().skip(4 + env_len((*old($0)).rem())->0),
//!! begin envelope::skip_varlen
    proof { broadcast use group_vx; p256_vals(); }
//!! fn envelope::skip_varlen_borrowed : C13
ensures
    (*old($0)).reliable() ==> (__r is Ok <==> env_len((*old($0)).rem()) is Some),
    __r is Ok ==> env_len((*old($0)).rem()) is Some && (*final($0)).rem() =~= (*old($0)).rem().skip(4 + env_len((*old($0)).rem())->0),
//!! begin envelope::skip_varlen_borrowed
    proof { broadcast use group_vx; p256_vals(); }
//!! crate
::vstd::prelude::verus! {
pub mod __vxopt {
use vstd::prelude::*;
use super::__vx::*;
use super::__vxmode::*;
use super::__vxt::*;
use crate::optimised::tag::SizeClass;
pub open spec fn scb(s: SizeClass) -> int { match s { SizeClass::Inline => 0, SizeClass::Fixed => 1, SizeClass::Varlen => 2 } }
pub proof fn tag_bits(b: u8, s: u8)
    ensures b & 0b0001_1111 == b % 32, (b & 0b0110_0000) >> 5 == (b / 32) % 4, (b & 0b1000_0000 != 0) <==> b >= 128,
        b < 32 && s < 3 ==> ((b & 0b0001_1111) | (s << 5)) == b + 32 * s,
{
    assert(b & 0b0001_1111 == b % 32) by (bit_vector);
    assert((b & 0b0110_0000) >> 5 == (b / 32) % 4) by (bit_vector);
    assert((b & 0b1000_0000 != 0) <==> b >= 128) by (bit_vector);
    assert(b < 32 && s < 3 ==> ((b & 0b0001_1111) | (s << 5)) == b + 32 * s) by (bit_vector);
}
/// payload length of the length-delimited body at the start of `s`, if all of it is there
pub open spec fn env_len(s: Seq<u8>) -> Option<int> {
    if s.len() >= 4 && s.len() >= 4 + le_val(s.take(4)) { Some(le_val(s.take(4)) as int) } else { None }
}
}
}
