//!! data Error

//!! fn primitives::read_buffer : C01 C02 C08 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= COUNT && __r->Ok_0@ == (*old($0)).rem().take(COUNT as int)
        && (*final($0)).rem() == (*old($0)).rem().skip(COUNT as int),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= COUNT),
//!! fn primitives::zigzag_64 : C01
ensures __r as nat == zz($0 as int)
//!! begin primitives::zigzag_64
    proof { let x = $0; reveal(zz);
      assert(x >= 0 ==> ((x >> 63) as u64 ^ ((x as u64) << 1)) == 2 * (x as u64)) by (bit_vector);
      assert(x < 0 ==> ((x >> 63) as u64 ^ ((x as u64) << 1)) == -2 * x - 1) by (bit_vector);
    }
//!! fn primitives::gazgiz_64 : C01
ensures __r as int == unzz($0 as nat)
//!! begin primitives::gazgiz_64
    proof { let x = $0; reveal(unzz);
      assert(x & 1 <= 1) by (bit_vector);
      assert(x % 2 == 0 ==> ((x >> 1) as i64 ^ ((-((x & 1) as i64)) as i64)) == x / 2) by (bit_vector);
      assert(x % 2 == 1 ==> ((x >> 1) as i64 ^ ((-((x & 1) as i64)) as i64)) == - ((x / 2) as int) - 1) by (bit_vector);
    }
//!! fn primitives::encode_u64 : C01 C12
ensures
    __r is Ok ==> (*final($0)).written() =~= (*old($0)).written() + uint_enc(8, $1 as nat),
    (*old($0)).wreliable() ==> (*final($0)).wreliable() && __r is Ok,
//!! begin primitives::encode_u64
    proof { broadcast use group_all; p256_vals(); reveal(uint_enc);
      let i = $1 as u64;
      assert(1u64 << 16 == 0x1_0000) by (bit_vector);
      assert(1u64 << 32 == 0x1_0000_0000) by (bit_vector);
      
    }
//!! fn primitives::decode_u64 : C01 C08 C09 C12
ensures
    __r is Ok ==> uint_dec(8, (*old($0)).rem()) == Some((__r->Ok_0 as nat, n_of(uint_dec(8, (*old($0)).rem()))))
        && n_of(uint_dec(8, (*old($0)).rem())) <= (*old($0)).rem().len()
        && (*final($0)).rem() =~= (*old($0)).rem().skip(n_of(uint_dec(8, (*old($0)).rem())) as int),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> uint_dec(8, (*old($0)).rem()) is Some),
//!! begin primitives::decode_u64
    proof { broadcast use group_all; p256_vals(); reveal(uint_dec);
      let s = (*old($0)).rem();
      assert(s.skip(1).take(2) =~= s.subrange(1, 3) || s.len() < 3);
      assert(s.skip(1).take(4) =~= s.subrange(1, 5) || s.len() < 5);
      assert(s.skip(1).take(8) =~= s.subrange(1, 9) || s.len() < 9);
      assert(s.skip(1).take(16) =~= s.subrange(1, 17) || s.len() < 17);
    }
//!! fn primitives::zigzag_128 : C01
ensures __r as nat == zz($0 as int)
//!! begin primitives::zigzag_128
    proof { let x = $0; reveal(zz);
      assert(x >= 0 ==> ((x >> 127) as u128 ^ ((x as u128) << 1)) == 2 * (x as u128)) by (bit_vector);
      assert(x < 0 ==> ((x >> 127) as u128 ^ ((x as u128) << 1)) == -2 * x - 1) by (bit_vector);
    }
//!! fn primitives::gazgiz_128 : C01
ensures __r as int == unzz($0 as nat)
//!! begin primitives::gazgiz_128
    proof { let x = $0; reveal(unzz);
      assert(x & 1 <= 1) by (bit_vector);
      assert(x % 2 == 0 ==> ((x >> 1) as i128 ^ ((-((x & 1) as i128)) as i128)) == x / 2) by (bit_vector);
      assert(x % 2 == 1 ==> ((x >> 1) as i128 ^ ((-((x & 1) as i128)) as i128)) == - ((x / 2) as int) - 1) by (bit_vector);
    }
//!! fn primitives::encode_u128 : C01 C12
ensures
    __r is Ok ==> (*final($0)).written() =~= (*old($0)).written() + uint_enc(16, $1 as nat),
    (*old($0)).wreliable() ==> (*final($0)).wreliable() && __r is Ok,
//!! begin primitives::encode_u128
    proof { broadcast use group_all; p256_vals(); reveal(uint_enc);
      let i = $1 as u128;
      assert(1u128 << 16 == 0x1_0000) by (bit_vector);
      assert(1u128 << 32 == 0x1_0000_0000) by (bit_vector);
      assert(1u128 << 64 == 0x1_0000_0000_0000_0000) by (bit_vector);
    }
//!! fn primitives::decode_u128 : C01 C08 C09 C12
ensures
    __r is Ok ==> uint_dec(16, (*old($0)).rem()) == Some((__r->Ok_0 as nat, n_of(uint_dec(16, (*old($0)).rem()))))
        && n_of(uint_dec(16, (*old($0)).rem())) <= (*old($0)).rem().len()
        && (*final($0)).rem() =~= (*old($0)).rem().skip(n_of(uint_dec(16, (*old($0)).rem())) as int),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> uint_dec(16, (*old($0)).rem()) is Some),
//!! begin primitives::decode_u128
    proof { broadcast use group_all; p256_vals(); reveal(uint_dec);
      let s = (*old($0)).rem();
      assert(s.skip(1).take(2) =~= s.subrange(1, 3) || s.len() < 3);
      assert(s.skip(1).take(4) =~= s.subrange(1, 5) || s.len() < 5);
      assert(s.skip(1).take(8) =~= s.subrange(1, 9) || s.len() < 9);
      assert(s.skip(1).take(16) =~= s.subrange(1, 17) || s.len() < 17);
    }
//!! fn Revisioned for u16::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for u16::serialize_revisioned : C01 C12
//!! begin SerializeRevisioned for u16::serialize_revisioned
    proof { broadcast use group_all; p256_vals(); enc_hint(if (*self) >= 0 { *self as nat } else { 0 }, 2); enc_hint(zz(*self as int), 2); }
//!! fn DeserializeRevisioned for u16::deserialize_revisioned : C01 C08 C09 C12
//!! begin DeserializeRevisioned for u16::deserialize_revisioned
    proof { broadcast use group_all; p256_vals(); dec_narrow((*old($0)).rem(), 2); }
//!! fn Revisioned for u32::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for u32::serialize_revisioned : C01 C12
//!! begin SerializeRevisioned for u32::serialize_revisioned
    proof { broadcast use group_all; p256_vals(); enc_hint(if (*self) >= 0 { *self as nat } else { 0 }, 4); enc_hint(zz(*self as int), 4); }
//!! fn DeserializeRevisioned for u32::deserialize_revisioned : C01 C08 C09 C12
//!! begin DeserializeRevisioned for u32::deserialize_revisioned
    proof { broadcast use group_all; p256_vals(); dec_narrow((*old($0)).rem(), 4); }
//!! fn Revisioned for u64::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for u64::serialize_revisioned : C01 C12
//!! begin SerializeRevisioned for u64::serialize_revisioned
    proof { broadcast use group_all; p256_vals(); enc_hint(if (*self) >= 0 { *self as nat } else { 0 }, 8); enc_hint(zz(*self as int), 8); }
//!! fn DeserializeRevisioned for u64::deserialize_revisioned : C01 C08 C09 C12
//!! begin DeserializeRevisioned for u64::deserialize_revisioned
    proof { broadcast use group_all; p256_vals(); dec_narrow((*old($0)).rem(), 8); }
//!! fn Revisioned for u128::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for u128::serialize_revisioned : C01 C12
//!! begin SerializeRevisioned for u128::serialize_revisioned
    proof { broadcast use group_all; p256_vals(); enc_hint(if (*self) >= 0 { *self as nat } else { 0 }, 16); enc_hint(zz(*self as int), 16); }
//!! fn DeserializeRevisioned for u128::deserialize_revisioned : C01 C08 C09 C12
//!! begin DeserializeRevisioned for u128::deserialize_revisioned
    proof { broadcast use group_all; p256_vals(); dec_narrow((*old($0)).rem(), 16); }
//!! fn Revisioned for usize::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for usize::serialize_revisioned : C01 C12
//!! begin SerializeRevisioned for usize::serialize_revisioned
    proof { broadcast use group_all; p256_vals(); enc_hint(if (*self) >= 0 { *self as nat } else { 0 }, 8); enc_hint(zz(*self as int), 8); }
//!! fn DeserializeRevisioned for usize::deserialize_revisioned : C01 C08 C09 C12
//!! begin DeserializeRevisioned for usize::deserialize_revisioned
    proof { broadcast use group_all; p256_vals(); dec_narrow((*old($0)).rem(), 8); }
//!! fn Revisioned for i16::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for i16::serialize_revisioned : C01 C12
//!! begin SerializeRevisioned for i16::serialize_revisioned
    proof { broadcast use group_all; p256_vals(); zz_rt(*self as int); enc_hint(zz(*self as int), 2); }
//!! fn DeserializeRevisioned for i16::deserialize_revisioned : C01 C08 C09 C12
//!! begin DeserializeRevisioned for i16::deserialize_revisioned
    proof { broadcast use group_all; p256_vals(); let s = (*old($0)).rem(); dec_narrow(s, 2); unzz_fit(v_of(uint_dec(8, s))); unzz_fit(v_of(uint_dec(2, s))); }
//!! fn Revisioned for i32::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for i32::serialize_revisioned : C01 C12
//!! begin SerializeRevisioned for i32::serialize_revisioned
    proof { broadcast use group_all; p256_vals(); zz_rt(*self as int); enc_hint(zz(*self as int), 4); }
//!! fn DeserializeRevisioned for i32::deserialize_revisioned : C01 C08 C09 C12
//!! begin DeserializeRevisioned for i32::deserialize_revisioned
    proof { broadcast use group_all; p256_vals(); let s = (*old($0)).rem(); dec_narrow(s, 4); unzz_fit(v_of(uint_dec(8, s))); unzz_fit(v_of(uint_dec(4, s))); }
//!! fn Revisioned for i64::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for i64::serialize_revisioned : C01 C12
//!! begin SerializeRevisioned for i64::serialize_revisioned
    proof { broadcast use group_all; p256_vals(); zz_rt(*self as int); enc_hint(zz(*self as int), 8); }
//!! fn DeserializeRevisioned for i64::deserialize_revisioned : C01 C08 C09 C12
//!! begin DeserializeRevisioned for i64::deserialize_revisioned
    proof { broadcast use group_all; p256_vals(); let s = (*old($0)).rem(); dec_narrow(s, 8); unzz_fit(v_of(uint_dec(8, s))); unzz_fit(v_of(uint_dec(8, s))); }
//!! fn Revisioned for i128::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for i128::serialize_revisioned : C01 C12
//!! begin SerializeRevisioned for i128::serialize_revisioned
    proof { broadcast use group_all; p256_vals(); zz_rt(*self as int); enc_hint(zz(*self as int), 16); }
//!! fn DeserializeRevisioned for i128::deserialize_revisioned : C01 C08 C09 C12
//!! begin DeserializeRevisioned for i128::deserialize_revisioned
    proof { broadcast use group_all; p256_vals(); let s = (*old($0)).rem(); dec_narrow(s, 16); unzz_fit(v_of(uint_dec(8, s))); unzz_fit(v_of(uint_dec(16, s))); }
//!! fn Revisioned for isize::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for isize::serialize_revisioned : C01 C12
//!! begin SerializeRevisioned for isize::serialize_revisioned
    proof { broadcast use group_all; p256_vals(); zz_rt(*self as int); enc_hint(zz(*self as int), 8); }
//!! fn DeserializeRevisioned for isize::deserialize_revisioned : C01 C08 C09 C12
//!! begin DeserializeRevisioned for isize::deserialize_revisioned
    proof { broadcast use group_all; p256_vals(); let s = (*old($0)).rem(); dec_narrow(s, 8); unzz_fit(v_of(uint_dec(8, s))); unzz_fit(v_of(uint_dec(8, s))); }
//!! fn Revisioned for u8::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for u8::serialize_revisioned : C01 C12
//!! begin SerializeRevisioned for u8::serialize_revisioned
    proof { broadcast use group_all; p256_vals();  }
//!! fn DeserializeRevisioned for u8::deserialize_revisioned : C01 C08 C09 C12
//!! begin DeserializeRevisioned for u8::deserialize_revisioned
    proof { broadcast use group_all; p256_vals();  }
//!! fn Revisioned for i8::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for i8::serialize_revisioned : C01 C12
//!! begin SerializeRevisioned for i8::serialize_revisioned
    proof { broadcast use group_all; p256_vals(); let x = *self; assert(x >= 0 ==> (x as u8) == x) by (bit_vector); assert(x < 0 ==> (x as u8) == x + 256) by (bit_vector); }
//!! fn DeserializeRevisioned for i8::deserialize_revisioned : C01 C08 C09 C12
//!! begin DeserializeRevisioned for i8::deserialize_revisioned
    proof { broadcast use group_all; p256_vals(); assert forall|b: u8| #[trigger] (b as i8) as int == untwos(b as nat, 1) by { assert(b < 128 ==> (b as i8) == b) by (bit_vector); assert(b >= 128 ==> (b as i8) == b - 256) by (bit_vector); } }
//!! fn Revisioned for bool::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for bool::serialize_revisioned : C02 C12
//!! begin SerializeRevisioned for bool::serialize_revisioned
    proof { broadcast use group_all; p256_vals();  }
//!! fn DeserializeRevisioned for bool::deserialize_revisioned : C02 C08 C09 C12
//!! begin DeserializeRevisioned for bool::deserialize_revisioned
    proof { broadcast use group_all; p256_vals();  }
//!! fn Revisioned for f32::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for f32::serialize_revisioned : C02 C12
//!! begin SerializeRevisioned for f32::serialize_revisioned
    proof { broadcast use group_all; p256_vals();  }
//!! fn DeserializeRevisioned for f32::deserialize_revisioned : C02 C08 C09 C12
//!! begin DeserializeRevisioned for f32::deserialize_revisioned
    proof { broadcast use group_all; p256_vals();  }
//!! fn Revisioned for f64::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for f64::serialize_revisioned : C02 C12
//!! begin SerializeRevisioned for f64::serialize_revisioned
    proof { broadcast use group_all; p256_vals();  }
//!! fn DeserializeRevisioned for f64::deserialize_revisioned : C02 C08 C09 C12
//!! begin DeserializeRevisioned for f64::deserialize_revisioned
    proof { broadcast use group_all; p256_vals();  }
//!! fn primitives::encode_u32_fixed_le : C21 C12
ensures
    __r is Ok ==> (*final($1)).written() =~= (*old($1)).written() + le_bytes($0 as nat, 4),
    (*old($1)).wreliable() ==> (*final($1)).wreliable() && __r is Ok,
//!! fn primitives::decode_u32_fixed_le : C21 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= 4 && (*final($0)).rem() =~= (*old($0)).rem().skip(4)
        && __r->Ok_0 as nat == le_val((*old($0)).rem().take(4)),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= 4),
//!! fn primitives::skip_u32_fixed_le : C21 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= 4 && (*final($0)).rem() =~= (*old($0)).rem().skip(4),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= 4),
//!! fn primitives::encode_i32_fixed_le : C21 C12
ensures
    __r is Ok ==> (*final($1)).written() =~= (*old($1)).written() + le_bytes(twos($0 as int, 4), 4),
    (*old($1)).wreliable() ==> (*final($1)).wreliable() && __r is Ok,
//!! fn primitives::decode_i32_fixed_le : C21 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= 4 && (*final($0)).rem() =~= (*old($0)).rem().skip(4)
        && twos(__r->Ok_0 as int, 4) == le_val((*old($0)).rem().take(4)),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= 4),
//!! fn primitives::skip_i32_fixed_le : C21 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= 4 && (*final($0)).rem() =~= (*old($0)).rem().skip(4),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= 4),
//!! fn primitives::encode_u64_fixed_le : C21 C12
ensures
    __r is Ok ==> (*final($1)).written() =~= (*old($1)).written() + le_bytes($0 as nat, 8),
    (*old($1)).wreliable() ==> (*final($1)).wreliable() && __r is Ok,
//!! fn primitives::decode_u64_fixed_le : C21 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= 8 && (*final($0)).rem() =~= (*old($0)).rem().skip(8)
        && __r->Ok_0 as nat == le_val((*old($0)).rem().take(8)),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= 8),
//!! fn primitives::skip_u64_fixed_le : C21 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= 8 && (*final($0)).rem() =~= (*old($0)).rem().skip(8),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= 8),
//!! fn primitives::encode_i64_fixed_le : C21 C12
ensures
    __r is Ok ==> (*final($1)).written() =~= (*old($1)).written() + le_bytes(twos($0 as int, 8), 8),
    (*old($1)).wreliable() ==> (*final($1)).wreliable() && __r is Ok,
//!! fn primitives::decode_i64_fixed_le : C21 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= 8 && (*final($0)).rem() =~= (*old($0)).rem().skip(8)
        && twos(__r->Ok_0 as int, 8) == le_val((*old($0)).rem().take(8)),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= 8),
//!! fn primitives::skip_i64_fixed_le : C21 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= 8 && (*final($0)).rem() =~= (*old($0)).rem().skip(8),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= 8),
//!! fn primitives::encode_u128_fixed_le : C21 C12
ensures
    __r is Ok ==> (*final($1)).written() =~= (*old($1)).written() + le_bytes($0 as nat, 16),
    (*old($1)).wreliable() ==> (*final($1)).wreliable() && __r is Ok,
//!! fn primitives::decode_u128_fixed_le : C21 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= 16 && (*final($0)).rem() =~= (*old($0)).rem().skip(16)
        && __r->Ok_0 as nat == le_val((*old($0)).rem().take(16)),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= 16),
//!! fn primitives::skip_u128_fixed_le : C21 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= 16 && (*final($0)).rem() =~= (*old($0)).rem().skip(16),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= 16),
//!! fn primitives::encode_i128_fixed_le : C21 C12
ensures
    __r is Ok ==> (*final($1)).written() =~= (*old($1)).written() + le_bytes(twos($0 as int, 16), 16),
    (*old($1)).wreliable() ==> (*final($1)).wreliable() && __r is Ok,
//!! fn primitives::decode_i128_fixed_le : C21 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= 16 && (*final($0)).rem() =~= (*old($0)).rem().skip(16)
        && twos(__r->Ok_0 as int, 16) == le_val((*old($0)).rem().take(16)),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= 16),
//!! fn primitives::skip_i128_fixed_le : C21 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= 16 && (*final($0)).rem() =~= (*old($0)).rem().skip(16),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= 16),
//!! crate
::vstd::prelude::verus! {
pub mod __vxprims {
use vstd::prelude::*;
use super::__vx::*;
use super::__vxmode::*;
use super::__vxt::*;
use std::io;
pub open spec fn sint(w: nat) -> Fmt {
    Fmt::Conv(Box::new(Fmt::UInt(w)), |v: Val| Some(Val::N(unzz(v->N_0 as nat))), |v: Val| Val::N(zz(v->N_0) as int))
}
pub open spec fn bool_fmt() -> Fmt {
    Fmt::Conv(Box::new(Fmt::U8), |v: Val| if v->N_0 == 0 || v->N_0 == 1 { Some(v) } else { None }, |v: Val| v)
}
impl RevSpecImpl for u16 {
    open spec fn fmt() -> Fmt { Fmt::UInt(2) }
    open spec fn model(&self) -> Val { Val::N(*self as int) }
}
impl RevSpecImpl for u32 {
    open spec fn fmt() -> Fmt { Fmt::UInt(4) }
    open spec fn model(&self) -> Val { Val::N(*self as int) }
}
impl RevSpecImpl for u64 {
    open spec fn fmt() -> Fmt { Fmt::UInt(8) }
    open spec fn model(&self) -> Val { Val::N(*self as int) }
}
impl RevSpecImpl for u128 {
    open spec fn fmt() -> Fmt { Fmt::UInt(16) }
    open spec fn model(&self) -> Val { Val::N(*self as int) }
}
impl RevSpecImpl for usize {
    open spec fn fmt() -> Fmt { Fmt::UInt(8) }
    open spec fn model(&self) -> Val { Val::N(*self as int) }
}
impl RevSpecImpl for i16 {
    open spec fn fmt() -> Fmt { sint(2) }
    open spec fn model(&self) -> Val { Val::N(*self as int) }
}
impl RevSpecImpl for i32 {
    open spec fn fmt() -> Fmt { sint(4) }
    open spec fn model(&self) -> Val { Val::N(*self as int) }
}
impl RevSpecImpl for i64 {
    open spec fn fmt() -> Fmt { sint(8) }
    open spec fn model(&self) -> Val { Val::N(*self as int) }
}
impl RevSpecImpl for i128 {
    open spec fn fmt() -> Fmt { sint(16) }
    open spec fn model(&self) -> Val { Val::N(*self as int) }
}
impl RevSpecImpl for isize {
    open spec fn fmt() -> Fmt { sint(8) }
    open spec fn model(&self) -> Val { Val::N(*self as int) }
}
impl RevSpecImpl for u8 {
    open spec fn fmt() -> Fmt { Fmt::U8 }
    open spec fn model(&self) -> Val { Val::N(*self as int) }
}
impl RevSpecImpl for i8 {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::U8), |v: Val| Some(Val::N(untwos(v->N_0 as nat, 1))), |v: Val| Val::N(twos(v->N_0, 1) as int)) }
    open spec fn model(&self) -> Val { Val::N(*self as int) }
}
impl RevSpecImpl for bool {
    open spec fn fmt() -> Fmt { bool_fmt() }
    open spec fn model(&self) -> Val { Val::N(if *self { 1 } else { 0 }) }
}
impl RevSpecImpl for f32 {
    open spec fn fmt() -> Fmt { Fmt::Raw(4) }
    open spec fn model(&self) -> Val { Val::N(f32_bits(*self) as int) }
}
impl RevSpecImpl for f64 {
    open spec fn fmt() -> Fmt { Fmt::Raw(8) }
    open spec fn model(&self) -> Val { Val::N(f64_bits(*self) as int) }
}
}
} // verus!
