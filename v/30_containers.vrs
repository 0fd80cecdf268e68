//!! fn SkipRevisioned for bool::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for bool::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for bool::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for bool::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for usize::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for usize::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for usize::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for usize::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for isize::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for isize::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for isize::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for isize::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for u8::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for u8::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for u8::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for u8::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for i8::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for i8::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for i8::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for i8::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for u16::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for u16::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for u16::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for u16::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for i16::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for i16::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for i16::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for i16::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for u32::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for u32::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for u32::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for u32::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for i32::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for i32::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for i32::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for i32::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for u64::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for u64::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for u64::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for u64::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for i64::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for i64::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for i64::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for i64::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for u128::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for u128::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for u128::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for u128::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for i128::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for i128::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for i128::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for i128::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for f32::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for f32::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for f32::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for f32::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for f64::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for f64::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for f64::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for f64::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for Option<T>::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for Option<T>::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for Option<T>::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn DeserializeRevisioned for Option<T>::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for Option<T>::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Option<T>::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for Option<T>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Option<T>::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for Option<T>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for Option<T>::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for Option<T>::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for Result<T, E>::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for Result<T, E>::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for Result<T, E>::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn DeserializeRevisioned for Result<T, E>::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for Result<T, E>::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Result<T, E>::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for Result<T, E>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Result<T, E>::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for Result<T, E>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for Result<T, E>::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for Result<T, E>::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for Bound<T>::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for Bound<T>::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for Bound<T>::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn DeserializeRevisioned for Bound<T>::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for Bound<T>::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Bound<T>::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for Bound<T>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Bound<T>::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for Bound<T>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for Bound<T>::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for Bound<T>::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for Range<T>::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for Range<T>::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for Range<T>::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn DeserializeRevisioned for Range<T>::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for Range<T>::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Range<T>::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for Range<T>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Range<T>::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for Range<T>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for Range<T>::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for Range<T>::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for Box<T>::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for Box<T>::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for Box<T>::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn DeserializeRevisioned for Box<T>::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for Box<T>::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Box<T>::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for Box<T>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Box<T>::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for Box<T>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for Box<T>::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for Box<T>::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for Arc<T>::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for Arc<T>::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for Arc<T>::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn DeserializeRevisioned for Arc<T>::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for Arc<T>::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Arc<T>::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for Arc<T>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Arc<T>::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for Arc<T>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for Arc<T>::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for Arc<T>::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for ()::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for ()::serialize_revisioned : C02 C03 C12
//!! begin SerializeRevisioned for ()::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn DeserializeRevisioned for ()::deserialize_revisioned : C02 C03 C08 C09 C12
//!! begin DeserializeRevisioned for ()::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for (A,)::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for (A,)::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for (A,)::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn DeserializeRevisioned for (A,)::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for (A,)::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for (A,)::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for (A,)::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for (A,)::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for (A,)::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for (A,)::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for (A,)::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for (A, B)::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for (A, B)::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for (A, B)::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn DeserializeRevisioned for (A, B)::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for (A, B)::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for (A, B)::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for (A, B)::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for (A, B)::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for (A, B)::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for (A, B)::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for (A, B)::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for (A, B, C)::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for (A, B, C)::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for (A, B, C)::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn DeserializeRevisioned for (A, B, C)::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for (A, B, C)::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for (A, B, C)::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for (A, B, C)::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for (A, B, C)::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for (A, B, C)::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for (A, B, C)::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for (A, B, C)::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for (A, B, C, D)::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for (A, B, C, D)::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for (A, B, C, D)::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();   }
//!! fn DeserializeRevisioned for (A, B, C, D)::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for (A, B, C, D)::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();   }
//!! fn SkipRevisioned for (A, B, C, D)::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for (A, B, C, D)::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();   }
//!! fn SkipRevisioned for (A, B, C, D)::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for (A, B, C, D)::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();   }
//!! fn SkipCheckRevisioned for (A, B, C, D)::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for (A, B, C, D)::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();   }
//!! attr DeserializeRevisioned for (A, B, C, D)::deserialize_revisioned
#[verifier::rlimit(80)]
//!! attr SkipRevisioned for (A, B, C, D)::skip_revisioned
#[verifier::rlimit(80)]
//!! attr SkipRevisioned for (A, B, C, D)::skip_revisioned_slice
#[verifier::rlimit(80)]
//!! attr SkipCheckRevisioned for (A, B, C, D)::skip_check_revisioned
#[verifier::rlimit(80)]
//!! fn Revisioned for (A, B, C, D, E)::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for (A, B, C, D, E)::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for (A, B, C, D, E)::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();   }
//!! fn DeserializeRevisioned for (A, B, C, D, E)::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for (A, B, C, D, E)::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();   }
//!! fn SkipRevisioned for (A, B, C, D, E)::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for (A, B, C, D, E)::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();   }
//!! fn SkipRevisioned for (A, B, C, D, E)::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for (A, B, C, D, E)::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();   }
//!! fn SkipCheckRevisioned for (A, B, C, D, E)::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for (A, B, C, D, E)::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();   }
//!! attr DeserializeRevisioned for (A, B, C, D, E)::deserialize_revisioned
#[verifier::rlimit(80)]
//!! attr SkipRevisioned for (A, B, C, D, E)::skip_revisioned
#[verifier::rlimit(80)]
//!! attr SkipRevisioned for (A, B, C, D, E)::skip_revisioned_slice
#[verifier::rlimit(80)]
//!! attr SkipCheckRevisioned for (A, B, C, D, E)::skip_check_revisioned
#[verifier::rlimit(80)]
//!! fn Revisioned for (A, B, C, D, E, F)::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for (A, B, C, D, E, F)::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for (A, B, C, D, E, F)::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();   }
//!! fn DeserializeRevisioned for (A, B, C, D, E, F)::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for (A, B, C, D, E, F)::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();   }
//!! fn SkipRevisioned for (A, B, C, D, E, F)::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for (A, B, C, D, E, F)::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();   }
//!! fn SkipRevisioned for (A, B, C, D, E, F)::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for (A, B, C, D, E, F)::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();   }
//!! fn SkipCheckRevisioned for (A, B, C, D, E, F)::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for (A, B, C, D, E, F)::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();   }
//!! attr DeserializeRevisioned for (A, B, C, D, E, F)::deserialize_revisioned
#[verifier::rlimit(80)]
//!! attr SkipRevisioned for (A, B, C, D, E, F)::skip_revisioned
#[verifier::rlimit(80)]
//!! attr SkipRevisioned for (A, B, C, D, E, F)::skip_revisioned_slice
#[verifier::rlimit(80)]
//!! attr SkipCheckRevisioned for (A, B, C, D, E, F)::skip_check_revisioned
#[verifier::rlimit(80)]
//!! fn Revisioned for [T; 1]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 1]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 1]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 1]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 1]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 1]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 1]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 1]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 1]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 1]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 1]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 1]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 1 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 1]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 1, s1))); }
//!! fn SkipRevisioned for [T; 1]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 1]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 1]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 1]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 1]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 1 as nat, s1); }
//!! fn SkipRevisioned for [T; 1]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 1]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 1]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 1]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 1]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 1 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 1]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 1]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 1]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 1]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 1]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 1 as nat, s1); }
//!! fn Revisioned for [T; 2]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 2]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 2]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 2]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 2]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 2]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 2]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 2]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 2]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 2]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 2]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 2]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 2 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 2]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 2, s1))); }
//!! fn SkipRevisioned for [T; 2]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 2]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 2]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 2]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 2]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 2 as nat, s1); }
//!! fn SkipRevisioned for [T; 2]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 2]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 2]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 2]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 2]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 2 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 2]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 2]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 2]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 2]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 2]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 2 as nat, s1); }
//!! fn Revisioned for [T; 3]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 3]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 3]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 3]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 3]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 3]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 3]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 3]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 3]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 3]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 3]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 3]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 3 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 3]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 3, s1))); }
//!! fn SkipRevisioned for [T; 3]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 3]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 3]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 3]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 3]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 3 as nat, s1); }
//!! fn SkipRevisioned for [T; 3]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 3]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 3]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 3]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 3]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 3 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 3]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 3]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 3]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 3]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 3]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 3 as nat, s1); }
//!! fn Revisioned for [T; 4]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 4]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 4]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 4]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 4]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 4]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 4]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 4]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 4]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 4]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 4]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 4]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 4 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 4]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 4, s1))); }
//!! fn SkipRevisioned for [T; 4]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 4]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 4]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 4]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 4]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 4 as nat, s1); }
//!! fn SkipRevisioned for [T; 4]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 4]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 4]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 4]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 4]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 4 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 4]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 4]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 4]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 4]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 4]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 4 as nat, s1); }
//!! fn Revisioned for [T; 5]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 5]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 5]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 5]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 5]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 5]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 5]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 5]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 5]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 5]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 5]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 5]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 5 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 5]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 5, s1))); }
//!! fn SkipRevisioned for [T; 5]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 5]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 5]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 5]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 5]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 5 as nat, s1); }
//!! fn SkipRevisioned for [T; 5]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 5]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 5]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 5]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 5]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 5 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 5]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 5]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 5]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 5]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 5]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 5 as nat, s1); }
//!! fn Revisioned for [T; 6]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 6]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 6]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 6]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 6]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 6]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 6]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 6]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 6]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 6]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 6]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 6]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 6 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 6]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 6, s1))); }
//!! fn SkipRevisioned for [T; 6]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 6]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 6]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 6]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 6]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 6 as nat, s1); }
//!! fn SkipRevisioned for [T; 6]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 6]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 6]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 6]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 6]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 6 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 6]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 6]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 6]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 6]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 6]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 6 as nat, s1); }
//!! fn Revisioned for [T; 7]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 7]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 7]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 7]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 7]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 7]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 7]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 7]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 7]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 7]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 7]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 7]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 7 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 7]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 7, s1))); }
//!! fn SkipRevisioned for [T; 7]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 7]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 7]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 7]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 7]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 7 as nat, s1); }
//!! fn SkipRevisioned for [T; 7]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 7]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 7]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 7]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 7]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 7 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 7]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 7]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 7]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 7]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 7]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 7 as nat, s1); }
//!! fn Revisioned for [T; 8]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 8]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 8]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 8]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 8]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 8]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 8]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 8]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 8]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 8]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 8]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 8]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 8 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 8]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 8, s1))); }
//!! fn SkipRevisioned for [T; 8]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 8]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 8]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 8]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 8]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 8 as nat, s1); }
//!! fn SkipRevisioned for [T; 8]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 8]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 8]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 8]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 8]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 8 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 8]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 8]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 8]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 8]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 8]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 8 as nat, s1); }
//!! fn Revisioned for [T; 9]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 9]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 9]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 9]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 9]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 9]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 9]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 9]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 9]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 9]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 9]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 9]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 9 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 9]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 9, s1))); }
//!! fn SkipRevisioned for [T; 9]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 9]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 9]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 9]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 9]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 9 as nat, s1); }
//!! fn SkipRevisioned for [T; 9]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 9]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 9]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 9]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 9]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 9 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 9]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 9]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 9]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 9]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 9]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 9 as nat, s1); }
//!! fn Revisioned for [T; 10]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 10]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 10]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 10]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 10]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 10]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 10]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 10]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 10]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 10]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 10]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 10]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 10 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 10]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 10, s1))); }
//!! fn SkipRevisioned for [T; 10]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 10]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 10]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 10]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 10]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 10 as nat, s1); }
//!! fn SkipRevisioned for [T; 10]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 10]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 10]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 10]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 10]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 10 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 10]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 10]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 10]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 10]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 10]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 10 as nat, s1); }
//!! fn Revisioned for [T; 11]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 11]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 11]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 11]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 11]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 11]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 11]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 11]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 11]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 11]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 11]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 11]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 11 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 11]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 11, s1))); }
//!! fn SkipRevisioned for [T; 11]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 11]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 11]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 11]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 11]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 11 as nat, s1); }
//!! fn SkipRevisioned for [T; 11]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 11]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 11]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 11]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 11]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 11 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 11]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 11]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 11]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 11]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 11]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 11 as nat, s1); }
//!! fn Revisioned for [T; 12]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 12]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 12]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 12]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 12]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 12]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 12]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 12]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 12]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 12]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 12]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 12]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 12 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 12]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 12, s1))); }
//!! fn SkipRevisioned for [T; 12]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 12]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 12]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 12]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 12]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 12 as nat, s1); }
//!! fn SkipRevisioned for [T; 12]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 12]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 12]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 12]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 12]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 12 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 12]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 12]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 12]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 12]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 12]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 12 as nat, s1); }
//!! fn Revisioned for [T; 13]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 13]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 13]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 13]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 13]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 13]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 13]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 13]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 13]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 13]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 13]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 13]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 13 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 13]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 13, s1))); }
//!! fn SkipRevisioned for [T; 13]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 13]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 13]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 13]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 13]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 13 as nat, s1); }
//!! fn SkipRevisioned for [T; 13]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 13]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 13]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 13]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 13]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 13 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 13]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 13]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 13]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 13]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 13]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 13 as nat, s1); }
//!! fn Revisioned for [T; 14]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 14]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 14]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 14]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 14]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 14]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 14]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 14]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 14]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 14]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 14]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 14]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 14 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 14]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 14, s1))); }
//!! fn SkipRevisioned for [T; 14]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 14]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 14]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 14]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 14]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 14 as nat, s1); }
//!! fn SkipRevisioned for [T; 14]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 14]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 14]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 14]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 14]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 14 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 14]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 14]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 14]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 14]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 14]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 14 as nat, s1); }
//!! fn Revisioned for [T; 15]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 15]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 15]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 15]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 15]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 15]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 15]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 15]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 15]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 15]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 15]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 15]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 15 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 15]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 15, s1))); }
//!! fn SkipRevisioned for [T; 15]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 15]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 15]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 15]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 15]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 15 as nat, s1); }
//!! fn SkipRevisioned for [T; 15]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 15]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 15]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 15]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 15]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 15 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 15]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 15]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 15]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 15]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 15]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 15 as nat, s1); }
//!! fn Revisioned for [T; 16]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 16]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 16]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 16]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 16]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 16]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 16]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 16]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 16]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 16]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 16]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 16]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 16 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 16]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 16, s1))); }
//!! fn SkipRevisioned for [T; 16]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 16]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 16]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 16]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 16]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 16 as nat, s1); }
//!! fn SkipRevisioned for [T; 16]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 16]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 16]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 16]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 16]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 16 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 16]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 16]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 16]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 16]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 16]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 16 as nat, s1); }
//!! fn Revisioned for [T; 17]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 17]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 17]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 17]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 17]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 17]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 17]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 17]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 17]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 17]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 17]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 17]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 17 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 17]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 17, s1))); }
//!! fn SkipRevisioned for [T; 17]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 17]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 17]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 17]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 17]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 17 as nat, s1); }
//!! fn SkipRevisioned for [T; 17]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 17]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 17]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 17]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 17]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 17 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 17]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 17]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 17]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 17]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 17]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 17 as nat, s1); }
//!! fn Revisioned for [T; 18]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 18]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 18]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 18]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 18]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 18]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 18]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 18]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 18]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 18]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 18]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 18]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 18 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 18]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 18, s1))); }
//!! fn SkipRevisioned for [T; 18]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 18]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 18]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 18]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 18]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 18 as nat, s1); }
//!! fn SkipRevisioned for [T; 18]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 18]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 18]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 18]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 18]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 18 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 18]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 18]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 18]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 18]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 18]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 18 as nat, s1); }
//!! fn Revisioned for [T; 19]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 19]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 19]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 19]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 19]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 19]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 19]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 19]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 19]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 19]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 19]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 19]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 19 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 19]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 19, s1))); }
//!! fn SkipRevisioned for [T; 19]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 19]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 19]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 19]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 19]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 19 as nat, s1); }
//!! fn SkipRevisioned for [T; 19]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 19]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 19]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 19]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 19]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 19 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 19]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 19]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 19]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 19]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 19]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 19 as nat, s1); }
//!! fn Revisioned for [T; 20]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 20]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 20]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 20]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 20]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 20]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 20]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 20]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 20]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 20]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 20]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 20]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 20 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 20]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 20, s1))); }
//!! fn SkipRevisioned for [T; 20]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 20]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 20]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 20]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 20]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 20 as nat, s1); }
//!! fn SkipRevisioned for [T; 20]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 20]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 20]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 20]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 20]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 20 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 20]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 20]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 20]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 20]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 20]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 20 as nat, s1); }
//!! fn Revisioned for [T; 21]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 21]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 21]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 21]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 21]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 21]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 21]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 21]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 21]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 21]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 21]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 21]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 21 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 21]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 21, s1))); }
//!! fn SkipRevisioned for [T; 21]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 21]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 21]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 21]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 21]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 21 as nat, s1); }
//!! fn SkipRevisioned for [T; 21]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 21]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 21]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 21]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 21]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 21 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 21]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 21]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 21]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 21]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 21]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 21 as nat, s1); }
//!! fn Revisioned for [T; 22]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 22]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 22]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 22]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 22]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 22]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 22]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 22]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 22]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 22]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 22]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 22]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 22 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 22]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 22, s1))); }
//!! fn SkipRevisioned for [T; 22]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 22]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 22]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 22]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 22]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 22 as nat, s1); }
//!! fn SkipRevisioned for [T; 22]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 22]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 22]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 22]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 22]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 22 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 22]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 22]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 22]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 22]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 22]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 22 as nat, s1); }
//!! fn Revisioned for [T; 23]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 23]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 23]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 23]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 23]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 23]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 23]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 23]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 23]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 23]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 23]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 23]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 23 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 23]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 23, s1))); }
//!! fn SkipRevisioned for [T; 23]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 23]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 23]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 23]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 23]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 23 as nat, s1); }
//!! fn SkipRevisioned for [T; 23]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 23]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 23]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 23]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 23]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 23 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 23]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 23]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 23]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 23]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 23]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 23 as nat, s1); }
//!! fn Revisioned for [T; 24]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 24]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 24]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 24]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 24]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 24]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 24]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 24]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 24]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 24]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 24]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 24]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 24 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 24]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 24, s1))); }
//!! fn SkipRevisioned for [T; 24]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 24]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 24]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 24]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 24]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 24 as nat, s1); }
//!! fn SkipRevisioned for [T; 24]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 24]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 24]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 24]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 24]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 24 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 24]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 24]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 24]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 24]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 24]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 24 as nat, s1); }
//!! fn Revisioned for [T; 25]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 25]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 25]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 25]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 25]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 25]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 25]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 25]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 25]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 25]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 25]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 25]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 25 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 25]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 25, s1))); }
//!! fn SkipRevisioned for [T; 25]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 25]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 25]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 25]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 25]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 25 as nat, s1); }
//!! fn SkipRevisioned for [T; 25]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 25]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 25]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 25]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 25]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 25 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 25]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 25]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 25]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 25]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 25]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 25 as nat, s1); }
//!! fn Revisioned for [T; 26]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 26]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 26]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 26]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 26]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 26]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 26]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 26]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 26]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 26]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 26]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 26]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 26 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 26]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 26, s1))); }
//!! fn SkipRevisioned for [T; 26]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 26]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 26]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 26]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 26]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 26 as nat, s1); }
//!! fn SkipRevisioned for [T; 26]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 26]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 26]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 26]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 26]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 26 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 26]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 26]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 26]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 26]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 26]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 26 as nat, s1); }
//!! fn Revisioned for [T; 27]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 27]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 27]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 27]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 27]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 27]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 27]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 27]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 27]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 27]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 27]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 27]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 27 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 27]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 27, s1))); }
//!! fn SkipRevisioned for [T; 27]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 27]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 27]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 27]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 27]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 27 as nat, s1); }
//!! fn SkipRevisioned for [T; 27]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 27]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 27]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 27]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 27]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 27 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 27]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 27]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 27]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 27]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 27]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 27 as nat, s1); }
//!! fn Revisioned for [T; 28]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 28]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 28]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 28]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 28]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 28]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 28]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 28]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 28]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 28]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 28]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 28]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 28 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 28]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 28, s1))); }
//!! fn SkipRevisioned for [T; 28]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 28]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 28]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 28]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 28]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 28 as nat, s1); }
//!! fn SkipRevisioned for [T; 28]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 28]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 28]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 28]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 28]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 28 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 28]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 28]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 28]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 28]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 28]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 28 as nat, s1); }
//!! fn Revisioned for [T; 29]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 29]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 29]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 29]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 29]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 29]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 29]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 29]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 29]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 29]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 29]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 29]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 29 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 29]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 29, s1))); }
//!! fn SkipRevisioned for [T; 29]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 29]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 29]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 29]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 29]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 29 as nat, s1); }
//!! fn SkipRevisioned for [T; 29]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 29]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 29]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 29]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 29]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 29 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 29]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 29]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 29]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 29]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 29]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 29 as nat, s1); }
//!! fn Revisioned for [T; 30]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 30]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 30]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 30]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 30]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 30]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 30]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 30]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 30]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 30]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 30]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 30]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 30 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 30]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 30, s1))); }
//!! fn SkipRevisioned for [T; 30]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 30]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 30]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 30]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 30]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 30 as nat, s1); }
//!! fn SkipRevisioned for [T; 30]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 30]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 30]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 30]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 30]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 30 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 30]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 30]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 30]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 30]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 30]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 30 as nat, s1); }
//!! fn Revisioned for [T; 31]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 31]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 31]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 31]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 31]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 31]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 31]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 31]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 31]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 31]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 31]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 31]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 31 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 31]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 31, s1))); }
//!! fn SkipRevisioned for [T; 31]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 31]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 31]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 31]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 31]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 31 as nat, s1); }
//!! fn SkipRevisioned for [T; 31]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 31]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 31]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 31]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 31]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 31 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 31]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 31]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 31]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 31]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 31]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 31 as nat, s1); }
//!! fn Revisioned for [T; 32]::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for [T; 32]::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for [T; 32]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@);
//!! loop SerializeRevisioned for [T; 32]::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for [T; 32]::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for [T; 32]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for [T; 32]::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for [T; 32]::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for [T; 32]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop DeserializeRevisioned for [T; 32]::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    forall|j: int| 0 <= j < __it0.index@ ==> ($let{T :: default ()})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],
//!! loopbefore DeserializeRevisioned for [T; 32]::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for [T; 32]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 32 as nat, s1); }
//!! loopafter DeserializeRevisioned for [T; 32]::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{T :: default ()})@) =~= v_of(decn(T::fmt(), 32, s1))); }
//!! fn SkipRevisioned for [T; 32]::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 32]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 32]::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for [T; 32]::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 32]::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 32 as nat, s1); }
//!! fn SkipRevisioned for [T; 32]::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for [T; 32]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipRevisioned for [T; 32]::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for [T; 32]::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for [T; 32]::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 32 as nat, s1); }
//!! fn SkipCheckRevisioned for [T; 32]::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for [T; 32]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! loop SkipCheckRevisioned for [T; 32]::skip_check_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipCheckRevisioned for [T; 32]::skip_check_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipCheckRevisioned for [T; 32]::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, 32 as nat, s1); }
//!! fn Revisioned for Vec<T>::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for Vec<T>::serialize_revisioned : C03 C04 C05 C12
//!! begin SerializeRevisioned for Vec<T>::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
    let ghost ms = models(self@); proof { encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); if ms.len() == 0 { assert(ms =~= Seq::empty()); } }
//!! loop SerializeRevisioned for Vec<T>::serialize_revisioned
invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
//!! loopbefore SerializeRevisioned for Vec<T>::serialize_revisioned
    let ghost w1 = (*$0).written();
    proof { broadcast use {group_vx, group_fmt}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }
//!! loopbegin SerializeRevisioned for Vec<T>::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }
//!! loopafter SerializeRevisioned for Vec<T>::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(ms.take(ms.len() as int) =~= ms); }
//!! fn DeserializeRevisioned for Vec<T>::deserialize_revisioned : C03 C04 C05 C08 C09 C12
//!! begin DeserializeRevisioned for Vec<T>::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).rem(), Seq::empty());  if let Some((l, n)) = uint_dec(8, (*old($0)).rem()) { decn_step(T::fmt(), 0, (*old($0)).rem().skip(n as int)); assert(models(Seq::<T>::empty()) =~= Seq::<Val>::empty()); } }
//!! loop DeserializeRevisioned for Vec<T>::deserialize_revisioned
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    models(($let{with_capacity})@) =~= v_of(decn(T::fmt(), __it0.index@ as nat, s1)),
//!! loopbefore DeserializeRevisioned for Vec<T>::deserialize_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, s1); }
//!! loopbegin DeserializeRevisioned for Vec<T>::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, $let{usize::deserialize_revisioned} as nat, s1); }
//!! loopafter DeserializeRevisioned for Vec<T>::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{with_capacity})@) =~= v_of(decn(T::fmt(), $let{usize::deserialize_revisioned} as nat, s1))); }
//!! fn SkipRevisioned for Vec<T>::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for Vec<T>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).rem(), Seq::empty()); }
//!! loop SkipRevisioned for Vec<T>::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for Vec<T>::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for Vec<T>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, $let{usize::deserialize_revisioned} as nat, s1); }
//!! fn SkipRevisioned for Vec<T>::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for Vec<T>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).left(), Seq::empty()); }
//!! loop SkipRevisioned for Vec<T>::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for Vec<T>::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for Vec<T>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, $let{usize::deserialize_revisioned} as nat, s1); }
//!! fn SkipCheckRevisioned for Vec<T>::skip_check_revisioned : C07 C08 C12
//!! begin SkipCheckRevisioned for Vec<T>::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for String::revision : C05 C17
ensures __r == 1,
//!! fn Revisioned for str::revision : C05 C17
ensures __r == 1,
//!! fn vecs::serialize_bytes : C03 C05 C12
ensures
    __r is Ok ==> (*final($1)).written() =~= (*old($1)).written() + uint_enc(8, $0@.len()) + $0@ && $0@.len() <= usize::MAX,
    (*old($1)).wreliable() ==> (*final($1)).wreliable() && __r is Ok,
//!! begin vecs::serialize_bytes
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SerializeRevisioned for String::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for String::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  broadcast use vstd::utf8::group_utf8_lib; vstd::utf8::encode_utf8_valid_utf8(self@); }
//!! fn SerializeRevisioned for str::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for str::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  broadcast use vstd::utf8::group_utf8_lib; vstd::utf8::encode_utf8_valid_utf8(self@); }
//!! fn DeserializeRevisioned for String::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for String::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).rem(), Seq::empty()); utf8_empty(); if let Some((l, n)) = uint_dec(8, (*old($0)).rem()) { assert((*old($0)).rem().skip(n as int).take(0) =~= Seq::<u8>::empty()); } }
//!! fn SkipRevisioned for String::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for String::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).rem(), Seq::empty()); }
//!! fn SkipRevisioned for String::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for String::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).left(), Seq::empty()); }
//!! fn SkipCheckRevisioned for String::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for String::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).rem(), Seq::empty()); }
//!! fn Revisioned for Box<str>::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for Box<str>::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for Box<str>::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn DeserializeRevisioned for Box<str>::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for Box<str>::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Box<str>::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for Box<str>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Box<str>::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for Box<str>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for Box<str>::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for Box<str>::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for Arc<str>::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for Arc<str>::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for Arc<str>::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn DeserializeRevisioned for Arc<str>::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for Arc<str>::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Arc<str>::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for Arc<str>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Arc<str>::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for Arc<str>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for Arc<str>::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for Arc<str>::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! opt DeserializeRevisioned for Box<str>::deserialize_revisioned
//!! fn Revisioned for BTreeMap<K, V>::revision : C05 C17
ensures __r == 1,
//!! fn SkipRevisioned for BTreeMap<K, V>::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for BTreeMap<K, V>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).rem(), Seq::empty()); }
//!! loop SkipRevisioned for BTreeMap<K, V>::skip_revisioned
invariant
    szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), __it0.index@ as nat, s1) is Some, szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for BTreeMap<K, V>::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), 0, s1); }
//!! loopbegin SkipRevisioned for BTreeMap<K, V>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k, s1); decn_step(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k, s1); thm_szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k, s1); thm_szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k + 1, s1);
        decn_prefix(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k + 1, $let{usize::deserialize_revisioned} as nat, s1); }
//!! fn SkipRevisioned for BTreeMap<K, V>::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for BTreeMap<K, V>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).left(), Seq::empty()); }
//!! loop SkipRevisioned for BTreeMap<K, V>::skip_revisioned_slice
invariant
    szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), __it0.index@ as nat, s1) is Some, szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for BTreeMap<K, V>::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), 0, s1); }
//!! loopbegin SkipRevisioned for BTreeMap<K, V>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k, s1); decn_step(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k, s1); thm_szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k, s1); thm_szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k + 1, s1);
        decn_prefix(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k + 1, $let{usize::deserialize_revisioned} as nat, s1); }
//!! fn SkipCheckRevisioned for BTreeMap<K, V>::skip_check_revisioned : C07 C08 C12
//!! begin SkipCheckRevisioned for BTreeMap<K, V>::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for HashMap<K, V, S>::revision : C05 C17
ensures __r == 1,
//!! fn SkipRevisioned for HashMap<K, V, S>::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for HashMap<K, V, S>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).rem(), Seq::empty()); }
//!! loop SkipRevisioned for HashMap<K, V, S>::skip_revisioned
invariant
    szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), __it0.index@ as nat, s1) is Some, szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for HashMap<K, V, S>::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), 0, s1); }
//!! loopbegin SkipRevisioned for HashMap<K, V, S>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k, s1); decn_step(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k, s1); thm_szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k, s1); thm_szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k + 1, s1);
        decn_prefix(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k + 1, $let{usize::deserialize_revisioned} as nat, s1); }
//!! fn SkipRevisioned for HashMap<K, V, S>::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for HashMap<K, V, S>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).left(), Seq::empty()); }
//!! loop SkipRevisioned for HashMap<K, V, S>::skip_revisioned_slice
invariant
    szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), __it0.index@ as nat, s1) is Some, szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for HashMap<K, V, S>::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), 0, s1); }
//!! loopbegin SkipRevisioned for HashMap<K, V, S>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k, s1); decn_step(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k, s1); thm_szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k, s1); thm_szn(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k + 1, s1);
        decn_prefix(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())), k + 1, $let{usize::deserialize_revisioned} as nat, s1); }
//!! fn SkipCheckRevisioned for HashMap<K, V, S>::skip_check_revisioned : C07 C08 C12
//!! begin SkipCheckRevisioned for HashMap<K, V, S>::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for BTreeSet<T>::revision : C05 C17
ensures __r == 1,
//!! fn SkipRevisioned for BTreeSet<T>::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for BTreeSet<T>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).rem(), Seq::empty()); }
//!! loop SkipRevisioned for BTreeSet<T>::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for BTreeSet<T>::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for BTreeSet<T>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, $let{usize::deserialize_revisioned} as nat, s1); }
//!! fn SkipRevisioned for BTreeSet<T>::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for BTreeSet<T>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).left(), Seq::empty()); }
//!! loop SkipRevisioned for BTreeSet<T>::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for BTreeSet<T>::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for BTreeSet<T>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, $let{usize::deserialize_revisioned} as nat, s1); }
//!! fn SkipCheckRevisioned for BTreeSet<T>::skip_check_revisioned : C07 C08 C12
//!! begin SkipCheckRevisioned for BTreeSet<T>::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for BinaryHeap<T>::revision : C05 C17
ensures __r == 1,
//!! fn SkipRevisioned for BinaryHeap<T>::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for BinaryHeap<T>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).rem(), Seq::empty()); }
//!! loop SkipRevisioned for BinaryHeap<T>::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for BinaryHeap<T>::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for BinaryHeap<T>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, $let{usize::deserialize_revisioned} as nat, s1); }
//!! fn SkipRevisioned for BinaryHeap<T>::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for BinaryHeap<T>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).left(), Seq::empty()); }
//!! loop SkipRevisioned for BinaryHeap<T>::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for BinaryHeap<T>::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for BinaryHeap<T>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, $let{usize::deserialize_revisioned} as nat, s1); }
//!! fn SkipCheckRevisioned for BinaryHeap<T>::skip_check_revisioned : C07 C08 C12
//!! begin SkipCheckRevisioned for BinaryHeap<T>::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for HashSet<T, S>::revision : C05 C17
ensures __r == 1,
//!! fn SkipRevisioned for HashSet<T, S>::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for HashSet<T, S>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).rem(), Seq::empty()); }
//!! loop SkipRevisioned for HashSet<T, S>::skip_revisioned
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).rem() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore SkipRevisioned for HashSet<T, S>::skip_revisioned
    let ghost s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for HashSet<T, S>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, $let{usize::deserialize_revisioned} as nat, s1); }
//!! fn SkipRevisioned for HashSet<T, S>::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for HashSet<T, S>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  uint_facts(8, (*old($0)).left(), Seq::empty()); }
//!! loop SkipRevisioned for HashSet<T, S>::skip_revisioned_slice
invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    (*$0).left() =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    true,
//!! loopbefore SkipRevisioned for HashSet<T, S>::skip_revisioned_slice
    let ghost s1 = (*$0).left(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SkipRevisioned for HashSet<T, S>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, $let{usize::deserialize_revisioned} as nat, s1); }
//!! fn SkipCheckRevisioned for HashSet<T, S>::skip_check_revisioned : C07 C08 C12
//!! begin SkipCheckRevisioned for HashSet<T, S>::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for Reverse<T>::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for Reverse<T>::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for Reverse<T>::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn DeserializeRevisioned for Reverse<T>::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for Reverse<T>::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Reverse<T>::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for Reverse<T>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Reverse<T>::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for Reverse<T>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for Reverse<T>::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for Reverse<T>::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn Revisioned for Wrapping<T>::revision : C05 C17
ensures __r == 1,
//!! fn SerializeRevisioned for Wrapping<T>::serialize_revisioned : C03 C05 C12
//!! begin SerializeRevisioned for Wrapping<T>::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn DeserializeRevisioned for Wrapping<T>::deserialize_revisioned : C03 C05 C08 C09 C12
//!! begin DeserializeRevisioned for Wrapping<T>::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Wrapping<T>::skip_revisioned : C07 C08 C09 C12
//!! begin SkipRevisioned for Wrapping<T>::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipRevisioned for Wrapping<T>::skip_revisioned_slice : C07 C08 C09 C12
//!! begin SkipRevisioned for Wrapping<T>::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! fn SkipCheckRevisioned for Wrapping<T>::skip_check_revisioned : C07 C08 C09 C12
//!! begin SkipCheckRevisioned for Wrapping<T>::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals();  }
//!! crate
::vstd::prelude::verus! {
pub mod __vxcont {
use vstd::prelude::*;
use super::__vx::*;
use super::__vxmode::*;
use super::__vxt::*;
use super::__vxprims::*;
use std::io;
use std::ops::{Bound, Range};
use std::sync::Arc;
use std::cmp::Reverse;
use std::num::Wrapping;
use vstd::utf8::*;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::hash::{BuildHasher, Hash};
use crate::{Revisioned, SerializeRevisioned, DeserializeRevisioned, SkipRevisioned, SkipCheckRevisioned, Error};
// std functions assumed
pub assume_specification<T, A: std::alloc::Allocator> [<Arc<T, A> as AsRef<T>>::as_ref] (_0: &Arc<T, A>) -> (r: &T) where T: std::marker::MetaSized + ?Sized
    ensures r == &**_0;
pub assume_specification<T, A: std::alloc::Allocator> [<Box<T, A> as AsRef<T>>::as_ref] (_0: &Box<T, A>) -> (r: &T) where T: std::marker::MetaSized + ?Sized
    ensures r == &**_0;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
#[verifier::external_type_specification]
pub struct ExReverse<T>(std::cmp::Reverse<T>);
#[verifier::external_type_specification]
pub struct ExWrapping<T>(std::num::Wrapping<T>);
pub assume_specification [String::as_bytes] (_0: &String) -> (r: &[u8])
    ensures r@ == encode_utf8(_0@);
pub assume_specification [String::from_utf8] (v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures r is Ok <==> valid_utf8(v@), r is Ok ==> encode_utf8((r->Ok_0)@) == v@;
pub assume_specification [std::string::FromUtf8Error::utf8_error] (_0: &std::string::FromUtf8Error) -> core::str::Utf8Error;
pub assume_specification [String::into_boxed_str] (s: String) -> (r: Box<str>)
    ensures (*r)@ == s@;
pub assume_specification [<Arc<str> as From<String>>::from] (s: String) -> (r: Arc<str>)
    ensures (*r)@ == s@;
pub proof fn utf8_empty() ensures valid_utf8(Seq::<u8>::empty()), encode_utf8(Seq::<char>::empty()) == Seq::<u8>::empty()
{ encode_utf8_valid_utf8(Seq::<char>::empty()); }
pub uninterp spec fn canon<C>(v: Val) -> Val;
pub uninterp spec fn listing(v: Val) -> Val;
pub uninterp spec fn coll_model<C>(c: C) -> Val;
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(A)]
pub struct ExBinaryHeap<T, A: std::alloc::Allocator>(std::collections::BinaryHeap<T, A>);
pub open spec fn str_fmt() -> Fmt {
    Fmt::Conv(Box::new(Fmt::Bytes), |v: Val| if valid_utf8(v->B_0) { Some(v) } else { None }, |v: Val| v)
}
impl<T: Revisioned> RevSpecImpl for Option<T> {
    open spec fn fmt() -> Fmt { Fmt::Sum(Box::new(Fmt::U8), seq![Fmt::Unit, T::fmt()]) }
    open spec fn model(&self) -> Val { match *self { None => Val::V(0, seq![unit()]), Some(x) => Val::V(1, seq![x.model()]) } }
}
impl<E: Revisioned, T: Revisioned> RevSpecImpl for Result<T, E> {
    open spec fn fmt() -> Fmt { Fmt::Sum(Box::new(Fmt::UInt(4)), seq![T::fmt(), E::fmt()]) }
    open spec fn model(&self) -> Val { match *self { Ok(x) => Val::V(0, seq![x.model()]), Err(x) => Val::V(1, seq![x.model()]) } }
}
impl<T: Revisioned> RevSpecImpl for Bound<T> {
    open spec fn fmt() -> Fmt { Fmt::Sum(Box::new(Fmt::UInt(4)), seq![Fmt::Unit, T::fmt(), T::fmt()]) }
    open spec fn model(&self) -> Val { match *self { Bound::Unbounded => Val::V(0, seq![unit()]), Bound::Included(x) => Val::V(1, seq![x.model()]), Bound::Excluded(x) => Val::V(2, seq![x.model()]) } }
}
impl<T: Revisioned> RevSpecImpl for Range<T> {
    open spec fn fmt() -> Fmt { Fmt::Pair(Box::new(T::fmt()), Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { vpair(self.start.model(), self.end.model()) }
}
impl<T: Revisioned> RevSpecImpl for Box<T> {
    open spec fn fmt() -> Fmt { T::fmt() }
    open spec fn model(&self) -> Val { (**self).model() }
}
impl<T: Revisioned> RevSpecImpl for Arc<T> {
    open spec fn fmt() -> Fmt { T::fmt() }
    open spec fn model(&self) -> Val { (**self).model() }
}
impl RevSpecImpl for () {
    open spec fn fmt() -> Fmt { Fmt::Unit }
    open spec fn model(&self) -> Val { unit() }
}
impl<A: Revisioned> RevSpecImpl for (A,) {
    open spec fn fmt() -> Fmt { A::fmt() }
    open spec fn model(&self) -> Val { self.0.model() }
}
impl<A: Revisioned, B: Revisioned> RevSpecImpl for (A, B) {
    open spec fn fmt() -> Fmt { Fmt::Pair(Box::new(A::fmt()), Box::new(B::fmt())) }
    open spec fn model(&self) -> Val { vpair(self.0.model(), self.1.model()) }
}
impl<A: Revisioned, B: Revisioned, C: Revisioned> RevSpecImpl for (A, B, C) {
    open spec fn fmt() -> Fmt { Fmt::Pair(Box::new(A::fmt()), Box::new(Fmt::Pair(Box::new(B::fmt()), Box::new(C::fmt())))) }
    open spec fn model(&self) -> Val { vpair(self.0.model(), vpair(self.1.model(), self.2.model())) }
}
impl<A: Revisioned, B: Revisioned, C: Revisioned, D: Revisioned> RevSpecImpl for (A, B, C, D) {
    open spec fn fmt() -> Fmt { Fmt::Pair(Box::new(A::fmt()), Box::new(Fmt::Pair(Box::new(B::fmt()), Box::new(Fmt::Pair(Box::new(C::fmt()), Box::new(D::fmt())))))) }
    open spec fn model(&self) -> Val { vpair(self.0.model(), vpair(self.1.model(), vpair(self.2.model(), self.3.model()))) }
}
impl<A: Revisioned, B: Revisioned, C: Revisioned, D: Revisioned, E: Revisioned> RevSpecImpl for (A, B, C, D, E) {
    open spec fn fmt() -> Fmt { Fmt::Pair(Box::new(A::fmt()), Box::new(Fmt::Pair(Box::new(B::fmt()), Box::new(Fmt::Pair(Box::new(C::fmt()), Box::new(Fmt::Pair(Box::new(D::fmt()), Box::new(E::fmt())))))))) }
    open spec fn model(&self) -> Val { vpair(self.0.model(), vpair(self.1.model(), vpair(self.2.model(), vpair(self.3.model(), self.4.model())))) }
}
impl<A: Revisioned, B: Revisioned, C: Revisioned, D: Revisioned, E: Revisioned, F: Revisioned> RevSpecImpl for (A, B, C, D, E, F) {
    open spec fn fmt() -> Fmt { Fmt::Pair(Box::new(A::fmt()), Box::new(Fmt::Pair(Box::new(B::fmt()), Box::new(Fmt::Pair(Box::new(C::fmt()), Box::new(Fmt::Pair(Box::new(D::fmt()), Box::new(Fmt::Pair(Box::new(E::fmt()), Box::new(F::fmt())))))))))) }
    open spec fn model(&self) -> Val { vpair(self.0.model(), vpair(self.1.model(), vpair(self.2.model(), vpair(self.3.model(), vpair(self.4.model(), self.5.model()))))) }
}
impl<T> RevSpecImpl for [T; 1] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(1, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 2] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(2, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 3] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(3, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 4] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(4, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 5] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(5, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 6] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(6, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 7] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(7, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 8] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(8, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 9] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(9, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 10] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(10, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 11] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(11, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 12] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(12, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 13] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(13, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 14] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(14, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 15] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(15, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 16] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(16, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 17] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(17, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 18] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(18, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 19] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(19, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 20] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(20, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 21] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(21, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 22] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(22, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 23] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(23, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 24] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(24, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 25] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(25, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 26] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(26, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 27] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(27, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 28] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(28, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 29] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(29, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 30] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(30, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 31] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(31, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T> RevSpecImpl for [T; 32] where T: Copy + Default + Revisioned {
    open spec fn fmt() -> Fmt { Fmt::Rep(32, Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl<T: Revisioned> RevSpecImpl for Vec<T> {
    open spec fn fmt() -> Fmt { Fmt::List(Box::new(T::fmt())) }
    open spec fn model(&self) -> Val { Val::V(0, models(self@)) }
}
impl RevSpecImpl for String {
    open spec fn fmt() -> Fmt { str_fmt() }
    open spec fn model(&self) -> Val { Val::B(encode_utf8(self@)) }
}
impl RevSpecImpl for str {
    open spec fn fmt() -> Fmt { str_fmt() }
    open spec fn model(&self) -> Val { Val::B(encode_utf8(self@)) }
}
impl RevSpecImpl for Box<str> {
    open spec fn fmt() -> Fmt { str_fmt() }
    open spec fn model(&self) -> Val { Val::B(encode_utf8((**self)@)) }
}
impl RevSpecImpl for Arc<str> {
    open spec fn fmt() -> Fmt { str_fmt() }
    open spec fn model(&self) -> Val { Val::B(encode_utf8((**self)@)) }
}
impl<K: Revisioned + Ord, V: Revisioned> RevSpecImpl for BTreeMap<K, V> {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::List(Box::new(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt()))))), |v: Val| Some(canon::<BTreeMap<K, V>>(v)), |v: Val| listing(v)) }
    open spec fn model(&self) -> Val { coll_model(*self) }
}
impl<K: Revisioned + Eq + Hash, V: Revisioned, S: BuildHasher + Default> RevSpecImpl for HashMap<K, V, S> {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::List(Box::new(Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt()))))), |v: Val| Some(canon::<HashMap<K, V, S>>(v)), |v: Val| listing(v)) }
    open spec fn model(&self) -> Val { coll_model(*self) }
}
impl<T: Revisioned + Ord> RevSpecImpl for BTreeSet<T> {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::List(Box::new(T::fmt()))), |v: Val| Some(canon::<BTreeSet<T>>(v)), |v: Val| listing(v)) }
    open spec fn model(&self) -> Val { coll_model(*self) }
}
impl<T: Revisioned + Ord> RevSpecImpl for BinaryHeap<T> {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::List(Box::new(T::fmt()))), |v: Val| Some(canon::<BinaryHeap<T>>(v)), |v: Val| listing(v)) }
    open spec fn model(&self) -> Val { coll_model(*self) }
}
impl<T: Revisioned + Eq + Hash, S: BuildHasher + Default> RevSpecImpl for HashSet<T, S> {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::List(Box::new(T::fmt()))), |v: Val| Some(canon::<HashSet<T, S>>(v)), |v: Val| listing(v)) }
    open spec fn model(&self) -> Val { coll_model(*self) }
}
impl<T: Revisioned> RevSpecImpl for Reverse<T> {
    open spec fn fmt() -> Fmt { T::fmt() }
    open spec fn model(&self) -> Val { self.0.model() }
}
impl<T: Revisioned> RevSpecImpl for Wrapping<T> {
    open spec fn fmt() -> Fmt { T::fmt() }
    open spec fn model(&self) -> Val { self.0.model() }
}
} // mod
} // verus!
