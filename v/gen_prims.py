#!/usr/bin/env python3
"""Writes 10_prims.vrs (contracts for src/implementations/primitives.rs)."""
o=open('10_prims.vrs','w')
w=o.write
w('''//!! data Error

//!! fn primitives::read_buffer : C01 C02 C08 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= COUNT && __r->Ok_0@ == (*old($0)).rem().take(COUNT as int)
        && (*final($0)).rem() == (*old($0)).rem().skip(COUNT as int),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= COUNT),
''')
for n in (64,128):
    w(f'''//!! fn primitives::zigzag_{n} : C01
ensures __r as nat == zz($0 as int)
//!! begin primitives::zigzag_{n}
    proof {{ let x = $0; reveal(zz);
      assert(x >= 0 ==> ((x >> {n-1}) as u{n} ^ ((x as u{n}) << 1)) == 2 * (x as u{n})) by (bit_vector);
      assert(x < 0 ==> ((x >> {n-1}) as u{n} ^ ((x as u{n}) << 1)) == -2 * x - 1) by (bit_vector);
    }}
//!! fn primitives::gazgiz_{n} : C01
ensures __r as int == unzz($0 as nat)
//!! begin primitives::gazgiz_{n}
    proof {{ let x = $0; reveal(unzz);
      assert(x & 1 <= 1) by (bit_vector);
      assert(x % 2 == 0 ==> ((x >> 1) as i{n} ^ ((-((x & 1) as i{n})) as i{n})) == x / 2) by (bit_vector);
      assert(x % 2 == 1 ==> ((x >> 1) as i{n} ^ ((-((x & 1) as i{n})) as i{n})) == - ((x / 2) as int) - 1) by (bit_vector);
    }}
''')
    k=n//8
    w(f'''//!! fn primitives::encode_u{n} : C01 C12
ensures
    __r is Ok ==> (*final($0)).written() =~= (*old($0)).written() + uint_enc({k}, $1 as nat),
    (*old($0)).wreliable() ==> (*final($0)).wreliable() && __r is Ok,
//!! begin primitives::encode_u{n}
    proof {{ broadcast use group_all; p256_vals(); reveal(uint_enc);
      let i = $1 as u{n};
      assert(1u{n} << 16 == 0x1_0000) by (bit_vector);
      assert(1u{n} << 32 == 0x1_0000_0000) by (bit_vector);
      {'assert(1u128 << 64 == 0x1_0000_0000_0000_0000) by (bit_vector);' if n==128 else ''}
    }}
//!! fn primitives::decode_u{n} : C01 C08 C09 C12
ensures
    __r is Ok ==> uint_dec({k}, (*old($0)).rem()) == Some((__r->Ok_0 as nat, n_of(uint_dec({k}, (*old($0)).rem()))))
        && n_of(uint_dec({k}, (*old($0)).rem())) <= (*old($0)).rem().len()
        && (*final($0)).rem() =~= (*old($0)).rem().skip(n_of(uint_dec({k}, (*old($0)).rem())) as int),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> uint_dec({k}, (*old($0)).rem()) is Some),
//!! begin primitives::decode_u{n}
    proof {{ broadcast use group_all; p256_vals(); reveal(uint_dec);
      let s = (*old($0)).rem();
      assert(s.skip(1).take(2) =~= s.subrange(1, 3) || s.len() < 3);
      assert(s.skip(1).take(4) =~= s.subrange(1, 5) || s.len() < 5);
      assert(s.skip(1).take(8) =~= s.subrange(1, 9) || s.len() < 9);
      assert(s.skip(1).take(16) =~= s.subrange(1, 17) || s.len() < 17);
    }}
''')
S='SerializeRevisioned for %s::serialize_revisioned'
D='DeserializeRevisioned for %s::deserialize_revisioned'
impls=[]
def ty(t, fmt, model, props, sb='', db='', extra=''):
    w(f'//!! fn Revisioned for {t}::revision : C05 C17\nensures __r == 1,\n')
    w(f'//!! fn {S%t} : {props} C12\n')
    w(f'//!! begin {S%t}\n    proof {{ broadcast use group_all; p256_vals(); {sb} }}\n')
    w(f'//!! fn {D%t} : {props} C08 C09 C12\n')
    w(f'//!! begin {D%t}\n    proof {{ broadcast use group_all; p256_vals(); {db} }}\n')
    impls.append(f'impl RevSpecImpl for {t} {{\n    open spec fn fmt() -> Fmt {{ {fmt} }}\n    open spec fn model(&self) -> Val {{ {model} }}\n}}\n')
for t,k in (('u16',2),('u32',4),('u64',8),('u128',16),('usize',8)):
    ty(t,f'Fmt::UInt({k})','Val::N(*self as int)','C01',f'enc_hint(if (*self) >= 0 {{ *self as nat }} else {{ 0 }}, {k}); enc_hint(zz(*self as int), {k});', f'dec_narrow((*old($0)).rem(), {k});')
for t,k in (('i16',2),('i32',4),('i64',8),('i128',16),('isize',8)):
    ty(t,f'sint({k})','Val::N(*self as int)','C01',f'zz_rt(*self as int); enc_hint(zz(*self as int), {k});', f'let s = (*old($0)).rem(); dec_narrow(s, {k}); unzz_fit(v_of(uint_dec(8, s))); unzz_fit(v_of(uint_dec({k}, s)));')
ty('u8','Fmt::U8','Val::N(*self as int)','C01')
ty('i8','Fmt::Conv(Box::new(Fmt::U8), |v: Val| Some(Val::N(untwos(v->N_0 as nat, 1))), |v: Val| Val::N(twos(v->N_0, 1) as int))','Val::N(*self as int)','C01',
   'let x = *self; assert(x >= 0 ==> (x as u8) == x) by (bit_vector); assert(x < 0 ==> (x as u8) == x + 256) by (bit_vector);',
   'assert forall|b: u8| #[trigger] (b as i8) as int == untwos(b as nat, 1) by { assert(b < 128 ==> (b as i8) == b) by (bit_vector); assert(b >= 128 ==> (b as i8) == b - 256) by (bit_vector); }')
ty('bool','bool_fmt()','Val::N(if *self { 1 } else { 0 })','C02')
ty('f32','Fmt::Raw(4)','Val::N(f32_bits(*self) as int)','C02')
ty('f64','Fmt::Raw(8)','Val::N(f64_bits(*self) as int)','C02')
for t,k in (('u32',4),('i32',4),('u64',8),('i64',8),('u128',16),('i128',16)):
    w(f'''//!! fn primitives::encode_{t}_fixed_le : C21 C12
ensures
    __r is Ok ==> (*final($1)).written() =~= (*old($1)).written() + le_bytes({'$0 as nat' if t[0]=='u' else f'twos($0 as int, {k})'}, {k}),
    (*old($1)).wreliable() ==> (*final($1)).wreliable() && __r is Ok,
//!! fn primitives::decode_{t}_fixed_le : C21 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= {k} && (*final($0)).rem() =~= (*old($0)).rem().skip({k})
        && {'__r->Ok_0 as nat' if t[0]=='u' else f'twos(__r->Ok_0 as int, {k})'} == le_val((*old($0)).rem().take({k})),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= {k}),
//!! fn primitives::skip_{t}_fixed_le : C21 C12
ensures
    __r is Ok ==> (*old($0)).rem().len() >= {k} && (*final($0)).rem() =~= (*old($0)).rem().skip({k}),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> (*old($0)).rem().len() >= {k}),
''')
w('''//!! crate
::vstd::prelude::verus! {
pub mod __vxprims {
use vstd::prelude::*;
use super::__vx::*;
use super::__vxmode::*;
use super::__vxt::*;
use std::io;
pub open spec fn sint(w: nat) -> Fmt {
    Fmt::Conv(Box::new(Fmt::UInt(w)), |v: Val| Some(Val::N(unzz(v->N_0 as nat))), |v: Val| Val::N(zz(v->N_0) as int))
}
pub open spec fn bool_fmt() -> Fmt {
    Fmt::Conv(Box::new(Fmt::U8), |v: Val| if v->N_0 == 0 || v->N_0 == 1 { Some(v) } else { None }, |v: Val| v)
}
''')
for i in impls: w(i)
w('''}
} // verus!
''')
