//!! crate
::vstd::prelude::verus! {
pub mod __vxmode {
use vstd::prelude::*;
use super::__vx::*;
#[verifier::opaque]
pub open spec fn uint_enc(w: nat, x: nat) -> Seq<u8> {
    if x < 251 { seq![x as u8] }
    else if x < 0x1_0000 { seq![251u8] + le_bytes(x, 2) }
    else if x < 0x1_0000_0000 { seq![252u8] + le_bytes(x, 4) }
    else if x < 0x1_0000_0000_0000_0000 { seq![253u8] + le_bytes(x, 8) }
    else { seq![254u8] + le_bytes(x, 16) }
}
/// decoding before the range check of the target width
pub open spec fn uint_dec_raw(w: nat, s: Seq<u8>) -> Option<(nat, nat)> {
    if s.len() < 1 { None }
    else if s[0] < 251 { Some((s[0] as nat, 1)) }
    else if s[0] == 251 { if s.len() >= 3 { Some((le_val(s.subrange(1, 3)), 3)) } else { None } }
    else if s[0] == 252 { if s.len() >= 5 { Some((le_val(s.subrange(1, 5)), 5)) } else { None } }
    else if s[0] == 253 { if s.len() >= 9 { Some((le_val(s.subrange(1, 9)), 9)) } else { None } }
    else if s[0] == 254 && w == 16 { if s.len() >= 17 { Some((le_val(s.subrange(1, 17)), 17)) } else { None } }
    else { None }
}
#[verifier::opaque]
pub open spec fn uint_dec(w: nat, s: Seq<u8>) -> Option<(nat, nat)> {
    match uint_dec_raw(w, s) { Some((x, n)) => if x < p256(w) { Some((x, n)) } else { None }, None => None }
}
pub proof fn uint_facts(w: nat, s: Seq<u8>, t: Seq<u8>)
    ensures uint_dec(w, s) is Some ==> n_of(uint_dec(w, s)) <= s.len() && uint_dec(w, s + t) == uint_dec(w, s),
        uint_dec(w, s) is Some ==> v_of(uint_dec(w, s)) < p256(w),
{
    reveal(uint_enc); reveal(uint_dec);
    if uint_dec(w, s) is Some {
        assert((s + t)[0] == s[0]);
        if s.len() >= 3 { assert((s + t).subrange(1, 3) =~= s.subrange(1, 3)); }
        if s.len() >= 5 { assert((s + t).subrange(1, 5) =~= s.subrange(1, 5)); }
        if s.len() >= 9 { assert((s + t).subrange(1, 9) =~= s.subrange(1, 9)); }
        if s.len() >= 17 { assert((s + t).subrange(1, 17) =~= s.subrange(1, 17)); }
    }
}
pub proof fn uint_rt(w: nat, x: nat, t: Seq<u8>)
    requires x < p256(w), w == 2 || w == 4 || w == 8 || w == 16
    ensures uint_dec(w, uint_enc(w, x) + t) == Some((x, uint_enc(w, x).len()))
{
    reveal(uint_enc); reveal(uint_dec);
    broadcast use group_vx;
    p256_vals();
    let e = uint_enc(w, x);
    let s = e + t;
    if x < 251 { }
    else if x < 0x1_0000 { assert(s.subrange(1, 3) =~= le_bytes(x, 2)); }
    else if x < 0x1_0000_0000 { assert(s.subrange(1, 5) =~= le_bytes(x, 4)); }
    else if x < 0x1_0000_0000_0000_0000 { assert(s.subrange(1, 9) =~= le_bytes(x, 8)); }
    else { assert(s.subrange(1, 17) =~= le_bytes(x, 16)); }
}

pub proof fn dec_narrow(s: Seq<u8>, w: nat)
    requires w == 2 || w == 4 || w == 8 || w == 16
    ensures w <= 8 ==> uint_dec(w, s) == (match uint_dec(8, s) { Some((x, n)) => if x < p256(w) { Some((x, n)) } else { None }, None => None }),
        uint_dec(w, s) is Some ==> v_of(uint_dec(w, s)) < p256(w)
{ reveal(uint_dec); p256_vals(); }
pub proof fn enc_hint(x: nat, w: nat)
    ensures uint_enc(w, x) == uint_enc(8, x)
{ reveal(uint_enc); }
}
}
