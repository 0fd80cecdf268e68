//!! crate
::vstd::prelude::verus! {
pub mod __vxmode {
use vstd::prelude::*;
use super::__vx::*;
#[verifier::opaque]
pub open spec fn uint_enc(w: nat, x: nat) -> Seq<u8> { le_bytes(x, w) }
#[verifier::opaque]
pub open spec fn uint_dec(w: nat, s: Seq<u8>) -> Option<(nat, nat)> {
    if s.len() >= w { Some((le_val(s.take(w as int)), w)) } else { None }
}
pub proof fn uint_facts(w: nat, s: Seq<u8>, t: Seq<u8>)
    ensures uint_dec(w, s) is Some ==> n_of(uint_dec(w, s)) <= s.len() && uint_dec(w, s + t) == uint_dec(w, s),
        uint_dec(w, s) is Some ==> v_of(uint_dec(w, s)) < p256(w),
{
    reveal(uint_enc); reveal(uint_dec);
    broadcast use group_vx;
    if s.len() >= w { assert((s + t).take(w as int) =~= s.take(w as int)); }
}
pub proof fn uint_rt(w: nat, x: nat, t: Seq<u8>)
    requires x < p256(w), w == 2 || w == 4 || w == 8 || w == 16
    ensures uint_dec(w, uint_enc(w, x) + t) == Some((x, uint_enc(w, x).len()))
{
    reveal(uint_enc); reveal(uint_dec);
    broadcast use group_vx;
    assert((uint_enc(w, x) + t).take(w as int) =~= le_bytes(x, w));
}

pub proof fn dec_narrow(s: Seq<u8>, w: nat)
    requires w == 2 || w == 4 || w == 8 || w == 16
    ensures uint_dec(w, s) == (if s.len() >= w { Some((le_val(s.take(w as int)), w)) } else { None }),
        uint_dec(w, s) is Some ==> v_of(uint_dec(w, s)) < p256(w)
{ broadcast use group_vx; reveal(uint_dec); }
pub proof fn enc_hint(x: nat, w: nat)
    ensures uint_enc(w, x) == le_bytes(x, w)
{ reveal(uint_enc); }
}
}
