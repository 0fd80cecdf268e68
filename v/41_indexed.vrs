//!! fn validation::decode_u32_le_at : C13 C15 C16 C19
requires $1 + 4 <= $0@.len(),
ensures __r as nat == u32at($0@, $1 as int),
//!! begin validation::decode_u32_le_at
    proof { broadcast use group_vx; p256_vals(); assert(seq![$0@[$1 as int], $0@[$1 + 1], $0@[$1 + 2], $0@[$1 + 3]] =~= $0@.subrange($1 as int, $1 + 4)); }
//!! fn validation::validate_struct_prologue : C15 C16 C19
requires $1 == 0 || ($1 - 1) * $2 + 4 <= $0@.len(),
ensures __r is Ok <==> offs_ok($0@, $1 as int, $2 as int, $3 as int),
//!! begin validation::validate_struct_prologue
    let ghost g_b = $0@; let ghost g_st = $2 as int;
//!! loop validation::validate_struct_prologue
invariant
    $let{None} is None <==> __it0.index@ == 0,
    $let{None} is Some ==> $let{None}->0 as nat == col(g_b, __it0.index@ - 1, g_st),
    offs_ok(g_b, __it0.index@ as int, g_st, $3 as int),
    g_b == $0@, g_st == $2 as int, $1 == 0 || ($1 - 1) * $2 + 4 <= $0@.len(),
//!! loopbegin validation::validate_struct_prologue
    proof { slice_len_isize($0); assert($for0 == __it0.index@); assert(col(g_b, $for0 as int, g_st) == u32at(g_b, $for0 * g_st)); stride_fits($for0 as int, $1 as int, $2 as int, $0@.len() as int); }
//!! fn validation::validate_map_prologue : C15 C16
ensures __r is Ok ==> map_offs_ok($0@, $1 as int, $2 as int, $3 as int),
   $0@.len() == $1 * 8 ==> (__r is Ok <==> map_offs_ok($0@, $1 as int, $2 as int, $3 as int)),
//!! begin validation::validate_map_prologue
    proof { slice_len_isize($0); assert($1 != 0 ==> ($1 - 1) * 8 + 4 <= $1 * 8); }
//!! fn validation::validate_key_region_ascending : C15 C16
requires $1@.len() == $2 * 8, offs_ok($1@, $2 as int, 8, $0@.len() as int),
ensures __r is Ok <==> keys_asc($0@, $1@, $2 as int, $2 as int),
//!! begin validation::validate_key_region_ascending
    broadcast use slice_cmp_std; proof { slice_cmp_obeys(); }
    let ghost g_rg = $0@; let ghost g_b = $1@; let ghost g_n = $2 as int;
    proof { slice_len_isize($0); slice_len_isize($1); }
//!! loop validation::validate_key_region_ascending
invariant
    $let{decode_u32_le_at (offset_table , 0)} as nat == col(g_b, __it0.index@ as int, 8),
    $let{decode_u32_le_at (offset_table , 8)} as nat == if __it0.index@ + 1 < g_n { col(g_b, __it0.index@ + 1, 8) as int } else { g_rg.len() as int },
    keys_asc(g_rg, g_b, __it0.index@ + 1, g_n),
    g_rg == $0@, g_b == $1@, g_n == $2, g_n >= 2,
    $1@.len() == $2 * 8, offs_ok($1@, $2 as int, 8, $0@.len() as int),
//!! loopbegin validation::validate_key_region_ascending
    proof { broadcast use slice_cmp_std; slice_cmp_obeys(); slice_len_isize($1); slice_len_isize($0); assert($for0 == __it0.index@ + 1); let i = $for0 as int;
       assert(col(g_b, i, 8) == u32at(g_b, i * 8)); assert(col(g_b, i - 1, 8) == u32at(g_b, (i - 1) * 8)); assert(i + 1 < g_n ==> col(g_b, i + 1, 8) == u32at(g_b, (i + 1) * 8));
       assert(g_rg.subrange(col(g_b, i - 1, 8) as int, col(g_b, i, 8) as int) == part(g_rg, g_b, i - 1, g_n, 8)); 
       keys_step(g_rg, g_b, i, g_n); bytes_lt_trans(part(g_rg, g_b, i - 1, g_n, 8), part(g_rg, g_b, i, g_n, 8), seq![]); }
//!! fn validation::validate_seq_prologue : C15 C16
requires $1 * 4 <= $0@.len(),
ensures __r is Ok <==> offs_ok($0@, $1 as int, 4, $2 as int),
//!! crate
::vstd::prelude::verus! {
pub mod __vxidx {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use super::__vx::*;
use super::__vxmode::*;
use super::__vxt::*;
/// Rust guarantee: no slice is longer than isize::MAX bytes
#[verifier::external_body]
pub proof fn slice_len_isize(s: &[u8]) ensures s@.len() <= 0x7fff_ffff_ffff_ffff {}
pub open spec fn u32at(b: Seq<u8>, o: int) -> nat { le_val(b.subrange(o, o + 4)) }
/// entry i of an offset column with the given stride
pub open spec fn col(b: Seq<u8>, i: int, stride: int) -> nat { u32at(b, i * stride) }
pub open spec fn offs_ok(b: Seq<u8>, n: int, stride: int, plen: int) -> bool {
    (forall|i: int| 0 <= i < n ==> #[trigger] col(b, i, stride) <= plen)
    && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] col(b, i, stride) < #[trigger] col(b, j, stride))
}
pub proof fn stride_fits(i: int, n: int, st: int, len: int)
    requires 0 <= i < n, 0 <= st, (n - 1) * st + 4 <= len,
    ensures 0 <= i * st, i * st + 4 <= len,
{
    assert(i * st <= (n - 1) * st && 0 <= i * st) by (nonlinear_arith) requires 0 <= i <= n - 1, 0 <= st;
}
pub open spec fn map_offs_ok(b: Seq<u8>, n: int, kl: int, vl: int) -> bool {
    b.len() == n * 8 && offs_ok(b, n, 8, kl) && (n == 0 || offs_ok(b.skip(4), n, 8, vl))
}
pub open spec fn part(region: Seq<u8>, b: Seq<u8>, i: int, n: int, stride: int) -> Seq<u8> {
    region.subrange(col(b, i, stride) as int, if i + 1 < n { col(b, i + 1, stride) as int } else { region.len() as int })
}
pub open spec fn bytes_lt(a: Seq<u8>, b: Seq<u8>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true }
    else if a[0] != b[0] { a[0] < b[0] } else { bytes_lt(a.skip(1), b.skip(1)) }
}
pub open spec fn bytes_ord(a: Seq<u8>, b: Seq<u8>) -> std::cmp::Ordering { if bytes_lt(a, b) { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater } }
/// std: byte slices compare lexicographically
#[verifier::external_body]
pub broadcast proof fn slice_cmp_std(a: &[u8], b: &[u8])
    ensures #[trigger] <&[u8] as PartialOrdSpec<&[u8]>>::partial_cmp_spec(&a, &b) == Some(bytes_ord(a@, b@)), <&[u8] as PartialOrdSpec<&[u8]>>::obeys_partial_cmp_spec()
{}
#[verifier::external_body]
pub proof fn slice_cmp_obeys()
    ensures <&[u8] as PartialOrdSpec<&[u8]>>::obeys_partial_cmp_spec()
{}
/// the first m of n keys are pairwise strictly ascending
pub open spec fn keys_asc(region: Seq<u8>, b: Seq<u8>, m: int, n: int) -> bool {
    forall|i: int, j: int| 0 <= i < j < m ==> bytes_lt(#[trigger] part(region, b, i, n, 8), #[trigger] part(region, b, j, n, 8))
}
pub proof fn bytes_lt_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures bytes_lt(a, b) && bytes_lt(b, c) ==> bytes_lt(a, c), !bytes_lt(a, a), !(bytes_lt(a, b) && bytes_lt(b, a)), bytes_lt(a, b) || bytes_lt(b, a) || a == b
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 { bytes_lt_trans(a.skip(1), b.skip(1), c.skip(1)); }
    else if a.len() > 0 && b.len() > 0 { bytes_lt_trans(a.skip(1), b.skip(1), c); }
    else if a.len() > 0 { bytes_lt_trans(a.skip(1), a.skip(1), a.skip(1)); }
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] && a.skip(1) == b.skip(1) { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
    if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn keys_step(region: Seq<u8>, b: Seq<u8>, i: int, n: int)
    requires 0 < i < n, keys_asc(region, b, i, n)
    ensures keys_asc(region, b, i + 1, n) <==> bytes_lt(part(region, b, i - 1, n, 8), part(region, b, i, n, 8))
{
    let x = part(region, b, i - 1, n, 8); let y = part(region, b, i, n, 8);
    assert forall|k: int| 0 <= k < i && bytes_lt(x, y) implies bytes_lt(#[trigger] part(region, b, k, n, 8), y) by {
        bytes_lt_trans(part(region, b, k, n, 8), x, y);
    }
}
}
}
