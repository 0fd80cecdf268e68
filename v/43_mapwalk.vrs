//!! data MapPrologue
//!! data HintedLookup
//!! data IndexedMapWalker
// private
//!! fn MapPrologue::key_off : C15 C16
requires $0 * 8 + 8 <= self.offset_table@.len(),
ensures __r as nat == col(self.offset_table@, $0 as int, 8),
//!! begin MapPrologue::key_off
    proof { slice_len_isize(self.offset_table); }
//!! fn MapPrologue::val_off : C15 C16
requires $0 * 8 + 8 <= self.offset_table@.len(),
ensures __r as nat == u32at(self.offset_table@, $0 * 8 + 4),
//!! begin MapPrologue::val_off
    proof { slice_len_isize(self.offset_table); }
//!! fn MapPrologue::entry_ranges : C15 C16
requires self.offset_table@.len() == $0 * 8,
ensures
    __r is Some <==> $1 < $0,
    __r is Some ==> (__r->0).0.start as nat == col(self.offset_table@, $1 as int, 8) && (__r->0).1.start as nat == vcol(self.offset_table@, $1 as int)
        && (__r->0).0.end as int == pend(self.keys_region@, self.offset_table@, $1 as int, $0 as int)
        && (__r->0).1.end as int == vend(self.vals_region@, self.offset_table@, $1 as int, $0 as int),
//!! begin MapPrologue::entry_ranges
    proof { slice_len_isize(self.offset_table); }
//!! fn IndexedMapWalker<K, V>::from_payload : C15 C16
ensures
    __r is Ok ==> (__r->Ok_0).of($0@) && (__r->Ok_0).valid(),
    __r is Ok <==> map_ok($0@),
//!! fn IndexedMapWalker<K, V>::from_payload_unvalidated : C15 C16
ensures
    __r is Ok ==> (__r->Ok_0).of($0@),
    __r is Ok <==> map_hdr($0@) is Some,
//!! fn IndexedMapWalker<K, V>::from_payload_inner : C15 C16
ensures
    __r is Ok ==> (__r->Ok_0).of($0@) && ($1 ==> (__r->Ok_0).valid()),
    !$1 ==> (__r is Ok <==> map_hdr($0@) is Some),
    $1 ==> (__r is Ok <==> map_ok($0@)),
//!! begin IndexedMapWalker<K, V>::from_payload_inner
    broadcast use {skip_skip, slice_to_array, group_vx}; proof { p256_vals(); slice_to_array_obeys::<4>(); slice_len_isize($0); if $0@.len() > 0 { flag_bit($0@[0]); vlen_bound($0@.skip(1)); } }
//!! fn IndexedMapWalker<K, V>::len : C15
ensures __r as int == self.n(),
//!! fn IndexedMapWalker<K, V>::is_empty : C15
ensures __r <==> self.n() == 0,
//!! fn IndexedMapWalker<K, V>::is_indexed : C15
ensures __r <==> self.indexed(),
//!! fn IndexedMapWalker<K, V>::legacy_body : C15
ensures __r is Some <==> !self.indexed(), __r is Some ==> __r->0@ == self.bd(),
//!! fn IndexedMapWalker<K, V>::binary_search_entry : C15 C16
requires
    $0.offset_table@.len() == $1 * 8,
    forall|s: &[u8]| $2.requires((s,)),
ensures
    __r is Ok && __r->Ok_0 is Some ==> 0 <= (__r->Ok_0->0).1 && hit($2, $0.keys_region@, $0.vals_region@, $0.offset_table@, $1 as int, (__r->Ok_0->0).0@),
    map_valid($0.offset_table@, $0.keys_region@, $0.vals_region@, $1 as int) ==> __r is Ok,
    map_valid($0.offset_table@, $0.keys_region@, $0.vals_region@, $1 as int) && __r is Ok && __r->Ok_0 is None
        ==> forall|f: spec_fn(Seq<u8>) -> Ordering| #[trigger] means($2, f) && ascending(f, $0.keys_region@, $0.offset_table@, $1 as int)
            ==> forall|i: int| 0 <= i < $1 ==> #[trigger] probe(f, $0.keys_region@, $0.offset_table@, i, $1 as int) != Ordering::Equal,
//!! begin IndexedMapWalker<K, V>::binary_search_entry
    let ghost g_t = $0.offset_table@; let ghost g_ks = $0.keys_region@; let ghost g_vs = $0.vals_region@; let ghost g_n = $1 as int; let ghost g_pr = $2;
    proof { slice_len_isize($0.offset_table); }
//!! loop IndexedMapWalker<K, V>::binary_search_entry
invariant
    $let{0usize} <= $let{n} <= g_n, g_n == $1, g_t == $0.offset_table@, g_ks == $0.keys_region@, g_vs == $0.vals_region@, g_t.len() == g_n * 8,
    g_pr == $2, forall|s: &[u8]| $2.requires((s,)),
    map_valid(g_t, g_ks, g_vs, g_n) ==> forall|f: spec_fn(Seq<u8>) -> Ordering| #[trigger] means(g_pr, f) && ascending(f, g_ks, g_t, g_n)
        ==> forall|i: int| 0 <= i < $let{0usize} || $let{n} <= i < g_n ==> #[trigger] probe(f, g_ks, g_t, i, g_n) != Ordering::Equal,
decreases $let{n} - $let{0usize}
//!! loopbegin IndexedMapWalker<K, V>::binary_search_entry
    proof { let m = ($let{0usize} + ($let{n} - $let{0usize}) / 2) as int; entry_in(g_t, g_ks, g_vs, m, g_n);
      let pt = part(g_ks, g_t, m, g_n, 8); assert(inside(g_t, g_ks, g_vs, m, g_n) ==> pt == g_ks.subrange(col(g_t, m, 8) as int, pend(g_ks, g_t, m, g_n)));
      assert forall|f: spec_fn(Seq<u8>) -> Ordering| #[trigger] means(g_pr, f) implies probe(f, g_ks, g_t, m, g_n) == f(pt) by {} }
//!! fn IndexedMapWalker<K, V>::find_value_bytes : C15 C16
requires forall|s: &[u8]| $0.requires((s,)),
ensures
    __r is Ok ==> self.indexed(),
    __r is Ok && __r->Ok_0 is Some ==> hit($0, self.keys(), self.vals(), self.table(), self.n(), __r->Ok_0->0@),
    self.valid() && self.indexed() ==> __r is Ok,
    self.valid() && __r is Ok && __r->Ok_0 is None
        ==> forall|f: spec_fn(Seq<u8>) -> Ordering| #[trigger] means($0, f) && ascending(f, self.keys(), self.table(), self.n())
            ==> forall|i: int| 0 <= i < self.n() ==> #[trigger] probe(f, self.keys(), self.table(), i, self.n()) != Ordering::Equal,
//!! begin IndexedMapWalker<K, V>::find_value_bytes
    proof { use_type_invariant(self); }
//!! opt IndexedMapWalker<K, V>::find_value_bytes 0
//!! fn IndexedMapWalker<K, V>::find_value_bytes_with_hint : C15 C16
requires forall|s: &[u8]| $1.requires((s,)),
ensures
    __r is Ok ==> self.indexed(),
    __r is Ok && (__r->Ok_0).value is Some ==> hit($1, self.keys(), self.vals(), self.table(), self.n(), ((__r->Ok_0).value->0)@),
    self.valid() && self.indexed() ==> __r is Ok,
    self.valid() && __r is Ok && (__r->Ok_0).value is None
        ==> forall|f: spec_fn(Seq<u8>) -> Ordering| #[trigger] means($1, f) && ascending(f, self.keys(), self.table(), self.n())
            ==> forall|i: int| 0 <= i < self.n() ==> #[trigger] probe(f, self.keys(), self.table(), i, self.n()) != Ordering::Equal,
//!! begin IndexedMapWalker<K, V>::find_value_bytes_with_hint
    proof { ordering_eq_std(); use_type_invariant(self); if $0 is Some && self.indexed() && $0->0 < self.n() { entry_in(self.table(), self.keys(), self.vals(), $0->0 as int, self.n()); } }
//!! opt IndexedMapWalker<K, V>::find_value_bytes_with_hint 0
//!! fn map_walk::read_varint : C15 C16
ensures
    __r is Ok <==> vlen($0@) is Some,
    __r is Ok ==> vlen($0@) == Some((__r->Ok_0.0 as nat, __r->Ok_0.1 as nat)),
//!! begin map_walk::read_varint
    broadcast use {slice_to_array, group_vx}; proof { p256_vals(); slice_to_array_obeys::<4>(); slice_to_array_obeys::<8>(); if $0@.len() >= 3 { assert(seq![$0@[1], $0@[2]] =~= $0@.subrange(1, 3)); } }
//!! crate
::vstd::prelude::verus! {
pub mod __vxmap {
use vstd::prelude::*;
use std::cmp::Ordering;
use super::__vx::*;
use super::__vxidx::*;
use super::__vxwalk::*;
/// the value column of an interleaved offset table
pub open spec fn vcol(b: Seq<u8>, i: int) -> nat { u32at(b, i * 8 + 4) }
pub open spec fn pend(region: Seq<u8>, b: Seq<u8>, i: int, n: int) -> int { if i + 1 < n { col(b, i + 1, 8) as int } else { region.len() as int } }
pub open spec fn vend(region: Seq<u8>, b: Seq<u8>, i: int, n: int) -> int { if i + 1 < n { vcol(b, i + 1) as int } else { region.len() as int } }
/// header of an indexed map: (indexed, length, bytes before the offset table or the entries)
pub open spec fn map_hdr(p: Seq<u8>) -> Option<(bool, nat, nat)> {
    if p.len() < 1 { None } else { match vlen(p.skip(1)) {
        None => None,
        Some((n, k)) => if p[0] % 2 == 0 { Some((false, n, 1 + k)) } else { let o = (1 + k + 8 * n) as int;
            if p.len() >= o + 8 && p.len() >= o + 8 + u32at(p, o) + u32at(p, o + 4) { Some((true, n, 1 + k)) } else { None } } } }
}
/// end of the offset table
pub open spec fn map_o(p: Seq<u8>) -> int { let h = map_hdr(p).unwrap(); h.2 as int + 8 * h.1 as int }
pub open spec fn map_table(p: Seq<u8>) -> Seq<u8> { p.subrange(map_hdr(p).unwrap().2 as int, map_o(p)) }
pub open spec fn map_keys(p: Seq<u8>) -> Seq<u8> { let o = map_o(p); p.subrange(o + 8, o + 8 + u32at(p, o)) }
pub open spec fn map_vals(p: Seq<u8>) -> Seq<u8> { let o = map_o(p); p.subrange(o + 8 + u32at(p, o), o + 8 + u32at(p, o) + u32at(p, o + 4)) }
pub open spec fn map_valid(t: Seq<u8>, ks: Seq<u8>, vs: Seq<u8>, n: int) -> bool {
    map_offs_ok(t, n, ks.len() as int, vs.len() as int) && keys_asc(ks, t, n, n)
}
pub open spec fn ventry(vs: Seq<u8>, t: Seq<u8>, i: int, n: int) -> Seq<u8> { vs.subrange(vcol(t, i) as int, vend(vs, t, i, n)) }
/// entry i of the table lies inside the regions
pub open spec fn inside(t: Seq<u8>, ks: Seq<u8>, vs: Seq<u8>, i: int, n: int) -> bool {
    col(t, i, 8) <= pend(ks, t, i, n) <= ks.len() && vcol(t, i) <= vend(vs, t, i, n) <= vs.len()
}
/// v is the value of an entry inside the payload for which the caller's predicate answered Equal
pub open spec fn hit<F: FnMut(&[u8]) -> Ordering>(f: F, ks: Seq<u8>, vs: Seq<u8>, t: Seq<u8>, n: int, v: Seq<u8>) -> bool {
    exists|i: int, k: &[u8]| 0 <= i < n && #[trigger] inside(t, ks, vs, i, n) && k@ == part(ks, t, i, n, 8) && #[trigger] f.ensures((k,), Ordering::Equal) && v == ventry(vs, t, i, n)
}
/// the predicate computes f
pub open spec fn means<F: FnMut(&[u8]) -> Ordering>(p: F, f: spec_fn(Seq<u8>) -> Ordering) -> bool {
    forall|k: &[u8], o: Ordering| #[trigger] p.ensures((k,), o) ==> o == f(k@)
}
/// f orders the keys of the table: Less, then at most one Equal, then Greater
pub open spec fn ascending(f: spec_fn(Seq<u8>) -> Ordering, ks: Seq<u8>, t: Seq<u8>, n: int) -> bool {
    forall|i: int, j: int| 0 <= i < j < n ==> rank(#[trigger] probe(f, ks, t, i, n)) < rank(#[trigger] probe(f, ks, t, j, n))
        || (probe(f, ks, t, i, n) == probe(f, ks, t, j, n) && probe(f, ks, t, i, n) != Ordering::Equal)
}
pub open spec fn probe(f: spec_fn(Seq<u8>) -> Ordering, ks: Seq<u8>, t: Seq<u8>, i: int, n: int) -> Ordering { f(part(ks, t, i, n, 8)) 
}
pub open spec fn rank(o: Ordering) -> int { match o { Ordering::Less => 0, Ordering::Equal => 1, Ordering::Greater => 2 } }
/// comparing with a fixed needle orders any strictly ascending key region
pub proof fn needle_ascending(needle: Seq<u8>, ks: Seq<u8>, t: Seq<u8>, n: int)
    requires keys_asc(ks, t, n, n)
    ensures ascending(|k: Seq<u8>| bytes_ord(k, needle), ks, t, n)
{
    let f = |k: Seq<u8>| bytes_ord(k, needle);
    assert forall|i: int, j: int| 0 <= i < j < n implies rank(#[trigger] probe(f, ks, t, i, n)) < rank(#[trigger] probe(f, ks, t, j, n))
        || (probe(f, ks, t, i, n) == probe(f, ks, t, j, n) && probe(f, ks, t, i, n) != Ordering::Equal) by {
        let x = part(ks, t, i, n, 8); let y = part(ks, t, j, n, 8);
        bytes_lt_trans(x, y, needle); bytes_lt_trans(needle, x, y); bytes_lt_trans(x, needle, y); bytes_lt_trans(y, needle, x); bytes_lt_trans(x, x, y);
    }
}
pub proof fn entry_in(t: Seq<u8>, ks: Seq<u8>, vs: Seq<u8>, i: int, n: int)
    requires 0 <= i < n, t.len() == n * 8
    ensures map_valid(t, ks, vs, n) ==> inside(t, ks, vs, i, n),
        inside(t, ks, vs, i, n) == (col(t, i, 8) <= pend(ks, t, i, n) <= ks.len() && vcol(t, i) <= vend(vs, t, i, n) <= vs.len()),
{
    if map_valid(t, ks, vs, n) {
        assert(col(t, i, 8) <= ks.len());
        assert(t.skip(4).subrange(i * 8, i * 8 + 4) =~= t.subrange(i * 8 + 4, i * 8 + 8));
        assert(col(t.skip(4), i, 8) == vcol(t, i));
        if i + 1 < n {
            assert(col(t, i, 8) < col(t, i + 1, 8));
            assert(t.skip(4).subrange((i + 1) * 8, (i + 1) * 8 + 4) =~= t.subrange((i + 1) * 8 + 4, (i + 1) * 8 + 8));
            assert(col(t.skip(4), i + 1, 8) == vcol(t, i + 1));
            assert(col(t.skip(4), i, 8) < col(t.skip(4), i + 1, 8));
        }
    }
}
/// std: comparing two Orderings with ==
#[verifier::external_body]
pub proof fn ordering_eq_std()
    ensures <Ordering as vstd::std_specs::cmp::PartialEqSpec<Ordering>>::obeys_eq_spec(), forall|a: Ordering, b: Ordering| #[trigger] <Ordering as vstd::std_specs::cmp::PartialEqSpec<Ordering>>::eq_spec(&a, &b) == (a == b)
{}
pub assume_specification<Idx: Clone> [<std::ops::Range<Idx> as Clone>::clone] (r: &std::ops::Range<Idx>) -> (o: std::ops::Range<Idx>)
    ensures cloned::<Idx>(r.start, o.start), cloned::<Idx>(r.end, o.end);
pub open spec fn map_ok(p: Seq<u8>) -> bool {
    map_hdr(p) is Some && (map_hdr(p).unwrap().0 ==> map_valid(map_table(p), map_keys(p), map_vals(p), map_hdr(p).unwrap().1 as int))
}
}
}
//!! mod optimised::indexed::map_walk
::vstd::prelude::verus! {
impl<'p, K, V> IndexedMapWalker<'p, K, V> {
    pub closed spec fn bd(&self) -> Seq<u8> { self.body@ }
    pub closed spec fn n(&self) -> int { self.len as int }
    pub closed spec fn indexed(&self) -> bool { self.prologue is Some }
    pub closed spec fn table(&self) -> Seq<u8> { self.prologue->0.offset_table@ }
    pub closed spec fn keys(&self) -> Seq<u8> { self.prologue->0.keys_region@ }
    pub closed spec fn vals(&self) -> Seq<u8> { self.prologue->0.vals_region@ }
    #[verifier::type_invariant]
    spec fn wf(&self) -> bool { self.prologue is Some ==> self.prologue->0.offset_table@.len() == self.len * 8 }
    /// opened over payload p
    pub open spec fn of(&self, p: Seq<u8>) -> bool {
        map_hdr(p) == Some((self.indexed(), self.n() as nat, (p.len() - self.bd().len()) as nat)) && self.bd() == p.skip(p.len() - self.bd().len())
        && (self.indexed() ==> self.table() == map_table(p) && self.keys() == map_keys(p) && self.vals() == map_vals(p))
    }
    pub open spec fn valid(&self) -> bool { self.indexed() ==> map_valid(self.table(), self.keys(), self.vals(), self.n()) }
}
}
