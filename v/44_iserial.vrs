//!! data OFFSET_TABLE_MIN_LEN
//!! fn serialize::advance_offset : C14
ensures __r == (if $0 + $1 <= u32::MAX { Some(($0 + $1) as u32) } else { None::<u32> }),
//!! fn serialize::read_varint : C14 C08 C09
ensures
    __r is Ok ==> vlen((*old($0)).rem()) is Some && v_of(vlen((*old($0)).rem())) == __r->Ok_0 && (*final($0)).rem() =~= (*old($0)).rem().skip(n_of(vlen((*old($0)).rem())) as int),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> vlen((*old($0)).rem()) is Some),
//!! begin serialize::read_varint
    let ghost s = (*$0).rem();
    proof { broadcast use group_vx; p256_vals(); vlen_bound(s); if s.len() >= 9 { assert(s.skip(1).take(8) =~= s.subrange(1, 9)); } if s.len() >= 5 { assert(s.skip(1).take(4) =~= s.subrange(1, 5)); } if s.len() >= 3 { assert(s.skip(1).take(2) =~= s.subrange(1, 3)); } if s.len() >= 1 { assert(s.take(1) =~= seq![s[0]]); } }
//!! fn serialize::write_varint : C14 C12
ensures
    __r is Ok ==> (*final($0)).written() =~= (*old($0)).written() + venc($1 as nat),
    (*old($0)).wreliable() ==> (*final($0)).wreliable() && __r is Ok,
//!! begin serialize::write_varint
    proof { broadcast use group_vx; p256_vals(); }
//!! fn serialize::serialize_indexed_seq_iter : C14 C12
requires lawful($0), call_requires(I::into_iter, ($0,)),
ensures
    __r is Ok ==> exists|s: Seq<&'a T>| #[trigger] yields($0, s) && okall(s) && iseq_ok(encs_of(s)) && (*final($1)).written() =~= (*old($1)).written() + iseq(encs_of(s)),
    (*old($1)).wreliable() ==> (*final($1)).wreliable() && (__r is Err ==> exists|s: Seq<&'a T>| #[trigger] yields($0, s) && !(okall(s) && iseq_ok(encs_of(s)))),
//!! begin serialize::serialize_indexed_seq_iter
    proof { broadcast use group_vx; p256_vals(); }
    let ghost g_w0 = (*$1).written(); let ghost g_fin = *final($1);
//!! loop serialize::serialize_indexed_seq_iter
invariant
    __it0.iter.obeys_prophetic_iter_laws(), I::into_iter.ensures(($0,), __it0.snapshot@),
    vviews($let{Vec::new}@) =~= encs_of(__it0.seq().take(__it0.index@ as int)), okall(__it0.seq().take(__it0.index@ as int)),
    __it0.index@ == __it0.seq().len() ==> yields($0, __it0.seq()) && vviews($let{Vec::new}@) =~= encs_of(__it0.seq()) && okall(__it0.seq()),
//!! loopbegin serialize::serialize_indexed_seq_iter
    let ghost g_pv = vviews($let{Vec::new}@);
    proof { assert(yields($0, __it0.seq()));
      let q = __it0.seq(); let i = __it0.index@ as int; assert(q.take(i + 1) =~= q.take(i).push(q[i])); assert(q.take(i + 1)[i] == q[i]); assert(i + 1 == q.len() ==> q.take(i + 1) =~= q); }
//!! loopend serialize::serialize_indexed_seq_iter
    proof { let i = __it0.index@ as int; let q = __it0.seq(); assert($let{Vec::new}@.last()@ =~= encf(T::fmt(), (*q[i]).model())); assert(vviews($let{Vec::new}@) =~= g_pv.push(encf(T::fmt(), (*q[i]).model()))); assert(encs_of(q.take(i + 1)) =~= g_pv.push(encf(T::fmt(), (*q[i]).model()))); }
//!! loopafter serialize::serialize_indexed_seq_iter
    let ghost g_vb0 = vviews($let{Vec::new}@); assert(exists|s: Seq<&'a T>| #[trigger] yields($0, s) && okall(s) && encs_of(s) == g_vb0);
//!! loop serialize::serialize_indexed_seq_iter
invariant
    (*$1).written() =~= g_w1 + flat(g_vb.take(__it1.index@ as int)), (*old($1)).wreliable() ==> (*$1).wreliable(), g_fin == *final($1),
    __it1.index@ == __it1.seq().len() ==> (*$1).written() =~= g_w1 + flat(g_vb),
//!! loopbefore serialize::serialize_indexed_seq_iter
    let ghost g_vb = vviews($let{Vec::new}@); let ghost g_w1 = (*$1).written(); proof { assert(g_vb.take(0) =~= Seq::empty()); if g_vb.len() == 0 { assert(g_vb =~= Seq::empty()); } }
//!! loopbegin serialize::serialize_indexed_seq_iter
    proof { let i = __it1.index@ as int; flat_step(g_vb, i); if i + 1 == g_vb.len() { assert(g_vb.take(i + 1) =~= g_vb); } }
//!! loop serialize::serialize_indexed_seq_iter
invariant
    (*$1).written() =~= g_w1 + offs(g_vb, __it2.index@ as nat), (*old($1)).wreliable() ==> (*$1).wreliable(), g_fin == *final($1),
    $let{0u32} == flat(g_vb.take(__it2.index@ as int)).len(),
    __it2.index@ == __it2.seq().len() ==> $let{0u32} == flat(g_vb).len() && (*$1).written() =~= g_w1 + offs(g_vb, g_vb.len()),
//!! loopbefore serialize::serialize_indexed_seq_iter
    let ghost g_vb = vviews($let{Vec::new}@); let ghost g_w1 = (*$1).written(); proof { assert(g_vb.take(0) =~= Seq::empty()); }
//!! loopbegin serialize::serialize_indexed_seq_iter
    proof { let i = __it2.index@ as int; flat_step(g_vb, i); flat_mono(g_vb, i + 1); assert(offs(g_vb, (i + 1) as nat) == offs(g_vb, i as nat) + le_bytes(flat(g_vb.take(i)).len(), 4)); if i + 1 == g_vb.len() { assert(g_vb.take(i + 1) =~= g_vb); } }
//!! loop serialize::serialize_indexed_seq_iter
invariant
    (*$1).written() =~= g_w2 + flat(g_vb.take(__it3.index@ as int)), (*old($1)).wreliable() ==> (*$1).wreliable(), g_fin == *final($1),
    __it3.index@ == __it3.seq().len() ==> (*$1).written() =~= g_w2 + flat(g_vb),
//!! loopbefore serialize::serialize_indexed_seq_iter
    let ghost g_w2 = (*$1).written();
//!! loopbegin serialize::serialize_indexed_seq_iter
    proof { let i = __it3.index@ as int; flat_step(g_vb, i); if i + 1 == g_vb.len() { assert(g_vb.take(i + 1) =~= g_vb); } }
//!! fn serialize::serialize_indexed_set_iter : C14 C12
requires lawful($0), call_requires(I::into_iter, ($0,)),
ensures
    __r is Ok ==> exists|s: Seq<&'a T>| #[trigger] yields($0, s) && okall(s) && (exists|b: Seq<Seq<u8>>| #[trigger] sorted_of(b, encs_of(s)) && iseq_ok(b) && (*final($1)).written() =~= (*old($1)).written() + iseq(b)),
    (*old($1)).wreliable() ==> (*final($1)).wreliable() && (__r is Err ==> exists|s: Seq<&'a T>| #[trigger] yields($0, s) && !(okall(s) && iseq_ok(encs_of(s)))),
//!! begin serialize::serialize_indexed_set_iter
    proof { broadcast use group_vx; p256_vals(); }
    let ghost g_w0 = (*$1).written(); let ghost g_fin = *final($1);
//!! loop serialize::serialize_indexed_set_iter
invariant
    __it0.iter.obeys_prophetic_iter_laws(), I::into_iter.ensures(($0,), __it0.snapshot@),
    vviews($let{Vec::new}@) =~= encs_of(__it0.seq().take(__it0.index@ as int)), okall(__it0.seq().take(__it0.index@ as int)),
    __it0.index@ == __it0.seq().len() ==> yields($0, __it0.seq()) && vviews($let{Vec::new}@) =~= encs_of(__it0.seq()) && okall(__it0.seq()),
//!! loopbegin serialize::serialize_indexed_set_iter
    let ghost g_pv = vviews($let{Vec::new}@);
    proof { assert(yields($0, __it0.seq()));
      let q = __it0.seq(); let i = __it0.index@ as int; assert(q.take(i + 1) =~= q.take(i).push(q[i])); assert(q.take(i + 1)[i] == q[i]); assert(i + 1 == q.len() ==> q.take(i + 1) =~= q); }
//!! loopend serialize::serialize_indexed_set_iter
    proof { let i = __it0.index@ as int; let q = __it0.seq(); assert($let{Vec::new}@.last()@ =~= encf(T::fmt(), (*q[i]).model())); assert(vviews($let{Vec::new}@) =~= g_pv.push(encf(T::fmt(), (*q[i]).model()))); assert(encs_of(q.take(i + 1)) =~= g_pv.push(encf(T::fmt(), (*q[i]).model()))); }
//!! loopafter serialize::serialize_indexed_set_iter
    let ghost g_vb0 = vviews($let{Vec::new}@); assert(exists|s: Seq<&'a T>| #[trigger] yields($0, s) && okall(s) && encs_of(s) == g_vb0);
    let ghost g_bs0 = $let{Vec::new}@;
//!! after serialize::serialize_indexed_set_iter | vx_sort
    proof { slice_sort_bytes($let{Vec::new}@, g_bs0); sorted_flat(vviews($let{Vec::new}@), g_vb0); assert(sorted_of(vviews($let{Vec::new}@), g_vb0)); }
//!! loop serialize::serialize_indexed_set_iter
invariant
    (*$1).written() =~= g_w1 + flat(g_vb.take(__it1.index@ as int)), (*old($1)).wreliable() ==> (*$1).wreliable(), g_fin == *final($1),
    __it1.index@ == __it1.seq().len() ==> (*$1).written() =~= g_w1 + flat(g_vb),
//!! loopbefore serialize::serialize_indexed_set_iter
    let ghost g_vb = vviews($let{Vec::new}@); let ghost g_w1 = (*$1).written(); proof { assert(g_vb.take(0) =~= Seq::empty()); if g_vb.len() == 0 { assert(g_vb =~= Seq::empty()); } }
//!! loopbegin serialize::serialize_indexed_set_iter
    proof { let i = __it1.index@ as int; flat_step(g_vb, i); if i + 1 == g_vb.len() { assert(g_vb.take(i + 1) =~= g_vb); } }
//!! loop serialize::serialize_indexed_set_iter
invariant
    (*$1).written() =~= g_w1 + offs(g_vb, __it2.index@ as nat), (*old($1)).wreliable() ==> (*$1).wreliable(), g_fin == *final($1),
    $let{0u32} == flat(g_vb.take(__it2.index@ as int)).len(),
    __it2.index@ == __it2.seq().len() ==> $let{0u32} == flat(g_vb).len() && (*$1).written() =~= g_w1 + offs(g_vb, g_vb.len()),
//!! loopbefore serialize::serialize_indexed_set_iter
    let ghost g_vb = vviews($let{Vec::new}@); let ghost g_w1 = (*$1).written(); proof { assert(g_vb.take(0) =~= Seq::empty()); }
//!! loopbegin serialize::serialize_indexed_set_iter
    proof { let i = __it2.index@ as int; flat_step(g_vb, i); flat_mono(g_vb, i + 1); assert(offs(g_vb, (i + 1) as nat) == offs(g_vb, i as nat) + le_bytes(flat(g_vb.take(i)).len(), 4)); if i + 1 == g_vb.len() { assert(g_vb.take(i + 1) =~= g_vb); } }
//!! loop serialize::serialize_indexed_set_iter
invariant
    (*$1).written() =~= g_w2 + flat(g_vb.take(__it3.index@ as int)), (*old($1)).wreliable() ==> (*$1).wreliable(), g_fin == *final($1),
    __it3.index@ == __it3.seq().len() ==> (*$1).written() =~= g_w2 + flat(g_vb),
//!! loopbefore serialize::serialize_indexed_set_iter
    let ghost g_w2 = (*$1).written();
//!! loopbegin serialize::serialize_indexed_set_iter
    proof { let i = __it3.index@ as int; flat_step(g_vb, i); if i + 1 == g_vb.len() { assert(g_vb.take(i + 1) =~= g_vb); } }
//!! fn serialize::serialize_indexed_seq : C14 C12
ensures
    __r is Ok ==> iseq_ok(vencs(T::fmt(), models($0@))) && okn(T::fmt(), models($0@)) && (*final($1)).written() =~= (*old($1)).written() + iseq(vencs(T::fmt(), models($0@))),
    (*old($1)).wreliable() ==> (*final($1)).wreliable() && (__r is Ok <==> okn(T::fmt(), models($0@)) && iseq_ok(vencs(T::fmt(), models($0@)))),
//!! begin serialize::serialize_indexed_seq
    proof { let m = models($0@); okn_iff(T::fmt(), m); okn_all(T::fmt(), m, m.len() as int);
        assert forall|it: core::slice::Iter<'_, T>, s: Seq<&T>| #[trigger] yields(it, s) && ({ let r = vstd::std_specs::iter::IteratorSpec::remaining(&it); r.len() == $0@.len() && forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == $0@[i] }) implies encs_of(s) == vencs(T::fmt(), m) && (okall(s) <==> okn(T::fmt(), m)) by {
            assert(encs_of(s) =~= vencs(T::fmt(), m));
            assert forall|i: int| #![trigger m[i]] #![trigger s[i]] 0 <= i < m.len() implies m[i] == (*s[i]).model() by {} } }
//!! fn IndexedSeqEncoded for Vec<T>::serialize_indexed_seq : C14 C12
//!! fn IndexedSeqEncoded for Vec<T>::deserialize_indexed_seq : C14 C08 C09 C12
//!! fn IndexedSeqEncoded for Vec<T>::skip_indexed_seq : C14 C12
//!! fn serialize::deserialize_indexed_seq : C14 C08 C09 C12
ensures
    __r is Ok ==> dec_iseq(T::fmt(), (*old($0)).rem()) is Some && v_of(dec_iseq(T::fmt(), (*old($0)).rem())) =~= models((__r->Ok_0)@) && (*final($0)).rem() =~= (*old($0)).rem().skip(n_of(dec_iseq(T::fmt(), (*old($0)).rem())) as int),
    (*old($0)).reliable() ==> (*final($0)).reliable() && ((*old($0)).rem().len() <= usize::MAX ==> (__r is Ok <==> dec_iseq(T::fmt(), (*old($0)).rem()) is Some)),
//!! begin serialize::deserialize_indexed_seq
    proof { broadcast use group_vx; let s = (*$0).rem(); if s.len() > 0 { flag_bit(s[0]); vlen_bound(s.skip(1)); assert(s.take(1) =~= seq![s[0]]); } }
//!! loop serialize::deserialize_indexed_seq
invariant
    decn(T::fmt(), __it0.index@ as nat, g_s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, g_s1)) <= g_s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, g_s1)).len() == __it0.index@,
    (*$0).rem() =~= g_s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, g_s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    models(($let{with_capacity})@) =~= v_of(decn(T::fmt(), __it0.index@ as nat, g_s1)),
//!! loopbefore serialize::deserialize_indexed_seq
    let ghost g_s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, g_s1); assert(models(Seq::<T>::empty()) =~= Seq::<Val>::empty()); assert(g_s1 =~= (*old($0)).rem().skip(seq_hdr((*old($0)).rem()).unwrap().2 as int)); }
//!! loopbegin serialize::deserialize_indexed_seq
    proof { broadcast use {group_vx, group_fmt};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, g_s1); thm_boundn(T::fmt(), k + 1, g_s1);
        decn_prefix(T::fmt(), k + 1, $let{read_varint} as nat, g_s1); }
//!! loopafter serialize::deserialize_indexed_seq
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{with_capacity})@) =~= v_of(decn(T::fmt(), $let{read_varint} as nat, g_s1))); }
//!! loop serialize::deserialize_indexed_seq
invariant
    decn(T::fmt(), __it1.index@ as nat, g_s1) is Some, n_of(decn(T::fmt(), __it1.index@ as nat, g_s1)) <= g_s1.len(),
    v_of(decn(T::fmt(), __it1.index@ as nat, g_s1)).len() == __it1.index@,
    (*$0).rem() =~= g_s1.skip(n_of(decn(T::fmt(), __it1.index@ as nat, g_s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    models(($let{with_capacity})@) =~= v_of(decn(T::fmt(), __it1.index@ as nat, g_s1)),
//!! loopbefore serialize::deserialize_indexed_seq
    let ghost g_s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt}; decn_step(T::fmt(), 0, g_s1); assert(models(Seq::<T>::empty()) =~= Seq::<Val>::empty()); assert(g_s1 =~= (*old($0)).rem().skip(seq_hdr((*old($0)).rem()).unwrap().2 as int)); }
//!! loopbegin serialize::deserialize_indexed_seq
    proof { broadcast use {group_vx, group_fmt};
        let k = __it1.index@ as nat;
        decn_step(T::fmt(), k, g_s1); thm_boundn(T::fmt(), k + 1, g_s1);
        decn_prefix(T::fmt(), k + 1, $let{read_varint} as nat, g_s1); }
//!! loopafter serialize::deserialize_indexed_seq
    proof { broadcast use {group_vx, group_fmt}; assert(models(($let{with_capacity})@) =~= v_of(decn(T::fmt(), $let{read_varint} as nat, g_s1))); }
//!! fn serialize::skip_indexed_seq : C14 C12
ensures
    __r is Ok ==> sz_iseq(T::fmt(), (*old($0)).rem()) is Some && (*final($0)).rem() =~= (*old($0)).rem().skip(sz_iseq(T::fmt(), (*old($0)).rem())->0 as int),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (skok_iseq(T::fmt(), (*old($0)).rem()) && (*old($0)).rem().len() <= usize::MAX ==> __r is Ok),
//!! begin serialize::skip_indexed_seq
    let ghost g_s0 = (*$0).rem();
    broadcast use slice_to_array;
    proof { broadcast use group_vx; slice_to_array_obeys::<4>(); let s = (*$0).rem(); if s.len() > 0 { flag_bit(s[0]); vlen_bound(s.skip(1)); assert(s.take(1) =~= seq![s[0]]); } }
//!! loop serialize::skip_indexed_seq
invariant
    szn(T::fmt(), __it0.index@ as nat, g_s1) is Some, szn(T::fmt(), __it0.index@ as nat, g_s1)->0 <= g_s1.len(),
    (*$0).rem() =~= g_s1.skip(szn(T::fmt(), __it0.index@ as nat, g_s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore serialize::skip_indexed_seq
    let ghost g_s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, g_s1); assert(g_s1 =~= g_s0.skip(seq_hdr(g_s0).unwrap().2 as int)); }
//!! loopbegin serialize::skip_indexed_seq
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(T::fmt(), k, g_s1); decn_step(T::fmt(), k, g_s1); thm_szn(T::fmt(), k, g_s1); thm_szn(T::fmt(), k + 1, g_s1);
        decn_prefix(T::fmt(), k + 1, $let{read_varint} as nat, g_s1); }
//!! after serialize::skip_indexed_seq | from_le_bytes
    proof { let k = seq_hdr(g_s0).unwrap().2 as int; let n = $let{read_varint} as int; assert($let{peek_bytes}@.subrange((n - 1) * 4, n * 4) =~= g_s0.subrange(k - 4, k)); assert(k + $let{from_le_bytes} == k + u32at(g_s0, k - 4)); if k + $let{from_le_bytes} <= g_s0.len() { assert(g_s0.skip(k).skip($let{from_le_bytes} as int) =~= g_s0.skip(k + $let{from_le_bytes})); } }
//!! fn serialize::skip_indexed_set : C14 C12
ensures
    __r is Ok ==> sz_iseq(T::fmt(), (*old($0)).rem()) is Some && (*final($0)).rem() =~= (*old($0)).rem().skip(sz_iseq(T::fmt(), (*old($0)).rem())->0 as int),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (skok_iseq(T::fmt(), (*old($0)).rem()) && (*old($0)).rem().len() <= usize::MAX ==> __r is Ok),
//!! fn serialize::skip_indexed_map : C14 C12
ensures
    __r is Ok ==> sz_imap(K::fmt(), V::fmt(), (*old($0)).rem()) is Some && (*final($0)).rem() =~= (*old($0)).rem().skip(sz_imap(K::fmt(), V::fmt(), (*old($0)).rem())->0 as int),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (skok_imap(K::fmt(), V::fmt(), (*old($0)).rem()) && (*old($0)).rem().len() <= usize::MAX ==> __r is Ok),
//!! begin serialize::skip_indexed_map
    let ghost g_s0 = (*$0).rem(); let ghost g_pf = Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt()));
    broadcast use slice_to_array;
    proof { broadcast use group_vx; slice_to_array_obeys::<4>(); let s = (*$0).rem(); if s.len() > 0 { flag_bit(s[0]); vlen_bound(s.skip(1)); assert(s.take(1) =~= seq![s[0]]); } }
//!! loop serialize::skip_indexed_map
invariant
    szn(g_pf, __it0.index@ as nat, g_s1) is Some, szn(g_pf, __it0.index@ as nat, g_s1)->0 <= g_s1.len(),
    (*$0).rem() =~= g_s1.skip(szn(g_pf, __it0.index@ as nat, g_s1)->0 as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
//!! loopbefore serialize::skip_indexed_map
    let ghost g_s1 = (*$0).rem(); proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(g_pf, 0, g_s1); assert(g_s1 =~= g_s0.skip(map_hdr(g_s0).unwrap().2 as int)); }
//!! loopbegin serialize::skip_indexed_map
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = __it0.index@ as nat;
        szn_step(g_pf, k, g_s1); decn_step(g_pf, k, g_s1); thm_szn(g_pf, k, g_s1); thm_szn(g_pf, k + 1, g_s1);
        decn_prefix(g_pf, k + 1, $let{read_varint} as nat, g_s1); }
//!! after serialize::skip_indexed_map | lens_buf [4 ..]
    proof { let o = vlen(g_s0.skip(1)).unwrap(); let p = (1 + o.1 + 8 * o.0) as int; assert($let{[0u8;8]}@.subrange(0, 4) =~= g_s0.subrange(p as int, p + 4)); assert($let{[0u8;8]}@.subrange(4, 8) =~= g_s0.subrange(p + 4, p + 8)); assert(g_s0.skip(p as int).skip(8) =~= g_s0.skip(p + 8)); assert($let{[..4]} == u32at(g_s0, p as int)); assert($let{[4..]} == u32at(g_s0, p + 4)); let d = (u32at(g_s0, p as int) + u32at(g_s0, p + 4)) as int; if p + 8 + d <= g_s0.len() { assert(g_s0.skip(p + 8).skip(d) =~= g_s0.skip(p + 8 + d)); } }
//!! attr serialize::serialize_indexed_entries
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
//!! fn serialize::serialize_indexed_entries : C14 C12
requires lawful($0), call_requires(I::into_iter, ($0,)),
ensures
    __r is Ok ==> exists|s: Seq<(&'a K, &'a V)>| #[trigger] yields($0, s) && okpairs(s) && (exists|b: Seq<(Seq<u8>, Seq<u8>)>| #[trigger] psorted_of(b, pencs(s)) && imap_ok(b) && (*final($1)).written() =~= (*old($1)).written() + imap(b)),
    (*old($1)).wreliable() ==> (*final($1)).wreliable() && (__r is Err ==> exists|s: Seq<(&'a K, &'a V)>| #[trigger] yields($0, s) && !(okpairs(s) && imap_ok(pencs(s)))),
//!! sortby serialize::serialize_indexed_entries
|__a: &(Vec<u8>, Vec<u8>), __b: &(Vec<u8>, Vec<u8>)| -> (__o: std::cmp::Ordering) requires true ensures __o == bytes_ord(__a.0@, __b.0@)
Ghost(|e: (Vec<u8>, Vec<u8>)| e.0@)
//!! begin serialize::serialize_indexed_entries
    broadcast use vec_cmp_std;
    proof { broadcast use group_vx; p256_vals(); vec_cmp_obeys(); }
    let ghost g_w0 = (*$1).written(); let ghost g_fin = *final($1);
//!! loop serialize::serialize_indexed_entries
invariant
    __it0.iter.obeys_prophetic_iter_laws(), I::into_iter.ensures(($0,), __it0.snapshot@),
    pviews($let{Vec::new}@) =~= pencs(__it0.seq().take(__it0.index@ as int)), okpairs(__it0.seq().take(__it0.index@ as int)),
    __it0.index@ == __it0.seq().len() ==> yields($0, __it0.seq()) && pviews($let{Vec::new}@) =~= pencs(__it0.seq()) && okpairs(__it0.seq()),
//!! loopbegin serialize::serialize_indexed_entries
    let ghost g_pv = pviews($let{Vec::new}@);
    proof { assert(yields($0, __it0.seq()));
      let q = __it0.seq(); let i = __it0.index@ as int; assert(q.take(i + 1) =~= q.take(i).push(q[i])); assert(q.take(i + 1)[i] == q[i]); assert(i + 1 == q.len() ==> q.take(i + 1) =~= q); }
//!! loopend serialize::serialize_indexed_entries
    proof { let i = __it0.index@ as int; let q = __it0.seq(); let e = (encf(K::fmt(), (*q[i].0).model()), encf(V::fmt(), (*q[i].1).model()));
      assert($let{Vec::new}@.last().0@ =~= e.0); assert($let{Vec::new}@.last().1@ =~= e.1); assert(pviews($let{Vec::new}@) =~= g_pv.push(e)); assert(pencs(q.take(i + 1)) =~= g_pv.push(e)); }
//!! loopafter serialize::serialize_indexed_entries
    let ghost g_vb0 = pviews($let{Vec::new}@); assert(exists|s: Seq<(&'a K, &'a V)>| #[trigger] yields($0, s) && okpairs(s) && pencs(s) == g_vb0);
    let ghost g_bs0 = $let{Vec::new}@;
//!! after serialize::serialize_indexed_entries | vx_sort_by
    let ghost g_vb = pviews($let{Vec::new}@); let ghost g_ks = firsts(g_vb); let ghost g_vs = seconds(g_vb); let ghost g_n0 = g_vb.len();
    proof { views_perm($let{Vec::new}@, g_bs0); psorted_flat(g_vb, g_vb0); assert(psorted_of(g_vb, g_vb0)); }
//!! loop serialize::serialize_indexed_entries
invariant
    (*$1).written() =~= g_w1 + pflat(g_vb.take(__it1.index@ as int)), (*old($1)).wreliable() ==> (*$1).wreliable(), g_fin == *final($1),
    __it1.index@ == __it1.seq().len() ==> (*$1).written() =~= g_w1 + pflat(g_vb),
//!! loopbefore serialize::serialize_indexed_entries
    let ghost g_w1 = (*$1).written(); proof { assert(g_vb.take(0) =~= Seq::empty()); if g_vb.len() == 0 { assert(g_vb =~= Seq::empty()); } }
//!! loopbegin serialize::serialize_indexed_entries
    proof { let i = __it1.index@ as int; pflat_step(g_vb, i); if i + 1 == g_vb.len() { assert(g_vb.take(i + 1) =~= g_vb); } }
//!! after serialize::serialize_indexed_entries | vx_unzip
    proof { assert(vviews($let{unzip#0}@) =~= g_ks); assert(vviews($let{unzip#1}@) =~= g_vs); }
//!! loop serialize::serialize_indexed_entries
invariant
    $let0{with_capacity}@.len() == __it2.index@, $let1{with_capacity}@.len() == __it2.index@, __it2.seq().len() == g_n0, g_ks.len() == g_n0, g_vs.len() == g_n0,
    forall|i: int| #![trigger $let0{with_capacity}@[i]] 0 <= i < __it2.index@ ==> $let0{with_capacity}@[i] as nat == flat(g_ks.take(i)).len(),
    forall|i: int| #![trigger $let1{with_capacity}@[i]] 0 <= i < __it2.index@ ==> $let1{with_capacity}@[i] as nat == flat(g_vs.take(i)).len(),
    $let0{0u32} == flat(g_ks.take(__it2.index@ as int)).len(), $let1{0u32} == flat(g_vs.take(__it2.index@ as int)).len(),
    __it2.index@ == g_n0 ==> $let0{0u32} == flat(g_ks).len() && $let1{0u32} == flat(g_vs).len(),
//!! loopbefore serialize::serialize_indexed_entries
    proof { assert(g_ks.take(0) =~= Seq::empty()); assert(g_vs.take(0) =~= Seq::empty()); }
//!! loopbegin serialize::serialize_indexed_entries
    proof { let i = __it2.index@ as int; flat_step(g_ks, i); flat_mono(g_ks, i + 1); flat_step(g_vs, i); flat_mono(g_vs, i + 1); if i + 1 == g_n0 { assert(g_ks.take(i + 1) =~= g_ks); assert(g_vs.take(i + 1) =~= g_vs); } }
//!! loop serialize::serialize_indexed_entries
invariant
    (*$1).written() =~= g_w2 + poffs(g_ks, g_vs, __it3.index@ as nat), (*old($1)).wreliable() ==> (*$1).wreliable(), g_fin == *final($1),
//!! loopbefore serialize::serialize_indexed_entries
    let ghost g_w2 = (*$1).written();
//!! loopbegin serialize::serialize_indexed_entries
    proof { let i = __it3.index@; assert(poffs(g_ks, g_vs, (i + 1) as nat) == poffs(g_ks, g_vs, i as nat) + le_bytes(flat(g_ks.take(i as int)).len(), 4) + le_bytes(flat(g_vs.take(i as int)).len(), 4)); }
//!! loop serialize::serialize_indexed_entries
invariant
    (*$1).written() =~= g_w3 + flat(g_ks.take(__it4.index@ as int)), (*old($1)).wreliable() ==> (*$1).wreliable(), g_fin == *final($1),
    __it4.index@ == __it4.seq().len() ==> (*$1).written() =~= g_w3 + flat(g_ks),
//!! loopbefore serialize::serialize_indexed_entries
    let ghost g_w3 = (*$1).written(); proof { assert(g_ks.take(0) =~= Seq::empty()); }
//!! loopbegin serialize::serialize_indexed_entries
    proof { let i = __it4.index@ as int; flat_step(g_ks, i); if i + 1 == g_ks.len() { assert(g_ks.take(i + 1) =~= g_ks); } }
//!! loop serialize::serialize_indexed_entries
invariant
    (*$1).written() =~= g_w4 + flat(g_vs.take(__it5.index@ as int)), (*old($1)).wreliable() ==> (*$1).wreliable(), g_fin == *final($1),
    __it5.index@ == __it5.seq().len() ==> (*$1).written() =~= g_w4 + flat(g_vs),
//!! loopbefore serialize::serialize_indexed_entries
    let ghost g_w4 = (*$1).written(); proof { assert(g_vs.take(0) =~= Seq::empty()); }
//!! loopbegin serialize::serialize_indexed_entries
    proof { let i = __it5.index@ as int; flat_step(g_vs, i); if i + 1 == g_vs.len() { assert(g_vs.take(i + 1) =~= g_vs); } }
//!! crate
::vstd::prelude::verus! {
pub mod __vxis {
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::cmp::*;
use super::__vx::*;
use super::__vxt::*;
use super::__vxidx::*;
use super::__vxwalk::*;
use super::__vxmap::*;
use crate::{Revisioned, SerializeRevisioned};
#[verifier::prophetic] pub open spec fn yields<I: IntoIterator>(items: I, s: Seq<I::Item>) -> bool { exists|it: I::IntoIter| #[trigger] I::into_iter.ensures((items,), it) && it.remaining() == s }
/// the iterator is finite and well behaved
pub open spec fn lawful<I: IntoIterator>(items: I) -> bool { forall|it: I::IntoIter| #[trigger] I::into_iter.ensures((items,), it) ==> it.obeys_prophetic_iter_laws() && it.decrease() is Some }
pub open spec fn encs_of<T: Revisioned>(s: Seq<&T>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| encf(T::fmt(), (*s[i]).model())) }
pub open spec fn okall<T: Revisioned>(s: Seq<&T>) -> bool { forall|i: int| 0 <= i < s.len() ==> okf(T::fmt(), (*(#[trigger] s[i])).model()) }
pub open spec fn vviews(v: Seq<Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
/// always the compact form, whatever the build mode
pub open spec fn venc(n: nat) -> Seq<u8> {
    if n <= 250 { seq![n as u8] } else if n <= 0xffff { seq![251u8] + le_bytes(n, 2) } else if n <= 0xffff_ffff { seq![252u8] + le_bytes(n, 4) } else { seq![253u8] + le_bytes(n, 8) }
}
pub open spec fn flat(b: Seq<Seq<u8>>) -> Seq<u8> decreases b.len() { if b.len() == 0 { Seq::empty() } else { flat(b.drop_last()) + b.last() } }
/// the first k entries of the offset table: where each part starts
pub open spec fn offs(b: Seq<Seq<u8>>, k: nat) -> Seq<u8> decreases k { if k == 0 { Seq::empty() } else { offs(b, (k - 1) as nat) + le_bytes(flat(b.take(k - 1)).len(), 4) } }
pub open spec fn iseq_ok(b: Seq<Seq<u8>>) -> bool { b.len() >= 8 ==> flat(b).len() <= u32::MAX }
/// b is x in ascending byte order, nothing lost or added
pub open spec fn sorted_of(b: Seq<Seq<u8>>, x: Seq<Seq<u8>>) -> bool {
    b.to_multiset() == x.to_multiset() && (forall|i: int, j: int| 0 <= i < j < b.len() ==> !bytes_lt(#[trigger] b[j], #[trigger] b[i]))
}
/// std: sorting byte strings permutes them into lexicographic order
#[verifier::external_body]
pub proof fn slice_sort_bytes(y: Seq<Vec<u8>>, x: Seq<Vec<u8>>)
    ensures sort_of(x, y) ==> sorted_of(vviews(y), vviews(x))
{}
pub proof fn flat_fold(b: Seq<Seq<u8>>, v: int)
    ensures b.fold_right(|e: Seq<u8>, a: int| a + e.len(), v) == v + flat(b).len()
    decreases b.len()
{ if b.len() > 0 { flat_fold(b.drop_last(), v + b.last().len()); } }
pub proof fn sorted_flat(b: Seq<Seq<u8>>, x: Seq<Seq<u8>>)
    requires sorted_of(b, x)
    ensures b.len() == x.len(), flat(b).len() == flat(x).len()
{
    let f = |e: Seq<u8>, a: int| a + e.len();
    b.to_multiset_ensures(); x.to_multiset_ensures();
    vstd::seq_lib::lemma_fold_right_permutation(b, x, f, 0);
    flat_fold(b, 0); flat_fold(x, 0);
}
pub proof fn flat_step(b: Seq<Seq<u8>>, i: int)
    requires 0 <= i < b.len()
    ensures flat(b.take(i + 1)) == flat(b.take(i)) + b[i]
{ assert(b.take(i + 1).drop_last() =~= b.take(i)); assert(b.take(i + 1).last() == b[i]); }
pub proof fn flat_mono(b: Seq<Seq<u8>>, i: int)
    requires 0 <= i <= b.len()
    ensures flat(b.take(i)).len() <= flat(b).len()
    decreases b.len() - i
{ if i < b.len() { flat_step(b, i); flat_mono(b, i + 1); } else { assert(b.take(i) =~= b); } }
/// documented layout of an indexed sequence
pub open spec fn iseq(b: Seq<Seq<u8>>) -> Seq<u8> {
    if b.len() < 8 { seq![0u8] + venc(b.len()) + flat(b) } else { seq![1u8] + venc(b.len()) + offs(b, b.len()) + flat(b) }
}
pub open spec fn vencs(g: Fmt, vs: Seq<Val>) -> Seq<Seq<u8>> { Seq::new(vs.len(), |i: int| encf(g, vs[i])) }
pub open spec fn dec_iseq(g: Fmt, s: Seq<u8>) -> Option<(Seq<Val>, nat)> {
    match seq_hdr(s) { None => None, Some((_, n, k)) => match decn(g, n, s.skip(k as int)) { None => None, Some((vs, m)) => Some((vs, k + m)) } }
}
/// where a skip lands
pub open spec fn sz_iseq(g: Fmt, s: Seq<u8>) -> Option<nat> {
    match seq_hdr(s) {
        None => None,
        Some((false, n, k)) => match szn(g, n, s.skip(k as int)) { None => None, Some(m) => Some(k + m) },
        Some((true, n, k)) => if n == 0 { Some(k) } else {
            let e = k + u32at(s, k - 4); if e > s.len() { None } else { match szf(g, s.skip(e as int)) { None => None, Some(m) => Some(e + m) } } },
    }
}
/// a skip must succeed
pub open spec fn skok_iseq(g: Fmt, s: Seq<u8>) -> bool {
    match seq_hdr(s) {
        None => false,
        Some((false, n, k)) => decn(g, n, s.skip(k as int)) is Some,
        Some((true, n, k)) => n > 0 ==> k + u32at(s, k - 4) <= s.len() && decf(g, s.skip((k + u32at(s, k - 4)) as int)) is Some,
    }
}
/// where a skip of an indexed map lands
pub open spec fn sz_imap(gk: Fmt, gv: Fmt, s: Seq<u8>) -> Option<nat> {
    match map_hdr(s) {
        None => None,
        Some((false, n, k)) => match szn(Fmt::Pair(Box::new(gk), Box::new(gv)), n, s.skip(k as int)) { None => None, Some(m) => Some(k + m) },
        Some((true, n, k)) => Some((k + 8 * n + 8 + u32at(s, (k + 8 * n) as int) + u32at(s, (k + 8 * n + 4) as int)) as nat),
    }
}
pub open spec fn skok_imap(gk: Fmt, gv: Fmt, s: Seq<u8>) -> bool {
    match map_hdr(s) { None => false, Some((false, n, k)) => decn(Fmt::Pair(Box::new(gk), Box::new(gv)), n, s.skip(k as int)) is Some, Some((true, n, k)) => true }
}
pub proof fn venc_rt(n: nat, t: Seq<u8>)
    requires n <= u64::MAX
    ensures vlen(venc(n) + t) == Some((n, venc(n).len()))
{
    broadcast use group_vx; p256_vals();
    let s = venc(n) + t;
    if n <= 250 {} else if n <= 0xffff { assert(s.subrange(1, 3) =~= le_bytes(n, 2)); } else if n <= 0xffff_ffff { assert(s.subrange(1, 5) =~= le_bytes(n, 4)); } else { assert(s.subrange(1, 9) =~= le_bytes(n, 8)); }
}
pub proof fn flat_encn(g: Fmt, vs: Seq<Val>)
    ensures flat(vencs(g, vs)) == encn(g, vs)
    decreases vs.len()
{
    encn_step(g, vs, arbitrary());
    if vs.len() == 0 { assert(vs =~= Seq::empty()); assert(vencs(g, vs) =~= Seq::empty()); }
    else { flat_encn(g, vs.drop_last()); encn_step(g, vs.drop_last(), vs.last()); assert(vs.drop_last().push(vs.last()) =~= vs);
        assert(vencs(g, vs).drop_last() =~= vencs(g, vs.drop_last())); }
}
pub proof fn offs_len(b: Seq<Seq<u8>>, k: nat)
    ensures offs(b, k).len() == 4 * k
    decreases k
{ broadcast use group_vx; if k > 0 { offs_len(b, (k - 1) as nat); } }
pub proof fn offs_at(b: Seq<Seq<u8>>, k: nat, i: int)
    requires 0 <= i < k <= b.len(), flat(b).len() <= u32::MAX
    ensures col(offs(b, k), i, 4) == flat(b.take(i)).len()
    decreases k
{
    broadcast use group_vx; p256_vals(); offs_len(b, k); offs_len(b, (k - 1) as nat);
    let o = offs(b, k);
    if i == k - 1 { flat_mono(b, i); assert(o.subrange(i * 4, i * 4 + 4) =~= le_bytes(flat(b.take(i)).len(), 4)); }
    else { offs_at(b, (k - 1) as nat, i); assert(o.subrange(i * 4, i * 4 + 4) =~= offs(b, (k - 1) as nat).subrange(i * 4, i * 4 + 4)); }
}
/// the header a reader sees in front of iseq(b)
pub proof fn iseq_hdr(b: Seq<Seq<u8>>, t: Seq<u8>)
    requires b.len() <= u64::MAX
    ensures ({ let s = iseq(b) + t; let h = seq_hdr(s).unwrap();
        seq_hdr(s) == Some((b.len() >= 8, b.len(), h.2)) && iseq(b).len() == h.2 + flat(b).len() && s.skip(h.2 as int) =~= flat(b) + t
        && h.2 <= s.len() && (b.len() >= 8 ==> h.2 == 1 + venc(b.len()).len() + 4 * b.len() && s.subrange(h.2 - 4 * b.len(), h.2 as int) =~= offs(b, b.len())) })
{
    broadcast use group_vx;
    let s = iseq(b) + t; let z = venc(b.len());
    offs_len(b, b.len());
    let rest = if b.len() < 8 { flat(b) + t } else { offs(b, b.len()) + flat(b) + t };
    assert(s.skip(1) =~= z + rest);
    venc_rt(b.len(), rest);
}
/// THEOREM (C14): an indexed sequence decodes to the values written, whatever follows it, and nothing after it is read
pub proof fn thm_iseq_rt(g: Fmt, vs: Seq<Val>, t: Seq<u8>)
    requires okn(g, vs), vs.len() <= u64::MAX
    ensures dec_iseq(g, iseq(vencs(g, vs)) + t) == Some((vs, iseq(vencs(g, vs)).len()))
{
    let b = vencs(g, vs);
    iseq_hdr(b, t); flat_encn(g, vs); thm_rtn(g, vs, t);
}
/// THEOREM (C14): skipping an indexed sequence lands exactly behind it
pub proof fn thm_iseq_skip(g: Fmt, vs: Seq<Val>, t: Seq<u8>)
    requires okn(g, vs), vs.len() <= u64::MAX, iseq_ok(vencs(g, vs))
    ensures skok_iseq(g, iseq(vencs(g, vs)) + t), sz_iseq(g, iseq(vencs(g, vs)) + t) == Some(iseq(vencs(g, vs)).len())
{
    let b = vencs(g, vs); let s = iseq(b) + t; let n = b.len();
    iseq_hdr(b, t); flat_encn(g, vs); thm_rtn(g, vs, t); thm_szn(g, n, encn(g, vs) + t);
    if n >= 8 {
        let k = seq_hdr(s).unwrap().2 as int; let o = offs(b, n);
        offs_at(b, n, n - 1); offs_len(b, n);
        assert(s.subrange(k - 4, k) =~= o.subrange((n - 1) * 4, (n - 1) * 4 + 4));
        let d = flat(b.take(n - 1)); flat_step(b, n - 1); assert(b.take(n as int) =~= b);
        assert(flat(b) == d + b[n - 1]);
        assert(s.skip(k + d.len()) =~= b[n - 1] + t) by { assert(s.skip(k) =~= flat(b) + t); assert(s.skip(k + d.len()) =~= s.skip(k).skip(d.len() as int)); assert((d + b[n - 1] + t).skip(d.len() as int) =~= b[n - 1] + t); }
        okn_all(g, vs, n as int); okn_step(g, vs.drop_last(), vs.last()); assert(vs.drop_last().push(vs.last()) =~= vs);
        thm_rt(g, vs.last(), t); thm_sz(g, b[n - 1] + t);
    }
}
/// THEOREM (C14, C15): a walker over an indexed sequence sees part i where part i was written
pub proof fn thm_iseq_walk(b: Seq<Seq<u8>>, i: int)
    requires 8 <= b.len() <= u64::MAX, flat(b).len() <= u32::MAX, 0 <= i < b.len(), forall|j: int| 0 <= j < b.len() ==> (#[trigger] b[j]).len() > 0
    ensures seq_ok(iseq(b)), part(flat(b), seq_table(iseq(b)), i, b.len() as int, 4) == b[i], iseq(b).skip(seq_hdr(iseq(b)).unwrap().2 as int) == flat(b)
{
    let t = Seq::<u8>::empty(); let n = b.len();
    iseq_hdr(b, t); assert(iseq(b) + t =~= iseq(b)); assert(flat(b) + t =~= flat(b));
    let o = seq_table(iseq(b)); assert(o == offs(b, n));
    assert forall|j: int| 0 <= j < n implies #[trigger] col(o, j, 4) == flat(b.take(j)).len() by { offs_at(b, n, j); }
    assert forall|j: int| 0 <= j < n implies #[trigger] col(o, j, 4) <= flat(b).len() by { flat_mono(b, j); }
    assert forall|j: int, k: int| 0 <= j < k < n implies #[trigger] col(o, j, 4) < #[trigger] col(o, k, 4) by { flat_step(b, j); flat_mono(b.take(k), j + 1); assert(b.take(k).take(j + 1) =~= b.take(j + 1)); }
    flat_step(b, i); flat_pre(b, i); flat_pre(b, i + 1); flat_mono(b, i + 1);
    if i + 1 == n { assert(b.take(n as int) =~= b); }
    let d = flat(b.take(i)).len() as int; let e = flat(b.take(i + 1)).len() as int;
    assert(col(o, i, 4) == d); if i + 1 < n { assert(col(o, i + 1, 4) == e); }
    assert(flat(b).subrange(d, e) =~= flat(b).take(e).subrange(d, e)); assert((flat(b.take(i)) + b[i]).subrange(d, e) =~= b[i]);
    assert(part(flat(b), o, i, n as int, 4) =~= b[i]);
}
pub proof fn okn_iff(g: Fmt, vs: Seq<Val>)
    ensures okn(g, vs) <==> (forall|i: int| 0 <= i < vs.len() ==> okf(g, #[trigger] vs[i]))
    decreases vs.len()
{ okn_step(g, vs, arbitrary()); if vs.len() == 0 { assert(vs =~= Seq::empty()); } else { let p = vs.drop_last(); okn_iff(g, p); okn_step(g, p, vs.last()); assert(p.push(vs.last()) =~= vs);
    assert(forall|i: int| 0 <= i < p.len() ==> p[i] == #[trigger] vs[i]); } }
/// flat of a prefix is a prefix of flat
pub proof fn flat_pre(b: Seq<Seq<u8>>, i: int)
    requires 0 <= i <= b.len()
    ensures flat(b.take(i)).len() <= flat(b).len(), flat(b).take(flat(b.take(i)).len() as int) =~= flat(b.take(i))
    decreases b.len() - i
{ if i < b.len() { flat_step(b, i); flat_pre(b, i + 1); let q = flat(b.take(i + 1)); assert(flat(b).take(q.len() as int).take(flat(b.take(i)).len() as int) =~= flat(b).take(flat(b.take(i)).len() as int)); } else { assert(b.take(i) =~= b); } }
// ---------------------------------------------------------------- maps
pub open spec fn pencs<K: Revisioned, V: Revisioned>(s: Seq<(&K, &V)>) -> Seq<(Seq<u8>, Seq<u8>)> { Seq::new(s.len(), |i: int| (encf(K::fmt(), (*s[i].0).model()), encf(V::fmt(), (*s[i].1).model()))) }
pub open spec fn okpairs<K: Revisioned, V: Revisioned>(s: Seq<(&K, &V)>) -> bool { forall|i: int| 0 <= i < s.len() ==> okf(K::fmt(), (*(#[trigger] s[i]).0).model()) && okf(V::fmt(), (*s[i].1).model()) }
pub open spec fn pview(e: (Vec<u8>, Vec<u8>)) -> (Seq<u8>, Seq<u8>) { (e.0@, e.1@) }
pub open spec fn pviews(v: Seq<(Vec<u8>, Vec<u8>)>) -> Seq<(Seq<u8>, Seq<u8>)> { v.map_values(|e: (Vec<u8>, Vec<u8>)| pview(e)) }
pub open spec fn firsts(b: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<Seq<u8>> { Seq::new(b.len(), |i: int| b[i].0) }
pub open spec fn seconds(b: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<Seq<u8>> { Seq::new(b.len(), |i: int| b[i].1) }
/// entries one after the other, key then value
pub open spec fn pflat(b: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8> decreases b.len() { if b.len() == 0 { Seq::empty() } else { pflat(b.drop_last()) + b.last().0 + b.last().1 } }
/// the first k entries of the interleaved offset table
pub open spec fn poffs(ks: Seq<Seq<u8>>, vs: Seq<Seq<u8>>, k: nat) -> Seq<u8> decreases k {
    if k == 0 { Seq::empty() } else { poffs(ks, vs, (k - 1) as nat) + le_bytes(flat(ks.take(k - 1)).len(), 4) + le_bytes(flat(vs.take(k - 1)).len(), 4) }
}
pub open spec fn imap_ok(b: Seq<(Seq<u8>, Seq<u8>)>) -> bool { b.len() >= 8 ==> flat(firsts(b)).len() <= u32::MAX && flat(seconds(b)).len() <= u32::MAX }
/// documented layout of an indexed map
pub open spec fn imap(b: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8> {
    let (ks, vs) = (firsts(b), seconds(b));
    if b.len() < 8 { seq![0u8] + venc(b.len()) + pflat(b) }
    else { seq![1u8] + venc(b.len()) + poffs(ks, vs, b.len()) + le_bytes(flat(ks).len(), 4) + le_bytes(flat(vs).len(), 4) + flat(ks) + flat(vs) }
}
/// b is x in ascending byte order of the keys, nothing lost or added
pub open spec fn psorted_of(b: Seq<(Seq<u8>, Seq<u8>)>, x: Seq<(Seq<u8>, Seq<u8>)>) -> bool {
    b.to_multiset() == x.to_multiset() && (forall|i: int, j: int| 0 <= i < j < b.len() ==> !bytes_lt((#[trigger] b[j]).0, (#[trigger] b[i]).0))
}
pub proof fn pflat_step(b: Seq<(Seq<u8>, Seq<u8>)>, i: int)
    requires 0 <= i < b.len()
    ensures pflat(b.take(i + 1)) == pflat(b.take(i)) + b[i].0 + b[i].1
{ assert(b.take(i + 1).drop_last() =~= b.take(i)); assert(b.take(i + 1).last() == b[i]); }
pub proof fn pfold(b: Seq<(Seq<u8>, Seq<u8>)>, v: int)
    ensures b.fold_right(|e: (Seq<u8>, Seq<u8>), a: int| a + e.0.len(), v) == v + flat(firsts(b)).len(),
        b.fold_right(|e: (Seq<u8>, Seq<u8>), a: int| a + e.1.len(), v) == v + flat(seconds(b)).len()
    decreases b.len()
{ if b.len() > 0 { pfold(b.drop_last(), v + b.last().0.len()); pfold(b.drop_last(), v + b.last().1.len());
    assert(firsts(b).drop_last() =~= firsts(b.drop_last())); assert(seconds(b).drop_last() =~= seconds(b.drop_last())); } }
pub proof fn psorted_flat(b: Seq<(Seq<u8>, Seq<u8>)>, x: Seq<(Seq<u8>, Seq<u8>)>)
    requires b.to_multiset() == x.to_multiset()
    ensures b.len() == x.len(), flat(firsts(b)).len() == flat(firsts(x)).len(), flat(seconds(b)).len() == flat(seconds(x)).len(), imap_ok(b) <==> imap_ok(x)
{
    b.to_multiset_ensures(); x.to_multiset_ensures();
    vstd::seq_lib::lemma_fold_right_permutation(b, x, |e: (Seq<u8>, Seq<u8>), a: int| a + e.0.len(), 0);
    vstd::seq_lib::lemma_fold_right_permutation(b, x, |e: (Seq<u8>, Seq<u8>), a: int| a + e.1.len(), 0);
    pfold(b, 0); pfold(x, 0);
}
/// a permutation of the vectors is a permutation of what they hold
pub proof fn views_perm(y: Seq<(Vec<u8>, Vec<u8>)>, x: Seq<(Vec<u8>, Vec<u8>)>)
    requires y.to_multiset() == x.to_multiset()
    ensures pviews(y).to_multiset() == pviews(x).to_multiset()
    decreases x.len()
{
    x.to_multiset_ensures(); y.to_multiset_ensures();
    if x.len() == 0 { assert(pviews(y) =~= pviews(x)); }
    else {
        let e = x.last();
        assert(x.contains(e)); assert(x.to_multiset().count(e) > 0); assert(y.contains(e));
        let j = choose|j: int| 0 <= j < y.len() && y[j] == e;
        let y2 = y.remove(j); let x2 = x.drop_last();
        vstd::seq_lib::to_multiset_remove(y, j); assert(x2 =~= x.remove(x.len() - 1)); vstd::seq_lib::to_multiset_remove(x, x.len() - 1);
        assert(y2.to_multiset() =~= x2.to_multiset());
        views_perm(y2, x2);
        assert(pviews(y2) =~= pviews(y).remove(j)); assert(pviews(x2) =~= pviews(x).remove(x.len() - 1));
        vstd::seq_lib::to_multiset_remove(pviews(y), j); vstd::seq_lib::to_multiset_remove(pviews(x), x.len() - 1);
        pviews(y).to_multiset_ensures(); pviews(x).to_multiset_ensures();
        let p = pview(e); assert(pviews(y)[j] == p && pviews(x)[x.len() - 1] == p);
        assert(pviews(y).to_multiset() =~= pviews(y2).to_multiset().insert(p));
        assert(pviews(x).to_multiset() =~= pviews(x2).to_multiset().insert(p));
    }
}
/// std: byte vectors compare lexicographically
#[verifier::external_body]
pub broadcast proof fn vec_cmp_std(a: &Vec<u8>, b: &Vec<u8>)
    ensures #[trigger] <Vec<u8> as OrdSpec>::cmp_spec(a, b) == bytes_ord(a@, b@)
{}
#[verifier::external_body]
pub proof fn vec_cmp_obeys()
    ensures <Vec<u8> as OrdSpec>::obeys_cmp_spec()
{}
pub proof fn poffs_len(ks: Seq<Seq<u8>>, vs: Seq<Seq<u8>>, k: nat)
    ensures poffs(ks, vs, k).len() == 8 * k
    decreases k
{ broadcast use group_vx; if k > 0 { poffs_len(ks, vs, (k - 1) as nat); } }
pub proof fn poffs_at(ks: Seq<Seq<u8>>, vs: Seq<Seq<u8>>, k: nat, i: int)
    requires 0 <= i < k <= ks.len(), ks.len() == vs.len(), flat(ks).len() <= u32::MAX, flat(vs).len() <= u32::MAX
    ensures col(poffs(ks, vs, k), i, 8) == flat(ks.take(i)).len(), vcol(poffs(ks, vs, k), i) == flat(vs.take(i)).len()
    decreases k
{
    broadcast use group_vx; p256_vals(); poffs_len(ks, vs, k); poffs_len(ks, vs, (k - 1) as nat);
    let o = poffs(ks, vs, k); let p = poffs(ks, vs, (k - 1) as nat);
    if i == k - 1 { flat_mono(ks, i); flat_mono(vs, i); assert(o.subrange(i * 8, i * 8 + 4) =~= le_bytes(flat(ks.take(i)).len(), 4)); assert(o.subrange(i * 8 + 4, i * 8 + 8) =~= le_bytes(flat(vs.take(i)).len(), 4)); }
    else { poffs_at(ks, vs, (k - 1) as nat, i); assert(o.subrange(i * 8, i * 8 + 4) =~= p.subrange(i * 8, i * 8 + 4)); assert(o.subrange(i * 8 + 4, i * 8 + 8) =~= p.subrange(i * 8 + 4, i * 8 + 8)); }
}
/// the header a reader sees in front of imap(b)
pub proof fn imap_facts(b: Seq<(Seq<u8>, Seq<u8>)>, t: Seq<u8>)
    requires 8 <= b.len() <= u64::MAX, imap_ok(b)
    ensures ({ let s = imap(b) + t; let h = map_hdr(s).unwrap(); let o = map_o(s);
        map_hdr(s) == Some((true, b.len(), h.2)) && map_table(s) =~= poffs(firsts(b), seconds(b), b.len()) && u32at(s, o) == flat(firsts(b)).len() && u32at(s, o + 4) == flat(seconds(b)).len()
        && map_keys(s) =~= flat(firsts(b)) && map_vals(s) =~= flat(seconds(b)) && imap(b).len() == o + 8 + flat(firsts(b)).len() + flat(seconds(b)).len() })
{
    broadcast use group_vx; p256_vals();
    let s = imap(b) + t; let z = venc(b.len()); let (ks, vs) = (firsts(b), seconds(b)); let n = b.len();
    poffs_len(ks, vs, n);
    let tb = poffs(ks, vs, n); let a = le_bytes(flat(ks).len(), 4); let c = le_bytes(flat(vs).len(), 4);
    let rest = tb + a + c + flat(ks) + flat(vs) + t;
    assert(s.skip(1) =~= z + rest);
    venc_rt(n, rest);
    let o = (1 + z.len() + 8 * n) as int;
    assert(s.subrange(o, o + 4) =~= a); assert(s.subrange(o + 4, o + 8) =~= c);
}
/// THEOREM (C14): skipping an indexed map lands exactly behind it
pub proof fn thm_imap_skip(gk: Fmt, gv: Fmt, b: Seq<(Seq<u8>, Seq<u8>)>, t: Seq<u8>)
    requires 8 <= b.len() <= u64::MAX, imap_ok(b)
    ensures skok_imap(gk, gv, imap(b) + t), sz_imap(gk, gv, imap(b) + t) == Some(imap(b).len())
{ imap_facts(b, t); }
/// THEOREM (C14, C15): a walker over an indexed map with distinct keys accepts it and sees entry i where entry i was written
pub proof fn thm_imap_walk(b: Seq<(Seq<u8>, Seq<u8>)>, x: Seq<(Seq<u8>, Seq<u8>)>, i: int)
    requires 8 <= b.len() <= u64::MAX, imap_ok(b), psorted_of(b, x), 0 <= i < b.len(), forall|j: int| 0 <= j < b.len() ==> (#[trigger] b[j]).0.len() > 0 && b[j].1.len() > 0,
        forall|j: int, k: int| 0 <= j < k < b.len() ==> (#[trigger] b[j]).0 != (#[trigger] b[k]).0
    ensures map_ok(imap(b)), part(map_keys(imap(b)), map_table(imap(b)), i, b.len() as int, 8) == b[i].0, ventry(map_vals(imap(b)), map_table(imap(b)), i, b.len() as int) == b[i].1
{
    let e = Seq::<u8>::empty(); let n = b.len(); let (ks, vs) = (firsts(b), seconds(b));
    imap_facts(b, e); assert(imap(b) + e =~= imap(b));
    imap_cols(ks, vs, i); imap_mono(ks, vs);
    assert forall|j: int, k: int| 0 <= j < k < n implies bytes_lt(#[trigger] ks[j], #[trigger] ks[k]) by { assert(b[j].0 == ks[j] && b[k].0 == ks[k]); bytes_lt_trans(b[j].0, b[k].0, e); }
    imap_asc(ks, vs);
}
pub proof fn imap_cols(ks: Seq<Seq<u8>>, vs: Seq<Seq<u8>>, j: int)
    requires 0 <= j < ks.len(), ks.len() == vs.len(), flat(ks).len() <= u32::MAX, flat(vs).len() <= u32::MAX
    ensures ({ let n = ks.len(); let o = poffs(ks, vs, n); col(o, j, 8) == flat(ks.take(j)).len() && vcol(o, j) == flat(vs.take(j)).len()
        && part(flat(ks), o, j, n as int, 8) == ks[j] && ventry(flat(vs), o, j, n as int) == vs[j] })
{
    let n = ks.len();
    poffs_at(ks, vs, n, j); if j + 1 < n { poffs_at(ks, vs, n, j + 1); }
    imap_part(ks, j); imap_part(vs, j);
}
#[verifier::spinoff_prover]
pub proof fn imap_mono(ks: Seq<Seq<u8>>, vs: Seq<Seq<u8>>)
    requires ks.len() == vs.len(), flat(ks).len() <= u32::MAX, flat(vs).len() <= u32::MAX, forall|j: int| 0 <= j < ks.len() ==> (#[trigger] ks[j]).len() > 0 && vs[j].len() > 0
    ensures map_offs_ok(poffs(ks, vs, ks.len()), ks.len() as int, flat(ks).len() as int, flat(vs).len() as int)
{
    let n = ks.len(); let o = poffs(ks, vs, n); let p = o.skip(4); poffs_len(ks, vs, n);
    assert forall|j: int| 0 <= j < n implies #[trigger] col(o, j, 8) <= flat(ks).len() by { imap_cols(ks, vs, j); flat_mono(ks, j); }
    assert forall|j: int, k: int| 0 <= j < k < n implies #[trigger] col(o, j, 8) < #[trigger] col(o, k, 8) by { imap_cols(ks, vs, j); imap_cols(ks, vs, k); assert(ks[j].len() > 0); flat_grow(ks, j, k); }
    assert forall|j: int| 0 <= j < n implies #[trigger] col(p, j, 8) <= flat(vs).len() by { imap_cols(ks, vs, j); pcol(o, j); flat_mono(vs, j); }
    assert forall|j: int, k: int| 0 <= j < k < n implies #[trigger] col(p, j, 8) < #[trigger] col(p, k, 8) by { imap_cols(ks, vs, j); imap_cols(ks, vs, k); pcol(o, j); pcol(o, k); assert(ks[j].len() > 0); flat_grow(vs, j, k); }
}
pub proof fn pcol(o: Seq<u8>, j: int)
    requires 0 <= j, j * 8 + 8 <= o.len()
    ensures col(o.skip(4), j, 8) == vcol(o, j)
{ assert(o.skip(4).subrange(j * 8, j * 8 + 4) =~= o.subrange(j * 8 + 4, j * 8 + 8)); }
pub proof fn imap_asc(ks: Seq<Seq<u8>>, vs: Seq<Seq<u8>>)
    requires ks.len() == vs.len(), flat(ks).len() <= u32::MAX, flat(vs).len() <= u32::MAX, forall|j: int, k: int| 0 <= j < k < ks.len() ==> bytes_lt(#[trigger] ks[j], #[trigger] ks[k])
    ensures keys_asc(flat(ks), poffs(ks, vs, ks.len()), ks.len() as int, ks.len() as int)
{
    let n = ks.len(); let o = poffs(ks, vs, n); let r = flat(ks);
    assert forall|j: int, k: int| 0 <= j < k < n implies bytes_lt(#[trigger] part(r, o, j, n as int, 8), #[trigger] part(r, o, k, n as int, 8)) by { imap_cols(ks, vs, j); imap_cols(ks, vs, k); assert(bytes_lt(ks[j], ks[k])); }
}
pub proof fn flat_grow(b: Seq<Seq<u8>>, j: int, k: int)
    requires 0 <= j < k < b.len(), b[j].len() > 0
    ensures flat(b.take(j)).len() < flat(b.take(k)).len()
{ flat_step(b, j); flat_mono(b.take(k), j + 1); assert(b.take(k).take(j + 1) =~= b.take(j + 1)); }
pub proof fn imap_part(b: Seq<Seq<u8>>, i: int)
    requires 0 <= i < b.len()
    ensures ({ let d = flat(b.take(i)).len() as int; let e = if i + 1 < b.len() { flat(b.take(i + 1)).len() as int } else { flat(b).len() as int }; d <= e <= flat(b).len() && flat(b).subrange(d, e) =~= b[i] })
{
    flat_step(b, i); flat_pre(b, i); flat_pre(b, i + 1); if i + 1 == b.len() { assert(b.take(i + 1) =~= b); }
    let d = flat(b.take(i)).len() as int; let e = flat(b.take(i + 1)).len() as int;
    assert(flat(b).subrange(d, e) =~= flat(b).take(e).subrange(d, e)); assert((flat(b.take(i)) + b[i]).subrange(d, e) =~= b[i]);
}
}
}
//!! mod optimised::indexed::serialize
use crate::__vxis::*;
use crate::__vxidx::*;
use crate::__vxwalk::*;
use vstd::std_specs::iter::*;
use crate::__vxmap::*;
