//!! data LeafWalker
//!! data OptionWalker
//!! data ResultWalker
//!! data SeqWalker
//!! data SeqItem
//!! data MapWalker
//!! data MapCursor
//!! data MapEntry
//!! data StructWalker
//!! data EnumWalker
//!! fn LeafWalker<T,R>::new : C11
ensures
    *__r.reader == *old($0) && *final(__r.reader) == *final($0),
//!! fn LeafWalker<T,R>::decode : C11
ensures
    __r is Ok ==> took(decf(T::fmt(), (*old(self.reader)).rem()), (*old(self.reader)).rem(), (*final(self.reader)).rem(), (__r->Ok_0).model()),
    (*old(self.reader)).reliable() ==> (*final(self.reader)).reliable() && (__r is Ok <==> decf(T::fmt(), (*old(self.reader)).rem()) is Some),
//!! fn LeafWalker<T,R>::skip : C11
ensures
    __r is Ok ==> skipped(T::fmt(), (*old(self.reader)).rem(), (*final(self.reader)).rem()),
    (*old(self.reader)).reliable() ==> (*final(self.reader)).reliable() && (decf(T::fmt(), (*old(self.reader)).rem()) is Some ==> __r is Ok),
//!! fn LeafWalker<T,R>::reader : C11
ensures
    *__r == *old(self).reader,
    *final(__r) == *final(self).reader,
    *final(old(self).reader) == *final(final(self).reader),
//!! fn LeafWalker<T,R>::into_reader : C11
ensures
    *__r == *old(self.reader),
    *final(__r) == *final(self.reader),
//!! fn walk::with_length_prefixed_bytes : C11
requires
    forall|s: &[u8]| #[trigger] $1.requires((s,)),
ensures
    __r is Ok ==> match decf(Fmt::Bytes, (*old($0)).rem()) { Some((v, n)) => (*final($0)).rem() == (*old($0)).rem().skip(n as int) && (exists|s: &[u8]| #[trigger] s@ == v->B_0 && $1.ensures((s,), __r->Ok_0)), None => false },
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> decf(Fmt::Bytes, (*old($0)).rem()) is Some),
//!! begin walk::with_length_prefixed_bytes
    proof { broadcast use {group_vx, group_fmt}; p256_vals(); uint_facts(8, (*old($0)).rem(), Seq::empty()); }
//!! fn LeafWalker<T,R>::with_bytes : C11
requires
    forall|s: &[u8]| #[trigger] $0.requires((s,)),
ensures
    __r is Ok ==> match decf(Fmt::Bytes, (*old(self.reader)).rem()) { Some((v, n)) => (*final(self.reader)).rem() == (*old(self.reader)).rem().skip(n as int) && (exists|s: &[u8]| #[trigger] s@ == v->B_0 && $0.ensures((s,), __r->Ok_0)), None => false },
    (*old(self.reader)).reliable() ==> (*final(self.reader)).reliable() && (__r is Ok <==> decf(Fmt::Bytes, (*old(self.reader)).rem()) is Some),
//!! fn OptionWalker<T,R>::new : C11
ensures
    __r is Ok ==> (*old($0)).rem().len() > 0 && (__r->Ok_0).tag == (*old($0)).rem()[0] && (__r->Ok_0).tag <= 1 && (*(__r->Ok_0).reader).rem() == (*old($0)).rem().skip(1) && *final((__r->Ok_0).reader) == *final($0),
    (*old($0)).reliable() ==> (__r is Ok <==> (*old($0)).rem().len() > 0 && (*old($0)).rem()[0] <= 1) && (__r is Ok ==> (*(__r->Ok_0).reader).reliable()),
//!! begin OptionWalker<T,R>::new
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals(); }
//!! fn OptionWalker<T,R>::is_some : C11
ensures
    __r <==> self.tag == 1,
//!! fn OptionWalker<T,R>::is_none : C11
ensures
    __r <==> self.tag == 0,
//!! fn OptionWalker<T,R>::decode : C11
requires
    self.tag <= 1,
ensures
    self.tag == 0 ==> __r is Ok && __r->Ok_0 is None && (*final(self.reader)) == (*old(self.reader)),
    self.tag == 1 && __r is Ok ==> __r->Ok_0 is Some,
    self.tag == 1 ==> (__r is Ok ==> took(decf(T::fmt(), (*old(self.reader)).rem()), (*old(self.reader)).rem(), (*final(self.reader)).rem(), (__r->Ok_0->0).model())),
    self.tag == 1 ==> ((*old(self.reader)).reliable() ==> (*final(self.reader)).reliable() && (__r is Ok <==> decf(T::fmt(), (*old(self.reader)).rem()) is Some)),
//!! fn OptionWalker<T,R>::skip : C11
requires
    self.tag <= 1,
ensures
    self.tag == 0 ==> __r is Ok && (*final(self.reader)) == (*old(self.reader)),
    self.tag == 1 ==> (__r is Ok ==> skipped(T::fmt(), (*old(self.reader)).rem(), (*final(self.reader)).rem())),
    self.tag == 1 ==> ((*old(self.reader)).reliable() ==> (*final(self.reader)).reliable() && (decf(T::fmt(), (*old(self.reader)).rem()) is Some ==> __r is Ok)),
//!! fn ResultWalker<T,E,R>::new : C11
ensures
    __r is Ok ==> took(decf(Fmt::UInt(4), (*old($0)).rem()), (*old($0)).rem(), (*(__r->Ok_0).reader).rem(), Val::N((__r->Ok_0).tag as int)) && (__r->Ok_0).tag <= 1 && *final((__r->Ok_0).reader) == *final($0),
    (*old($0)).reliable() ==> (__r is Ok <==> decf(Fmt::UInt(4), (*old($0)).rem()) is Some && 0 <= v_of(decf(Fmt::UInt(4), (*old($0)).rem()))->N_0 <= 1) && (__r is Ok ==> (*(__r->Ok_0).reader).reliable()),
//!! begin ResultWalker<T,E,R>::new
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals(); }
//!! fn ResultWalker<T,E,R>::is_ok : C11
ensures
    __r <==> self.tag == 0,
//!! fn ResultWalker<T,E,R>::is_err : C11
ensures
    __r <==> self.tag == 1,
//!! fn ResultWalker<T,E,R>::decode : C11
requires
    self.tag <= 1,
ensures
    __r is Ok ==> (__r->Ok_0 is Ok <==> self.tag == 0),
    self.tag == 0 ==> (__r is Ok ==> took(decf(T::fmt(), (*old(self.reader)).rem()), (*old(self.reader)).rem(), (*final(self.reader)).rem(), (__r->Ok_0->Ok_0).model())),
    self.tag == 0 ==> ((*old(self.reader)).reliable() ==> (*final(self.reader)).reliable() && (__r is Ok <==> decf(T::fmt(), (*old(self.reader)).rem()) is Some)),
    self.tag == 1 ==> (__r is Ok ==> took(decf(E::fmt(), (*old(self.reader)).rem()), (*old(self.reader)).rem(), (*final(self.reader)).rem(), (__r->Ok_0->Err_0).model())),
    self.tag == 1 ==> ((*old(self.reader)).reliable() ==> (*final(self.reader)).reliable() && (__r is Ok <==> decf(E::fmt(), (*old(self.reader)).rem()) is Some)),
//!! fn ResultWalker<T,E,R>::skip : C11
requires
    self.tag <= 1,
ensures
    self.tag == 0 ==> (__r is Ok ==> skipped(T::fmt(), (*old(self.reader)).rem(), (*final(self.reader)).rem())),
    self.tag == 0 ==> ((*old(self.reader)).reliable() ==> (*final(self.reader)).reliable() && (decf(T::fmt(), (*old(self.reader)).rem()) is Some ==> __r is Ok)),
    self.tag == 1 ==> (__r is Ok ==> skipped(E::fmt(), (*old(self.reader)).rem(), (*final(self.reader)).rem())),
    self.tag == 1 ==> ((*old(self.reader)).reliable() ==> (*final(self.reader)).reliable() && (decf(E::fmt(), (*old(self.reader)).rem()) is Some ==> __r is Ok)),
//!! fn SeqWalker<T,R>::new : C11
ensures
    __r is Ok ==> took(decf(Fmt::UInt(8), (*old($0)).rem()), (*old($0)).rem(), (*(__r->Ok_0).reader).rem(), Val::N((__r->Ok_0).remaining as int)) && *final((__r->Ok_0).reader) == *final($0),
    (*old($0)).reliable() ==> (__r is Ok <==> decf(Fmt::UInt(8), (*old($0)).rem()) is Some) && (__r is Ok ==> (*(__r->Ok_0).reader).reliable()),
//!! begin SeqWalker<T,R>::new
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals(); }
//!! fn SeqWalker<T,R>::remaining : C11
ensures
    __r == self.remaining,
//!! fn SeqWalker<T,R>::next_item : C11
ensures
    __r is Some <==> old(self).remaining > 0,
    __r is Some ==> *(__r->0).walker == *old(self) && *final((__r->0).walker) == *final(self),
    __r is None ==> *final(self) == *old(self),
//!! fn SeqWalker<T,R>::skip_remaining : C11
ensures
    __r is Ok ==> match szn(T::fmt(), self.remaining as nat, (*old(self.reader)).rem()) { Some(n) => n <= (*old(self.reader)).rem().len() && (*final(self.reader)).rem() =~= (*old(self.reader)).rem().skip(n as int), None => false },
    (*old(self.reader)).reliable() ==> (*final(self.reader)).reliable() && (decn(T::fmt(), self.remaining as nat, (*old(self.reader)).rem()) is Some ==> __r is Ok),
//!! begin SeqWalker<T,R>::skip_remaining
    let ghost n0 = self.remaining as nat; let ghost s1 = (*self.reader).rem(); let ghost fin = *final(self.reader); let ghost rel = (*self.reader).reliable();
//!! loop SeqWalker<T,R>::skip_remaining
invariant
    0 <= __self.remaining <= n0, *final(__self.reader) == fin, rel ==> (*__self.reader).reliable(),
    szn(T::fmt(), (n0 - __self.remaining) as nat, s1) is Some, szn(T::fmt(), (n0 - __self.remaining) as nat, s1)->0 <= s1.len(),
    (*__self.reader).rem() =~= s1.skip(szn(T::fmt(), (n0 - __self.remaining) as nat, s1)->0 as int),
decreases __self.remaining
//!! loopbefore SeqWalker<T,R>::skip_remaining
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(T::fmt(), 0, s1); }
//!! loopbegin SeqWalker<T,R>::skip_remaining
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = (n0 - __self.remaining) as nat;
        szn_step(T::fmt(), k, s1); decn_step(T::fmt(), k, s1); thm_szn(T::fmt(), k, s1); thm_szn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, n0, s1); szn_prefix(T::fmt(), k + 1, n0, s1);  }
//!! fn SeqItem<T,R>::decode : C11
requires
    self.walker.remaining > 0,
ensures
    __r is Ok ==> final(self.walker).remaining == old(self.walker).remaining - 1,
    *final(final(self.walker).reader) == *final(old(self.walker).reader),
    __r is Ok ==> took(decf(T::fmt(), (*old(self.walker).reader).rem()), (*old(self.walker).reader).rem(), (*final(self.walker).reader).rem(), (__r->Ok_0).model()),
    (*old(self.walker).reader).reliable() ==> (*final(self.walker).reader).reliable() && (__r is Ok <==> decf(T::fmt(), (*old(self.walker).reader).rem()) is Some),
//!! fn SeqItem<T,R>::skip : C11
requires
    self.walker.remaining > 0,
ensures
    __r is Ok ==> final(self.walker).remaining == old(self.walker).remaining - 1,
    *final(final(self.walker).reader) == *final(old(self.walker).reader),
    __r is Ok ==> skipped(T::fmt(), (*old(self.walker).reader).rem(), (*final(self.walker).reader).rem()),
    (*old(self.walker).reader).reliable() ==> (*final(self.walker).reader).reliable() && (decf(T::fmt(), (*old(self.walker).reader).rem()) is Some ==> __r is Ok),
//!! fn SeqItem<T,R>::with_bytes : C11
requires
    self.walker.remaining > 0,
    forall|s: &[u8]| #[trigger] $0.requires((s,)),
ensures
    __r is Ok ==> final(self.walker).remaining == old(self.walker).remaining - 1,
    *final(final(self.walker).reader) == *final(old(self.walker).reader),
    __r is Ok ==> match decf(Fmt::Bytes, (*old(self.walker).reader).rem()) { Some((v, n)) => (*final(self.walker).reader).rem() == (*old(self.walker).reader).rem().skip(n as int) && (exists|s: &[u8]| #[trigger] s@ == v->B_0 && $0.ensures((s,), __r->Ok_0)), None => false },
    (*old(self.walker).reader).reliable() ==> (*final(self.walker).reader).reliable() && (__r is Ok <==> decf(Fmt::Bytes, (*old(self.walker).reader).rem()) is Some),
//!! fn MapWalker<K,V,R>::new : C11
ensures
    __r is Ok ==> took(decf(Fmt::UInt(8), (*old($0)).rem()), (*old($0)).rem(), (*(__r->Ok_0).reader).rem(), Val::N((__r->Ok_0).remaining as int)) && *final((__r->Ok_0).reader) == *final($0),
    (*old($0)).reliable() ==> (__r is Ok <==> decf(Fmt::UInt(8), (*old($0)).rem()) is Some) && (__r is Ok ==> (*(__r->Ok_0).reader).reliable()),
//!! begin MapWalker<K,V,R>::new
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals(); }
//!! fn MapWalker<K,V,R>::remaining : C11
ensures
    __r == self.remaining,
//!! fn MapWalker<K,V,R>::next_entry : C11
ensures
    __r is Some <==> old(self).remaining > 0,
    __r is Some ==> *(__r->0).walker == *old(self) && *final((__r->0).walker) == *final(self) && (__r->0).cursor == MapCursor::BeforeKey,
    __r is None ==> *final(self) == *old(self),
//!! fn MapWalker<K,V,R>::skip_remaining : C11
ensures
    __r is Ok ==> match szn(crate::__vxwk::kvf::<K, V>(), self.remaining as nat, (*old(self.reader)).rem()) { Some(n) => n <= (*old(self.reader)).rem().len() && (*final(self.reader)).rem() =~= (*old(self.reader)).rem().skip(n as int), None => false },
    (*old(self.reader)).reliable() ==> (*final(self.reader)).reliable() && (decn(crate::__vxwk::kvf::<K, V>(), self.remaining as nat, (*old(self.reader)).rem()) is Some ==> __r is Ok),
//!! begin MapWalker<K,V,R>::skip_remaining
    let ghost n0 = self.remaining as nat; let ghost s1 = (*self.reader).rem(); let ghost fin = *final(self.reader); let ghost rel = (*self.reader).reliable();
//!! loop MapWalker<K,V,R>::skip_remaining
invariant
    0 <= __self.remaining <= n0, *final(__self.reader) == fin, rel ==> (*__self.reader).reliable(),
    szn(crate::__vxwk::kvf::<K, V>(), (n0 - __self.remaining) as nat, s1) is Some, szn(crate::__vxwk::kvf::<K, V>(), (n0 - __self.remaining) as nat, s1)->0 <= s1.len(),
    (*__self.reader).rem() =~= s1.skip(szn(crate::__vxwk::kvf::<K, V>(), (n0 - __self.remaining) as nat, s1)->0 as int),
decreases __self.remaining
//!! loopbefore MapWalker<K,V,R>::skip_remaining
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(crate::__vxwk::kvf::<K, V>(), 0, s1); }
//!! loopbegin MapWalker<K,V,R>::skip_remaining
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto};
        let k = (n0 - __self.remaining) as nat;
        szn_step(crate::__vxwk::kvf::<K, V>(), k, s1); decn_step(crate::__vxwk::kvf::<K, V>(), k, s1); thm_szn(crate::__vxwk::kvf::<K, V>(), k, s1); thm_szn(crate::__vxwk::kvf::<K, V>(), k + 1, s1);
        decn_prefix(crate::__vxwk::kvf::<K, V>(), k + 1, n0, s1); szn_prefix(crate::__vxwk::kvf::<K, V>(), k + 1, n0, s1); crate::__vxwk::szf_kv::<K, V>((*__self.reader).rem()); }
//!! fn MapWalker<K,V,R>::find : C11
requires
    forall|s: &K| #[trigger] $0.requires((s,)),
ensures
    __r is Ok && __r->Ok_0 is Some ==> crate::__vxwk::found::<K, V>((|i: nat, o: Ordering| crate::__vxwk::ans::<F, K, V>($0, (*old(self.reader)).rem(), i, o)), (*old(self.reader)).rem(), self.remaining as nat, (*(__r->Ok_0->0).reader).rem()) && *final((__r->Ok_0->0).reader) == *final(self.reader),
    __r is Ok && __r->Ok_0 is None ==> crate::__vxwk::missed::<K, V>((|i: nat, o: Ordering| crate::__vxwk::ans::<F, K, V>($0, (*old(self.reader)).rem(), i, o)), (*old(self.reader)).rem(), self.remaining as nat, (*final(self.reader)).rem()),
    (*old(self.reader)).reliable() && decn(crate::__vxwk::kvf::<K, V>(), self.remaining as nat, (*old(self.reader)).rem()) is Some ==> __r is Ok,
//!! attr MapWalker<K,V,R>::find
#[verifier::spinoff_prover]
//!! begin MapWalker<K,V,R>::find
    let ghost n0 = self.remaining as nat; let ghost s1 = (*self.reader).rem(); let ghost fin = *final(self.reader); let ghost rel = (*self.reader).reliable(); let ghost pr = $0;
    let ghost a = (|i: nat, o: Ordering| crate::__vxwk::ans::<F, K, V>(pr, s1, i, o));
//!! loop MapWalker<K,V,R>::find
invariant
    0 <= __self.remaining <= n0, *final(__self.reader) == fin, rel ==> (*__self.reader).reliable(), pr == $0, a == (|i: nat, o: Ordering| crate::__vxwk::ans::<F, K, V>(pr, s1, i, o)),
    crate::__vxwk::at::<K, V>(s1, (n0 - __self.remaining) as nat),
    (*__self.reader).rem() =~= s1.skip(szn(crate::__vxwk::kvf::<K, V>(), (n0 - __self.remaining) as nat, s1)->0 as int),
    crate::__vxwk::lessers(a, (n0 - __self.remaining) as nat), forall|s: &K| #[trigger] $0.requires((s,)),
decreases __self.remaining
//!! loopbefore MapWalker<K,V,R>::find
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(crate::__vxwk::kvf::<K, V>(), 0, s1); }
//!! loopbegin MapWalker<K,V,R>::find
    let ghost k0 = (n0 - __self.remaining) as nat;
    proof { broadcast use {group_vx, thm_sz_auto};
        let k = (n0 - __self.remaining) as nat;
        szn_step(crate::__vxwk::kvf::<K, V>(), k, s1); decn_step(crate::__vxwk::kvf::<K, V>(), k, s1); thm_szn(crate::__vxwk::kvf::<K, V>(), k, s1); thm_szn(crate::__vxwk::kvf::<K, V>(), k + 1, s1);
        decn_prefix(crate::__vxwk::kvf::<K, V>(), k + 1, n0, s1); szn_prefix(crate::__vxwk::kvf::<K, V>(), k + 1, n0, s1); crate::__vxwk::decf_kv::<K, V>((*__self.reader).rem());  }
//!! loop MapWalker<K,V,R>::find
invariant
    0 <= __self.remaining <= n0, *final(__self.reader) == fin, rel ==> (*__self.reader).reliable(), pr == $0, a == (|i: nat, o: Ordering| crate::__vxwk::ans::<F, K, V>(pr, s1, i, o)),
    crate::__vxwk::at::<K, V>(s1, (n0 - __self.remaining) as nat),
    (*__self.reader).rem() =~= s1.skip(szn(crate::__vxwk::kvf::<K, V>(), (n0 - __self.remaining) as nat, s1)->0 as int),
    k0 < n0, crate::__vxwk::lessers(a, k0), a(k0, Ordering::Greater),
decreases __self.remaining
//!! loopbegin MapWalker<K,V,R>::find
    proof { broadcast use {group_vx, thm_sz_auto};
        let k = (n0 - __self.remaining) as nat;
        szn_step(crate::__vxwk::kvf::<K, V>(), k, s1); decn_step(crate::__vxwk::kvf::<K, V>(), k, s1); thm_szn(crate::__vxwk::kvf::<K, V>(), k, s1); thm_szn(crate::__vxwk::kvf::<K, V>(), k + 1, s1);
        decn_prefix(crate::__vxwk::kvf::<K, V>(), k + 1, n0, s1); szn_prefix(crate::__vxwk::kvf::<K, V>(), k + 1, n0, s1); crate::__vxwk::decf_kv::<K, V>((*__self.reader).rem());  }
//!! fn MapWalker<K,V,R>::find_bytes : C11
requires
    K::fmt() == Fmt::Bytes,
    forall|s: &[u8]| #[trigger] $0.requires((s,)),
ensures
    __r is Ok && __r->Ok_0 is Some ==> crate::__vxwk::found::<K, V>((|i: nat, o: Ordering| crate::__vxwk::ansb::<F, K, V>($0, (*old(self.reader)).rem(), i, o)), (*old(self.reader)).rem(), self.remaining as nat, (*(__r->Ok_0->0).reader).rem()) && *final((__r->Ok_0->0).reader) == *final(self.reader),
    __r is Ok && __r->Ok_0 is None ==> crate::__vxwk::missed::<K, V>((|i: nat, o: Ordering| crate::__vxwk::ansb::<F, K, V>($0, (*old(self.reader)).rem(), i, o)), (*old(self.reader)).rem(), self.remaining as nat, (*final(self.reader)).rem()),
    (*old(self.reader)).reliable() && decn(crate::__vxwk::kvf::<K, V>(), self.remaining as nat, (*old(self.reader)).rem()) is Some ==> __r is Ok,
//!! attr MapWalker<K,V,R>::find_bytes
#[verifier::spinoff_prover]
//!! begin MapWalker<K,V,R>::find_bytes
    let ghost n0 = self.remaining as nat; let ghost s1 = (*self.reader).rem(); let ghost fin = *final(self.reader); let ghost rel = (*self.reader).reliable(); let ghost pr = $0;
    let ghost a = (|i: nat, o: Ordering| crate::__vxwk::ansb::<F, K, V>(pr, s1, i, o));
//!! loop MapWalker<K,V,R>::find_bytes
invariant
    0 <= __self.remaining <= n0, *final(__self.reader) == fin, rel ==> (*__self.reader).reliable(), pr == $0, a == (|i: nat, o: Ordering| crate::__vxwk::ansb::<F, K, V>(pr, s1, i, o)),
    crate::__vxwk::at::<K, V>(s1, (n0 - __self.remaining) as nat),
    (*__self.reader).rem() =~= s1.skip(szn(crate::__vxwk::kvf::<K, V>(), (n0 - __self.remaining) as nat, s1)->0 as int),
    crate::__vxwk::lessers(a, (n0 - __self.remaining) as nat), forall|s: &[u8]| #[trigger] $0.requires((s,)),
decreases __self.remaining
//!! loopbefore MapWalker<K,V,R>::find_bytes
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; szn_step(crate::__vxwk::kvf::<K, V>(), 0, s1); }
//!! loopbegin MapWalker<K,V,R>::find_bytes
    let ghost k0 = (n0 - __self.remaining) as nat;
    proof { broadcast use {group_vx, thm_sz_auto};
        let k = (n0 - __self.remaining) as nat;
        szn_step(crate::__vxwk::kvf::<K, V>(), k, s1); decn_step(crate::__vxwk::kvf::<K, V>(), k, s1); thm_szn(crate::__vxwk::kvf::<K, V>(), k, s1); thm_szn(crate::__vxwk::kvf::<K, V>(), k + 1, s1);
        decn_prefix(crate::__vxwk::kvf::<K, V>(), k + 1, n0, s1); szn_prefix(crate::__vxwk::kvf::<K, V>(), k + 1, n0, s1); crate::__vxwk::decf_kv::<K, V>((*__self.reader).rem()); crate::__vxwk::decf_b((*__self.reader).rem()); }
//!! loop MapWalker<K,V,R>::find_bytes
invariant
    0 <= __self.remaining <= n0, *final(__self.reader) == fin, rel ==> (*__self.reader).reliable(), pr == $0, a == (|i: nat, o: Ordering| crate::__vxwk::ansb::<F, K, V>(pr, s1, i, o)),
    crate::__vxwk::at::<K, V>(s1, (n0 - __self.remaining) as nat),
    (*__self.reader).rem() =~= s1.skip(szn(crate::__vxwk::kvf::<K, V>(), (n0 - __self.remaining) as nat, s1)->0 as int),
    k0 < n0, crate::__vxwk::lessers(a, k0), a(k0, Ordering::Greater),
decreases __self.remaining
//!! loopbegin MapWalker<K,V,R>::find_bytes
    proof { broadcast use {group_vx, thm_sz_auto};
        let k = (n0 - __self.remaining) as nat;
        szn_step(crate::__vxwk::kvf::<K, V>(), k, s1); decn_step(crate::__vxwk::kvf::<K, V>(), k, s1); thm_szn(crate::__vxwk::kvf::<K, V>(), k, s1); thm_szn(crate::__vxwk::kvf::<K, V>(), k + 1, s1);
        decn_prefix(crate::__vxwk::kvf::<K, V>(), k + 1, n0, s1); szn_prefix(crate::__vxwk::kvf::<K, V>(), k + 1, n0, s1); crate::__vxwk::decf_kv::<K, V>((*__self.reader).rem());  }
//!! fn MapEntry<K,V,R>::expect_cursor : C11
ensures
    __r is Ok <==> self.cursor == $0,
//!! begin MapEntry<K,V,R>::expect_cursor
    proof { crate::__vxwk::cursor_eq(); }
//!! fn MapEntry<K,V,R>::decode_key : C11
ensures
    __r is Ok ==> (*final(self)).cursor == MapCursor::BeforeValue,
    (*final(self)).walker.remaining == (*old(self)).walker.remaining,
    *final((*final(self)).walker) == *final((*old(self)).walker),
    *final((*final(self)).walker.reader) == *final((*old(self)).walker.reader),
    (*old(self)).cursor != MapCursor::BeforeKey ==> __r is Err && *final(self) == *old(self),
    (*old(self)).cursor == MapCursor::BeforeKey ==> (__r is Ok ==> took(decf(K::fmt(), (*(*old(self)).walker.reader).rem()), (*(*old(self)).walker.reader).rem(), (*(*final(self)).walker.reader).rem(), (__r->Ok_0).model())),
    (*old(self)).cursor == MapCursor::BeforeKey ==> ((*(*old(self)).walker.reader).reliable() ==> (*(*final(self)).walker.reader).reliable() && (__r is Ok <==> decf(K::fmt(), (*(*old(self)).walker.reader).rem()) is Some)),
//!! fn MapEntry<K,V,R>::skip_key : C11
ensures
    __r is Ok ==> (*final(self)).cursor == MapCursor::BeforeValue,
    (*final(self)).walker.remaining == (*old(self)).walker.remaining,
    *final((*final(self)).walker) == *final((*old(self)).walker),
    *final((*final(self)).walker.reader) == *final((*old(self)).walker.reader),
    (*old(self)).cursor != MapCursor::BeforeKey ==> __r is Err && *final(self) == *old(self),
    (*old(self)).cursor == MapCursor::BeforeKey ==> (__r is Ok ==> skipped(K::fmt(), (*(*old(self)).walker.reader).rem(), (*(*final(self)).walker.reader).rem())),
    (*old(self)).cursor == MapCursor::BeforeKey ==> ((*(*old(self)).walker.reader).reliable() ==> (*(*final(self)).walker.reader).reliable() && (decf(K::fmt(), (*(*old(self)).walker.reader).rem()) is Some ==> __r is Ok)),
//!! fn MapEntry<K,V,R>::with_key_bytes : C11
requires
    forall|s: &[u8]| #[trigger] $0.requires((s,)),
ensures
    __r is Ok ==> (*final(self)).cursor == MapCursor::BeforeValue,
    (*final(self)).walker.remaining == (*old(self)).walker.remaining,
    *final((*final(self)).walker) == *final((*old(self)).walker),
    *final((*final(self)).walker.reader) == *final((*old(self)).walker.reader),
    (*old(self)).cursor != MapCursor::BeforeKey ==> __r is Err && *final(self) == *old(self),
    (*old(self)).cursor == MapCursor::BeforeKey ==> (__r is Ok ==> match decf(Fmt::Bytes, (*(*old(self)).walker.reader).rem()) { Some((v, n)) => (*(*final(self)).walker.reader).rem() == (*(*old(self)).walker.reader).rem().skip(n as int) && (exists|s: &[u8]| #[trigger] s@ == v->B_0 && $0.ensures((s,), __r->Ok_0)), None => false }),
    (*old(self)).cursor == MapCursor::BeforeKey ==> ((*(*old(self)).walker.reader).reliable() ==> (*(*final(self)).walker.reader).reliable() && (__r is Ok <==> decf(Fmt::Bytes, (*(*old(self)).walker.reader).rem()) is Some)),
//!! fn MapEntry<K,V,R>::decode_value : C11
requires
    self.walker.remaining > 0,
ensures
    __r is Ok ==> final(self.walker).remaining == old(self.walker).remaining - 1,
    *final(final(self.walker).reader) == *final(old(self.walker).reader),
    self.cursor != MapCursor::BeforeValue ==> __r is Err,
    self.cursor == MapCursor::BeforeValue ==> (__r is Ok ==> took(decf(V::fmt(), (*old(self.walker).reader).rem()), (*old(self.walker).reader).rem(), (*final(self.walker).reader).rem(), (__r->Ok_0).model())),
    self.cursor == MapCursor::BeforeValue ==> ((*old(self.walker).reader).reliable() ==> (*final(self.walker).reader).reliable() && (__r is Ok <==> decf(V::fmt(), (*old(self.walker).reader).rem()) is Some)),
//!! fn MapEntry<K,V,R>::skip_value : C11
requires
    self.walker.remaining > 0,
ensures
    __r is Ok ==> final(self.walker).remaining == old(self.walker).remaining - 1,
    *final(final(self.walker).reader) == *final(old(self.walker).reader),
    self.cursor != MapCursor::BeforeValue ==> __r is Err,
    self.cursor == MapCursor::BeforeValue ==> (__r is Ok ==> skipped(V::fmt(), (*old(self.walker).reader).rem(), (*final(self.walker).reader).rem())),
    self.cursor == MapCursor::BeforeValue ==> ((*old(self.walker).reader).reliable() ==> (*final(self.walker).reader).reliable() && (decf(V::fmt(), (*old(self.walker).reader).rem()) is Some ==> __r is Ok)),
//!! fn MapEntry<K,V,R>::with_value_bytes : C11
requires
    self.walker.remaining > 0,
    forall|s: &[u8]| #[trigger] $0.requires((s,)),
ensures
    __r is Ok ==> final(self.walker).remaining == old(self.walker).remaining - 1,
    *final(final(self.walker).reader) == *final(old(self.walker).reader),
    self.cursor != MapCursor::BeforeValue ==> __r is Err,
    self.cursor == MapCursor::BeforeValue ==> (__r is Ok ==> match decf(Fmt::Bytes, (*old(self.walker).reader).rem()) { Some((v, n)) => (*final(self.walker).reader).rem() == (*old(self.walker).reader).rem().skip(n as int) && (exists|s: &[u8]| #[trigger] s@ == v->B_0 && $0.ensures((s,), __r->Ok_0)), None => false }),
    self.cursor == MapCursor::BeforeValue ==> ((*old(self.walker).reader).reliable() ==> (*final(self.walker).reader).reliable() && (__r is Ok <==> decf(Fmt::Bytes, (*old(self.walker).reader).rem()) is Some)),
//!! fn MapEntry<K,V,R>::decode_pair : C11
requires
    self.walker.remaining > 0,
ensures
    __r is Ok ==> final(self.walker).remaining == old(self.walker).remaining - 1,
    *final(final(self.walker).reader) == *final(old(self.walker).reader),
    self.cursor != MapCursor::BeforeKey ==> __r is Err,
    self.cursor == MapCursor::BeforeKey ==> (__r is Ok ==> took(decf(crate::__vxwk::kvf::<K, V>(), (*old(self.walker).reader).rem()), (*old(self.walker).reader).rem(), (*final(self.walker).reader).rem(), vpair((__r->Ok_0).0.model(), (__r->Ok_0).1.model()))),
    self.cursor == MapCursor::BeforeKey ==> ((*old(self.walker).reader).reliable() ==> (*final(self.walker).reader).reliable() && (__r is Ok <==> decf(crate::__vxwk::kvf::<K, V>(), (*old(self.walker).reader).rem()) is Some)),
//!! begin MapEntry<K,V,R>::decode_pair
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; }
//!! fn MapEntry<K,V,R>::skip_pair : C11
requires
    self.walker.remaining > 0,
ensures
    __r is Ok ==> final(self.walker).remaining == old(self.walker).remaining - 1,
    *final(final(self.walker).reader) == *final(old(self.walker).reader),
    self.cursor != MapCursor::BeforeKey ==> __r is Err,
    self.cursor == MapCursor::BeforeKey ==> (__r is Ok ==> skipped(crate::__vxwk::kvf::<K, V>(), (*old(self.walker).reader).rem(), (*final(self.walker).reader).rem())),
    self.cursor == MapCursor::BeforeKey ==> ((*old(self.walker).reader).reliable() ==> (*final(self.walker).reader).reliable() && (decf(crate::__vxwk::kvf::<K, V>(), (*old(self.walker).reader).rem()) is Some ==> __r is Ok)),
//!! begin MapEntry<K,V,R>::skip_pair
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; }
//!! fn StructWalker<R>::new : C11
ensures
    *__r.reader == *old($0) && *final(__r.reader) == *final($0),
    __r.revision == $1,
    __r.position == 0,
//!! fn StructWalker<R>::revision : C11
ensures
    __r == self.revision,
//!! fn StructWalker<R>::position : C11
ensures
    __r == self.position,
//!! fn StructWalker<R>::decode : C11
requires
    old(self).position < u32::MAX,
ensures
    __r is Ok ==> (*final(self)).position == (*old(self)).position + 1,
    (*final(self)).revision == (*old(self)).revision,
    *final((*final(self)).reader) == *final((*old(self)).reader),
    __r is Ok ==> took(decf(T::fmt(), (*(*old(self)).reader).rem()), (*(*old(self)).reader).rem(), (*(*final(self)).reader).rem(), (__r->Ok_0).model()),
    (*(*old(self)).reader).reliable() ==> (*(*final(self)).reader).reliable() && (__r is Ok <==> decf(T::fmt(), (*(*old(self)).reader).rem()) is Some),
//!! fn StructWalker<R>::skip : C11
requires
    old(self).position < u32::MAX,
ensures
    __r is Ok ==> (*final(self)).position == (*old(self)).position + 1,
    (*final(self)).revision == (*old(self)).revision,
    *final((*final(self)).reader) == *final((*old(self)).reader),
    __r is Ok ==> skipped(T::fmt(), (*(*old(self)).reader).rem(), (*(*final(self)).reader).rem()),
    (*(*old(self)).reader).reliable() ==> (*(*final(self)).reader).reliable() && (decf(T::fmt(), (*(*old(self)).reader).rem()) is Some ==> __r is Ok),
//!! fn StructWalker<R>::reader : C11
ensures
    *__r == *old(self).reader,
    *final(__r) == *final(self).reader,
    *final(old(self).reader) == *final(final(self).reader),
//!! fn StructWalker<R>::into_reader : C11
ensures
    *__r == *old(self.reader),
    *final(__r) == *final(self.reader),
//!! fn EnumWalker<R>::new : C11
ensures
    __r is Ok ==> (__r->Ok_0).revision == $1 && took(decf(Fmt::UInt(4), (*old($0)).rem()), (*old($0)).rem(), (*(__r->Ok_0).reader).rem(), Val::N((__r->Ok_0).discriminant as int)) && *final((__r->Ok_0).reader) == *final($0),
    (*old($0)).reliable() ==> (__r is Ok <==> decf(Fmt::UInt(4), (*old($0)).rem()) is Some) && (__r is Ok ==> (*(__r->Ok_0).reader).reliable()),
//!! begin EnumWalker<R>::new
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals(); }
//!! fn EnumWalker<R>::revision : C11
ensures
    __r == self.revision,
//!! fn EnumWalker<R>::discriminant : C11
ensures
    __r == self.discriminant,
//!! fn EnumWalker<R>::decode : C11
ensures
    __r is Ok ==> took(decf(T::fmt(), (*old(self.reader)).rem()), (*old(self.reader)).rem(), (*final(self.reader)).rem(), (__r->Ok_0).model()),
    (*old(self.reader)).reliable() ==> (*final(self.reader)).reliable() && (__r is Ok <==> decf(T::fmt(), (*old(self.reader)).rem()) is Some),
//!! fn EnumWalker<R>::skip : C11
ensures
    __r is Ok ==> skipped(T::fmt(), (*old(self.reader)).rem(), (*final(self.reader)).rem()),
    (*old(self.reader)).reliable() ==> (*final(self.reader)).reliable() && (decf(T::fmt(), (*old(self.reader)).rem()) is Some ==> __r is Ok),
//!! fn EnumWalker<R>::reader : C11
ensures
    *__r == *old(self).reader,
    *final(__r) == *final(self).reader,
    *final(old(self).reader) == *final(final(self).reader),
//!! fn EnumWalker<R>::into_reader : C11
ensures
    *__r == *old(self.reader),
    *final(__r) == *final(self.reader),
//!! fn walk::read_enum_discriminant : C11
ensures
    __r is Ok ==> took(decf(Fmt::UInt(4), (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), Val::N(__r->Ok_0 as int)),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> decf(Fmt::UInt(4), (*old($0)).rem()) is Some),
//!! begin walk::read_enum_discriminant
    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals(); }
//!! crate
::vstd::prelude::verus! {
pub mod __vxwk {
use vstd::prelude::*;
use super::__vx::*;
use super::__vxmode::*;
use super::__vxt::*;
use super::__vxprims::*;
use super::__vxcont::*;
use std::io;
use std::cmp::Ordering;
use crate::{Revisioned, SerializeRevisioned, DeserializeRevisioned, SkipRevisioned, Error};
use crate::walk::*;
use crate::slice_reader::BorrowedReader;
pub open spec fn kvf<K: Revisioned, V: Revisioned>() -> Fmt { Fmt::Pair(Box::new(K::fmt()), Box::new(V::fmt())) }
pub proof fn szf_kv<K: Revisioned, V: Revisioned>(s: Seq<u8>)
    ensures szf(kvf::<K, V>(), s) == match szf(K::fmt(), s) { None => None, Some(n) => match szf(V::fmt(), s.skip(n as int)) { None => None, Some(m) => Some(n + m) } },
{ broadcast use group_fmt; }
/// the i-th key of a run of entries, decoded in the key format kf
pub open spec fn key_at<K: Revisioned, V: Revisioned>(s: Seq<u8>, i: nat) -> Option<(Val, nat)> { decf(K::fmt(), s.skip(szn(kvf::<K, V>(), i, s)->0 as int)) }
/// the caller's predicate answered o for the i-th key
pub open spec fn ans<F: FnMut(&K) -> Ordering, K: Revisioned, V: Revisioned>(f: F, s: Seq<u8>, i: nat, o: Ordering) -> bool {
    key_at::<K, V>(s, i) is Some && exists|k: &K| k.model() == v_of(key_at::<K, V>(s, i)) && #[trigger] f.ensures((k,), o)
}
pub open spec fn ansb<F: FnMut(&[u8]) -> Ordering, K: Revisioned, V: Revisioned>(f: F, s: Seq<u8>, i: nat, o: Ordering) -> bool {
    key_at::<K, V>(s, i) is Some && exists|k: &[u8]| k@ == v_of(key_at::<K, V>(s, i))->B_0 && #[trigger] f.ensures((k,), o)
}
/// entry i of the run is inside the input
pub open spec fn at<K: Revisioned, V: Revisioned>(s: Seq<u8>, i: nat) -> bool { szn(kvf::<K, V>(), i, s) is Some && szn(kvf::<K, V>(), i, s)->0 <= s.len() }
pub open spec fn value_pos<K: Revisioned, V: Revisioned>(s: Seq<u8>, i: nat) -> int { (szn(kvf::<K, V>(), i, s)->0 + n_of(key_at::<K, V>(s, i))) as int }
/// the answers walk the run: Less for every key before k
pub open spec fn lessers(a: spec_fn(nat, Ordering) -> bool, k: nat) -> bool { forall|i: nat| i < k ==> #[trigger] a(i, Ordering::Less) }
/// r is the value of the first key answered other than Less, which was answered Equal
pub open spec fn found<K: Revisioned, V: Revisioned>(a: spec_fn(nat, Ordering) -> bool, s: Seq<u8>, n: nat, r: Seq<u8>) -> bool {
    exists|k: nat| k < n && #[trigger] lessers(a, k) && at::<K, V>(s, k) && a(k, Ordering::Equal) && r =~= s.skip(value_pos::<K, V>(s, k))
}
/// every entry was consumed, and no key was answered Equal before one was answered Greater
pub open spec fn missed<K: Revisioned, V: Revisioned>(a: spec_fn(nat, Ordering) -> bool, s: Seq<u8>, n: nat, r: Seq<u8>) -> bool {
    at::<K, V>(s, n) && r =~= s.skip(szn(kvf::<K, V>(), n, s)->0 as int) && exists|k: nat| k <= n && #[trigger] lessers(a, k) && (k < n ==> a(k, Ordering::Greater))
}
pub proof fn decf_kv<K: Revisioned, V: Revisioned>(s: Seq<u8>)
    ensures decf(kvf::<K, V>(), s) is Some <==> decf(K::fmt(), s) is Some && decf(V::fmt(), s.skip(n_of(decf(K::fmt(), s)) as int)) is Some,
        decf(K::fmt(), s) is Some ==> szf(K::fmt(), s) == Some(n_of(decf(K::fmt(), s))),
        szf(kvf::<K, V>(), s) == match szf(K::fmt(), s) { None => None, Some(n) => match szf(V::fmt(), s.skip(n as int)) { None => None, Some(m) => Some(n + m) } },
{ broadcast use {group_fmt, thm_sz_auto}; }
/// decoding a byte string, spelled out
pub proof fn decf_b(s: Seq<u8>)
    ensures decf(Fmt::Bytes, s) == match decf(Fmt::UInt(8), s) { None => None, Some((v, n)) => if n + v->N_0 <= s.len() { Some((Val::B(s.skip(n as int).take(v->N_0)), (n + v->N_0) as nat)) } else { None } },
        decf(Fmt::UInt(8), s) is Some ==> 0 <= v_of(decf(Fmt::UInt(8), s))->N_0,
{ broadcast use group_fmt; p256_vals(); uint_facts(8, s, Seq::empty()); }
/// the derived `==` of a field-less enum
#[verifier::external_body]
pub proof fn cursor_eq()
    ensures <MapCursor as vstd::std_specs::cmp::PartialEqSpec<MapCursor>>::obeys_eq_spec(), forall|a: MapCursor, b: MapCursor| #[trigger] <MapCursor as vstd::std_specs::cmp::PartialEqSpec<MapCursor>>::eq_spec(&a, &b) == (a == b)
{}
} // mod
} // verus!
