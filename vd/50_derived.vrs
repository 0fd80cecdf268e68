//!! data F0
#[verifier::external_body]
//!! data F1
#[verifier::external_body]
//!! data F2
#[verifier::external_body]
//!! data F3
#[verifier::external_body]
//!! drop data DaWalker
//!! drop data DaWalkerRepr
//!! drop impl WalkRevisioned for Da
//!! drop impl DaWalker<R>
//!! data Da
//!! fn Revisioned for Da::revision : C17
ensures __r == 1,
//!! fn SerializeRevisioned for Da::serialize_revisioned : C17 C03 C12
//!! begin SerializeRevisioned for Da::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn Da::__deserialize_after_header : C18 C08 C09 C12
ensures
    __r is Ok ==> took(dec_body(Da_bodies(), |v: Val| Da_up(v), $1, (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), RevSpec::model(&(__r->Ok_0))),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> dec_body(Da_bodies(), |v: Val| Da_up(v), $1, (*old($0)).rem()) is Some),
//!! begin Da::__deserialize_after_header
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr Da::__deserialize_after_header
#[verifier::rlimit(60)]
//!! fn DeserializeRevisioned for Da::deserialize_revisioned : C18 C08 C09 C12
//!! begin DeserializeRevisioned for Da::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn SkipRevisioned for Da::skip_revisioned : C20 C12
//!! begin SkipRevisioned for Da::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Da::skip_revisioned
#[verifier::rlimit(60)]
//!! fn SkipRevisioned for Da::skip_revisioned_slice : C20
//!! begin SkipRevisioned for Da::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Da::skip_revisioned_slice
#[verifier::rlimit(60)]
//!! fn SkipCheckRevisioned for Da::skip_check_revisioned : C20 C12
//!! begin SkipCheckRevisioned for Da::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! drop data DbWalker
//!! drop data DbWalkerRepr
//!! drop impl WalkRevisioned for Db
//!! drop impl DbWalker<R>
//!! data Db
//!! fn Revisioned for Db::revision : C17
ensures __r == 3,
//!! fn SerializeRevisioned for Db::serialize_revisioned : C17 C03 C12
//!! begin SerializeRevisioned for Db::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn Db::__deserialize_after_header : C18 C08 C09 C12
ensures
    __r is Ok ==> took(dec_body(Db_bodies(), |v: Val| Db_up(v), $1, (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), RevSpec::model(&(__r->Ok_0))),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> dec_body(Db_bodies(), |v: Val| Db_up(v), $1, (*old($0)).rem()) is Some),
//!! begin Db::__deserialize_after_header
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr Db::__deserialize_after_header
#[verifier::rlimit(60)]
//!! fn DeserializeRevisioned for Db::deserialize_revisioned : C18 C08 C09 C12
//!! begin DeserializeRevisioned for Db::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn SkipRevisioned for Db::skip_revisioned : C20 C12
//!! begin SkipRevisioned for Db::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Db::skip_revisioned
#[verifier::rlimit(60)]
//!! fn SkipRevisioned for Db::skip_revisioned_slice : C20
//!! begin SkipRevisioned for Db::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Db::skip_revisioned_slice
#[verifier::rlimit(60)]
//!! fn SkipCheckRevisioned for Db::skip_check_revisioned : C20 C12
//!! begin SkipCheckRevisioned for Db::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! axiom Db::d_1 : C17
ensures __r is Ok <==> Db_d_1($0 as int) is Some, __r is Ok ==> RevSpec::model(&(__r->Ok_0)) == Db_d_1($0 as int)->0,
//!! axiom Db::c_2 : C17
ensures __r is Ok <==> Db_c_2(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1)) is Some, __r is Ok ==> RevSpec::model(&*final(self)) == Db_c_2(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1))->0,
//!! drop data DcWalker
//!! drop data DcWalkerRepr
//!! drop impl WalkRevisioned for Dc
//!! drop impl DcWalker<R>
//!! data Dc
//!! fn Revisioned for Dc::revision : C17
ensures __r == 3,
//!! fn SerializeRevisioned for Dc::serialize_revisioned : C17 C03 C12
//!! begin SerializeRevisioned for Dc::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn Dc::__deserialize_after_header : C18 C08 C09 C12
ensures
    __r is Ok ==> took(dec_body(Dc_bodies(), |v: Val| Dc_up(v), $1, (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), RevSpec::model(&(__r->Ok_0))),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> dec_body(Dc_bodies(), |v: Val| Dc_up(v), $1, (*old($0)).rem()) is Some),
//!! begin Dc::__deserialize_after_header
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr Dc::__deserialize_after_header
#[verifier::rlimit(60)]
//!! fn DeserializeRevisioned for Dc::deserialize_revisioned : C18 C08 C09 C12
//!! begin DeserializeRevisioned for Dc::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn SkipRevisioned for Dc::skip_revisioned : C20 C12
//!! begin SkipRevisioned for Dc::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dc::skip_revisioned
#[verifier::rlimit(60)]
//!! fn SkipRevisioned for Dc::skip_revisioned_slice : C20
//!! begin SkipRevisioned for Dc::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dc::skip_revisioned_slice
#[verifier::rlimit(60)]
//!! fn SkipCheckRevisioned for Dc::skip_check_revisioned : C20 C12
//!! begin SkipCheckRevisioned for Dc::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! axiom Dc::c_0 : C17
ensures __r is Ok <==> Dc_c_0(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1)) is Some, __r is Ok ==> RevSpec::model(&*final(self)) == Dc_c_0(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1))->0,
//!! axiom Dc::c_3 : C17
ensures __r is Ok <==> Dc_c_3(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1)) is Some, __r is Ok ==> RevSpec::model(&*final(self)) == Dc_c_3(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1))->0,
//!! drop data DdWalker
//!! drop data DdWalkerRepr
//!! drop impl WalkRevisioned for Dd
//!! drop impl DdWalker<R>
//!! data Dd
//!! fn Revisioned for Dd::revision : C17
ensures __r == 2,
//!! fn SerializeRevisioned for Dd::serialize_revisioned : C17 C03 C12
//!! begin SerializeRevisioned for Dd::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn Dd::__deserialize_after_header : C18 C08 C09 C12
ensures
    __r is Ok ==> took(dec_body(Dd_bodies(), |v: Val| Dd_up(v), $1, (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), RevSpec::model(&(__r->Ok_0))),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> dec_body(Dd_bodies(), |v: Val| Dd_up(v), $1, (*old($0)).rem()) is Some),
//!! begin Dd::__deserialize_after_header
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr Dd::__deserialize_after_header
#[verifier::rlimit(60)]
//!! fn DeserializeRevisioned for Dd::deserialize_revisioned : C18 C08 C09 C12
//!! begin DeserializeRevisioned for Dd::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn SkipRevisioned for Dd::skip_revisioned : C20 C12
//!! begin SkipRevisioned for Dd::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dd::skip_revisioned
#[verifier::rlimit(60)]
//!! fn SkipRevisioned for Dd::skip_revisioned_slice : C20
//!! begin SkipRevisioned for Dd::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dd::skip_revisioned_slice
#[verifier::rlimit(60)]
//!! fn SkipCheckRevisioned for Dd::skip_check_revisioned : C20 C12
//!! begin SkipCheckRevisioned for Dd::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! data DdXFields
//!! data DdYFields
//!! axiom Dd::cv_1 : C17
ensures __r is Ok <==> Dd_cv_1(DdYFields_model(&$0), $1 as int) is Some, __r is Ok ==> RevSpec::model(&(__r->Ok_0)) == Dd_cv_1(DdYFields_model(&$0), $1 as int)->0,
//!! data DdZFields
//!! axiom Dd::c_2_2 : C17
ensures __r is Ok <==> Dd_c_2_2(DdZFields_model(&*old($0)), $1 as int, RevSpec::model(&$2)) is Some, __r is Ok ==> DdZFields_model(&*final($0)) == Dd_c_2_2(DdZFields_model(&*old($0)), $1 as int, RevSpec::model(&$2))->0,
//!! drop data DeWalker
//!! drop data DeWalkerRepr
//!! drop impl WalkRevisioned for De
//!! drop impl DeWalker<R>
//!! data De
//!! fn Revisioned for De::revision : C17
ensures __r == 3,
//!! fn SerializeRevisioned for De::serialize_revisioned : C17 C03 C12
//!! begin SerializeRevisioned for De::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn De::__deserialize_after_header : C18 C08 C09 C12
ensures
    __r is Ok ==> took(dec_body(De_bodies(), |v: Val| De_up(v), $1, (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), RevSpec::model(&(__r->Ok_0))),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> dec_body(De_bodies(), |v: Val| De_up(v), $1, (*old($0)).rem()) is Some),
//!! begin De::__deserialize_after_header
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr De::__deserialize_after_header
#[verifier::rlimit(60)]
//!! fn DeserializeRevisioned for De::deserialize_revisioned : C18 C08 C09 C12
//!! begin DeserializeRevisioned for De::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn SkipRevisioned for De::skip_revisioned : C20 C12
//!! begin SkipRevisioned for De::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for De::skip_revisioned
#[verifier::rlimit(60)]
//!! fn SkipRevisioned for De::skip_revisioned_slice : C20
//!! begin SkipRevisioned for De::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for De::skip_revisioned_slice
#[verifier::rlimit(60)]
//!! fn SkipCheckRevisioned for De::skip_check_revisioned : C20 C12
//!! begin SkipCheckRevisioned for De::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! data DePFields
//!! axiom De::c_0_0 : C17
ensures __r is Ok <==> De_c_0_0(DePFields_model(&*old($0)), $1 as int, RevSpec::model(&$2)) is Some, __r is Ok ==> DePFields_model(&*final($0)) == De_c_0_0(DePFields_model(&*old($0)), $1 as int, RevSpec::model(&$2))->0,
//!! data DeQFields
//!! axiom De::d_1_1 : C17
ensures __r is Ok <==> De_d_1_1($0 as int) is Some, __r is Ok ==> RevSpec::model(&(__r->Ok_0)) == De_d_1_1($0 as int)->0,
//!! data DeRFields
//!! axiom De::cv_2 : C17
ensures __r is Ok <==> De_cv_2(DeRFields_model(&$0), $1 as int) is Some, __r is Ok ==> RevSpec::model(&(__r->Ok_0)) == De_cv_2(DeRFields_model(&$0), $1 as int)->0,
//!! data DeSFields
//!! drop data DfWalker
//!! drop data DfWalkerRepr
//!! drop impl WalkRevisioned for Df
//!! drop impl DfWalker<R>
//!! data Df
//!! fn Revisioned for Df::revision : C17
ensures __r == 2,
//!! fn SerializeRevisioned for Df::serialize_revisioned : C17 C19 C03 C12
//!! begin SerializeRevisioned for Df::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn Df::__deserialize_after_header : C18 C19 C08 C09 C12
ensures
    __r is Ok ==> took(dec_body(Df_bodies(), |v: Val| Df_up(v), $1, (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), RevSpec::model(&(__r->Ok_0))),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> dec_body(Df_bodies(), |v: Val| Df_up(v), $1, (*old($0)).rem()) is Some),
//!! begin Df::__deserialize_after_header
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr Df::__deserialize_after_header
#[verifier::rlimit(60)]
//!! fn DeserializeRevisioned for Df::deserialize_revisioned : C18 C19 C08 C09 C12
//!! begin DeserializeRevisioned for Df::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn SkipRevisioned for Df::skip_revisioned : C20 C12
//!! begin SkipRevisioned for Df::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Df::skip_revisioned
#[verifier::rlimit(60)]
//!! fn SkipRevisioned for Df::skip_revisioned_slice : C20
//!! begin SkipRevisioned for Df::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Df::skip_revisioned_slice
#[verifier::rlimit(60)]
//!! fn SkipCheckRevisioned for Df::skip_check_revisioned : C20 C12
//!! begin SkipCheckRevisioned for Df::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! axiom Df::c_2 : C17
ensures __r is Ok <==> Df_c_2(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1)) is Some, __r is Ok ==> RevSpec::model(&*final(self)) == Df_c_2(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1))->0,
//!! drop data DgWalker
//!! drop data DgWalkerRepr
//!! drop impl WalkRevisioned for Dg
//!! drop impl DgWalker<R>
//!! data Dg
//!! fn Revisioned for Dg::revision : C17
ensures __r == 3,
//!! fn SerializeRevisioned for Dg::serialize_revisioned : C17 C19 C21 C03 C12
//!! begin SerializeRevisioned for Dg::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts(); broadcast use group_put;  }
//!! fn Dg::__deserialize_after_header : C18 C19 C21 C08 C09 C12
ensures
    __r is Ok ==> took(dec_body(Dg_bodies(), |v: Val| Dg_up(v), $1, (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), RevSpec::model(&(__r->Ok_0))),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> dec_body(Dg_bodies(), |v: Val| Dg_up(v), $1, (*old($0)).rem()) is Some),
//!! begin Dg::__deserialize_after_header
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr Dg::__deserialize_after_header
#[verifier::rlimit(60)]
//!! fn DeserializeRevisioned for Dg::deserialize_revisioned : C18 C19 C21 C08 C09 C12
//!! begin DeserializeRevisioned for Dg::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn SkipRevisioned for Dg::skip_revisioned : C20 C21 C12
//!! begin SkipRevisioned for Dg::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dg::skip_revisioned
#[verifier::rlimit(60)]
//!! fn SkipRevisioned for Dg::skip_revisioned_slice : C20 C21
//!! begin SkipRevisioned for Dg::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dg::skip_revisioned_slice
#[verifier::rlimit(60)]
//!! fn SkipCheckRevisioned for Dg::skip_check_revisioned : C20 C21 C12
//!! begin SkipCheckRevisioned for Dg::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! drop data DhWalker
//!! drop data DhWalkerRepr
//!! drop impl WalkRevisioned for Dh
//!! drop impl DhWalker<R>
//!! data Dh
//!! fn Revisioned for Dh::revision : C17
ensures __r == 2,
//!! fn SerializeRevisioned for Dh::serialize_revisioned : C17 C21 C03 C12
//!! begin SerializeRevisioned for Dh::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn Dh::__deserialize_after_header : C18 C21 C08 C09 C12
ensures
    __r is Ok ==> took(dec_body(Dh_bodies(), |v: Val| Dh_up(v), $1, (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), RevSpec::model(&(__r->Ok_0))),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> dec_body(Dh_bodies(), |v: Val| Dh_up(v), $1, (*old($0)).rem()) is Some),
//!! begin Dh::__deserialize_after_header
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr Dh::__deserialize_after_header
#[verifier::rlimit(60)]
//!! fn DeserializeRevisioned for Dh::deserialize_revisioned : C18 C21 C08 C09 C12
//!! begin DeserializeRevisioned for Dh::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn SkipRevisioned for Dh::skip_revisioned : C20 C21 C12
//!! begin SkipRevisioned for Dh::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dh::skip_revisioned
#[verifier::rlimit(60)]
//!! fn SkipRevisioned for Dh::skip_revisioned_slice : C20 C21
//!! begin SkipRevisioned for Dh::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dh::skip_revisioned_slice
#[verifier::rlimit(60)]
//!! fn SkipCheckRevisioned for Dh::skip_check_revisioned : C20 C21 C12
//!! begin SkipCheckRevisioned for Dh::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! axiom Dh::c_1 : C17
ensures __r is Ok <==> Dh_c_1(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1)) is Some, __r is Ok ==> RevSpec::model(&*final(self)) == Dh_c_1(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1))->0,
//!! axiom Dh::c_3 : C17
ensures __r is Ok <==> Dh_c_3(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1)) is Some, __r is Ok ==> RevSpec::model(&*final(self)) == Dh_c_3(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1))->0,
//!! drop data DiWalker
//!! drop data DiWalkerRepr
//!! drop impl WalkRevisioned for Di
//!! drop impl DiWalker<R>
//!! data Di
//!! fn Revisioned for Di::revision : C17
ensures __r == 2,
//!! fn SerializeRevisioned for Di::serialize_revisioned : C17 C19 C03 C12
//!! begin SerializeRevisioned for Di::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn Di::__deserialize_after_header : C18 C19 C08 C09 C12
ensures
    __r is Ok ==> took(dec_body(Di_bodies(), |v: Val| Di_up(v), $1, (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), RevSpec::model(&(__r->Ok_0))),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> dec_body(Di_bodies(), |v: Val| Di_up(v), $1, (*old($0)).rem()) is Some),
//!! begin Di::__deserialize_after_header
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr Di::__deserialize_after_header
#[verifier::rlimit(60)]
//!! fn DeserializeRevisioned for Di::deserialize_revisioned : C18 C19 C08 C09 C12
//!! begin DeserializeRevisioned for Di::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn SkipRevisioned for Di::skip_revisioned : C20 C12
//!! begin SkipRevisioned for Di::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Di::skip_revisioned
#[verifier::rlimit(60)]
//!! fn SkipRevisioned for Di::skip_revisioned_slice : C20
//!! begin SkipRevisioned for Di::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Di::skip_revisioned_slice
#[verifier::rlimit(60)]
//!! fn SkipCheckRevisioned for Di::skip_check_revisioned : C20 C12
//!! begin SkipCheckRevisioned for Di::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! data DiAFields
//!! data DiBFields
//!! data DiCFields
//!! data DiDFields
//!! drop data DjWalker
//!! drop data DjWalkerRepr
//!! drop impl WalkRevisioned for Dj
//!! drop impl DjWalker<R>
//!! data Dj
//!! fn Revisioned for Dj::revision : C17
ensures __r == 2,
//!! fn SerializeRevisioned for Dj::serialize_revisioned : C17 C19 C03 C12
//!! begin SerializeRevisioned for Dj::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn Dj::__deserialize_after_header : C18 C19 C08 C09 C12
ensures
    __r is Ok ==> took(dec_body(Dj_bodies(), |v: Val| Dj_up(v), $1, (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), RevSpec::model(&(__r->Ok_0))),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> dec_body(Dj_bodies(), |v: Val| Dj_up(v), $1, (*old($0)).rem()) is Some),
//!! begin Dj::__deserialize_after_header
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr Dj::__deserialize_after_header
#[verifier::rlimit(60)]
//!! fn DeserializeRevisioned for Dj::deserialize_revisioned : C18 C19 C08 C09 C12
//!! begin DeserializeRevisioned for Dj::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn SkipRevisioned for Dj::skip_revisioned : C20 C12
//!! begin SkipRevisioned for Dj::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dj::skip_revisioned
#[verifier::rlimit(60)]
//!! fn SkipRevisioned for Dj::skip_revisioned_slice : C20
//!! begin SkipRevisioned for Dj::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dj::skip_revisioned_slice
#[verifier::rlimit(60)]
//!! fn SkipCheckRevisioned for Dj::skip_check_revisioned : C20 C12
//!! begin SkipCheckRevisioned for Dj::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! data DjAFields
//!! data DjBFields
//!! data DjCFields
//!! axiom Dj::cv_2 : C17
ensures __r is Ok <==> Dj_cv_2(DjCFields_model(&$0), $1 as int) is Some, __r is Ok ==> RevSpec::model(&(__r->Ok_0)) == Dj_cv_2(DjCFields_model(&$0), $1 as int)->0,
//!! drop data DnWalker
//!! drop data DnWalkerRepr
//!! drop impl WalkRevisioned for Dn
//!! drop impl DnWalker<R>
//!! data Dn
//!! fn Revisioned for Dn::revision : C17
ensures __r == 3,
//!! fn SerializeRevisioned for Dn::serialize_revisioned : C17 C19 C03 C12
//!! begin SerializeRevisioned for Dn::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn Dn::__deserialize_after_header : C18 C19 C08 C09 C12
ensures
    __r is Ok ==> took(dec_body(Dn_bodies(), |v: Val| Dn_up(v), $1, (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), RevSpec::model(&(__r->Ok_0))),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> dec_body(Dn_bodies(), |v: Val| Dn_up(v), $1, (*old($0)).rem()) is Some),
//!! begin Dn::__deserialize_after_header
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr Dn::__deserialize_after_header
#[verifier::rlimit(60)]
//!! fn DeserializeRevisioned for Dn::deserialize_revisioned : C18 C19 C08 C09 C12
//!! begin DeserializeRevisioned for Dn::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn SkipRevisioned for Dn::skip_revisioned : C20 C12
//!! begin SkipRevisioned for Dn::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dn::skip_revisioned
#[verifier::rlimit(60)]
//!! fn SkipRevisioned for Dn::skip_revisioned_slice : C20
//!! begin SkipRevisioned for Dn::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dn::skip_revisioned_slice
#[verifier::rlimit(60)]
//!! fn SkipCheckRevisioned for Dn::skip_check_revisioned : C20 C12
//!! begin SkipCheckRevisioned for Dn::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! data DnAFields
//!! axiom Dn::c_0_0 : C17
ensures __r is Ok <==> Dn_c_0_0(DnAFields_model(&*old($0)), $1 as int, RevSpec::model(&$2)) is Some, __r is Ok ==> DnAFields_model(&*final($0)) == Dn_c_0_0(DnAFields_model(&*old($0)), $1 as int, RevSpec::model(&$2))->0,
//!! axiom Dn::d_0_1 : C17
ensures __r is Ok <==> Dn_d_0_1($0 as int) is Some, __r is Ok ==> RevSpec::model(&(__r->Ok_0)) == Dn_d_0_1($0 as int)->0,
//!! data DnBFields
//!! axiom Dn::cv_1 : C17
ensures __r is Ok <==> Dn_cv_1(DnBFields_model(&$0), $1 as int) is Some, __r is Ok ==> RevSpec::model(&(__r->Ok_0)) == Dn_cv_1(DnBFields_model(&$0), $1 as int)->0,
//!! data DnCFields
//!! data DnEFields
//!! axiom Dn::cv_3 : C17
ensures __r is Ok <==> Dn_cv_3(DnEFields_model(&$0), $1 as int) is Some, __r is Ok ==> RevSpec::model(&(__r->Ok_0)) == Dn_cv_3(DnEFields_model(&$0), $1 as int)->0,
//!! data DnGFields
//!! axiom Dn::c_4_1 : C17
ensures __r is Ok <==> Dn_c_4_1(DnGFields_model(&*old($0)), $1 as int, RevSpec::model(&$2)) is Some, __r is Ok ==> DnGFields_model(&*final($0)) == Dn_c_4_1(DnGFields_model(&*old($0)), $1 as int, RevSpec::model(&$2))->0,
//!! drop data DoWalker
//!! drop data DoWalkerRepr
//!! drop impl WalkRevisioned for Do
//!! drop impl DoWalker<R>
//!! data Do
//!! fn Revisioned for Do::revision : C17
ensures __r == 3,
//!! fn SerializeRevisioned for Do::serialize_revisioned : C17 C19 C03 C12
//!! begin SerializeRevisioned for Do::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn Do::__deserialize_after_header : C18 C19 C08 C09 C12
ensures
    __r is Ok ==> took(dec_body(Do_bodies(), |v: Val| Do_up(v), $1, (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), RevSpec::model(&(__r->Ok_0))),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> dec_body(Do_bodies(), |v: Val| Do_up(v), $1, (*old($0)).rem()) is Some),
//!! begin Do::__deserialize_after_header
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr Do::__deserialize_after_header
#[verifier::rlimit(60)]
//!! fn DeserializeRevisioned for Do::deserialize_revisioned : C18 C19 C08 C09 C12
//!! begin DeserializeRevisioned for Do::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn SkipRevisioned for Do::skip_revisioned : C20 C12
//!! begin SkipRevisioned for Do::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Do::skip_revisioned
#[verifier::rlimit(60)]
//!! fn SkipRevisioned for Do::skip_revisioned_slice : C20
//!! begin SkipRevisioned for Do::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Do::skip_revisioned_slice
#[verifier::rlimit(60)]
//!! fn SkipCheckRevisioned for Do::skip_check_revisioned : C20 C12
//!! begin SkipCheckRevisioned for Do::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! axiom Do::c_0 : C17
ensures __r is Ok <==> Do_c_0(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1)) is Some, __r is Ok ==> RevSpec::model(&*final(self)) == Do_c_0(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1))->0,
//!! axiom Do::d_1 : C17
ensures __r is Ok <==> Do_d_1($0 as int) is Some, __r is Ok ==> RevSpec::model(&(__r->Ok_0)) == Do_d_1($0 as int)->0,
//!! axiom Do::c_2 : C17
ensures __r is Ok <==> Do_c_2(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1)) is Some, __r is Ok ==> RevSpec::model(&*final(self)) == Do_c_2(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1))->0,
//!! drop data DlWalker
//!! drop data DlWalkerRepr
//!! drop impl WalkRevisioned for Dl
//!! drop impl DlWalker<R>
//!! data Dl
//!! fn Revisioned for Dl::revision : C17
ensures __r == 2,
//!! fn SerializeRevisioned for Dl::serialize_revisioned : C17 C19 C03 C12
//!! begin SerializeRevisioned for Dl::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts(); broadcast use group_put;  }
//!! fn Dl::__deserialize_after_header : C18 C19 C08 C09 C12
ensures
    __r is Ok ==> took(dec_body(Dl_bodies(), |v: Val| Dl_up(v), $1, (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), RevSpec::model(&(__r->Ok_0))),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> dec_body(Dl_bodies(), |v: Val| Dl_up(v), $1, (*old($0)).rem()) is Some),
//!! begin Dl::__deserialize_after_header
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr Dl::__deserialize_after_header
#[verifier::rlimit(60)]
//!! fn DeserializeRevisioned for Dl::deserialize_revisioned : C18 C19 C08 C09 C12
//!! begin DeserializeRevisioned for Dl::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn SkipRevisioned for Dl::skip_revisioned : C20 C12
//!! begin SkipRevisioned for Dl::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dl::skip_revisioned
#[verifier::rlimit(60)]
//!! fn SkipRevisioned for Dl::skip_revisioned_slice : C20
//!! begin SkipRevisioned for Dl::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dl::skip_revisioned_slice
#[verifier::rlimit(60)]
//!! fn SkipCheckRevisioned for Dl::skip_check_revisioned : C20 C12
//!! begin SkipCheckRevisioned for Dl::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! axiom Dl::d_1 : C17
ensures __r is Ok <==> Dl_d_1($0 as int) is Some, __r is Ok ==> RevSpec::model(&(__r->Ok_0)) == Dl_d_1($0 as int)->0,
//!! drop data DmWalker
//!! drop data DmWalkerRepr
//!! drop impl WalkRevisioned for Dm
//!! drop impl DmWalker<R>
//!! data Dm
//!! fn Revisioned for Dm::revision : C17
ensures __r == 1,
//!! fn SerializeRevisioned for Dm::serialize_revisioned : C17 C19 C21 C03 C12
//!! begin SerializeRevisioned for Dm::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts(); broadcast use group_put;  }
//!! fn Dm::__deserialize_after_header : C18 C19 C21 C08 C09 C12
ensures
    __r is Ok ==> took(dec_body(Dm_bodies(), |v: Val| Dm_up(v), $1, (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), RevSpec::model(&(__r->Ok_0))),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> dec_body(Dm_bodies(), |v: Val| Dm_up(v), $1, (*old($0)).rem()) is Some),
//!! begin Dm::__deserialize_after_header
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr Dm::__deserialize_after_header
#[verifier::rlimit(60)]
//!! fn DeserializeRevisioned for Dm::deserialize_revisioned : C18 C19 C21 C08 C09 C12
//!! begin DeserializeRevisioned for Dm::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn SkipRevisioned for Dm::skip_revisioned : C20 C21 C12
//!! begin SkipRevisioned for Dm::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dm::skip_revisioned
#[verifier::rlimit(60)]
//!! fn SkipRevisioned for Dm::skip_revisioned_slice : C20 C21
//!! begin SkipRevisioned for Dm::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dm::skip_revisioned_slice
#[verifier::rlimit(60)]
//!! fn SkipCheckRevisioned for Dm::skip_check_revisioned : C20 C21 C12
//!! begin SkipCheckRevisioned for Dm::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! drop data DkWalker
//!! drop data DkWalkerRepr
//!! drop impl WalkRevisioned for Dk
//!! drop impl DkWalker<R>
//!! data Dk
//!! fn Revisioned for Dk::revision : C17
ensures __r == 3,
//!! fn SerializeRevisioned for Dk::serialize_revisioned : C17 C19 C21 C03 C12
//!! begin SerializeRevisioned for Dk::serialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn Dk::__deserialize_after_header : C18 C19 C21 C08 C09 C12
ensures
    __r is Ok ==> took(dec_body(Dk_bodies(), |v: Val| Dk_up(v), $1, (*old($0)).rem()), (*old($0)).rem(), (*final($0)).rem(), RevSpec::model(&(__r->Ok_0))),
    (*old($0)).reliable() ==> (*final($0)).reliable() && (__r is Ok <==> dec_body(Dk_bodies(), |v: Val| Dk_up(v), $1, (*old($0)).rem()) is Some),
//!! begin Dk::__deserialize_after_header
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr Dk::__deserialize_after_header
#[verifier::rlimit(60)]
//!! fn DeserializeRevisioned for Dk::deserialize_revisioned : C18 C19 C21 C08 C09 C12
//!! begin DeserializeRevisioned for Dk::deserialize_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! fn SkipRevisioned for Dk::skip_revisioned : C20 C21 C12
//!! begin SkipRevisioned for Dk::skip_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dk::skip_revisioned
#[verifier::rlimit(60)]
//!! fn SkipRevisioned for Dk::skip_revisioned_slice : C20 C21
//!! begin SkipRevisioned for Dk::skip_revisioned_slice
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! attr SkipRevisioned for Dk::skip_revisioned_slice
#[verifier::rlimit(60)]
//!! fn SkipCheckRevisioned for Dk::skip_check_revisioned : C20 C21 C12
//!! begin SkipCheckRevisioned for Dk::skip_check_revisioned
    proof { broadcast use {group_vx, group_fmt, group_opt, thm_sz_auto}; p256_vals(); fixed_facts();  }
//!! axiom Dk::c_0 : C17
ensures __r is Ok <==> Dk_c_0(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1)) is Some, __r is Ok ==> RevSpec::model(&*final(self)) == Dk_c_0(RevSpec::model(&*old(self)), $0 as int, RevSpec::model(&$1))->0,
//!! axiom Dk::d_2 : C17
ensures __r is Ok <==> Dk_d_2($0 as int) is Some, __r is Ok ==> RevSpec::model(&(__r->Ok_0)) == Dk_d_2($0 as int)->0,
//!! tail derived
::vstd::prelude::verus! {
pub mod __vxdt {
use vstd::prelude::*;
use std::io;
use super::__vx::*;
use super::__vxmode::*;
use super::__vxt::*;
use crate::__vxd::*;
use crate::{Revisioned, SerializeRevisioned, DeserializeRevisioned, SkipRevisioned, SkipCheckRevisioned, Error};
use crate::implementations::specialised::{SerializeRevisionedSpecialised, DeserializeRevisionedSpecialised};
use crate::optimised::indexed::{IndexedSeqEncoded, IndexedMapEncoded, IndexedSetEncoded};
use crate::slice_reader::{SliceReader, BorrowedReader};

// the encodings a field can be declared with, abstractly: each has its own wire format
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(SpecialisedSpec via SpecialisedSpecImpl)]
pub trait ExSerializeRevisionedSpecialised: Revisioned + SerializeRevisioned {
    type ExternalTraitSpecificationFor: SerializeRevisionedSpecialised;
    spec fn sfmt() -> Fmt;
    fn serialize_revisioned_specialised<W: io::Write>(&self, w: &mut W) -> (r: Result<(), Error>)
        ensures
            r is Ok ==> okf(Self::sfmt(), self.model())
                && (*final(w)).written() =~= (*old(w)).written() + encf(Self::sfmt(), self.model()),
            (*old(w)).wreliable() ==> (*final(w)).wreliable() && (okf(Self::sfmt(), self.model()) ==> r is Ok);
}
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(DeSpecialisedSpec via DeSpecialisedSpecImpl)]
pub trait ExDeserializeRevisionedSpecialised: Revisioned + DeserializeRevisioned {
    type ExternalTraitSpecificationFor: DeserializeRevisionedSpecialised;
    spec fn dsfmt() -> Fmt;
    fn deserialize_revisioned_specialised<R: io::Read>(r: &mut R) -> (res: Result<Self, Error>)
        where Self: Sized
        ensures
            res is Ok ==> took(decf(Self::dsfmt(), (*old(r)).rem()), (*old(r)).rem(), (*final(r)).rem(), (res->Ok_0).model()),
            (*old(r)).reliable() ==> (*final(r)).reliable()
                && (res is Ok <==> decf(Self::dsfmt(), (*old(r)).rem()) is Some);
}
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ISeqSpec via ISeqSpecImpl)]
pub trait ExIndexedSeqEncoded: Sized {
    type ExternalTraitSpecificationFor: IndexedSeqEncoded;
    type Item;
    spec fn xfmt() -> Fmt;
    spec fn xmodel(&self) -> Val;
    fn serialize_indexed_seq<W: io::Write>(&self, w: &mut W) -> (r: Result<(), Error>)
        ensures
            r is Ok ==> okf(Self::xfmt(), self.xmodel()) && (*final(w)).written() =~= (*old(w)).written() + encf(Self::xfmt(), self.xmodel()),
            (*old(w)).wreliable() ==> (*final(w)).wreliable() && (okf(Self::xfmt(), self.xmodel()) ==> r is Ok);
    fn deserialize_indexed_seq<R: io::Read>(r: &mut R) -> (res: Result<Self, Error>)
        ensures
            res is Ok ==> took(decf(Self::xfmt(), (*old(r)).rem()), (*old(r)).rem(), (*final(r)).rem(), (res->Ok_0).xmodel()),
            (*old(r)).reliable() ==> (*final(r)).reliable() && (res is Ok <==> decf(Self::xfmt(), (*old(r)).rem()) is Some);
    fn skip_indexed_seq<R: BorrowedReader>(r: &mut R) -> (res: Result<(), Error>)
        ensures
            res is Ok ==> skipped(Self::xfmt(), (*old(r)).rem(), (*final(r)).rem()),
            (*old(r)).reliable() ==> (*final(r)).reliable() && (decf(Self::xfmt(), (*old(r)).rem()) is Some ==> res is Ok);
}
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(IMapSpec via IMapSpecImpl)]
pub trait ExIndexedMapEncoded: Sized {
    type ExternalTraitSpecificationFor: IndexedMapEncoded;
    type Key; type Value;
    spec fn xfmt() -> Fmt;
    spec fn xmodel(&self) -> Val;
    fn serialize_indexed_map<W: io::Write>(&self, w: &mut W) -> (r: Result<(), Error>)
        ensures
            r is Ok ==> okf(Self::xfmt(), self.xmodel()) && (*final(w)).written() =~= (*old(w)).written() + encf(Self::xfmt(), self.xmodel()),
            (*old(w)).wreliable() ==> (*final(w)).wreliable() && (okf(Self::xfmt(), self.xmodel()) ==> r is Ok);
    fn deserialize_indexed_map<R: io::Read>(r: &mut R) -> (res: Result<Self, Error>)
        ensures
            res is Ok ==> took(decf(Self::xfmt(), (*old(r)).rem()), (*old(r)).rem(), (*final(r)).rem(), (res->Ok_0).xmodel()),
            (*old(r)).reliable() ==> (*final(r)).reliable() && (res is Ok <==> decf(Self::xfmt(), (*old(r)).rem()) is Some);
    fn skip_indexed_map<R: BorrowedReader>(r: &mut R) -> (res: Result<(), Error>)
        ensures
            res is Ok ==> skipped(Self::xfmt(), (*old(r)).rem(), (*final(r)).rem()),
            (*old(r)).reliable() ==> (*final(r)).reliable() && (decf(Self::xfmt(), (*old(r)).rem()) is Some ==> res is Ok);
}
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ISetSpec via ISetSpecImpl)]
pub trait ExIndexedSetEncoded: Sized {
    type ExternalTraitSpecificationFor: IndexedSetEncoded;
    type Item;
    spec fn xfmt() -> Fmt;
    spec fn xmodel(&self) -> Val;
    fn serialize_indexed_set<W: io::Write>(&self, w: &mut W) -> (r: Result<(), Error>)
        ensures
            r is Ok ==> okf(Self::xfmt(), self.xmodel()) && (*final(w)).written() =~= (*old(w)).written() + encf(Self::xfmt(), self.xmodel()),
            (*old(w)).wreliable() ==> (*final(w)).wreliable() && (okf(Self::xfmt(), self.xmodel()) ==> r is Ok);
    fn deserialize_indexed_set<R: io::Read>(r: &mut R) -> (res: Result<Self, Error>)
        ensures
            res is Ok ==> took(decf(Self::xfmt(), (*old(r)).rem()), (*old(r)).rem(), (*final(r)).rem(), (res->Ok_0).xmodel()),
            (*old(r)).reliable() ==> (*final(r)).reliable() && (res is Ok <==> decf(Self::xfmt(), (*old(r)).rem()) is Some);
    fn skip_indexed_set<R: BorrowedReader>(r: &mut R) -> (res: Result<(), Error>)
        ensures
            res is Ok ==> skipped(Self::xfmt(), (*old(r)).rem(), (*final(r)).rem()),
            (*old(r)).reliable() ==> (*final(r)).reliable() && (decf(Self::xfmt(), (*old(r)).rem()) is Some ==> res is Ok);
}
/// what the decoder of a body stored at revision `rev` yields: the body, then the migration to the latest revision
pub open spec fn dec_body(bodies: Seq<Fmt>, up: spec_fn(Val) -> Option<Val>, rev: u16, s: Seq<u8>) -> Option<(Val, nat)> {
    if 0 <= rev < bodies.len() {
        match decf(bodies[rev as int], s) {
            None => None,
            Some((v, n)) => match up(Val::V(rev as int, seq![v])) { None => None, Some(u) => Some((u, n)) },
        }
    } else { None }
}
/// one conversion function applied after the ones before it
pub open spec fn conv_step(x: Option<Val>, f: spec_fn(Val) -> Option<Val>) -> Option<Val> { match x { None => None, Some(m) => f(m) } }
/// wrapping a value as enum variant `k`
pub open spec fn wrap(k: int, x: Option<Val>) -> Option<Val> { match x { None => None, Some(m) => Some(Val::V(k, seq![m])) } }
/// a signed fixed-width integer: two's complement little endian
pub open spec fn fixed_z(w: nat) -> Fmt {
    Fmt::Conv(Box::new(Fmt::Raw(w)), |v: Val| Some(Val::N(untwos(v->N_0 as nat, w))), |v: Val| Val::N(twos(v->N_0, w) as int))
}
pub proof fn fixed_facts()
    ensures
        forall|x: i32| untwos(#[trigger] twos(x as int, 4), 4) == x as int && twos(x as int, 4) < p256(4),
        forall|x: i64| untwos(#[trigger] twos(x as int, 8), 8) == x as int && twos(x as int, 8) < p256(8),
        forall|x: i128| untwos(#[trigger] twos(x as int, 16), 16) == x as int && twos(x as int, 16) < p256(16),
{ p256_vals(); }
pub uninterp spec fn fmt_F0() -> Fmt;
pub uninterp spec fn sfmt_F0() -> Fmt;
pub uninterp spec fn xsfmt_F0() -> Fmt;
pub uninterp spec fn xmfmt_F0() -> Fmt;
pub uninterp spec fn xtfmt_F0() -> Fmt;
pub uninterp spec fn model_F0(x: &F0) -> Val;
pub uninterp spec fn dflt_F0() -> Val;
impl RevSpecImpl for F0 {
    open spec fn fmt() -> Fmt { fmt_F0() }
    open spec fn model(&self) -> Val { model_F0(self) }
}
impl Default for F0 { #[verifier::external_body] fn default() -> (r: F0) ensures RevSpec::model(&r) == dflt_F0() { unimplemented!() } }
impl Revisioned for F0 { #[verifier::external_body] fn revision() -> u16 { unimplemented!() } }
impl SerializeRevisioned for F0 { #[verifier::external_body] fn serialize_revisioned<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() } }
impl DeserializeRevisioned for F0 { #[verifier::external_body] fn deserialize_revisioned<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() } }
impl SkipRevisioned for F0 {
    #[verifier::external_body] fn skip_revisioned<R: io::Read>(r: &mut R) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn skip_revisioned_slice(r: &mut SliceReader<'_>) -> Result<(), Error> { unimplemented!() }
}
impl SkipCheckRevisioned for F0 { #[verifier::external_body] fn skip_check_revisioned<R: io::Read>(r: &mut R) -> Result<(), Error> { unimplemented!() } }
impl SpecialisedSpecImpl for F0 { open spec fn sfmt() -> Fmt { sfmt_F0() } }
impl SerializeRevisionedSpecialised for F0 { #[verifier::external_body] fn serialize_revisioned_specialised<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() } }
impl DeSpecialisedSpecImpl for F0 { open spec fn dsfmt() -> Fmt { sfmt_F0() } }
impl DeserializeRevisionedSpecialised for F0 { #[verifier::external_body] fn deserialize_revisioned_specialised<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() } }
impl ISeqSpecImpl for F0 { open spec fn xfmt() -> Fmt { xsfmt_F0() } open spec fn xmodel(&self) -> Val { model_F0(self) } }
impl IMapSpecImpl for F0 { open spec fn xfmt() -> Fmt { xmfmt_F0() } open spec fn xmodel(&self) -> Val { model_F0(self) } }
impl ISetSpecImpl for F0 { open spec fn xfmt() -> Fmt { xtfmt_F0() } open spec fn xmodel(&self) -> Val { model_F0(self) } }
impl IndexedSeqEncoded for F0 {
    type Item = u8;
    #[verifier::external_body] fn serialize_indexed_seq<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn deserialize_indexed_seq<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() }
    #[verifier::external_body] fn skip_indexed_seq<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { unimplemented!() }
}
impl IndexedMapEncoded for F0 {
    type Key = u8;
    type Value = u8;
    #[verifier::external_body] fn serialize_indexed_map<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn deserialize_indexed_map<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() }
    #[verifier::external_body] fn skip_indexed_map<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { unimplemented!() }
}
impl IndexedSetEncoded for F0 {
    type Item = u8;
    #[verifier::external_body] fn serialize_indexed_set<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn deserialize_indexed_set<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() }
    #[verifier::external_body] fn skip_indexed_set<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { unimplemented!() }
}

pub uninterp spec fn fmt_F1() -> Fmt;
pub uninterp spec fn sfmt_F1() -> Fmt;
pub uninterp spec fn xsfmt_F1() -> Fmt;
pub uninterp spec fn xmfmt_F1() -> Fmt;
pub uninterp spec fn xtfmt_F1() -> Fmt;
pub uninterp spec fn model_F1(x: &F1) -> Val;
pub uninterp spec fn dflt_F1() -> Val;
impl RevSpecImpl for F1 {
    open spec fn fmt() -> Fmt { fmt_F1() }
    open spec fn model(&self) -> Val { model_F1(self) }
}
impl Default for F1 { #[verifier::external_body] fn default() -> (r: F1) ensures RevSpec::model(&r) == dflt_F1() { unimplemented!() } }
impl Revisioned for F1 { #[verifier::external_body] fn revision() -> u16 { unimplemented!() } }
impl SerializeRevisioned for F1 { #[verifier::external_body] fn serialize_revisioned<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() } }
impl DeserializeRevisioned for F1 { #[verifier::external_body] fn deserialize_revisioned<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() } }
impl SkipRevisioned for F1 {
    #[verifier::external_body] fn skip_revisioned<R: io::Read>(r: &mut R) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn skip_revisioned_slice(r: &mut SliceReader<'_>) -> Result<(), Error> { unimplemented!() }
}
impl SkipCheckRevisioned for F1 { #[verifier::external_body] fn skip_check_revisioned<R: io::Read>(r: &mut R) -> Result<(), Error> { unimplemented!() } }
impl SpecialisedSpecImpl for F1 { open spec fn sfmt() -> Fmt { sfmt_F1() } }
impl SerializeRevisionedSpecialised for F1 { #[verifier::external_body] fn serialize_revisioned_specialised<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() } }
impl DeSpecialisedSpecImpl for F1 { open spec fn dsfmt() -> Fmt { sfmt_F1() } }
impl DeserializeRevisionedSpecialised for F1 { #[verifier::external_body] fn deserialize_revisioned_specialised<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() } }
impl ISeqSpecImpl for F1 { open spec fn xfmt() -> Fmt { xsfmt_F1() } open spec fn xmodel(&self) -> Val { model_F1(self) } }
impl IMapSpecImpl for F1 { open spec fn xfmt() -> Fmt { xmfmt_F1() } open spec fn xmodel(&self) -> Val { model_F1(self) } }
impl ISetSpecImpl for F1 { open spec fn xfmt() -> Fmt { xtfmt_F1() } open spec fn xmodel(&self) -> Val { model_F1(self) } }
impl IndexedSeqEncoded for F1 {
    type Item = u8;
    #[verifier::external_body] fn serialize_indexed_seq<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn deserialize_indexed_seq<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() }
    #[verifier::external_body] fn skip_indexed_seq<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { unimplemented!() }
}
impl IndexedMapEncoded for F1 {
    type Key = u8;
    type Value = u8;
    #[verifier::external_body] fn serialize_indexed_map<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn deserialize_indexed_map<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() }
    #[verifier::external_body] fn skip_indexed_map<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { unimplemented!() }
}
impl IndexedSetEncoded for F1 {
    type Item = u8;
    #[verifier::external_body] fn serialize_indexed_set<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn deserialize_indexed_set<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() }
    #[verifier::external_body] fn skip_indexed_set<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { unimplemented!() }
}

pub uninterp spec fn fmt_F2() -> Fmt;
pub uninterp spec fn sfmt_F2() -> Fmt;
pub uninterp spec fn xsfmt_F2() -> Fmt;
pub uninterp spec fn xmfmt_F2() -> Fmt;
pub uninterp spec fn xtfmt_F2() -> Fmt;
pub uninterp spec fn model_F2(x: &F2) -> Val;
pub uninterp spec fn dflt_F2() -> Val;
impl RevSpecImpl for F2 {
    open spec fn fmt() -> Fmt { fmt_F2() }
    open spec fn model(&self) -> Val { model_F2(self) }
}
impl Default for F2 { #[verifier::external_body] fn default() -> (r: F2) ensures RevSpec::model(&r) == dflt_F2() { unimplemented!() } }
impl Revisioned for F2 { #[verifier::external_body] fn revision() -> u16 { unimplemented!() } }
impl SerializeRevisioned for F2 { #[verifier::external_body] fn serialize_revisioned<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() } }
impl DeserializeRevisioned for F2 { #[verifier::external_body] fn deserialize_revisioned<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() } }
impl SkipRevisioned for F2 {
    #[verifier::external_body] fn skip_revisioned<R: io::Read>(r: &mut R) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn skip_revisioned_slice(r: &mut SliceReader<'_>) -> Result<(), Error> { unimplemented!() }
}
impl SkipCheckRevisioned for F2 { #[verifier::external_body] fn skip_check_revisioned<R: io::Read>(r: &mut R) -> Result<(), Error> { unimplemented!() } }
impl SpecialisedSpecImpl for F2 { open spec fn sfmt() -> Fmt { sfmt_F2() } }
impl SerializeRevisionedSpecialised for F2 { #[verifier::external_body] fn serialize_revisioned_specialised<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() } }
impl DeSpecialisedSpecImpl for F2 { open spec fn dsfmt() -> Fmt { sfmt_F2() } }
impl DeserializeRevisionedSpecialised for F2 { #[verifier::external_body] fn deserialize_revisioned_specialised<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() } }
impl ISeqSpecImpl for F2 { open spec fn xfmt() -> Fmt { xsfmt_F2() } open spec fn xmodel(&self) -> Val { model_F2(self) } }
impl IMapSpecImpl for F2 { open spec fn xfmt() -> Fmt { xmfmt_F2() } open spec fn xmodel(&self) -> Val { model_F2(self) } }
impl ISetSpecImpl for F2 { open spec fn xfmt() -> Fmt { xtfmt_F2() } open spec fn xmodel(&self) -> Val { model_F2(self) } }
impl IndexedSeqEncoded for F2 {
    type Item = u8;
    #[verifier::external_body] fn serialize_indexed_seq<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn deserialize_indexed_seq<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() }
    #[verifier::external_body] fn skip_indexed_seq<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { unimplemented!() }
}
impl IndexedMapEncoded for F2 {
    type Key = u8;
    type Value = u8;
    #[verifier::external_body] fn serialize_indexed_map<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn deserialize_indexed_map<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() }
    #[verifier::external_body] fn skip_indexed_map<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { unimplemented!() }
}
impl IndexedSetEncoded for F2 {
    type Item = u8;
    #[verifier::external_body] fn serialize_indexed_set<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn deserialize_indexed_set<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() }
    #[verifier::external_body] fn skip_indexed_set<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { unimplemented!() }
}

pub uninterp spec fn fmt_F3() -> Fmt;
pub uninterp spec fn sfmt_F3() -> Fmt;
pub uninterp spec fn xsfmt_F3() -> Fmt;
pub uninterp spec fn xmfmt_F3() -> Fmt;
pub uninterp spec fn xtfmt_F3() -> Fmt;
pub uninterp spec fn model_F3(x: &F3) -> Val;
pub uninterp spec fn dflt_F3() -> Val;
impl RevSpecImpl for F3 {
    open spec fn fmt() -> Fmt { fmt_F3() }
    open spec fn model(&self) -> Val { model_F3(self) }
}
impl Default for F3 { #[verifier::external_body] fn default() -> (r: F3) ensures RevSpec::model(&r) == dflt_F3() { unimplemented!() } }
impl Revisioned for F3 { #[verifier::external_body] fn revision() -> u16 { unimplemented!() } }
impl SerializeRevisioned for F3 { #[verifier::external_body] fn serialize_revisioned<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() } }
impl DeserializeRevisioned for F3 { #[verifier::external_body] fn deserialize_revisioned<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() } }
impl SkipRevisioned for F3 {
    #[verifier::external_body] fn skip_revisioned<R: io::Read>(r: &mut R) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn skip_revisioned_slice(r: &mut SliceReader<'_>) -> Result<(), Error> { unimplemented!() }
}
impl SkipCheckRevisioned for F3 { #[verifier::external_body] fn skip_check_revisioned<R: io::Read>(r: &mut R) -> Result<(), Error> { unimplemented!() } }
impl SpecialisedSpecImpl for F3 { open spec fn sfmt() -> Fmt { sfmt_F3() } }
impl SerializeRevisionedSpecialised for F3 { #[verifier::external_body] fn serialize_revisioned_specialised<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() } }
impl DeSpecialisedSpecImpl for F3 { open spec fn dsfmt() -> Fmt { sfmt_F3() } }
impl DeserializeRevisionedSpecialised for F3 { #[verifier::external_body] fn deserialize_revisioned_specialised<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() } }
impl ISeqSpecImpl for F3 { open spec fn xfmt() -> Fmt { xsfmt_F3() } open spec fn xmodel(&self) -> Val { model_F3(self) } }
impl IMapSpecImpl for F3 { open spec fn xfmt() -> Fmt { xmfmt_F3() } open spec fn xmodel(&self) -> Val { model_F3(self) } }
impl ISetSpecImpl for F3 { open spec fn xfmt() -> Fmt { xtfmt_F3() } open spec fn xmodel(&self) -> Val { model_F3(self) } }
impl IndexedSeqEncoded for F3 {
    type Item = u8;
    #[verifier::external_body] fn serialize_indexed_seq<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn deserialize_indexed_seq<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() }
    #[verifier::external_body] fn skip_indexed_seq<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { unimplemented!() }
}
impl IndexedMapEncoded for F3 {
    type Key = u8;
    type Value = u8;
    #[verifier::external_body] fn serialize_indexed_map<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn deserialize_indexed_map<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() }
    #[verifier::external_body] fn skip_indexed_map<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { unimplemented!() }
}
impl IndexedSetEncoded for F3 {
    type Item = u8;
    #[verifier::external_body] fn serialize_indexed_set<W: io::Write>(&self, w: &mut W) -> Result<(), Error> { unimplemented!() }
    #[verifier::external_body] fn deserialize_indexed_set<R: io::Read>(r: &mut R) -> Result<Self, Error> { unimplemented!() }
    #[verifier::external_body] fn skip_indexed_set<R: BorrowedReader>(r: &mut R) -> Result<(), Error> { unimplemented!() }
}

impl RevSpecImpl for Da {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::Sum(Box::new(Fmt::UInt(2)), Da_bodies())), |v: Val| Da_up(v), |v: Val| Val::V(1, seq![v])) }
    open spec fn model(&self) -> Val { Da_model(self) }
}
pub open spec fn Da_model(x: &Da) -> Val { unit() }
pub open spec fn Da_bodies() -> Seq<Fmt> { seq![Fmt::Fail, Fmt::Unit] }
pub open spec fn Da_up(v: Val) -> Option<Val> { let b = v->V_1[0]; { Some(b) } }
impl RevSpecImpl for Db {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::Sum(Box::new(Fmt::UInt(2)), Db_bodies())), |v: Val| Db_up(v), |v: Val| Val::V(3, seq![v])) }
    open spec fn model(&self) -> Val { Db_model(self) }
}
pub uninterp spec fn Db_d_1(rev: int) -> Option<Val>;
pub uninterp spec fn Db_c_2(m: Val, rev: int, old: Val) -> Option<Val>;
pub open spec fn Db_model(x: &Db) -> Val { vpair(RevSpec::model(&x.f0), vpair(RevSpec::model(&x.f1), RevSpec::model(&x.f3))) }
pub open spec fn Db_bodies() -> Seq<Fmt> { seq![Fmt::Fail, Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(<F2 as RevSpec>::fmt())), Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(Fmt::Pair(Box::new(<F1 as RevSpec>::fmt()), Box::new(<F2 as RevSpec>::fmt())))), Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(Fmt::Pair(Box::new(<F1 as RevSpec>::fmt()), Box::new(<F3 as RevSpec>::fmt()))))] }
pub open spec fn Db_up(v: Val) -> Option<Val> { let b = v->V_1[0]; if v->V_0 == 1 { (if Db_d_1(1) is Some { conv_step(Some(vpair((b)->V_1[0], vpair(Db_d_1(1)->0, dflt_F3()))), |m: Val| Db_c_2(m, 1, (b)->V_1[1])) } else { None }) } else if v->V_0 == 2 { conv_step(Some(vpair((b)->V_1[0], vpair(((b)->V_1[1])->V_1[0], dflt_F3()))), |m: Val| Db_c_2(m, 2, ((b)->V_1[1])->V_1[1])) } else { Some(b) } }
impl RevSpecImpl for Dc {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::Sum(Box::new(Fmt::UInt(2)), Dc_bodies())), |v: Val| Dc_up(v), |v: Val| Val::V(3, seq![v])) }
    open spec fn model(&self) -> Val { Dc_model(self) }
}
pub uninterp spec fn Dc_c_0(m: Val, rev: int, old: Val) -> Option<Val>;
pub uninterp spec fn Dc_c_3(m: Val, rev: int, old: Val) -> Option<Val>;
pub open spec fn Dc_model(x: &Dc) -> Val { vpair(RevSpec::model(&x.0), RevSpec::model(&x.1)) }
pub open spec fn Dc_bodies() -> Seq<Fmt> { seq![Fmt::Fail, Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(<F2 as RevSpec>::fmt())), Fmt::Pair(Box::new(<F1 as RevSpec>::fmt()), Box::new(Fmt::Pair(Box::new(<F2 as RevSpec>::fmt()), Box::new(<F3 as RevSpec>::fmt())))), Fmt::Pair(Box::new(<F1 as RevSpec>::fmt()), Box::new(<F2 as RevSpec>::fmt()))] }
pub open spec fn Dc_up(v: Val) -> Option<Val> { let b = v->V_1[0]; if v->V_0 == 1 { conv_step(Some(vpair(dflt_F1(), (b)->V_1[1])), |m: Val| Dc_c_0(m, 1, (b)->V_1[0])) } else if v->V_0 == 2 { conv_step(Some(vpair((b)->V_1[0], ((b)->V_1[1])->V_1[0])), |m: Val| Dc_c_3(m, 2, ((b)->V_1[1])->V_1[1])) } else { Some(b) } }
impl RevSpecImpl for Dd {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::Sum(Box::new(Fmt::UInt(2)), Dd_bodies())), |v: Val| Dd_up(v), |v: Val| Val::V(2, seq![v])) }
    open spec fn model(&self) -> Val { Dd_model(self) }
}
pub open spec fn DdXFields_model(x: &DdXFields) -> Val { unit() }
pub open spec fn DdYFields_model(x: &DdYFields) -> Val { RevSpec::model(&x.0) }
pub uninterp spec fn Dd_cv_1(m: Val, rev: int) -> Option<Val>;
pub open spec fn DdZFields_model(x: &DdZFields) -> Val { vpair(RevSpec::model(&x.f0), RevSpec::model(&x.f1)) }
pub uninterp spec fn Dd_c_2_2(m: Val, rev: int, old: Val) -> Option<Val>;
pub open spec fn Dd_model(x: &Dd) -> Val { match x { Dd::X => Val::V(0, seq![unit()]), Dd::Z { f0: x0, f1: x1 } => Val::V(1, seq![vpair(RevSpec::model(x0), RevSpec::model(x1))]) } }
pub open spec fn Dd_bodies() -> Seq<Fmt> { seq![Fmt::Fail, Fmt::Sum(Box::new(Fmt::UInt(4)), seq![Fmt::Unit, <F0 as RevSpec>::fmt(), Fmt::Pair(Box::new(<F1 as RevSpec>::fmt()), Box::new(<F3 as RevSpec>::fmt()))]), Fmt::Sum(Box::new(Fmt::UInt(4)), seq![Fmt::Unit, Fmt::Pair(Box::new(<F1 as RevSpec>::fmt()), Box::new(<F2 as RevSpec>::fmt()))])] }
pub open spec fn Dd_up(v: Val) -> Option<Val> { if v->V_0 == 1 { let k = (v->V_1[0])->V_0; let b = (v->V_1[0])->V_1[0]; if k == 0 { wrap(0, Some(unit())) } else if k == 1 { conv_step(Some(b), |m: Val| Dd_cv_1(m, 1)) } else if k == 2 { wrap(1, conv_step(Some(vpair((b)->V_1[0], dflt_F2())), |m: Val| Dd_c_2_2(m, 1, (b)->V_1[1]))) } else { None } } else { Some(v->V_1[0]) } }
impl RevSpecImpl for De {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::Sum(Box::new(Fmt::UInt(2)), De_bodies())), |v: Val| De_up(v), |v: Val| Val::V(3, seq![v])) }
    open spec fn model(&self) -> Val { De_model(self) }
}
pub open spec fn DePFields_model(x: &DePFields) -> Val { RevSpec::model(&x.0) }
pub uninterp spec fn De_c_0_0(m: Val, rev: int, old: Val) -> Option<Val>;
pub open spec fn DeQFields_model(x: &DeQFields) -> Val { vpair(RevSpec::model(&x.f0), RevSpec::model(&x.f1)) }
pub uninterp spec fn De_d_1_1(rev: int) -> Option<Val>;
pub open spec fn DeRFields_model(x: &DeRFields) -> Val { unit() }
pub uninterp spec fn De_cv_2(m: Val, rev: int) -> Option<Val>;
pub open spec fn DeSFields_model(x: &DeSFields) -> Val { RevSpec::model(&x.0) }
pub open spec fn De_model(x: &De) -> Val { match x { De::P(x0) => Val::V(0, seq![RevSpec::model(x0)]), De::Q { f0: x0, f1: x1 } => Val::V(1, seq![vpair(RevSpec::model(x0), RevSpec::model(x1))]), De::S(x0) => Val::V(4, seq![RevSpec::model(x0)]) } }
pub open spec fn De_bodies() -> Seq<Fmt> { seq![Fmt::Fail, Fmt::Sum(Box::new(Fmt::UInt(4)), seq![Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(<F1 as RevSpec>::fmt())), Fmt::Unit, <F0 as RevSpec>::fmt()]), Fmt::Sum(Box::new(Fmt::UInt(4)), seq![Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(<F1 as RevSpec>::fmt())), <F2 as RevSpec>::fmt(), Fmt::Unit, <F0 as RevSpec>::fmt()]), Fmt::Sum(Box::new(Fmt::UInt(4)), seq![<F1 as RevSpec>::fmt(), Fmt::Pair(Box::new(<F2 as RevSpec>::fmt()), Box::new(<F3 as RevSpec>::fmt())), Fmt::Fail, Fmt::Fail, <F0 as RevSpec>::fmt()])] }
pub open spec fn De_up(v: Val) -> Option<Val> { if v->V_0 == 1 { let k = (v->V_1[0])->V_0; let b = (v->V_1[0])->V_1[0]; if k == 0 { wrap(0, conv_step(Some((b)->V_1[1]), |m: Val| De_c_0_0(m, 1, (b)->V_1[0]))) } else if k == 1 { conv_step(Some(unit()), |m: Val| De_cv_2(m, 1)) } else if k == 2 { wrap(4, Some(b)) } else { None } } else if v->V_0 == 2 { let k = (v->V_1[0])->V_0; let b = (v->V_1[0])->V_1[0]; if k == 0 { wrap(0, conv_step(Some((b)->V_1[1]), |m: Val| De_c_0_0(m, 2, (b)->V_1[0]))) } else if k == 1 { wrap(1, (if De_d_1_1(2) is Some { Some(vpair(b, De_d_1_1(2)->0)) } else { None })) } else if k == 2 { conv_step(Some(unit()), |m: Val| De_cv_2(m, 2)) } else if k == 3 { wrap(4, Some(b)) } else { None } } else { Some(v->V_1[0]) } }
impl RevSpecImpl for Df {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::Sum(Box::new(Fmt::UInt(2)), Df_bodies())), |v: Val| Df_up(v), |v: Val| Val::V(2, seq![v])) }
    open spec fn model(&self) -> Val { Df_model(self) }
}
pub uninterp spec fn Df_c_2(m: Val, rev: int, old: Val) -> Option<Val>;
pub open spec fn Df_model(x: &Df) -> Val { vpair(RevSpec::model(&x.f0), RevSpec::model(&x.f1)) }
pub open spec fn Df_bodies() -> Seq<Fmt> { seq![Fmt::Fail, Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(<F2 as RevSpec>::fmt())), Fmt::Env(Box::new(Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(<F1 as RevSpec>::fmt()))))] }
pub open spec fn Df_up(v: Val) -> Option<Val> { let b = v->V_1[0]; if v->V_0 == 1 { conv_step(Some(vpair((b)->V_1[0], dflt_F1())), |m: Val| Df_c_2(m, 1, (b)->V_1[1])) } else { Some(b) } }
impl RevSpecImpl for Dg {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::Sum(Box::new(Fmt::UInt(2)), Dg_bodies())), |v: Val| Dg_up(v), |v: Val| Val::V(3, seq![v])) }
    open spec fn model(&self) -> Val { Dg_model(self) }
}
pub open spec fn Dg_model(x: &Dg) -> Val { vpair(RevSpec::model(&x.f0), vpair(RevSpec::model(&x.f1), RevSpec::model(&x.f2))) }
pub open spec fn Dg_bodies() -> Seq<Fmt> { seq![Fmt::Fail, Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(<F1 as RevSpec>::fmt())), Fmt::Env(Box::new(Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(Fmt::Pair(Box::new(<F1 as ISeqSpec>::xfmt()), Box::new(<F2 as IMapSpec>::xfmt())))))), Fmt::Env(Box::new(Fmt::Offs(3, Box::new(Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(Fmt::Pair(Box::new(<F1 as ISeqSpec>::xfmt()), Box::new(<F2 as IMapSpec>::xfmt()))))))))] }
pub open spec fn Dg_up(v: Val) -> Option<Val> { let b = v->V_1[0]; if v->V_0 == 1 { Some(vpair((b)->V_1[0], vpair((b)->V_1[1], dflt_F2()))) } else if v->V_0 == 2 { Some(vpair((b)->V_1[0], vpair(((b)->V_1[1])->V_1[0], ((b)->V_1[1])->V_1[1]))) } else { Some(b) } }
impl RevSpecImpl for Dh {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::Sum(Box::new(Fmt::UInt(2)), Dh_bodies())), |v: Val| Dh_up(v), |v: Val| Val::V(2, seq![v])) }
    open spec fn model(&self) -> Val { Dh_model(self) }
}
pub uninterp spec fn Dh_c_1(m: Val, rev: int, old: Val) -> Option<Val>;
pub uninterp spec fn Dh_c_3(m: Val, rev: int, old: Val) -> Option<Val>;
pub open spec fn Dh_model(x: &Dh) -> Val { vpair(RevSpec::model(&x.f0), RevSpec::model(&x.f2)) }
pub open spec fn Dh_bodies() -> Seq<Fmt> { seq![Fmt::Fail, Fmt::Pair(Box::new(Fmt::Raw(8)), Box::new(Fmt::Pair(Box::new(fixed_z(4)), Box::new(Fmt::Pair(Box::new(<F0 as SpecialisedSpec>::sfmt()), Box::new(<F1 as SpecialisedSpec>::sfmt())))))), Fmt::Pair(Box::new(Fmt::Raw(8)), Box::new(<F0 as SpecialisedSpec>::sfmt()))] }
pub open spec fn Dh_up(v: Val) -> Option<Val> { let b = v->V_1[0]; if v->V_0 == 1 { conv_step(conv_step(Some(vpair((b)->V_1[0], (((b)->V_1[1])->V_1[1])->V_1[0])), |m: Val| Dh_c_1(m, 1, ((b)->V_1[1])->V_1[0])), |m: Val| Dh_c_3(m, 1, (((b)->V_1[1])->V_1[1])->V_1[1])) } else { Some(b) } }
impl RevSpecImpl for Di {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::Sum(Box::new(Fmt::UInt(2)), Di_bodies())), |v: Val| Di_up(v), |v: Val| Val::V(2, seq![v])) }
    open spec fn model(&self) -> Val { Di_model(self) }
}
pub open spec fn DiAFields_model(x: &DiAFields) -> Val { unit() }
pub open spec fn DiBFields_model(x: &DiBFields) -> Val { vpair(RevSpec::model(&x.0), RevSpec::model(&x.1)) }
pub open spec fn DiCFields_model(x: &DiCFields) -> Val { vpair(RevSpec::model(&x.f0), RevSpec::model(&x.f1)) }
pub open spec fn DiDFields_model(x: &DiDFields) -> Val { RevSpec::model(&x.0) }
pub open spec fn Di_model(x: &Di) -> Val { match x { Di::A => Val::V(0, seq![unit()]), Di::B(x0, x1) => Val::V(1, seq![vpair(RevSpec::model(x0), RevSpec::model(x1))]), Di::C { f0: x0, f1: x1 } => Val::V(2, seq![vpair(RevSpec::model(x0), RevSpec::model(x1))]), Di::D(x0) => Val::V(3, seq![RevSpec::model(x0)]) } }
pub open spec fn Di_bodies() -> Seq<Fmt> { seq![Fmt::Fail, Fmt::Tag(seq![-1int, 5int, -2int], seq![Fmt::Unit, Fmt::Pair(Box::new(<f32 as RevSpec>::fmt()), Box::new(<u8 as RevSpec>::fmt())), Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(<F1 as RevSpec>::fmt()))]), Fmt::Tag(seq![-1int, 5int, -2int, -2int], seq![Fmt::Unit, Fmt::Pair(Box::new(<f32 as RevSpec>::fmt()), Box::new(<u8 as RevSpec>::fmt())), Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(<F1 as RevSpec>::fmt())), <F2 as RevSpec>::fmt()])] }
pub open spec fn Di_up(v: Val) -> Option<Val> { if v->V_0 == 1 { let k = (v->V_1[0])->V_0; let b = (v->V_1[0])->V_1[0]; if k == 0 { wrap(0, Some(unit())) } else if k == 1 { wrap(1, Some(vpair((b)->V_1[0], (b)->V_1[1]))) } else if k == 2 { wrap(2, Some(vpair((b)->V_1[0], (b)->V_1[1]))) } else { None } } else { Some(v->V_1[0]) } }
impl RevSpecImpl for Dj {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::Sum(Box::new(Fmt::UInt(2)), Dj_bodies())), |v: Val| Dj_up(v), |v: Val| Val::V(2, seq![v])) }
    open spec fn model(&self) -> Val { Dj_model(self) }
}
pub open spec fn DjAFields_model(x: &DjAFields) -> Val { unit() }
pub open spec fn DjBFields_model(x: &DjBFields) -> Val { vpair(RevSpec::model(&x.0), RevSpec::model(&x.1)) }
pub open spec fn DjCFields_model(x: &DjCFields) -> Val { RevSpec::model(&x.0) }
pub uninterp spec fn Dj_cv_2(m: Val, rev: int) -> Option<Val>;
pub open spec fn Dj_model(x: &Dj) -> Val { match x { Dj::A => Val::V(0, seq![unit()]), Dj::B(x0, x1) => Val::V(1, seq![vpair(RevSpec::model(x0), RevSpec::model(x1))]) } }
pub open spec fn Dj_bodies() -> Seq<Fmt> { seq![Fmt::Fail, Fmt::Sum(Box::new(Fmt::UInt(4)), seq![Fmt::Unit, <F0 as RevSpec>::fmt(), <F2 as RevSpec>::fmt()]), Fmt::Tag(seq![-1int, -2int], seq![Fmt::Unit, Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(<F1 as RevSpec>::fmt()))])] }
pub open spec fn Dj_up(v: Val) -> Option<Val> { if v->V_0 == 1 { let k = (v->V_1[0])->V_0; let b = (v->V_1[0])->V_1[0]; if k == 0 { wrap(0, Some(unit())) } else if k == 1 { wrap(1, Some(vpair(b, dflt_F1()))) } else if k == 2 { conv_step(Some(b), |m: Val| Dj_cv_2(m, 1)) } else { None } } else { Some(v->V_1[0]) } }
impl RevSpecImpl for Dn {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::Sum(Box::new(Fmt::UInt(2)), Dn_bodies())), |v: Val| Dn_up(v), |v: Val| Val::V(3, seq![v])) }
    open spec fn model(&self) -> Val { Dn_model(self) }
}
pub open spec fn DnAFields_model(x: &DnAFields) -> Val { vpair(RevSpec::model(&x.f1), RevSpec::model(&x.f2)) }
pub uninterp spec fn Dn_c_0_0(m: Val, rev: int, old: Val) -> Option<Val>;
pub uninterp spec fn Dn_d_0_1(rev: int) -> Option<Val>;
pub open spec fn DnBFields_model(x: &DnBFields) -> Val { unit() }
pub uninterp spec fn Dn_cv_1(m: Val, rev: int) -> Option<Val>;
pub open spec fn DnCFields_model(x: &DnCFields) -> Val { RevSpec::model(&x.0) }
pub open spec fn DnEFields_model(x: &DnEFields) -> Val { RevSpec::model(&x.0) }
pub uninterp spec fn Dn_cv_3(m: Val, rev: int) -> Option<Val>;
pub open spec fn DnGFields_model(x: &DnGFields) -> Val { RevSpec::model(&x.0) }
pub uninterp spec fn Dn_c_4_1(m: Val, rev: int, old: Val) -> Option<Val>;
pub open spec fn Dn_model(x: &Dn) -> Val { match x { Dn::A { f1: x0, f2: x1 } => Val::V(0, seq![vpair(RevSpec::model(x0), RevSpec::model(x1))]), Dn::C(x0) => Val::V(1, seq![RevSpec::model(x0)]), Dn::G(x0) => Val::V(2, seq![RevSpec::model(x0)]) } }
pub open spec fn Dn_bodies() -> Seq<Fmt> { seq![Fmt::Fail, Fmt::Tag(seq![-2int, -1int, 4int, -2int], seq![Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(<F2 as RevSpec>::fmt())), Fmt::Unit, <f32 as RevSpec>::fmt(), <F3 as RevSpec>::fmt()]), Fmt::Tag(seq![-2int, -1int, -2int, -1int, -1int, -1int, -1int, -1int, -1int, 4int], seq![Fmt::Pair(Box::new(<F1 as RevSpec>::fmt()), Box::new(<F2 as RevSpec>::fmt())), Fmt::Unit, <F1 as RevSpec>::fmt(), Fmt::Fail, Fmt::Fail, Fmt::Fail, Fmt::Fail, Fmt::Fail, Fmt::Fail, <f32 as RevSpec>::fmt()]), Fmt::Tag(seq![-2int, 4int, -2int], seq![Fmt::Pair(Box::new(<F1 as RevSpec>::fmt()), Box::new(<F2 as RevSpec>::fmt())), <f32 as RevSpec>::fmt(), <F3 as RevSpec>::fmt()])] }
pub open spec fn Dn_up(v: Val) -> Option<Val> { if v->V_0 == 1 { let k = (v->V_1[0])->V_0; let b = (v->V_1[0])->V_1[0]; if k == 0 { wrap(0, (if Dn_d_0_1(1) is Some { conv_step(Some(vpair(Dn_d_0_1(1)->0, (b)->V_1[1])), |m: Val| Dn_c_0_0(m, 1, (b)->V_1[0])) } else { None })) } else if k == 1 { conv_step(Some(unit()), |m: Val| Dn_cv_1(m, 1)) } else if k == 2 { wrap(1, Some(b)) } else if k == 3 { conv_step(Some(b), |m: Val| Dn_cv_3(m, 1)) } else { None } } else if v->V_0 == 2 { let k = (v->V_1[0])->V_0; let b = (v->V_1[0])->V_1[0]; if k == 0 { wrap(0, Some(vpair((b)->V_1[0], (b)->V_1[1]))) } else if k == 1 { conv_step(Some(unit()), |m: Val| Dn_cv_1(m, 2)) } else if k == 9 { wrap(1, Some(b)) } else if k == 2 { wrap(2, conv_step(Some(dflt_F3()), |m: Val| Dn_c_4_1(m, 2, b))) } else { None } } else { Some(v->V_1[0]) } }
impl RevSpecImpl for Do {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::Sum(Box::new(Fmt::UInt(2)), Do_bodies())), |v: Val| Do_up(v), |v: Val| Val::V(3, seq![v])) }
    open spec fn model(&self) -> Val { Do_model(self) }
}
pub uninterp spec fn Do_c_0(m: Val, rev: int, old: Val) -> Option<Val>;
pub uninterp spec fn Do_d_1(rev: int) -> Option<Val>;
pub uninterp spec fn Do_c_2(m: Val, rev: int, old: Val) -> Option<Val>;
pub open spec fn Do_model(x: &Do) -> Val { vpair(RevSpec::model(&x.f1), RevSpec::model(&x.f3)) }
pub open spec fn Do_bodies() -> Seq<Fmt> { seq![Fmt::Fail, Fmt::Env(Box::new(Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(<F2 as RevSpec>::fmt())))), Fmt::Env(Box::new(Fmt::Offs(2, Box::new(Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(<F1 as RevSpec>::fmt())))))), Fmt::Env(Box::new(Fmt::Pair(Box::new(<F1 as RevSpec>::fmt()), Box::new(<F3 as RevSpec>::fmt()))))] }
pub open spec fn Do_up(v: Val) -> Option<Val> { let b = v->V_1[0]; if v->V_0 == 1 { (if Do_d_1(1) is Some { conv_step(conv_step(Some(vpair(Do_d_1(1)->0, dflt_F3())), |m: Val| Do_c_0(m, 1, (b)->V_1[0])), |m: Val| Do_c_2(m, 1, (b)->V_1[1])) } else { None }) } else if v->V_0 == 2 { conv_step(Some(vpair((b)->V_1[1], dflt_F3())), |m: Val| Do_c_0(m, 2, (b)->V_1[0])) } else { Some(b) } }
impl RevSpecImpl for Dl {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::Sum(Box::new(Fmt::UInt(2)), Dl_bodies())), |v: Val| Dl_up(v), |v: Val| Val::V(2, seq![v])) }
    open spec fn model(&self) -> Val { Dl_model(self) }
}
pub uninterp spec fn Dl_d_1(rev: int) -> Option<Val>;
pub open spec fn Dl_model(x: &Dl) -> Val { vpair(RevSpec::model(&x.0), RevSpec::model(&x.1)) }
pub open spec fn Dl_bodies() -> Seq<Fmt> { seq![Fmt::Fail, Fmt::Env(Box::new(Fmt::Offs(1, Box::new(<F0 as RevSpec>::fmt())))), Fmt::Env(Box::new(Fmt::Offs(2, Box::new(Fmt::Pair(Box::new(<F0 as RevSpec>::fmt()), Box::new(<F1 as RevSpec>::fmt()))))))] }
pub open spec fn Dl_up(v: Val) -> Option<Val> { let b = v->V_1[0]; if v->V_0 == 1 { (if Dl_d_1(1) is Some { Some(vpair(b, Dl_d_1(1)->0)) } else { None }) } else { Some(b) } }
impl RevSpecImpl for Dm {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::Sum(Box::new(Fmt::UInt(2)), Dm_bodies())), |v: Val| Dm_up(v), |v: Val| Val::V(1, seq![v])) }
    open spec fn model(&self) -> Val { Dm_model(self) }
}
pub open spec fn Dm_model(x: &Dm) -> Val { RevSpec::model(&x.f0) }
pub open spec fn Dm_bodies() -> Seq<Fmt> { seq![Fmt::Fail, Fmt::Env(Box::new(Fmt::Offs(1, Box::new(<F0 as IMapSpec>::xfmt()))))] }
pub open spec fn Dm_up(v: Val) -> Option<Val> { let b = v->V_1[0]; { Some(b) } }
impl RevSpecImpl for Dk {
    open spec fn fmt() -> Fmt { Fmt::Conv(Box::new(Fmt::Sum(Box::new(Fmt::UInt(2)), Dk_bodies())), |v: Val| Dk_up(v), |v: Val| Val::V(3, seq![v])) }
    open spec fn model(&self) -> Val { Dk_model(self) }
}
pub uninterp spec fn Dk_c_0(m: Val, rev: int, old: Val) -> Option<Val>;
pub uninterp spec fn Dk_d_2(rev: int) -> Option<Val>;
pub open spec fn Dk_model(x: &Dk) -> Val { vpair(RevSpec::model(&x.0), RevSpec::model(&x.1)) }
pub open spec fn Dk_bodies() -> Seq<Fmt> { seq![Fmt::Fail, Fmt::Pair(Box::new(Fmt::Raw(8)), Box::new(<F0 as RevSpec>::fmt())), Fmt::Env(Box::new(Fmt::Offs(3, Box::new(Fmt::Pair(Box::new(<u64 as RevSpec>::fmt()), Box::new(Fmt::Pair(Box::new(<F0 as ISetSpec>::xfmt()), Box::new(<F1 as RevSpec>::fmt())))))))), Fmt::Env(Box::new(Fmt::Pair(Box::new(<F0 as ISetSpec>::xfmt()), Box::new(<F1 as RevSpec>::fmt()))))] }
pub open spec fn Dk_up(v: Val) -> Option<Val> { let b = v->V_1[0]; if v->V_0 == 1 { (if Dk_d_2(1) is Some { conv_step(Some(vpair((b)->V_1[1], Dk_d_2(1)->0)), |m: Val| Dk_c_0(m, 1, (b)->V_1[0])) } else { None }) } else if v->V_0 == 2 { conv_step(Some(vpair(((b)->V_1[1])->V_1[0], ((b)->V_1[1])->V_1[1])), |m: Val| Dk_c_0(m, 2, (b)->V_1[0])) } else { Some(b) } }
} // mod
} // verus!
