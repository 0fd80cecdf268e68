"""44_iserial.vrs: contracts of optimised/indexed/serialize.rs"""
S = open(__file__.replace('gen_iserial.py', 'iserial.txt')).read()
def seqser(k, setp):
    EX = 'exists|s: Seq<&\'a T>| #[trigger] yields($0, s) && okall(s)'
    GOAL = 'iseq_ok(encs_of(s)) && (*final($1)).written() =~= (*old($1)).written() + iseq(encs_of(s))'
    BAD = '!(okall(s) && iseq_ok(encs_of(s)))'
    if setp:
        GOAL = '(exists|b: Seq<Seq<u8>>| #[trigger] sorted_of(b, encs_of(s)) && iseq_ok(b) && (*final($1)).written() =~= (*old($1)).written() + iseq(b))'
        BAD = '!(okall(s) && iseq_ok(encs_of(s)))'
    B = '$let{Vec::new}'
    V = 'vviews(%s@)' % B
    o = []
    o.append('''//!! fn KEY : C14 C12
requires lawful($0), call_requires(I::into_iter, ($0,)),
ensures
    __r is Ok ==> EX && GOAL,
    (*old($1)).wreliable() ==> (*final($1)).wreliable() && (__r is Err ==> exists|s: Seq<&'a T>| #[trigger] yields($0, s) && BAD),
//!! begin KEY
    proof { broadcast use group_vx; p256_vals(); }
    let ghost g_w0 = (*$1).written(); let ghost g_fin = *final($1);
//!! loop KEY
invariant
    __it0.iter.obeys_prophetic_iter_laws(), I::into_iter.ensures(($0,), __it0.snapshot@),
    V =~= encs_of(__it0.seq().take(__it0.index@ as int)), okall(__it0.seq().take(__it0.index@ as int)),
    __it0.index@ == __it0.seq().len() ==> yields($0, __it0.seq()) && V =~= encs_of(__it0.seq()) && okall(__it0.seq()),
//!! loopbegin KEY
    let ghost g_pv = V;
    proof { assert(yields($0, __it0.seq()));
      let q = __it0.seq(); let i = __it0.index@ as int; assert(q.take(i + 1) =~= q.take(i).push(q[i])); assert(q.take(i + 1)[i] == q[i]); assert(i + 1 == q.len() ==> q.take(i + 1) =~= q); }
//!! loopend KEY
    proof { let i = __it0.index@ as int; let q = __it0.seq(); assert($let{Vec::new}@.last()@ =~= encf(T::fmt(), (*q[i]).model())); assert(V =~= g_pv.push(encf(T::fmt(), (*q[i]).model()))); assert(encs_of(q.take(i + 1)) =~= g_pv.push(encf(T::fmt(), (*q[i]).model()))); }
//!! loopafter KEY
    let ghost g_vb0 = V; assert(EX && encs_of(s) == g_vb0);
''' + ('    let ghost g_bs0 = $let{Vec::new}@;\n' if setp else ''))
    if setp:
        o.append('''//!! after KEY | vx_sort
    proof { slice_sort_bytes($let{Vec::new}@, g_bs0); sorted_flat(V, g_vb0); assert(sorted_of(V, g_vb0)); }
''')
    o.append('''//!! loop KEY
invariant
    (*$1).written() =~= g_w1 + flat(g_vb.take(__it1.index@ as int)), (*old($1)).wreliable() ==> (*$1).wreliable(), g_fin == *final($1),
    __it1.index@ == __it1.seq().len() ==> (*$1).written() =~= g_w1 + flat(g_vb),
//!! loopbefore KEY
    let ghost g_vb = V; let ghost g_w1 = (*$1).written(); proof { assert(g_vb.take(0) =~= Seq::empty()); if g_vb.len() == 0 { assert(g_vb =~= Seq::empty()); } }
//!! loopbegin KEY
    proof { let i = __it1.index@ as int; flat_step(g_vb, i); if i + 1 == g_vb.len() { assert(g_vb.take(i + 1) =~= g_vb); } }
//!! loop KEY
invariant
    (*$1).written() =~= g_w1 + offs(g_vb, __it2.index@ as nat), (*old($1)).wreliable() ==> (*$1).wreliable(), g_fin == *final($1),
    $let{0u32} == flat(g_vb.take(__it2.index@ as int)).len(),
    __it2.index@ == __it2.seq().len() ==> $let{0u32} == flat(g_vb).len() && (*$1).written() =~= g_w1 + offs(g_vb, g_vb.len()),
//!! loopbefore KEY
    let ghost g_vb = V; let ghost g_w1 = (*$1).written(); proof { assert(g_vb.take(0) =~= Seq::empty()); }
//!! loopbegin KEY
    proof { let i = __it2.index@ as int; flat_step(g_vb, i); flat_mono(g_vb, i + 1); assert(offs(g_vb, (i + 1) as nat) == offs(g_vb, i as nat) + le_bytes(flat(g_vb.take(i)).len(), 4)); if i + 1 == g_vb.len() { assert(g_vb.take(i + 1) =~= g_vb); } }
//!! loop KEY
invariant
    (*$1).written() =~= g_w2 + flat(g_vb.take(__it3.index@ as int)), (*old($1)).wreliable() ==> (*$1).wreliable(), g_fin == *final($1),
    __it3.index@ == __it3.seq().len() ==> (*$1).written() =~= g_w2 + flat(g_vb),
//!! loopbefore KEY
    let ghost g_w2 = (*$1).written();
//!! loopbegin KEY
    proof { let i = __it3.index@ as int; flat_step(g_vb, i); if i + 1 == g_vb.len() { assert(g_vb.take(i + 1) =~= g_vb); } }
''')
    t = ''.join(o)
    for a, b in (('EX', EX), ('GOAL', GOAL), ('BAD', BAD)): t = t.replace(a, b)
    import re
    t = re.sub(r'\bV\b', V, t)
    return t.replace('KEY', k)
S = S.replace('@@SEQ@@', seqser('serialize::serialize_indexed_seq_iter', False)).replace('@@SET@@', seqser('serialize::serialize_indexed_set_iter', True))
open(__file__.replace('gen_iserial.py', '44_iserial.vrs'), 'w').write(S)
