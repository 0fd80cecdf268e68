#!/usr/bin/env python3
"""Writes 30_containers.vrs: wire formats and contracts of src/implementations (std containers)
and of their skip implementations in src/implementations/skip.rs."""
o=open('30_containers.vrs','w')
w=o.write
F=''
H='    proof { broadcast use {group_vx, group_fmt, thm_sz_auto}; p256_vals(); '+F+' %s}\n'
specs=[]
def revk(ty): w(f'//!! fn Revisioned for {ty}::revision : C05 C17\nensures __r == 1,\n')
def spec(generics, ty, fmt, model, where=''):
    revk(ty)
    specs.append(f'''impl{generics} RevSpecImpl for {ty} {where}{{
    open spec fn fmt() -> Fmt {{ {fmt} }}
    open spec fn model(&self) -> Val {{ {model} }}
}}
''')
def hint(key, extra=''):
    w(f'//!! begin {key}\n'+H%extra)
def ser(ty, extra='', props='C03 C05 C12'):
    k=f'SerializeRevisioned for {ty}::serialize_revisioned'; w(f'//!! fn {k} : {props}\n'); hint(k,extra)
def de(ty, extra='', props='C03 C05 C08 C09 C12'):
    k=f'DeserializeRevisioned for {ty}::deserialize_revisioned'; w(f'//!! fn {k} : {props}\n'); hint(k,extra)
def skip(ty, slice_=True, check=True, extra='', props='C07 C08 C09 C12'):
    ex=extra.replace('RR','(*old($0)).rem()')
    k=f'SkipRevisioned for {ty}::skip_revisioned'; w(f'//!! fn {k} : {props}\n'); hint(k,ex)
    if slice_:
        k=f'SkipRevisioned for {ty}::skip_revisioned_slice'; w(f'//!! fn {k} : {props}\n'); hint(k,extra.replace('RR','(*old($0)).left()'))
    if check:
        k=f'SkipCheckRevisioned for {ty}::skip_check_revisioned'; w(f'//!! fn {k} : {props}\n'); hint(k,ex)
def box(f): return f'Box::new({f})'
def pair(a,b): return f'Fmt::Pair({box(a)}, {box(b)})'

# ---- primitives
for t in 'bool usize isize u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 f32 f64'.split():
    skip(t, slice_=False)
# ---- option / result / bound
spec('<T: Revisioned>','Option<T>','Fmt::Sum(Box::new(Fmt::U8), seq![Fmt::Unit, T::fmt()])',
     'match *self { None => Val::V(0, seq![unit()]), Some(x) => Val::V(1, seq![x.model()]) }')
ser('Option<T>'); de('Option<T>'); skip('Option<T>')
spec('<E: Revisioned, T: Revisioned>','Result<T, E>','Fmt::Sum(Box::new(Fmt::UInt(4)), seq![T::fmt(), E::fmt()])',
     'match *self { Ok(x) => Val::V(0, seq![x.model()]), Err(x) => Val::V(1, seq![x.model()]) }')
ser('Result<T, E>'); de('Result<T, E>'); skip('Result<T, E>')
spec('<T: Revisioned>','Bound<T>','Fmt::Sum(Box::new(Fmt::UInt(4)), seq![Fmt::Unit, T::fmt(), T::fmt()])',
     'match *self { Bound::Unbounded => Val::V(0, seq![unit()]), Bound::Included(x) => Val::V(1, seq![x.model()]), Bound::Excluded(x) => Val::V(2, seq![x.model()]) }')
ser('Bound<T>'); de('Bound<T>'); skip('Bound<T>')
spec('<T: Revisioned>','Range<T>',pair('T::fmt()','T::fmt()'),'vpair(self.start.model(), self.end.model())')
ser('Range<T>'); de('Range<T>'); skip('Range<T>')
# ---- transparent
for t,m in (('Box<T>','(**self).model()'),('Arc<T>','(**self).model()')):
    spec('<T: Revisioned>',t,'T::fmt()',m)
    ser(t); de(t); skip(t)
# ---- tuples
import itertools
names='ABCDEF'
for n in range(0,7):
    vs=names[:n]
    ty='('+', '.join(vs)+(',' if n==1 else '')+')'
    key='('+', '.join(vs)+(',' if n==1 else '')+')'
    if n==0: f='Fmt::Unit'; m='unit()'
    else:
        f=f'{vs[-1]}::fmt()'; m=f'self.{n-1}.model()'
        for i in range(n-2,-1,-1):
            f=pair(f'{vs[i]}::fmt()',f); m=f'vpair(self.{i}.model(), {m})'
    g='<'+', '.join(f'{v}: Revisioned' for v in vs)+'>' if n else ''
    spec(g,ty,f,m)
    e=' ' if n>3 else ''
    if n: ser(key,e); de(key,e)
    else: ser(key,e,'C02 C03 C12'); de(key,e,'C02 C03 C08 C09 C12')
    if n: skip(key,extra=e)
    if n > 3:
        for k in ('DeserializeRevisioned for %s::deserialize_revisioned','SkipRevisioned for %s::skip_revisioned','SkipRevisioned for %s::skip_revisioned_slice','SkipCheckRevisioned for %s::skip_check_revisioned'):
            w(f'//!! attr {k%key}\n#[verifier::rlimit(80)]\n')
# ---- arrays
LOOPI='''invariant
    szn(T::fmt(), __it0.index@ as nat, s1) is Some, szn(T::fmt(), __it0.index@ as nat, s1)->0 <= s1.len(),
    %s =~= s1.skip(szn(T::fmt(), __it0.index@ as nat, s1)->0 as int),
    %s
'''
def skiploop(key, get, rel, n, s1, el='T::fmt()'):
    w(f'//!! loop {key}\n'+LOOPI.replace('T::fmt()',el)%(get,rel))
    w(f'//!! loopbefore {key}\n    let ghost s1 = {s1}; proof {{ broadcast use {{group_vx, group_fmt, thm_sz_auto}}; szn_step({el}, 0, s1); }}\n')
    w(f'''//!! loopbegin {key}
    proof {{ broadcast use {{group_vx, group_fmt, thm_sz_auto}};
        let k = __it0.index@ as nat;
        szn_step({el}, k, s1); decn_step({el}, k, s1); thm_szn({el}, k, s1); thm_szn({el}, k + 1, s1);
        decn_prefix({el}, k + 1, {n} as nat, s1); }}
''')
def seqskip(ty, n, first, props='C07 C08 C09 C12', check='loop'):
    # first: ghost expression of the bytes after the length prefix, from the reader state
    for (k,get,old,rel) in ((f'SkipRevisioned for {ty}::skip_revisioned','(*$0).rem()','(*old($0)).rem()','(*old($0)).reliable() ==> (*$0).reliable(),'),
                    (f'SkipRevisioned for {ty}::skip_revisioned_slice','(*$0).left()','(*old($0)).left()','true,'),
                    (f'SkipCheckRevisioned for {ty}::skip_check_revisioned','(*$0).rem()','(*old($0)).rem()','(*old($0)).reliable() ==> (*$0).reliable(),')):
        w(f'//!! fn {k} : {props}\n')
        e='' if first else ''
        hint(k, f'thm_sz({first}, {old}); ' if first else '')
        if 'check' in k and check!='loop': continue
        skiploop(k, get, rel, n, get)
SERLOOP='''invariant
    (*$0).written() =~= w1 + encn(T::fmt(), ms.take(__it0.index@)), okn(T::fmt(), ms.take(__it0.index@)), __it0.index@ <= ms.len(),
    (*old($0)).wreliable() ==> (*$0).wreliable(),
'''
def serloop(ty):
    k=f'SerializeRevisioned for {ty}::serialize_revisioned'
    w(f'//!! loop {k}\n'+SERLOOP+f'''//!! loopbefore {k}
    let ghost w1 = (*$0).written();
    proof {{ broadcast use {{group_vx, group_fmt}}; encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); assert(ms.take(0) =~= Seq::empty()); }}
//!! loopbegin {k}
    proof {{ broadcast use {{group_vx, group_fmt}};
        let i = __it0.index@;
        assert(ms.take(i + 1) =~= ms.take(i).push(ms[i]));
        encn_step(T::fmt(), ms.take(i), ms[i]); okn_step(T::fmt(), ms.take(i), ms[i]);
        okn_all(T::fmt(), ms, i + 1);
        assert(ms.take(ms.len() as int) =~= ms); }}
//!! loopafter {k}
    proof {{ broadcast use {{group_vx, group_fmt}}; assert(ms.take(ms.len() as int) =~= ms); }}
''')
def deloop(ty, arr, n, s1, post):
    k=f'DeserializeRevisioned for {ty}::deserialize_revisioned'
    w(f'''//!! loop {k}
invariant
    decn(T::fmt(), __it0.index@ as nat, s1) is Some, n_of(decn(T::fmt(), __it0.index@ as nat, s1)) <= s1.len(),
    v_of(decn(T::fmt(), __it0.index@ as nat, s1)).len() == __it0.index@,
    (*$0).rem() =~= s1.skip(n_of(decn(T::fmt(), __it0.index@ as nat, s1)) as int),
    (*old($0)).reliable() ==> (*$0).reliable(),
    {arr}
//!! loopbefore {k}
    let ghost s1 = (*$0).rem(); proof {{ broadcast use {{group_vx, group_fmt}}; decn_step(T::fmt(), 0, s1); }}
//!! loopbegin {k}
    proof {{ broadcast use {{group_vx, group_fmt}};
        let k = __it0.index@ as nat;
        decn_step(T::fmt(), k, s1); thm_boundn(T::fmt(), k + 1, s1);
        decn_prefix(T::fmt(), k + 1, {n} as nat, s1); }}
//!! loopafter {k}
    proof {{ broadcast use {{group_vx, group_fmt}}; {post} }}
''')
arr_specs=[]
for n in range(1,33):
    ty=f'[T; {n}]'
    revk(ty)
    specs.append(f'''impl<T> RevSpecImpl for [T; {n}] where T: Copy + Default + Revisioned {{
    open spec fn fmt() -> Fmt {{ Fmt::Rep({n}, Box::new(T::fmt())) }}
    open spec fn model(&self) -> Val {{ Val::V(0, models(self@)) }}
}}
''')
    ser(ty,''); w(f'    let ghost ms = models(self@);\n'); serloop(ty)
    de(ty,''); deloop(ty, f'forall|j: int| 0 <= j < __it0.index@ ==> ($let{{T :: default ()}})@[j].model() == v_of(decn(T::fmt(), __it0.index@ as nat, s1))[j],', n, None, f'assert(models(($let{{T :: default ()}})@) =~= v_of(decn(T::fmt(), {n}, s1)));')
    seqskip(ty, n, None)
# ---- Vec, String and friends
spec('<T: Revisioned>','Vec<T>','Fmt::List(Box::new(T::fmt()))','Val::V(0, models(self@))')
LEN="uint_facts(8, {0}, Seq::empty()); "
ser('Vec<T>',props='C03 C04 C05 C12'); w('    let ghost ms = models(self@); proof { encn_step(T::fmt(), ms, arbitrary()); okn_step(T::fmt(), ms, arbitrary()); if ms.len() == 0 { assert(ms =~= Seq::empty()); } }\n'); serloop('Vec<T>')
de('Vec<T>', LEN.format('(*old($0)).rem()')+' if let Some((l, n)) = uint_dec(8, (*old($0)).rem()) { decn_step(T::fmt(), 0, (*old($0)).rem().skip(n as int)); assert(models(Seq::<T>::empty()) =~= Seq::<Val>::empty()); } ', 'C03 C04 C05 C08 C09 C12')
deloop('Vec<T>', 'models(($let{with_capacity})@) =~= v_of(decn(T::fmt(), __it0.index@ as nat, s1)),', '$let{usize::deserialize_revisioned}', None, 'assert(models(($let{with_capacity})@) =~= v_of(decn(T::fmt(), $let{usize::deserialize_revisioned} as nat, s1)));')
def listskip(ty, el='T::fmt()'):
    for (k,get,old,rel) in ((f'SkipRevisioned for {ty}::skip_revisioned','(*$0).rem()','(*old($0)).rem()','(*old($0)).reliable() ==> (*$0).reliable(),'),
                    (f'SkipRevisioned for {ty}::skip_revisioned_slice','(*$0).left()','(*old($0)).left()','true,')):
        w(f'//!! fn {k} : C07 C08 C09 C12\n'); hint(k, LEN.format(old))
        skiploop(k, get, rel, '$let{usize::deserialize_revisioned}', get, el)
    k=f'SkipCheckRevisioned for {ty}::skip_check_revisioned'; w(f'//!! fn {k} : C07 C08 C12\n'); hint(k)
listskip('Vec<T>')
STR='str_fmt()'
spec('','String',STR,'Val::B(encode_utf8(self@))')
spec('','str',STR,'Val::B(encode_utf8(self@))')
w('''//!! fn vecs::serialize_bytes : C03 C05 C12
ensures
    __r is Ok ==> (*final($1)).written() =~= (*old($1)).written() + uint_enc(8, $0@.len()) + $0@ && $0@.len() <= usize::MAX,
    (*old($1)).wreliable() ==> (*final($1)).wreliable() && __r is Ok,
''')
hint('vecs::serialize_bytes')
U='broadcast use vstd::utf8::group_utf8_lib; vstd::utf8::encode_utf8_valid_utf8(self@); '
ser('String',U); ser('str',U)
D=LEN.format('(*old($0)).rem()')+'utf8_empty(); if let Some((l, n)) = uint_dec(8, (*old($0)).rem()) { assert((*old($0)).rem().skip(n as int).take(0) =~= Seq::<u8>::empty()); } '
de('String',D); skip('String',extra='uint_facts(8, RR, Seq::empty()); ')
for t in ('Box<str>','Arc<str>'):
    spec('',t,STR,'Val::B(encode_utf8((**self)@))')
    ser(t); de(t); skip(t)
w('''//!! opt DeserializeRevisioned for Box<str>::deserialize_revisioned
''')
# collections: the wire format is a list; what a list means for a map or set (ordering, duplicate
# keys) is left to an uninterpreted canonicaliser, so skip functions are proved and
# serialize/deserialize of these types are not under contract
for (g,t,el,can) in (
    ('<K: Revisioned + Ord, V: Revisioned>','BTreeMap<K, V>',pair('K::fmt()','V::fmt()'),'canon::<BTreeMap<K, V>>'),
    ('<K: Revisioned + Eq + Hash, V: Revisioned, S: BuildHasher + Default>','HashMap<K, V, S>',pair('K::fmt()','V::fmt()'),'canon::<HashMap<K, V, S>>'),
    ('<T: Revisioned + Ord>','BTreeSet<T>','T::fmt()','canon::<BTreeSet<T>>'),
    ('<T: Revisioned + Ord>','BinaryHeap<T>','T::fmt()','canon::<BinaryHeap<T>>'),
    ('<T: Revisioned + Eq + Hash, S: BuildHasher + Default>','HashSet<T, S>','T::fmt()','canon::<HashSet<T, S>>')):
    revk(t)
    specs.append(f'''impl{g} RevSpecImpl for {t} {{
    open spec fn fmt() -> Fmt {{ Fmt::Conv(Box::new(Fmt::List(Box::new({el}))), |v: Val| Some({can}(v)), |v: Val| listing(v)) }}
    open spec fn model(&self) -> Val {{ coll_model(*self) }}
}}
''')
    listskip(t, el)
# transparent wrappers
for t in ('Reverse<T>','Wrapping<T>'):
    spec('<T: Revisioned>',t,'T::fmt()','self.0.model()')
    ser(t); de(t); skip(t)
w('''//!! crate
::vstd::prelude::verus! {
pub mod __vxcont {
use vstd::prelude::*;
use super::__vx::*;
use super::__vxmode::*;
use super::__vxt::*;
use super::__vxprims::*;
use std::io;
use std::ops::{Bound, Range};
use std::sync::Arc;
use std::cmp::Reverse;
use std::num::Wrapping;
use vstd::utf8::*;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::hash::{BuildHasher, Hash};
use crate::{Revisioned, SerializeRevisioned, DeserializeRevisioned, SkipRevisioned, SkipCheckRevisioned, Error};
''')
w('''// std functions assumed
pub assume_specification<T, A: std::alloc::Allocator> [<Arc<T, A> as AsRef<T>>::as_ref] (_0: &Arc<T, A>) -> (r: &T) where T: std::marker::MetaSized + ?Sized
    ensures r == &**_0;
pub assume_specification<T, A: std::alloc::Allocator> [<Box<T, A> as AsRef<T>>::as_ref] (_0: &Box<T, A>) -> (r: &T) where T: std::marker::MetaSized + ?Sized
    ensures r == &**_0;
''')
w('''
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
#[verifier::external_type_specification]
pub struct ExReverse<T>(std::cmp::Reverse<T>);
#[verifier::external_type_specification]
pub struct ExWrapping<T>(std::num::Wrapping<T>);
pub assume_specification [String::as_bytes] (_0: &String) -> (r: &[u8])
    ensures r@ == encode_utf8(_0@);
pub assume_specification [String::from_utf8] (v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures r is Ok <==> valid_utf8(v@), r is Ok ==> encode_utf8((r->Ok_0)@) == v@;
pub assume_specification [std::string::FromUtf8Error::utf8_error] (_0: &std::string::FromUtf8Error) -> core::str::Utf8Error;
pub assume_specification [String::into_boxed_str] (s: String) -> (r: Box<str>)
    ensures (*r)@ == s@;
pub assume_specification [<Arc<str> as From<String>>::from] (s: String) -> (r: Arc<str>)
    ensures (*r)@ == s@;
pub proof fn utf8_empty() ensures valid_utf8(Seq::<u8>::empty()), encode_utf8(Seq::<char>::empty()) == Seq::<u8>::empty()
{ encode_utf8_valid_utf8(Seq::<char>::empty()); }
pub uninterp spec fn canon<C>(v: Val) -> Val;
pub uninterp spec fn listing(v: Val) -> Val;
pub uninterp spec fn coll_model<C>(c: C) -> Val;
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(A)]
pub struct ExBinaryHeap<T, A: std::alloc::Allocator>(std::collections::BinaryHeap<T, A>);
pub open spec fn str_fmt() -> Fmt {
    Fmt::Conv(Box::new(Fmt::Bytes), |v: Val| if valid_utf8(v->B_0) { Some(v) } else { None }, |v: Val| v)
}
''')
for s in specs: w(s)
w('} // mod\n} // verus!\n')
