// ---------------------------------------------------------------------------------------------
// Assumed contracts of standard-library functions vstd does not specify (trusted base).
// ---------------------------------------------------------------------------------------------
broadcast use {vstd::std_specs::hash::group_hash_axioms, lemma_derefs};

pub assume_specification<'a, K, V, S, A, Q>[std::collections::HashMap::<K, V, S, A>::get_mut](
    m: &'a mut std::collections::HashMap<K, V, S, A>, k: &Q) -> (r: Option<&'a mut V>)
    where A: std::alloc::Allocator, K: Eq + std::hash::Hash + std::borrow::Borrow<Q>,
          Q: std::marker::MetaSized + std::hash::Hash + Eq + ?Sized, S: std::hash::BuildHasher,
    ensures
        obeys_key_model::<K>() && builds_valid_hashers::<S>() ==> match r {
            Some(v) => contains_borrowed_key(old(m)@, k)
                && maps_borrowed_key_to_value(old(m)@, k, *v)
                && final(m)@.dom() == old(m)@.dom()
                && maps_borrowed_key_to_value(final(m)@, k, *final(v))
                && (forall|x: K| #![trigger final(m)@[x]] old(m)@.contains_key(x)
                    && !maps_borrowed_key_to_value(map![x => *v], k, *v) ==> final(m)@[x] == old(m)@[x]),
            None => !contains_borrowed_key(old(m)@, k) && final(m)@ == old(m)@,
        };

pub assume_specification<T>[std::mem::replace](d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s;

pub assume_specification<T>[Option::<T>::replace](o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);

pub assume_specification<T, U, F: FnOnce(T) -> U>[Option::<T>::map_or](o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)),
    ensures o is None ==> r == d, o is Some ==> f.ensures((o->0,), r);

pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[Option::<T>::map_or_else](o: Option<T>, d: D, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)), o is None ==> d.requires(()),
    ensures o is None ==> d.ensures((), r), o is Some ==> f.ensures((o->0,), r);

pub assume_specification<T, F: FnOnce(T) -> bool>[Option::<T>::is_some_and](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,)),
    ensures o is None ==> !r, o is Some ==> f.ensures((o->0,), r);

pub assume_specification<T, F: FnOnce(&T) -> bool>[Option::<T>::filter](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is Some ==> f.requires((&o->0,)),
    ensures o is None ==> r is None,
        o is Some ==> (f.ensures((&o->0,), true) && r == o) || (f.ensures((&o->0,), false) && r is None);

pub assume_specification<T>[Option::<T>::or](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { p });

pub assume_specification<T, E>[Result::<T, E>::unwrap_or](o: Result<T, E>, d: T) -> (r: T)
    ensures r == (if o is Ok { o->Ok_0 } else { d });

pub assume_specification<T, A: std::alloc::Allocator>[std::collections::VecDeque::<T, A>::is_empty](d: &std::collections::VecDeque<T, A>) -> (r: bool)
    ensures r <==> d@.len() == 0;
// ---------------------------------------------------------------------------------------------
// Assumed contracts of std iterator adapters (trusted base).  `.iter().` chains are rewritten to
// `.viter().`; a VIter is the finite sequence of items the std iterator yields.
// ---------------------------------------------------------------------------------------------
//@rw . iter ( ) . ==> . viter ( ) .
//@rw . into_iter ( ) . ==> . vinto_iter ( ) .
//@rw . values ( ) . ==> . vvalues ( ) .
//@rw . keys ( ) . ==> . vkeys ( ) .
//@noinline viter,vinto_iter,vvalues,vkeys
pub open spec fn same<A>(a: A, b: A) -> bool { a == b }
pub trait VClone: Sized { spec fn vclone(&self) -> Self; }
impl<T> VClone for T { open spec fn vclone(&self) -> T { *self } }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { p: PhantomData<T> }
impl<T> View for VIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VIter<(usize, T)>)
        ensures r@.len() == self@.len(), self@.len() <= usize::MAX,
            forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> r@[i] == (i as usize, self@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],))
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < self@.len() && x == #[trigger] self@[i] && f.ensures((&self@[i],), true)
                && (forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] self@[j],), false)),
            None => forall|j: int| 0 <= j < self@.len() ==> f.ensures((&#[trigger] self@[j],), false) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures match r {
            Some(i) => 0 <= i < self@.len() && f.ensures((self@[i as int],), true)
                && (forall|j: int| 0 <= j < i ==> f.ensures((#[trigger] self@[j],), false)),
            None => forall|j: int| 0 <= j < self@.len() ==> f.ensures((#[trigger] self@[j],), false) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), true),
            !r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), false),
            r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), true)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r@.len() == self@.len(),
            forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((self@[i],), r@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],))
        ensures forall|p: spec_fn(T) -> bool| #![trigger self@.filter(p)]
            (forall|i: int, b: bool| 0 <= i < self@.len() && #[trigger] f.ensures((&self@[i],), b) ==> b == p(self@[i])) ==> r@ == self@.filter(p)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VIter<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VIter<T>) ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VIter<T>) ensures r@ == (if n <= self@.len() { self@.take(n as int) } else { self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: VIter<T>) -> (r: VIter<T>) ensures r@ == self@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>) ensures self@.len() == 0 <==> r is None, r is Some ==> r->0 == self@.last() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
impl<'a, T> VIter<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VIter<T>) ensures r@ == derefs(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn copied(self) -> (r: VIter<T>) ensures r@ == derefs(self@) { unimplemented!() }
}
pub trait VIt<T> {
    fn viter<'a>(&'a self) -> (r: VIter<&'a T>);
    fn viter_from<'a>(&'a self, from: usize) -> (r: VIter<&'a T>);
}
impl<T> VIt<T> for Vec<T> {
    #[verifier::external_body]
    fn viter<'a>(&'a self) -> (r: VIter<&'a T>)
        ensures self@.len() <= usize::MAX, r@ == refs::<T>(self@), r@.len() == self@.len(),
            forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> *r@[i] == self@[i]
    { unimplemented!() }
    #[verifier::external_body]
    fn viter_from<'a>(&'a self, from: usize) -> (r: VIter<&'a T>)
        ensures from <= self@.len(), r@ == refs::<T>(self@.skip(from as int)), r@.len() == self@.len() - from,
            forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> *r@[i] == self@[i + from]
    { unimplemented!() }
}
pub trait VIntoIt<T> { fn vinto_iter(self) -> (r: VIter<T>); }
impl<T> VIntoIt<T> for Vec<T> {
    #[verifier::external_body]
    fn vinto_iter(self) -> (r: VIter<T>) ensures r@ == self@ { unimplemented!() }
}
pub mod vlib {
use vstd::prelude::*;
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub open spec fn derefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub broadcast proof fn lemma_derefs<T>(s: Seq<T>)
    ensures derefs(#[trigger] refs::<T>(s)) == s
{ assert(derefs(refs::<T>(s)) =~= s); }
}
pub use vlib::*;
/// Filtering references and cloning is filtering the items.
pub proof fn lemma_ref_filter<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures derefs(refs::<T>(s).filter(|x: &T| p(*x))) == s.filter(p)
    decreases s.len()
{
    reveal(Seq::filter);
    let q = |x: &T| p(*x);
    if s.len() > 0 {
        lemma_ref_filter::<T>(s.drop_last(), p);
        assert(refs::<T>(s).drop_last() =~= refs::<T>(s.drop_last()));
        assert(refs::<T>(s).last() == &s.last());
        assert(derefs(refs::<T>(s).filter(q)) =~= s.filter(p));
    } else {
        assert(derefs(refs::<T>(s).filter(q)) =~= s.filter(p));
    }
}
