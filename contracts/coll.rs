// Maps, sets and what the repository's functions use of iterators, as the standard library has them (assumed).
// Keys are compared by their views (derived Eq and Hash of strings and plain enums).
pub mod coll {
use vstd::prelude::*;
verus!{
/// the entries of a map in some order, each once
pub open spec fn entries<K: View, V>(ks: Seq<K::V>, m: Map<K::V, V>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> (#[trigger] ks[i]) != (#[trigger] ks[j])
    &&& forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i])
    &&& forall|k: K::V| m.contains_key(k) ==> exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k
}
macro_rules! a_map { ($M:ident) => { verus!{
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct $M<K, V> { _p: std::marker::PhantomData<(K, V)> }
impl<K: View, V> $M<K, V> {
    pub uninterp spec fn m(&self) -> Map<K::V, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures match r {
            Some(x) => old(self).m().contains_key(k@) && *x == old(self).m()[k@] && final(self).m() == old(self).m().insert(k@, *final(x)),
            None => !old(self).m().contains_key(k@) && final(self).m() == old(self).m(),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures match r { Some(x) => self.m().contains_key(k@) && *x == self.m()[k@], None => !self.m().contains_key(k@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self.m().contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().insert(k@, v),
            match r { Some(o) => old(self).m().contains_key(k@) && o == old(self).m()[k@], None => !old(self).m().contains_key(k@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().remove(k@),
            match r { Some(o) => old(self).m().contains_key(k@) && o == old(self).m()[k@], None => !old(self).m().contains_key(k@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.m().dom() =~= Set::<K::V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<(&K, &V)>)
        ensures entries::<K, V>(Seq::new(r@.len(), |i: int| r@[i].0@), self.m()), forall|i: int| 0 <= i < r@.len() ==> *((#[trigger] r@[i]).1) == self.m()[r@[i].0@] { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Vec<(K, V)>)
        ensures entries::<K, V>(Seq::new(r@.len(), |i: int| r@[i].0@), self.m()), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).1 == self.m()[r@[i].0@] { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_mut(&mut self) -> (r: Vec<(&K, &mut V)>)
        ensures entries::<K, V>(Seq::new(r@.len(), |i: int| r@[i].0@), old(self).m()), forall|i: int| 0 <= i < r@.len() ==> *((#[trigger] r@[i]).1) == old(self).m()[r@[i].0@],
            final(self).m().dom() == old(self).m().dom(), forall|i: int| 0 <= i < r@.len() ==> final(self).m()[(#[trigger] r@[i]).0@] == *final(r@[i].1) { unimplemented!() }
    pub fn iter_v(&self) -> (r: Vec<(&K, &V)>)
        ensures entries::<K, V>(Seq::new(r@.len(), |i: int| r@[i].0@), self.m()), forall|i: int| 0 <= i < r@.len() ==> *((#[trigger] r@[i]).1) == self.m()[r@[i].0@] { self.iter() }
    pub fn into_v(self) -> (r: Vec<(K, V)>)
        ensures entries::<K, V>(Seq::new(r@.len(), |i: int| r@[i].0@), self.m()), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).1 == self.m()[r@[i].0@] { self.into_iter() }
    pub fn iter_mut_v(&mut self) -> (r: Vec<(&K, &mut V)>)
        ensures entries::<K, V>(Seq::new(r@.len(), |i: int| r@[i].0@), old(self).m()), forall|i: int| 0 <= i < r@.len() ==> *((#[trigger] r@[i]).1) == old(self).m()[r@[i].0@],
            final(self).m().dom() == old(self).m().dom(), forall|i: int| 0 <= i < r@.len() ==> final(self).m()[(#[trigger] r@[i]).0@] == *final(r@[i].1) { self.iter_mut() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Vec<&K>) ensures entries::<K, V>(Seq::new(r@.len(), |i: int| r@[i]@), self.m()) { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: Vec<&V>)
        ensures exists|ks: Seq<K::V>| entries::<K, V>(ks, self.m()) && ks.len() == r@.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] r@[i]) == self.m()[ks[i]] { unimplemented!() }
}
} } }
a_map!{HashMap}
a_map!{BTreeMap}

#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { _p: std::marker::PhantomData<T> }
impl<T: View> HashSet<T> {
    pub uninterp spec fn s(&self) -> Set<T::V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.s() == Set::<T::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self).s() == old(self).s().insert(x@), r == !old(self).s().contains(x@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: View<V = T::V> + ?Sized>(&self, x: &Q) -> (r: bool) ensures r == self.s().contains(x@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.s() =~= Set::<T::V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, v: Vec<T>) ensures forall|x: T::V| #[trigger] final(self).s().contains(x) <==> old(self).s().contains(x) || seen(v@, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Vec<T>) ensures members(r@, self.s()) { unimplemented!() }
    pub fn into_v(self) -> (r: Vec<T>) ensures members(r@, self.s()) { self.into_iter() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<&T>) ensures members(derefs(r@), self.s()), { unimplemented!() }
    pub fn iter_v(&self) -> (r: Vec<&T>) ensures members(derefs(r@), self.s()) { self.iter() }
}
pub open spec fn seen<T: View>(v: Seq<T>, x: T::V) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == x }
/// ASSUMED: a set or map held in memory is finite and has fewer than 2^31 - 1 elements
pub axiom fn axiom_few<T: View>(s: &HashSet<T>) ensures s.s().len() < 0x7fff_fff0;
/// the members of a set in some order, each once
pub open spec fn members<T: View>(v: Seq<T>, s: Set<T::V>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@ != (#[trigger] v[j])@
    &&& forall|i: int| 0 <= i < v.len() ==> s.contains((#[trigger] v[i])@)
    &&& forall|x: T::V| s.contains(x) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == x
}
pub proof fn member_at<T: View>(v: Seq<T>, s: Set<T::V>, x: T::V) -> (i: int) requires members(v, s), s.contains(x) ensures 0 <= i < v.len(), v[i]@ == x { choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == x }
/// what a sequence is collected into
pub trait FromSeq<T>: Sized { spec fn of(s: Seq<T>, r: Self) -> bool; }
impl<T> FromSeq<T> for Vec<T> { open spec fn of(s: Seq<T>, r: Self) -> bool { r@ == s } }
impl<T: View> FromSeq<T> for HashSet<T> { open spec fn of(s: Seq<T>, r: Self) -> bool { forall|x: T::V| #[trigger] r.s().contains(x) <==> seen(s, x) } }
pub open spec fn picked<U>(s: Seq<Option<U>>) -> Seq<U> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.last() is Some { picked(s.drop_last()).push(s.last()->0) } else { picked(s.drop_last()) } }
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
/// something holds of one of the first n elements
pub open spec fn upto<T>(s: Seq<T>, n: int, p: spec_fn(T) -> bool) -> bool { exists|i: int| 0 <= i < n && p(#[trigger] s[i]) }
pub proof fn lemma_upto<T>(s: Seq<T>, n: int, p: spec_fn(T) -> bool) requires 0 <= n < s.len() ensures upto(s, n + 1, p) <==> (upto(s, n, p) || p(s[n])) {
    if upto(s, n + 1, p) { let i = choose|i: int| 0 <= i < n + 1 && p(#[trigger] s[i]); if i < n { assert(p(s[i])); } }
    if upto(s, n, p) { let i = choose|i: int| 0 <= i < n && p(#[trigger] s[i]); assert(p(s[i])); }
}
pub open spec fn seen_some<U: View>(s: Seq<Option<U>>, x: U::V) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Some && s[i]->0@ == x }
pub proof fn lemma_picked<U: View>(s: Seq<Option<U>>, x: U::V) ensures seen(picked(s), x) <==> seen_some(s, x) decreases s.len() {
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_picked(d, x);
        let p = picked(s);
        if seen_some(d, x) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]) is Some && d[i]->0@ == x; assert(s[i] is Some); }
        if seen_some(s, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Some && s[i]->0@ == x; if i < d.len() { assert(d[i] is Some); } else { assert(p[p.len() - 1]@ == x); } }
        if seen(p, x) { let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j])@ == x; if j < picked(d).len() { assert(picked(d)[j]@ == x); } else { assert(s[s.len() - 1] is Some); } }
        if seen(picked(d), x) { let j = choose|j: int| 0 <= j < picked(d).len() && (#[trigger] picked(d)[j])@ == x; assert(p[j]@ == x); }
    }
}
pub trait SeqOps<T>: Sized {
    spec fn all_v(&self) -> Seq<T>;
    fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.all_v().len() ==> f.requires((#[trigger] self.all_v()[i],))
        ensures r@.len() == self.all_v().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((#[trigger] self.all_v()[i],), r@[i]);
    fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.all_v().len() ==> f.requires((#[trigger] self.all_v()[i],))
        ensures exists|o: Seq<Option<U>>| r@ == picked(o) && o.len() == self.all_v().len() && forall|i: int| 0 <= i < o.len() ==> f.ensures((#[trigger] self.all_v()[i],), o[i]);
    fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.all_v().len() ==> f.requires((#[trigger] self.all_v()[i],))
        ensures r ==> forall|i: int| 0 <= i < self.all_v().len() ==> f.ensures((#[trigger] self.all_v()[i],), true),
            !r ==> exists|i: int| 0 <= i < self.all_v().len() && f.ensures((#[trigger] self.all_v()[i],), false);
    fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.all_v().len() ==> f.requires((#[trigger] self.all_v()[i],))
        ensures !r ==> forall|i: int| 0 <= i < self.all_v().len() ==> f.ensures((#[trigger] self.all_v()[i],), false),
            r ==> exists|i: int| 0 <= i < self.all_v().len() && f.ensures((#[trigger] self.all_v()[i],), true);
    fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self.all_v().len() ==> f.requires((&(#[trigger] self.all_v()[i]),))
        ensures match r { Some(x) => exists|i: int| 0 <= i < self.all_v().len() && #[trigger] self.all_v()[i] == x && f.ensures((&x,), true),
            None => forall|i: int| 0 <= i < self.all_v().len() ==> f.ensures((&(#[trigger] self.all_v()[i]),), false) };
    fn collect<C: FromSeq<T>>(self) -> (r: C) ensures C::of(self.all_v(), r);
}
impl<T> SeqOps<T> for Vec<T> {
    open spec fn all_v(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>) { unimplemented!() }
    #[verifier::external_body] fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Vec<U>) { unimplemented!() }
    #[verifier::external_body] fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn collect<C: FromSeq<T>>(self) -> (r: C) { unimplemented!() }
}
#[verifier::external_body]
pub fn eq_text(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// `HashMap::from_iter([(k, v), ..])`
pub trait FromPairs<K: View, V>: Sized { fn from_iter<const N: usize>(a: [(K, V); N]) -> Self; }
pub open spec fn paired<K: View, V>(s: Seq<(K, V)>) -> Map<K::V, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { paired(s.drop_last()).insert(s.last().0@, s.last().1) } }
impl<K: View, V> FromPairs<K, V> for HashMap<K, V> { #[verifier::external_body] fn from_iter<const N: usize>(a: [(K, V); N]) -> (r: Self) ensures r.m() == paired(a@) { unimplemented!() } }
/// `to_string` and `to_owned` of texts
pub trait ToText { fn to_text(&self) -> String; }
impl ToText for String { #[verifier::external_body] fn to_text(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
impl ToText for str { #[verifier::external_body] fn to_text(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
pub trait VecViews<T> {
    fn into_v(self) -> (r: Vec<T>) where Self: Sized;
    fn iter_v(&self) -> Vec<&T>;
}
impl<T> VecViews<T> for Vec<T> {
    fn into_v(self) -> (r: Vec<T>) ensures r@ == self@ { self }
    #[verifier::external_body]
    fn iter_v(&self) -> (r: Vec<&T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i] { unimplemented!() }
}
/// the place of a key in a map
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct Entry<'a, K: View, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
impl<'a, K: View, V> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_insert(self, v: V) ensures (*final(self.m)).m() == (if (*old(self.m)).m().contains_key(self.k@) { (*old(self.m)).m() } else { (*old(self.m)).m().insert(self.k@, v) }) { unimplemented!() }
}
impl<K: View, V> HashMap<K, V> {
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>) ensures r.k == k, *r.m == *old(self), *final(self) == *final(r.m) { Entry { m: self, k } }
}
}
}
