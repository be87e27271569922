// What the repository's functions use of iterators over vectors, as the standard library has it.
pub mod seqs {
use vstd::prelude::*;
verus!{
pub trait VecExt<T>: Sized {
    spec fn all(&self) -> Seq<T>;
    /// `v.into_iter().map(f).collect()`
    fn map_collect<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>)
        requires forall|x: T| #[trigger] f.requires((x,))
        ensures r@.len() == self.all().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((#[trigger] self.all()[i],), r@[i]);
    /// `v.into_iter().rev()`
    fn reversed(self) -> (r: Vec<T>)
        ensures r@ == self.all().reverse();
}
impl<T> VecExt<T> for Vec<T> {
    open spec fn all(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn map_collect<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>) { self.into_iter().map(f).collect() }
    #[verifier::external_body]
    fn reversed(self) -> (r: Vec<T>) { self.into_iter().rev().collect() }
}
}
}
