pub mod mem {
use vstd::prelude::*;
use crate::coll::*;
verus!{
pub trait Empty: Sized { spec fn is_empty_value(&self) -> bool; }
impl<T> Empty for Option<T> { open spec fn is_empty_value(&self) -> bool { *self is None } }
impl<T> Empty for Vec<T> { open spec fn is_empty_value(&self) -> bool { self@.len() == 0 } }
impl<K: View, V> Empty for HashMap<K, V> { open spec fn is_empty_value(&self) -> bool { self.m() == Map::<K::V, V>::empty() } }
impl<K: View, V> Empty for BTreeMap<K, V> { open spec fn is_empty_value(&self) -> bool { self.m() == Map::<K::V, V>::empty() } }
#[verifier::external_body]
pub fn take<T: Empty>(x: &mut T) -> (r: T) ensures r == *old(x), final(x).is_empty_value() { unimplemented!() }
#[verifier::external_body]
pub fn swap<T>(x: &mut T, y: &mut T) ensures *final(x) == *old(y), *final(y) == *old(x) { unimplemented!() }
}
}
