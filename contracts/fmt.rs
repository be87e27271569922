// Text as format! builds it. Nothing is printed.
#[allow(unused_macros)]
macro_rules! println { ($($t:tt)*) => { crate::fmt::vprintln() } }
#[allow(unused_macros)]
macro_rules! print { ($($t:tt)*) => { crate::fmt::vprintln() } }
#[allow(unused_macros)]
macro_rules! eprintln { ($($t:tt)*) => { crate::fmt::veprintln() } }
pub mod fmt {
use vstd::prelude::*;
verus!{
/// nothing may be printed on standard output
#[verifier::external_body] pub fn vprintln() requires false { unimplemented!() }
#[verifier::external_body] pub fn veprintln() { unimplemented!() }
/// ASSUMED: `==` between a string and a string slice compares the characters.
pub axiom fn axiom_string_eq()
    ensures <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec(), <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec(),
        forall|a: String, b: &str| #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@),
        forall|a: String, b: &str| #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@);
#[verifier::external_body] pub struct Text { }
pub trait Disp { spec fn shown(&self) -> Seq<char>; }
pub trait Dbg { spec fn shown_dbg(&self) -> Seq<char>; }
pub open spec fn digit(d: int) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
pub open spec fn digits(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n as int)] } else { digits(n / 10).push(digit((n % 10) as int)) } }
pub open spec fn decimal(n: int) -> Seq<char> { if n < 0 { seq!['-'] + digits((-n) as nat) } else { digits(n as nat) } }
impl Disp for i32 { open spec fn shown(&self) -> Seq<char> { decimal(*self as int) } }
impl Dbg for i32 { open spec fn shown_dbg(&self) -> Seq<char> { decimal(*self as int) } }
impl Disp for usize { open spec fn shown(&self) -> Seq<char> { decimal(*self as int) } }
impl Disp for isize { open spec fn shown(&self) -> Seq<char> { decimal(*self as int) } }
impl Disp for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Disp for &str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: Disp> Disp for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
impl<T: Dbg> Dbg for &T { open spec fn shown_dbg(&self) -> Seq<char> { (**self).shown_dbg() } }
impl Text {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body] pub fn lit(self, s: &str) -> (r: Text) ensures r.t() == self.t() + s@ { unimplemented!() }
    #[verifier::external_body] pub fn disp<T: Disp>(self, x: &T) -> (r: Text) ensures r.t() == self.t() + x.shown() { unimplemented!() }
    #[verifier::external_body] pub fn dbg<T: Dbg>(self, x: &T) -> (r: Text) ensures r.t() == self.t() + x.shown_dbg() { unimplemented!() }
    #[verifier::external_body] pub fn done(self) -> (r: String) ensures r@ == self.t() { unimplemented!() }
}
#[verifier::external_body] pub fn text() -> (r: Text) ensures r.t() == Seq::<char>::empty() { unimplemented!() }
}
}
