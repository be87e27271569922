// The run-time side of the peg crate, as far as the generated parser uses it (assumed).
pub mod peg {
use vstd::prelude::*;
verus!{
pub enum RuleResult<T> { Matched(usize, T), Failed }
/// the text from a position on
pub uninterp spec fn rest(i: Seq<char>, pos: usize) -> Seq<char>;
/// a position the parser was given: a character boundary of the text
pub uninterp spec fn ok(i: Seq<char>, pos: usize) -> bool;
/// the number a text spells for `str::parse::<isize>`
pub open spec fn as_isize(s: Seq<char>) -> Option<isize> {
    let neg = s.len() > 0 && s[0] == '-';
    let d = if s.len() > 0 && (s[0] == '-' || s[0] == '+') { s.skip(1) } else { s };
    let v = if neg { -value(d) } else { value(d) };
    if d.len() == 0 || !(forall|k: int| 0 <= k < d.len() ==> '0' <= #[trigger] d[k] && d[k] <= '9') || v < isize::MIN || v > isize::MAX { None } else { Some(v as isize) }
}
pub open spec fn value(d: Seq<char>) -> int decreases d.len() { if d.len() == 0 { 0 } else { 10 * value(d.drop_last()) + (d.last() as int - '0' as int) } }
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (a: Result<T, E>, b: T) -> (r: T) where E: core::marker::Destruct, T: core::marker::Destruct ensures r == (match a { Ok(x) => x, Err(_) => b });
#[verifier::external_body] pub struct LineCol { }
#[verifier::external_body] pub fn never() -> ! requires false { unimplemented!() }
#[verifier::external_body] pub struct ParseIntError { }
pub trait ParseText { fn parse_text(&self) -> Result<isize, ParseIntError>; }
impl ParseText for str { #[verifier::external_body] fn parse_text(&self) -> (r: Result<isize, ParseIntError>) ensures match r { Ok(n) => as_isize(self@) == Some(n), Err(_) => as_isize(self@) is None } { unimplemented!() } }
pub mod error {
    use vstd::prelude::*;
    #[verifier::external_body] pub struct ErrorState { }
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ParseError<T> { x: std::marker::PhantomData<T> }
    impl ErrorState {
        #[verifier::external_body] pub fn new(pos: usize) -> ErrorState { unimplemented!() }
        #[verifier::external_body] pub fn mark_failure(&mut self, pos: usize, expected: &'static str) { unimplemented!() }
        #[verifier::external_body] pub fn reparse_for_error(&mut self) { unimplemented!() }
        #[verifier::external_body] pub fn into_parse_error(self, input: &str) -> ParseError<super::LineCol> { unimplemented!() }
    }
}
pub mod Parse {
    use vstd::prelude::*; use super::*;
    #[verifier::external_body] pub fn start(i: &str) -> (r: usize) ensures ok(i@, r), rest(i@, r) == i@ { unimplemented!() }
    #[verifier::external_body] pub fn is_eof(i: &str, pos: usize) -> (r: bool) requires ok(i@, pos) ensures r == (rest(i@, pos).len() == 0) { unimplemented!() }
}
pub mod ParseElem {
    use vstd::prelude::*; use super::*;
    #[verifier::external_body] pub fn parse_elem(i: &str, pos: usize) -> (r: RuleResult<char>) requires ok(i@, pos)
        ensures match r { RuleResult::Matched(n, c) => ok(i@, n) && pos <= n && rest(i@, pos).len() > 0 && c == rest(i@, pos)[0] && rest(i@, n) == rest(i@, pos).skip(1), RuleResult::Failed => rest(i@, pos).len() == 0 } { unimplemented!() }
}
pub mod ParseLiteral {
    use vstd::prelude::*; use super::*;
    #[verifier::external_body] pub fn parse_string_literal(i: &str, pos: usize, l: &str) -> (r: RuleResult<()>) requires ok(i@, pos)
        ensures match r { RuleResult::Matched(n, _) => ok(i@, n) && pos <= n && crate::joins::lit(rest(i@, pos), l@) == Some(rest(i@, n)), RuleResult::Failed => crate::joins::lit(rest(i@, pos), l@) is None } { unimplemented!() }
}
pub mod ParseSlice {
    use vstd::prelude::*; use super::*;
    #[verifier::external_body] pub fn parse_slice<'a>(i: &'a str, a: usize, b: usize) -> (r: &'a str) requires ok(i@, a), ok(i@, b), a <= b ensures r@ == rest(i@, a).take(rest(i@, a).len() - rest(i@, b).len()) { unimplemented!() }
}
}
}
