//@item src/connectable.rs :: enum Breakable
pub enum Breakable {
    Consume,
    Finish,
    Terminate
}
//@end
//@item src/connectable.rs :: enum OutputPort
pub enum OutputPort {
    Err,
    Out,
    Exit,
}
//@end
impl Clone for Breakable { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Breakable {}
impl Clone for OutputPort { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for OutputPort {}
impl PartialEq for Breakable { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Breakable { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for OutputPort { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for OutputPort { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
