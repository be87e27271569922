//@item src/connectable.rs :: struct InputPort
pub struct InputPort {
    pub breakable: Breakable,
    pub priority: isize,
}
//@end
impl Clone for InputPort { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl View for OutputPort { type V = OutputPort; open spec fn view(&self) -> OutputPort { *self } }
