// std::mem as the standard library has it (assumed)
pub mod std_shim {
use vstd::prelude::*;
//@include mem_coll.rs
}
