#![verifier::loop_isolation(false)]
#![verifier::exec_allows_no_decreases_clause]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments, non_snake_case, unused_must_use, non_camel_case_types, unused_macros)]
use vstd::prelude::*;
verus! { global size_of usize == 8; }
//@include fmt.rs
//@include dot.rs
//@include coll.rs
//@include std_shim_cfg.rs
//@include ports.rs
pub mod config {
use vstd::prelude::*;
use crate::connectable::*;
use crate::coll::*;
use crate::fmt::*;
use crate::std_shim as std;
verus!{
//@include config_types.rs
//@include sets.rs
//@include sets_list.rs
}
}
//@include diagram.rs

fn main() {}
