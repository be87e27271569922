#![verifier::loop_isolation(false)]
#![verifier::exec_allows_no_decreases_clause]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments, non_snake_case, unused_must_use, non_camel_case_types, unused_macros)]
use vstd::prelude::*;
verus! { global size_of usize == 8; }
//@include fmt.rs
//@include dot.rs
//@include coll.rs
//@include std_shim_cfg.rs
//@include ports.rs
//@include config.rs
//@include manip.rs
//@include diagram.rs
//@include pa2.rs

fn main() {}
