#![verifier::loop_isolation(false)]
#![verifier::exec_allows_no_decreases_clause]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments, non_snake_case, unused_must_use)]
use vstd::prelude::*;
verus! { global size_of usize == 8; }
//@include prelude.rs
//@include coll.rs
/// std::mem for maps
pub mod std_maps {
//@include mem_coll.rs
}


pub mod connectable {
use vstd::prelude::*;
use crate::motion::Pull;
verus!{
//@include ports_enums.rs
//@include ports_in.rs
//@item src/connectable.rs :: enum ConnectableError
pub enum ConnectableError {
    AddInput(usize, ConnectableAddInputError),
    AddOutput(usize, ConnectableAddOutputError),
    CouldNotFindSourceComponent(usize),
    CouldNotFindDestinationComponent(usize),
}
//@end
//@item src/connectable.rs :: enum ConnectableAddOutputError
pub enum ConnectableAddOutputError {
    AlreadyAllocated(OutputPort),
    UnsupportedPort(OutputPort),
}
//@end
//@item src/connectable.rs :: enum ConnectableAddInputError
pub enum ConnectableAddInputError {
    AlreadyAllocated,
    UnsupportedPriority(isize),
    UnsupportedForControl
}
//@end
}
}

//@include motion.rs
//@include junction.rs
//@include parts.rs
//@include buffer.rs
//@include launch.rs
//@include seqs.rs
//@include waiter.rs
//@include bin_support.rs

fn main() {}
