pub mod connectable {
use vstd::prelude::*;
verus!{
//@include ports_enums.rs
//@include ports_in.rs
}
}
