use vstd::prelude::*;
use std::sync::Arc;
use std::vec::IntoIter;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@include run_base.vrs
//@include run_inc.vrs
//@include run_fns.vrs
}
fn main() {}
