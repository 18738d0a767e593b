use vstd::prelude::*;
use std::sync::Arc;
use std::cmp::Ordering;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@include ops_spec.vrs
//@include ops_fns.vrs
}
fn main() {}
