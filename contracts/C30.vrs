use vstd::prelude::*;
use std::sync::Arc;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@include std.vrs
//@include slots.vrs
//@include slots_map.vrs
//@literals
}
fn main() {}
