use vstd::prelude::*;
use std::sync::Arc;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@include edit_base.vrs
//@include edit_find.vrs
//@literals
}
fn main() {}
