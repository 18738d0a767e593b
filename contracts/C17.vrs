use vstd::prelude::*;
use std::sync::Arc;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@include edit_base.vrs
//@include edit_find.vrs
//@include mail_bytes.vrs
//@include edit_fns.vrs
//@include edit_delete.vrs
//@literals
}
fn main() {}
