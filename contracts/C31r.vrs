use vstd::prelude::*;
use std::sync::Arc;
use std::vec::IntoIter;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@include run_base.vrs
// the parts foreverypart will visit (what they are is proved under C31)
pub uninterp spec fn nested_parts(m: Mail, part: u32, outermost: bool) -> Seq<u32>;
//@include run_fns.vrs
}
fn main() {}
