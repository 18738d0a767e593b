use vstd::prelude::*;
verus! {
//@include std.vrs
//@include args_base.vrs
//@include args_fns.vrs
}
fn main() {}
