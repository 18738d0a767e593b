use vstd::prelude::*;
verus! {
//@include std.vrs
//@include comp_base.vrs
//@include cap_fns.vrs
//@include test_code.vrs
//@include compile_spec.vrs
//@include compile_fn.vrs
}
fn main() {}
