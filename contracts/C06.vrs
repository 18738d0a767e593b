use vstd::prelude::*;
verus! {
//@include std.vrs
//@include shim_chars.vrs
//@type src/runtime/tests/glob.rs PatternChar
//@end
//@type src/runtime/tests/glob.rs GlobPattern
//@end
//@include glob_spec.vrs
//@include lower_chars.vrs
//@include glob_compile_spec.vrs
//@include glob_fns.vrs
} // verus!
fn main() {}
