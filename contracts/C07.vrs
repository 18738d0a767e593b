use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std.vrs
//@include shim_chars.vrs
//@const src/lib.rs MAX_MATCH_VARIABLES
//@type src/runtime/tests/glob.rs PatternChar
//@end
//@type src/runtime/tests/glob.rs GlobPattern
//@end
//@include glob_spec.vrs
//@include lower_chars.vrs
//@include glob_compile_spec.vrs
//@include glob_fns.vrs
//@include capture_fns.vrs
} // verus!
fn main() {}
