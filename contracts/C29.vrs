use vstd::prelude::*;
verus! {
//@include std.vrs
//@include var_names.vrs
}
fn main() {}
