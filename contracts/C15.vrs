use vstd::prelude::*;
verus! {
//@include std.vrs
//@include lex_string.vrs
}
fn main() {}
