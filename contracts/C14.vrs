use vstd::prelude::*;
verus! {
//@include std.vrs
//@include lex_base.vrs
//@include lex_token.vrs
}
fn main() {}
