use vstd::prelude::*;
use std::sync::Arc;
use std::vec::IntoIter;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@include mail_base.vrs
//@include addr_fns.vrs
//@include mail_redirect.vrs
}
fn main() {}
