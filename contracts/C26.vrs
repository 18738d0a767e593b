use vstd::prelude::*;
use std::sync::Arc;
use std::vec::IntoIter;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@include mail_base.vrs
//@include mail_bytes.vrs
//@include mail_uri.vrs
//@literals
}
fn main() {}
