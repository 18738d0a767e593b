use vstd::prelude::*;
use std::sync::Arc;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@include edit_base.vrs
//@include mail_bytes.vrs
pub assume_specification<T> [std::mem::replace] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
#[verifier::external_body] pub fn same_ci(a: &str, b: &str) -> (r: bool) ensures r == (lower(a@) == lower(b@)) { a.eq_ignore_ascii_case(b) }
//@include mime_build.vrs
//@include mime_same.vrs
//@literals
}
fn main() {}
