use vstd::prelude::*;
use std::sync::Arc;
use std::vec::IntoIter;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@include mail_base.vrs
//@include mail_bytes.vrs
//@include mail_shim.vrs
//@include mail_vacation.vrs
//@include addr_fns.vrs
//@include mail_redirect.vrs
//@include mail_test_vac.vrs
//@include mail_uri.vrs
//@include mail_notify.vrs
//@literals
}
fn main() {}
