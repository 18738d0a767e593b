use vstd::prelude::*;
use std::sync::Arc;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@include edit_base.vrs
//@include edit_find.vrs
//@include mail_bytes.vrs
//@include edit_fns.vrs
//@include edit_delete.vrs
//@type src/compiler/grammar/tests/test_size.rs TestSize
//@end
#[verifier::external_body] pub struct Event { x: u8 }
#[verifier::external_body] pub struct RuntimeError { x: u8 }
//@type src/runtime/tests/mod.rs TestResult
//@end
impl TestSize {
//@fn src/runtime/tests/test_size.rs TestSize::exec
//@ ret r
//@ spec
    ensures r is Bool, r->Bool_0 == ((if self.over { ctx.message_size > self.limit } else { ctx.message_size < self.limit }) != self.is_not),
//@end
}
// at the limit itself both are false; over and under never hold together; not inverts
pub proof fn at_the_limit(t: TestSize, size: usize) requires size == t.limit ensures !(if t.over { size > t.limit } else { size < t.limit }) {}
//@literals
}
fn main() {}
