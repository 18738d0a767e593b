use vstd::prelude::*;
verus! {
//@include std.vrs
//@include envelope.vrs
#[verifier::external_body] pub struct Variable { x: u8 }
pub uninterp spec fn bytes_of(v: Variable) -> Seq<u8>;
#[verifier::external_body] pub fn variable(b: &[u8]) -> (r: Variable) ensures bytes_of(r) == b@ { unimplemented!() }
//@type src/lib.rs Envelope
//@end
//@type src/lib.rs Runtime
//@ keep cpu_limit
//@end
//@type src/lib.rs Context
//@ keep runtime envelope
//@end
// the text names an envelope part (or nothing)
#[verifier::external_body] pub fn named(e: Envelope) -> (r: Result<Envelope, ()>) ensures r is Ok ==> r->Ok_0 == e { unimplemented!() }
// .filter(|value| !value.starts_with('@'))
pub trait NotAt: Sized { fn not_at(self) -> Self; }
impl NotAt for Option<&[u8]> { #[verifier::external_body] fn not_at(self) -> (r: Self) ensures r is Some ==> self is Some && r->0@ == self->0@, r is Some <==> self is Some && !(self->0@.len() > 0 && self->0@[0] == b'@') { unimplemented!() } }
// what is stored for a sender or recipient
pub open spec fn stored(v: Variable, given: Seq<u8>) -> bool { part_of(bytes_of(v), given) && (bytes_of(v).len() == 0 || same_ci(bytes_of(v), mailer()) || address(bytes_of(v))) }
impl<'x> Context<'x> {
//@fn src/runtime/context.rs Context::set_envelope
//@ sig "envelope: impl TryInto<Envelope>" => "envelope: Envelope"
//@ sig "value: impl Into<Cow<'x, str>>" => "value: &[u8]"
//@ replace "envelope.try_into()" => "named(envelope)"
//@ replace? "let value: Cow<str> = value.into();" => ";"
//@ replace "value.as_ref()" => "value"
//@ replace? ".filter(|value| !value.starts_with('@'))" => ".not_at()"
//@ replace "value.to_string().into()" => "variable(value)"
//@ replace "Variable::from(value.into())" => "variable(value)"
//@ spec
    ensures final(self).runtime == old(self).runtime,
        final(self).envelope@ == old(self).envelope@ || (final(self).envelope@.len() == old(self).envelope@.len() + 1 && final(self).envelope@.drop_last() == old(self).envelope@ && ({ let e = final(self).envelope@.last(); e.0 == envelope && (if envelope is From || envelope is To { stored(e.1, value@) } else { bytes_of(e.1) == value@ }) })),
//@ at end
    proof { if self.envelope@.len() > old(self).envelope@.len() { assert(self.envelope@.drop_last() =~= old(self).envelope@); } }
//@end
}
//@literals
}
fn main() {}
