use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@include lower_chars.vrs
//@include setmod_spec.vrs
//@include setmod_fns.vrs
// ---- set: the modifiers one after the other ---------------------------------------------------
#[verifier::external_body] pub struct VariableType { x: u8 }
//@type src/compiler/grammar/actions/action_set.rs Set
//@end
pub open spec fn applied(m: Seq<Modifier>, ctx: Context, v: Variable, r: Variable) -> bool decreases m.len() { if m.len() == 0 { r == v } else { exists|w: Variable| #[trigger] via(w) && applied(m.drop_last(), ctx, v, w) && one_applied(m.last(), ctx, w, r) } }
pub open spec fn via(w: Variable) -> bool { true }
pub open spec fn one_applied(m: Modifier, ctx: Context, v: Variable, r: Variable) -> bool { exists|s: Seq<char>| #[trigger] modified(m, ctx, vtext(v), s) && is_text(r, s) }
pub uninterp spec fn variable_set(a: Context, name: VariableType, v: Variable, b: Context) -> bool;
pub fn text_variable(s: String) -> (r: Variable) ensures is_text(r, s@) { Variable::from(s) }
impl Context<'_> { #[verifier::external_body] pub fn set_variable(&mut self, name: &VariableType, v: Variable) ensures variable_set(*old(self), *name, v, *final(self)) { unimplemented!() } }
impl Set {
//@fn src/runtime/actions/action_set.rs Set::exec
//@ replace "modifier.apply(value.to_string().as_ref(), ctx).into()" => "text_variable(modifier.apply(value.to_string().as_str(), ctx))"
//@ spec
    ensures exists|v: Variable| #[trigger] applied(self.modifiers@, *old(ctx), eval_of(*old(ctx), self.value), v) && variable_set(*old(ctx), self.name, v, *final(ctx)),
//@ at start
    let ghost c0 = *ctx; let ghost v0 = eval_of(*ctx, self.value); proof { assert(self.modifiers@.take(0) =~= seq![]); }
//@ loop 0 for it it
    invariant *ctx == c0, it.seq().len() == self.modifiers@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.modifiers@[i], 0 <= it.index() <= it.seq().len(), applied(self.modifiers@.take(it.index() as int), c0, v0, value),
//@ at loop 0 start
    let ghost w = value; let ghost k = it.index() as int;
//@ at loop 0 end
    proof { let m = self.modifiers@.take(k + 1); assert(m.drop_last() =~= self.modifiers@.take(k)); assert(m.last() == *modifier); assert(applied(m.drop_last(), c0, v0, w)); assert(one_applied(m.last(), c0, w, value)); assert(via(w)); assert(applied(m, c0, v0, value)); }
//@ at after loop 0
    proof { assert(self.modifiers@.take(self.modifiers@.len() as int) =~= self.modifiers@); }
//@end
}
}
fn main() {}
