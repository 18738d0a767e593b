use vstd::prelude::*;
use std::sync::Arc;
use std::vec::IntoIter;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@include text.vrs
//@include variable.vrs
//@include map.vrs
//@type src/lib.rs Envelope
//@ attr #[derive(PartialEq, Eq, Clone, Copy, Structural)]
//@end
//@type src/compiler/mod.rs VariableType
//@ drop Header
//@ drop Part
//@end
//@type src/lib.rs Event
//@ keep SetEnvelope
//@end
//@type src/lib.rs Runtime
//@ keep max_variable_size
//@end
//@type src/lib.rs Context
//@ keep runtime envelope vars_global vars_local vars_match queued_events
//@ replace "AHashMap<Cow<'static, str>, Variable>" => "VarMap"
//@end
// what is stored for a value: itself when it fits, else the longest prefix of its text that fits
pub open spec fn stored(v: Variable, max: nat, w: Variable) -> bool
{ if vlen(v) <= max { w == v } else { is_text(w, fit(vtext(v), max)) } }
// the envelope list after setting one field
pub open spec fn first_env(e: Seq<(Envelope, Variable)>, n: Envelope, i: int) -> int decreases e.len() - i
{ if i >= e.len() { e.len() as int } else if e[i].0 == n { i } else { first_env(e, n, i + 1) } }
// r is e with the text t put under n: into the first entry of that name, or appended
pub open spec fn env_set(e: Seq<(Envelope, Variable)>, n: Envelope, t: Seq<char>, r: Seq<(Envelope, Variable)>) -> bool {
    let i = first_env(e, n, 0);
    r.len() == (if i < e.len() { e.len() } else { e.len() + 1 }) && i <= e.len() && r[i].0 == n && is_text(r[i].1, t)
    && forall|j: int| 0 <= j < i ==> r[j] == #[trigger] e[j]
}
pub proof fn lemma_first_env(e: Seq<(Envelope, Variable)>, n: Envelope, i: int) requires 0 <= i <= e.len() ensures i <= first_env(e, n, i) <= e.len() decreases e.len() - i
{ if i < e.len() { lemma_first_env(e, n, i + 1); } }
pub open spec fn set_ok(o: Context, f: Context, name: VariableType, w: Variable) -> bool {
    f.vars_match == o.vars_match && match name {
        VariableType::Local(i) => f.vars_local@ == (if i < o.vars_local@.len() { o.vars_local@.update(i as int, w) } else { o.vars_local@ })
            && f.vars_global == o.vars_global && f.envelope == o.envelope,
        VariableType::Global(n) => f.vars_global@ == o.vars_global@.insert(n@, w) && f.vars_local == o.vars_local && f.envelope == o.envelope,
        VariableType::Envelope(n) => env_set(o.envelope@, n, vtext(w), f.envelope@) && f.vars_global == o.vars_global && f.vars_local == o.vars_local,
        _ => f == o,
    }
}
impl Context<'_> {
//@fn src/runtime/actions/action_set.rs Context::add_set_envelope_event
//@ loops 1
//@ replace "value.clone().into()" => "Arc::new(value.clone())"
//@ spec
    ensures env_set(old(self).envelope@, envelope, value@, final(self).envelope@),
        final(self).queued_events.remaining().len() == 1,
        final(self).runtime == old(self).runtime, final(self).vars_global == old(self).vars_global,
        final(self).vars_local == old(self).vars_local, final(self).vars_match == old(self).vars_match,
//@ replace "(name, val) in" => "env_item in"
//@ loop 0 for it it
    invariant_except_break !did_find, k == o.len(), first_env(o, envelope, 0) == first_env(o, envelope, it.index() as int),
        forall|i: int| 0 <= i < it.index() ==> *final(#[trigger] it.seq()[i]) == o[i],
    invariant it.seq().len() == o.len(), forall|i: int| 0 <= i < o.len() ==> *#[trigger] it.seq()[i] == o[i], it.index() <= o.len(),
    ensures k == first_env(o, envelope, 0), did_find == (k < o.len()), 0 <= k <= o.len(),
        forall|i: int| 0 <= i < k ==> *final(#[trigger] it.seq()[i]) == o[i],
        k < o.len() ==> ({ let r = *final(it.seq()[k]); r.0 == envelope && is_text(r.1, value@) }),
//@ at before loop 0
    let ghost o = self.envelope@;
    let ghost mut k: int = o.len() as int;
    proof { lemma_first_env(o, envelope, 0); }
//@ at loop 0 start
    let (name, val) = env_item;
    proof { k = if *name == envelope { it.index() as int } else { o.len() as int }; }
//@end
//@fn src/runtime/actions/action_set.rs Context::set_variable
//@ attr #[verifier::loop_isolation(false)]
//@ loops 1
//@ replace "var_name.to_string().into()" => "var_name.clone()"
//@ at start
    let ghost variable0 = variable;
//@ replace "variable.to_string().chars()" => "variable.to_chars()"
//@ replace? "variable.to_string().into_owned()" => "variable.to_string()"
//@ spec
    ensures exists|w: Variable| #[trigger] stored(variable, old(self).runtime.max_variable_size as nat, w) && set_ok(*old(self), *final(self), *var_name, w),
//@ loop 0 for it it
    invariant_except_break new_variable@ == text.take(it.index() as int), 
    invariant it.seq() == text, 0 <= it.index() <= text.len(), text == vtext(variable),
        blen(new_variable@) <= self.runtime.max_variable_size, *self == *old(self),
    ensures new_variable@ == fit(text, self.runtime.max_variable_size as nat),
//@ at before loop 0
    let ghost text = vtext(variable);
    proof { assert(text.take(text.len() as int) =~= text); assert(text.take(0) =~= Seq::<char>::empty()); assert(blen(Seq::<char>::empty()) == 0); }
//@ at loop 0 start
    proof { lemma_blen_take(text, it.index() as int); assert(text.take(text.len() as int) =~= text); if blen(text.take(it.index() + 1)) > self.runtime.max_variable_size { lemma_fit(text, it.index() as int, self.runtime.max_variable_size as nat); } }
//@ at before "match var_name"
    proof { assert(stored(variable0, self.runtime.max_variable_size as nat, variable)); }
//@end
}
}
fn main() {}
