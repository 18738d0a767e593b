use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include expr_base.vrs
impl<'x> Context<'x> {
    #[verifier::external_body] pub fn variable(&self, v: &VariableType) -> (r: Option<Variable>) ensures (match r { Some(x) => x, None => empty_value() }) == lookup(env(*self), *v) { unimplemented!() }
//@fn src/runtime/expression.rs Context::eval_expression
//@ ret r
//@ loops 5
//@ sig "expr: &[Expression]" => "expr_: &[Expression]"
//@ replace "expr.iter().skip(self.expr_pos)" => "exprs_from(expr, self.expr_pos)"
//@ replace "self.variable(v).unwrap_or_default()" => "or_empty(self.variable(v))"
//@ replace "Variable::from(val)" => "Variable::from_constant(val)"
//@ replace "self.expr_stack.pop().unwrap_or_default()" => "or_empty(self.expr_stack.pop())"
//@ replace "array.get(index).cloned().unwrap_or_default()" => "or_empty(copy_at(&array, index))"
//@ replace "self.expr_stack.last().is_some_and(|v| v.to_bool())" => "top_true(&self.expr_stack)"
//@ replace "vec![Variable::Integer(0); num_args]" => "zeros(num_args)"
//@ replace "vec![Variable::Integer(0); num_items]" => "zeros(num_items)"
//@ replace "(fnc)(self, arguments)" => "fnc.call(self, arguments)"
//@ replace "Variable::Array(items.into())" => "Variable::new_list(items)"
//@ spec
    requires old(self).pos >= 1, ids_ok(expr_@), expr_@.len() <= isize::MAX, old(self).expr_pos <= isize::MAX + u32::MAX + 1
    ensures final(self).runtime == old(self).runtime, final(self).vars_local == old(self).vars_local, final(self).vars_match == old(self).vars_match,
        match meaning(env(*old(self)), expr_@, old(self).expr_pos as int, old(self).expr_stack@) {
            Out::Value(v) => r == Ok::<Variable, Event>(v) && final(self).expr_pos == 0 && final(self).expr_stack@.len() == 0 && final(self).pos == old(self).pos,
            Out::Call { id, args, pos, stack } => (match r { Err(Event::Function { id: i, arguments: a }) => i == id && a@ == args, _ => false }) && final(self).expr_pos == pos && final(self).expr_stack@ == stack && final(self).pos == old(self).pos - 1,
        },
//@ at start
    let expr = expr_;
    let ghost c0 = env(*self);
    let ghost es = expr@;
//@ loop 0 while
    invariant exprs.e@ == es, exprs.i <= es.len(), ids_ok(es), es.len() <= isize::MAX,
        self.expr_pos <= isize::MAX + u32::MAX + 1, self.expr_pos < es.len() ==> exprs.i == self.expr_pos, self.expr_pos >= es.len() ==> exprs.i == es.len(),
        c0 == env(*old(self)), es == expr_@, env(*self) == c0, framed(*old(self), *self), self.pos >= 1,
        meaning(c0, es, self.expr_pos as int, self.expr_stack@) == meaning(c0, es, old(self).expr_pos as int, old(self).expr_stack@),
    ensures self.expr_pos >= es.len(),
    decreases es.len() - exprs.i,
//@ at loop 0 start
    let ghost p0 = self.expr_pos as int;
    let ghost s0 = self.expr_stack@;
    proof { assert(exprs.i == p0 + 1); assert(*expr == es[p0]); reveal_with_fuel(meaning, 2); }
//@ at before "if let Some(fnc)"
    let ghost st = self.expr_stack@;
    proof { lemma_taken(st, num_args as nat); }
//@ loop 1 for it it
    invariant filled(arguments@, st, num_args as nat, it.index() as int), self.expr_stack@ == downn(st, it.index() as nat), it.index() <= num_args, taken(st, num_args as nat).len() == num_args,
        framed(*old(self), *self), self.expr_pos == p0 + 1,
//@ at loop 1 start
    proof { lemma_taken_step(st, num_args as nat, it.index() as nat); }
//@ at after loop 1
    proof { assert(arguments@ =~= taken(st, num_args as nat)); }
//@ loop 2 for it it
    invariant filled(arguments@, st, num_args as nat, it.index() as int), self.expr_stack@ == downn(st, it.index() as nat), it.index() <= num_args, taken(st, num_args as nat).len() == num_args,
        framed(*old(self), *self), self.expr_pos == p0 + 1,
//@ at loop 2 start
    proof { lemma_taken_step(st, num_args as nat, it.index() as nat); }
//@ at after loop 2
    proof { assert(arguments@ =~= taken(st, num_args as nat)); }
//@ at before "return Err"
    proof { assert(*id >= c0.fns.len()); assert(arguments@ =~= taken(st, num_args as nat)); assert(s0 == st); let m = meaning(c0, es, p0, s0); assert(m is Call);  assert(self.expr_pos == p0 + 1); assert(self.expr_stack@ == downn(st, num_args as nat)); }
//@ loop 3 for it it
    invariant exprs.i <= es.len(), 0 <= p0 < es.len(), es.len() <= isize::MAX, exprs.e@ == es, exprs.i <= es.len(), it.index() <= *pos,
        p0 + 1 + it.index() < es.len() ==> exprs.i == p0 + 1 + it.index(), p0 + 1 + it.index() >= es.len() ==> exprs.i == es.len(),
//@ loop 4 for it it
    invariant filled(items@, st, num_items as nat, it.index() as int), self.expr_stack@ == downn(st, it.index() as nat), it.index() <= num_items, taken(st, num_items as nat).len() == num_items,
        framed(*old(self), *self), self.expr_pos == p0 + 1,
//@ at loop 4 start
    proof { lemma_taken_step(st, num_items as nat, it.index() as nat); }
//@ at after loop 4
    proof { assert(items@ =~= taken(st, num_items as nat)); }
//@ at before "let num_items"
    let ghost st = self.expr_stack@;
    proof { lemma_taken(st, *num_items as nat); }
//@end
}

}
fn main() {}
