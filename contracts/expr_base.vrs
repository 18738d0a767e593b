global size_of usize == 8;
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@type src/compiler/mod.rs Number
//@end
//@type src/lib.rs Envelope
//@end
//@type src/compiler/mod.rs VariableType
//@ drop Header
//@ drop Part
//@end
//@type src/compiler/grammar/expr/mod.rs BinaryOperator
//@ attr #[derive(Clone, Copy)]
//@end
//@type src/compiler/grammar/expr/mod.rs UnaryOperator
//@ attr #[derive(Clone, Copy)]
//@end
//@type src/compiler/grammar/expr/mod.rs Constant
//@end
//@type src/compiler/grammar/expr/mod.rs Expression
//@end
//@type src/compiler/grammar/expr/mod.rs Token
//@end
//@const src/compiler/grammar/expr/parser.rs ID_ARRAY_ACCESS
//@const src/compiler/grammar/expr/parser.rs ID_ARRAY_BUILD
//@const src/compiler/grammar/expr/parser.rs ID_EXTERNAL
//@type src/lib.rs Event
//@ keep Function
//@ replace "ExternalId" => "u32"
//@end
//@type src/lib.rs Runtime
//@ keep functions
//@ replace "Vec<Function>" => "Vec<HostFn>"
//@end
//@type src/lib.rs Context
//@ keep runtime pos vars_local vars_match expr_stack expr_pos
//@end
// ---- the values operators, variables and functions yield (the operators' own contracts: C12) ----
#[verifier::external_body] pub struct HostFn { f: usize }
pub struct Env { pub fns: Seq<HostFn>, pub locals: Seq<Variable>, pub matches: Seq<Variable> }
pub uninterp spec fn bin(op: BinaryOperator, a: Variable, b: Variable) -> Variable;
pub uninterp spec fn neg(a: Variable) -> Variable;
pub uninterp spec fn not_(a: Variable) -> Variable;
pub uninterp spec fn lookup(e: Env, v: VariableType) -> Variable;
pub uninterp spec fn host_result(f: HostFn, e: Env, args: Seq<Variable>) -> Variable;
pub uninterp spec fn truth(v: Variable) -> bool;
pub uninterp spec fn index_of(v: Variable) -> usize;
pub uninterp spec fn elements(v: Variable) -> Seq<Variable>;
pub uninterp spec fn empty_value() -> Variable;
pub uninterp spec fn list_of(s: Seq<Variable>) -> Variable;
pub open spec fn constant(c: Constant) -> Variable { match c { Constant::Integer(i) => Variable::Integer(i), Constant::Float(f) => Variable::Float(f), Constant::String(s) => Variable::String(s) } }
impl Variable {
    #[verifier::external_body] pub fn op_add(self, b: Variable) -> (r: Variable) ensures r == bin(BinaryOperator::Add, self, b) { unimplemented!() }
    #[verifier::external_body] pub fn op_subtract(self, b: Variable) -> (r: Variable) ensures r == bin(BinaryOperator::Subtract, self, b) { unimplemented!() }
    #[verifier::external_body] pub fn op_multiply(self, b: Variable) -> (r: Variable) ensures r == bin(BinaryOperator::Multiply, self, b) { unimplemented!() }
    #[verifier::external_body] pub fn op_divide(self, b: Variable) -> (r: Variable) ensures r == bin(BinaryOperator::Divide, self, b) { unimplemented!() }
    #[verifier::external_body] pub fn op_and(self, b: Variable) -> (r: Variable) ensures r == bin(BinaryOperator::And, self, b) { unimplemented!() }
    #[verifier::external_body] pub fn op_or(self, b: Variable) -> (r: Variable) ensures r == bin(BinaryOperator::Or, self, b) { unimplemented!() }
    #[verifier::external_body] pub fn op_xor(self, b: Variable) -> (r: Variable) ensures r == bin(BinaryOperator::Xor, self, b) { unimplemented!() }
    #[verifier::external_body] pub fn op_eq(self, b: Variable) -> (r: Variable) ensures r == bin(BinaryOperator::Eq, self, b) { unimplemented!() }
    #[verifier::external_body] pub fn op_ne(self, b: Variable) -> (r: Variable) ensures r == bin(BinaryOperator::Ne, self, b) { unimplemented!() }
    #[verifier::external_body] pub fn op_lt(self, b: Variable) -> (r: Variable) ensures r == bin(BinaryOperator::Lt, self, b) { unimplemented!() }
    #[verifier::external_body] pub fn op_le(self, b: Variable) -> (r: Variable) ensures r == bin(BinaryOperator::Le, self, b) { unimplemented!() }
    #[verifier::external_body] pub fn op_gt(self, b: Variable) -> (r: Variable) ensures r == bin(BinaryOperator::Gt, self, b) { unimplemented!() }
    #[verifier::external_body] pub fn op_ge(self, b: Variable) -> (r: Variable) ensures r == bin(BinaryOperator::Ge, self, b) { unimplemented!() }
    #[verifier::external_body] pub fn op_not(self) -> (r: Variable) ensures r == not_(self) { unimplemented!() }
    #[verifier::external_body] pub fn op_minus(self) -> (r: Variable) ensures r == neg(self) { unimplemented!() }
    #[verifier::external_body] pub fn to_bool(&self) -> (r: bool) ensures r == truth(*self) { unimplemented!() }
    #[verifier::external_body] pub fn to_usize(&self) -> (r: usize) ensures r == index_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn into_array(self) -> (r: Vec<Variable>) ensures r@ == elements(self) { unimplemented!() }
    #[verifier::external_body] pub fn from_constant(c: &Constant) -> (r: Variable) ensures r == constant(*c) { unimplemented!() }
    #[verifier::external_body] pub fn new_list(v: Vec<Variable>) -> (r: Variable) ensures r == list_of(v@) { unimplemented!() }
}
#[verifier::external_body] pub fn or_empty(v: Option<Variable>) -> (r: Variable) ensures r == (match v { Some(v) => v, None => empty_value() }) { unimplemented!() }
#[verifier::external_body] pub fn copy_at(v: &Vec<Variable>, i: usize) -> (r: Option<Variable>) ensures r == (if i < v@.len() { Some(v@[i as int]) } else { None::<Variable> }) { v.get(i).cloned() }
#[verifier::external_body] pub fn zeros(n: usize) -> (r: Vec<Variable>) ensures r@.len() == n { vec![Variable::Integer(0); n] }
#[verifier::external_body] pub fn put(v: &mut Vec<Variable>, i: usize, x: Variable) requires i < old(v)@.len() ensures final(v)@ == old(v)@.update(i as int, x) { v[i] = x; }
pub fn top_true(s: &Vec<Variable>) -> (r: bool) ensures r == top_truth(s@) { if s.len() > 0 { s[s.len() - 1].to_bool() } else { false } }
impl HostFn { #[verifier::external_body] pub fn call(&self, ctx: &Context, args: Vec<Variable>) -> (r: Variable) ensures r == host_result(*self, env(*ctx), args@) { unimplemented!() } }
pub open spec fn env(c: Context) -> Env { Env { fns: c.runtime.functions@, locals: c.vars_local@, matches: c.vars_match@ } }
// slice iterator positioned at an index (`expr.iter().skip(n)`)
pub struct Exprs<'a> { pub e: &'a [Expression], pub i: usize }
pub fn exprs_from<'a>(e: &'a [Expression], n: usize) -> (r: Exprs<'a>) ensures r.e == e, r.i == (if n > e@.len() { e@.len() } else { n as nat }) { Exprs { e, i: if n > e.len() { e.len() } else { n } } }
impl<'a> Exprs<'a> {
    pub fn next(&mut self) -> (r: Option<&'a Expression>)
        requires old(self).i <= old(self).e@.len()
        ensures final(self).e == old(self).e, final(self).i <= final(self).e@.len(), old(self).i < old(self).e@.len() ==> r == Some(&old(self).e@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).e@.len() ==> r is None && final(self).i == old(self).i,
    { if self.i < self.e.len() { let e = self.e; let i = self.i; self.i = i + 1; Some(&e[i]) } else { None } }
}
// ---- meaning of a compiled expression -------------------------------------------------
pub enum Out { Value(Variable), Call { id: int, args: Seq<Variable>, pos: int, stack: Seq<Variable> } }
pub open spec fn top(s: Seq<Variable>) -> Variable { if s.len() == 0 { empty_value() } else { s.last() } }
pub open spec fn down(s: Seq<Variable>) -> Seq<Variable> { if s.len() == 0 { s } else { s.drop_last() } }
pub open spec fn top_truth(s: Seq<Variable>) -> bool { s.len() > 0 && truth(s.last()) }
// the n topmost values, the topmost last
pub open spec fn taken(s: Seq<Variable>, n: nat) -> Seq<Variable> decreases n { if n == 0 { seq![] } else { taken(down(s), (n - 1) as nat).push(top(s)) } }
pub open spec fn downn(s: Seq<Variable>, n: nat) -> Seq<Variable> decreases n { if n == 0 { s } else { downn(down(s), (n - 1) as nat) } }
pub open spec fn nth_or_empty(s: Seq<Variable>, i: int) -> Variable { if 0 <= i < s.len() { s[i] } else { empty_value() } }
// a jump skips the instructions after it; a host function suspends with its own arguments
pub open spec fn meaning(c: Env, e: Seq<Expression>, p: int, s: Seq<Variable>) -> Out decreases (if p < e.len() { e.len() - p } else { 0 }) {
    if p < 0 || p >= e.len() { Out::Value(top(s)) } else { match e[p] {
        Expression::Variable(v) => meaning(c, e, p + 1, s.push(lookup(c, v))),
        Expression::Constant(v) => meaning(c, e, p + 1, s.push(constant(v))),
        Expression::UnaryOperator(op) => meaning(c, e, p + 1, down(s).push(match op { UnaryOperator::Not => not_(top(s)), UnaryOperator::Minus => neg(top(s)) })),
        Expression::BinaryOperator(op) => meaning(c, e, p + 1, down(down(s)).push(bin(op, top(down(s)), top(s)))),
        Expression::JmpIf { val, pos } => meaning(c, e, if top_truth(s) == val { p + 1 + pos } else { p + 1 }, s),
        Expression::Function { id, num_args } => if id < c.fns.len() { meaning(c, e, p + 1, downn(s, num_args as nat).push(host_result(c.fns[id as int], c, taken(s, num_args as nat)))) }
            else { Out::Call { id: ID_EXTERNAL - id, args: taken(s, num_args as nat), pos: p + 1, stack: downn(s, num_args as nat) } },
        Expression::ArrayAccess => meaning(c, e, p + 1, down(down(s)).push(nth_or_empty(elements(top(down(s))), index_of(top(s)) as int))),
        Expression::ArrayBuild(n) => meaning(c, e, p + 1, downn(s, n as nat).push(list_of(taken(s, n as nat)))),
    } }
}
// function numbers stay clear of the reserved ones (ExpressionParser)
pub open spec fn ids_ok(e: Seq<Expression>) -> bool { forall|i: int| 0 <= i < e.len() ==> match #[trigger] e[i] { Expression::Function { id, .. } => id <= ID_EXTERNAL, _ => true } }
pub proof fn lemma_taken(s: Seq<Variable>, n: nat) ensures taken(s, n).len() == n decreases n { if n > 0 { lemma_taken(down(s), (n - 1) as nat); } }
pub proof fn lemma_taken_step(s: Seq<Variable>, n: nat, k: nat)
    requires k < n ensures taken(s, n)[n - k - 1] == top(downn(s, k)), down(downn(s, k)) == downn(s, k + 1) decreases k
{ lemma_taken(down(s), (n - 1) as nat); if k > 0 { lemma_taken_step(down(s), (n - 1) as nat, (k - 1) as nat); } else { reveal_with_fuel(downn, 3); } }
pub open spec fn filled(a: Seq<Variable>, s: Seq<Variable>, n: nat, k: int) -> bool { a.len() == n && forall|j: int| n - k <= j < n ==> #[trigger] a[j] == taken(s, n)[j] }
pub open spec fn framed(o: Context, c: Context) -> bool { c.runtime == o.runtime && c.vars_local == o.vars_local && c.vars_match == o.vars_match && c.pos == o.pos }
