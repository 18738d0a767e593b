use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include expr_base.vrs
// ---- the tokens of an expression (the lexer is not looked into) ---------------------------
#[verifier::external_body] pub struct Toks { t: usize }
impl View for Toks { type V = Seq<Token>; uninterp spec fn view(&self) -> Seq<Token>; }
impl Toks {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Result<Option<Token>, String>)
        ensures match r { Ok(Some(t)) => old(self)@.len() > 0 && t == old(self)@[0] && final(self)@ == old(self)@.skip(1) && (t is Function ==> t->Function_id != ID_ARRAY_BUILD), Ok(None) => old(self)@.len() == 0 && final(self)@ == old(self)@, Err(_) => true }
    { unimplemented!() }
}
//@type src/compiler/grammar/expr/parser.rs ExpressionParser
//@ replace "<'x, F> where F: Fn(&str, bool) -> Result<Token, String>," => ""
//@ replace "Tokenizer<'x, F>" => "Toks"
//@end
#[verifier::external_body] pub fn message() -> (r: String) { unimplemented!() } // to_string, format!
pub open spec fn number_constant(n: Number) -> Constant { match n { Number::Integer(i) => Constant::Integer(i), Number::Float(f) => Constant::Float(f) } }
pub uninterp spec fn shared(s: String) -> Arc<String>; // Arc::new, into
#[verifier::external_body] pub fn share(s: String) -> (r: Arc<String>) ensures r == shared(s) { unimplemented!() }
pub open spec fn text_constant(s: String) -> Constant { Constant::String(shared(s)) }
impl Constant {
//@fn src/compiler/grammar/expr/mod.rs <From<Number> for Constant>::from
//@ ret r
//@ rename from_number
//@ spec
    ensures r == number_constant(value),
//@end
//@fn src/compiler/grammar/expr/mod.rs <From<String> for Constant>::from
//@ ret r
//@ rename from_text
//@ replace "value.into()" => "share(value)"
//@ spec
    ensures r == text_constant(value),
//@end
}
pub open spec fn bracket(t: Token) -> bool { t is OpenParen || t is OpenBracket }
// derived PartialEq against one of the two opening brackets
pub fn same_bracket(a: &Token, b: &Token) -> (r: bool) requires bracket(*b) ensures r == (if *b is OpenParen { *a is OpenParen } else { *a is OpenBracket }) { match b { Token::OpenParen => matches!(a, Token::OpenParen), _ => matches!(a, Token::OpenBracket) } }
pub open spec fn level(op: BinaryOperator) -> int {
    match op {
        BinaryOperator::Multiply | BinaryOperator::Divide => 7, BinaryOperator::Add | BinaryOperator::Subtract => 6,
        BinaryOperator::Gt | BinaryOperator::Ge | BinaryOperator::Lt | BinaryOperator::Le => 5, BinaryOperator::Eq | BinaryOperator::Ne => 4,
        BinaryOperator::Xor => 3, BinaryOperator::And => 2, BinaryOperator::Or => 1,
    }
}
impl BinaryOperator {
//@fn src/compiler/grammar/expr/parser.rs BinaryOperator::precedence
//@ ret r
//@ spec
    ensures r == level(*self),
//@end
}
pub open spec fn dec(x: i32) -> i32 { if x == i32::MIN { x } else { (x - 1) as i32 } }
pub open spec fn inc(x: i32) -> i32 { if x == i32::MAX { x } else { (x + 1) as i32 } }
pub assume_specification[ i32::saturating_add ](a: i32, b: i32) -> (r: i32) ensures r == (if a + b > i32::MAX { i32::MAX as int } else if a + b < i32::MIN { i32::MIN as int } else { a + b });
pub assume_specification[ i32::saturating_sub ](a: i32, b: i32) -> (r: i32) ensures r == (if a - b > i32::MAX { i32::MAX as int } else if a - b < i32::MIN { i32::MIN as int } else { a - b });
// ---- one step of the compiler -------------------------------------------------------------
pub enum Op { Bin(BinaryOperator, Option<usize>), Un(UnaryOperator), Paren, Bracket, Fun(u32, u32), Other }
pub open spec fn op_of(o: (Token, Option<usize>)) -> Op {
    match o.0 { Token::BinaryOperator(b) => Op::Bin(b, o.1), Token::UnaryOperator(u) => Op::Un(u), Token::OpenParen => Op::Paren, Token::OpenBracket => Op::Bracket, Token::Function { id, num_args, .. } => Op::Fun(id, num_args), _ => Op::Other }
}
pub open spec fn ops_of(v: Seq<(Token, Option<usize>)>) -> Seq<Op> { Seq::new(v.len(), |i: int| op_of(v[i])) }
pub struct PS { pub out: Seq<Expression>, pub ops: Seq<Op>, pub args: Seq<i32>, pub last: bool }
pub open spec fn jump_of(e: Expression) -> Option<bool> { match e { Expression::JmpIf { val, .. } => Some(val), _ => None } }
// a pending jump lands just behind the code written so far
pub open spec fn landed(out: Seq<Expression>, j: Option<usize>) -> Seq<Expression> {
    if j is Some && j->0 < out.len() && jump_of(out[j->0 as int]) is Some { out.update(j->0 as int, Expression::JmpIf { val: jump_of(out[j->0 as int])->0, pos: (out.len() - j->0) as u32 }) } else { out }
}
// writing the operator on top of the stack
pub open spec fn emit(s: PS) -> PS {
    let t = PS { ops: s.ops.drop_last(), ..s };
    match s.ops.last() { Op::Bin(b, j) => PS { out: landed(s.out, j).push(Expression::BinaryOperator(b)), ..t }, Op::Un(u) => PS { out: s.out.push(Expression::UnaryOperator(u)), ..t }, _ => t }
}
pub open spec fn operator(o: Op) -> bool { o is Bin || o is Un }
// one more operand of the innermost call or list
pub open spec fn counted(s: PS) -> PS {
    if s.args.len() == 0 { s } else {
        let p = if s.ops.len() >= 2 { s.ops.len() - 2 } else { 0 };
        let ops = if p < s.ops.len() { match s.ops[p] { Op::Fun(id, n) => if id == ID_ARRAY_BUILD { s.ops.update(p, Op::Fun(id, (n + 1) as u32)) } else { s.ops }, _ => s.ops } } else { s.ops };
        PS { ops, args: s.args.drop_last().push(inc(s.args.last())), ..s }
    }
}
pub open spec fn discounted(a: Seq<i32>) -> Seq<i32> { if a.len() == 0 { a } else { a.drop_last().push(dec(a.last())) } }
pub open spec fn pop_higher(s: PS, l: int) -> PS decreases s.ops.len() {
    if s.ops.len() > 0 && (s.ops.last() is Un || (s.ops.last() is Bin && l <= level(s.ops.last()->Bin_0))) { pop_higher(emit(s), l) } else { s }
}
pub open spec fn pop_operators(s: PS) -> PS decreases s.ops.len() { if s.ops.len() > 0 && operator(s.ops.last()) { pop_operators(emit(s)) } else { s } }
pub open spec fn called(id: u32, n: u32) -> Expression { if id == ID_ARRAY_ACCESS { Expression::ArrayAccess } else if id == ID_ARRAY_BUILD { Expression::ArrayBuild(n) } else { Expression::Function { id, num_args: n } } }
pub open spec fn close(s: PS, open: Op) -> Option<PS> {
    let p = pop_operators(s);
    if p.ops.len() > 0 && p.ops.last() == open {
        let q = PS { ops: p.ops.drop_last(), last: true, ..p };
        if q.ops.len() > 0 { match q.ops.last() { Op::Fun(id, n) => if q.args.len() > 0 && q.args.last() == n as i32 { Some(PS { ops: q.ops.drop_last(), args: q.args.drop_last(), out: q.out.push(called(id, n)), ..q }) } else { None }, _ => Some(q) } } else { Some(q) }
    } else { None }
}
pub open spec fn jump(s: PS, b: BinaryOperator) -> PS {
    match b { BinaryOperator::And => PS { out: s.out.push(Expression::JmpIf { val: false, pos: 0 }), ops: s.ops.push(Op::Bin(b, Some(s.out.len() as usize))), last: false, ..s }, BinaryOperator::Or => PS { out: s.out.push(Expression::JmpIf { val: true, pos: 0 }), ops: s.ops.push(Op::Bin(b, Some(s.out.len() as usize))), last: false, ..s },
        _ => PS { ops: s.ops.push(Op::Bin(b, None)), last: false, ..s } }
}
pub open spec fn put_leaf(s: PS, e: Expression, last: bool) -> PS { let c = counted(s); PS { out: c.out.push(e), last, ..c } }
pub open spec fn step(s: PS, t: Token) -> Option<PS> {
    match t {
        Token::Variable(v) => Some(put_leaf(s, Expression::Variable(v), true)),
        Token::Number(n) => Some(put_leaf(s, Expression::Constant(number_constant(n)), false)),
        Token::String(x) => Some(put_leaf(s, Expression::Constant(text_constant(x)), false)),
        Token::UnaryOperator(u) => Some(PS { ops: s.ops.push(Op::Un(u)), last: false, ..s }),
        Token::OpenParen => Some(PS { ops: s.ops.push(Op::Paren), last: false, ..s }),
        Token::CloseParen => close(s, Op::Paren),
        Token::CloseBracket => close(s, Op::Bracket),
        Token::BinaryOperator(b) => Some(jump(pop_higher(PS { args: discounted(s.args), ..s }, level(b)), b)),
        Token::Function { id, num_args, .. } => { let c = counted(s); Some(PS { args: c.args.push(0), ops: c.ops.push(Op::Fun(id, num_args)), last: false, ..c }) }
        Token::OpenBracket => if s.last { Some(PS { args: s.args.push(1), ops: s.ops.push(Op::Fun(ID_ARRAY_ACCESS, 2)).push(Op::Bracket), last: false, ..s }) }
            else { let c = counted(s); Some(PS { args: c.args.push(0), ops: c.ops.push(Op::Fun(ID_ARRAY_BUILD, 0)).push(Op::Bracket), last: false, ..c }) },
        Token::Comma => Some(PS { last: false, ..pop_operators(s) }),
    }
}
pub open spec fn run(s: PS, t: Seq<Token>) -> Option<PS> decreases t.len() {
    if t.len() == 0 { let p = pop_operators(s); if p.ops.len() == 0 { Some(p) } else { None } }
    else { match step(s, t[0]) { Some(n) => run(n, t.skip(1)), None => None } }
}
pub open spec fn start() -> PS { PS { out: seq![], ops: seq![], args: seq![], last: false } }
// ---- the real compiler takes exactly these steps -------------------------------------------
pub open spec fn ps(p: ExpressionParser, last: bool) -> PS { PS { out: p.output@, ops: ops_of(p.operator_stack@), args: p.arg_count@, last } }
pub open spec fn funs(o: Seq<Op>) -> nat decreases o.len() { if o.len() == 0 { 0 } else { funs(o.drop_last()) + (if o.last() is Fun { 1nat } else { 0 }) } }
pub open spec fn jump_ok(o: Op, n: nat) -> bool { match o { Op::Bin(_, Some(j)) => j < n, _ => true } }
pub open spec fn build_ok(o: Op, k: nat) -> bool { match o { Op::Fun(id, n) => id == ID_ARRAY_BUILD ==> n <= k, _ => true } }
pub open spec fn sound(s: PS, k: nat) -> bool {
    &&& forall|i: int| 0 <= i < s.ops.len() ==> jump_ok(#[trigger] s.ops[i], s.out.len())
    &&& forall|i: int| 0 <= i < s.ops.len() ==> build_ok(#[trigger] s.ops[i], k)
    &&& s.args.len() == funs(s.ops)
    &&& s.out.len() + s.ops.len() <= 2 * k
}
pub proof fn lemma_ops_push(v: Seq<(Token, Option<usize>)>, x: (Token, Option<usize>)) ensures ops_of(v.push(x)) == ops_of(v).push(op_of(x)) { assert(ops_of(v.push(x)) =~= ops_of(v).push(op_of(x))); }
pub proof fn lemma_ops_pop(v: Seq<(Token, Option<usize>)>) requires v.len() > 0 ensures ops_of(v.drop_last()) == ops_of(v).drop_last(), ops_of(v).last() == op_of(v.last()) { assert(ops_of(v.drop_last()) =~= ops_of(v).drop_last()); }
pub proof fn lemma_funs_push(o: Seq<Op>, x: Op) ensures funs(o.push(x)) == funs(o) + (if x is Fun { 1nat } else { 0 }) { assert(o.push(x).drop_last() =~= o); }
pub proof fn lemma_funs_update(o: Seq<Op>, i: int, x: Op) requires 0 <= i < o.len(), o[i] is Fun, x is Fun ensures funs(o.update(i, x)) == funs(o) decreases o.len()
{ let u = o.update(i, x); if i == o.len() - 1 { assert(u.drop_last() =~= o.drop_last()); } else { assert(u.drop_last() =~= o.drop_last().update(i, x)); lemma_funs_update(o.drop_last(), i, x); } }
pub open spec fn limit() -> nat { 0x7fff_ffff }
#[verifier::external_body] pub fn array_name() -> (r: String) { unimplemented!() } // String::from("array")
// writing an operator keeps the state sound
pub proof fn lemma_emit(s: PS, k: nat)
    requires sound(s, k), s.ops.len() > 0, operator(s.ops.last())
    ensures sound(emit(s), k)
{
    let e = emit(s); assert(e.out.len() == s.out.len() + 1); assert(e.ops =~= s.ops.drop_last());
    assert forall|i: int| 0 <= i < e.ops.len() implies jump_ok(#[trigger] e.ops[i], e.out.len()) by { assert(jump_ok(s.ops[i], s.out.len())); }
    assert forall|i: int| 0 <= i < e.ops.len() implies build_ok(#[trigger] e.ops[i], k) by { assert(build_ok(s.ops[i], k)); }
}
pub proof fn lemma_counted(s: PS, k: nat) requires sound(s, k), k < limit() ensures sound(counted(s), (k + 1) as nat), counted(s).out == s.out, counted(s).ops.len() == s.ops.len(), counted(s).last == s.last, s.out.len() + s.ops.len() <= 2 * k
{
    let c = counted(s); let p = if s.ops.len() >= 2 { s.ops.len() - 2 } else { 0 };
    if s.args.len() > 0 && p < s.ops.len() { match s.ops[p] { Op::Fun(id, n) => { if id == ID_ARRAY_BUILD { assert(build_ok(s.ops[p], k)); lemma_funs_update(s.ops, p, Op::Fun(id, (n + 1) as u32)); } } _ => {} } }
    assert forall|i: int| 0 <= i < c.ops.len() implies jump_ok(#[trigger] c.ops[i], c.out.len()) by { assert(jump_ok(s.ops[i], s.out.len())); }
    assert forall|i: int| 0 <= i < c.ops.len() implies build_ok(#[trigger] c.ops[i], (k + 1) as nat) by { assert(build_ok(s.ops[i], k)); }
}
// more code, one more operator on the stack
pub proof fn lemma_push(s: PS, n: PS, o: Op, k: nat, m: nat)
    requires sound(s, k), k <= m, n.ops == s.ops.push(o), n.out.len() >= s.out.len(), n.out.len() + n.ops.len() <= 2 * m, jump_ok(o, n.out.len()), build_ok(o, m), n.args.len() == s.args.len() + (if o is Fun { 1nat } else { 0 })
    ensures sound(n, m)
{
    lemma_funs_push(s.ops, o);
    assert forall|i: int| 0 <= i < n.ops.len() implies jump_ok(#[trigger] n.ops[i], n.out.len()) by { if i < s.ops.len() { assert(jump_ok(s.ops[i], s.out.len())); } }
    assert forall|i: int| 0 <= i < n.ops.len() implies build_ok(#[trigger] n.ops[i], m) by { if i < s.ops.len() { assert(build_ok(s.ops[i], k)); } }
}
pub proof fn lemma_more(s: PS, n: PS, k: nat, m: nat)
    requires sound(s, k), k <= m, n.ops == s.ops, n.args.len() == s.args.len(), n.out.len() >= s.out.len(), n.out.len() + n.ops.len() <= 2 * m
    ensures sound(n, m)
{
    assert forall|i: int| 0 <= i < n.ops.len() implies jump_ok(#[trigger] n.ops[i], n.out.len()) by { assert(jump_ok(s.ops[i], s.out.len())); }
    assert forall|i: int| 0 <= i < n.ops.len() implies build_ok(#[trigger] n.ops[i], m) by { assert(build_ok(s.ops[i], k)); }
}
// a call written: its operator and its count of arguments leave the stacks
pub proof fn lemma_called(s: PS, n: PS, k: nat)
    requires sound(s, k), s.ops.len() > 0, s.ops.last() is Fun, n.ops == s.ops.drop_last(), n.args.len() + 1 == s.args.len(), n.out.len() == s.out.len() + 1
    ensures sound(n, k)
{
    assert forall|i: int| 0 <= i < n.ops.len() implies jump_ok(#[trigger] n.ops[i], n.out.len()) by { assert(jump_ok(s.ops[i], s.out.len())); }
    assert forall|i: int| 0 <= i < n.ops.len() implies build_ok(#[trigger] n.ops[i], k) by { assert(build_ok(s.ops[i], k)); }
}
// Vec::pop
pub fn pop_op(v: &mut Vec<(Token, Option<usize>)>) -> (r: Option<(Token, Option<usize>)>) ensures match r { Some(x) => old(v)@.len() > 0 && final(v)@ == old(v)@.drop_last() && x == old(v)@.last() && old(v)@ == final(v)@.push(x) && op_of(x) == ops_of(old(v)@).last() && ops_of(final(v)@) == ops_of(old(v)@).drop_last(), None => old(v)@.len() == 0 && final(v)@ == old(v)@ }
{ let ghost a = v@; let r = v.pop(); proof { if r is Some { assert(a.drop_last() =~= v@); assert(a =~= v@.push(r->0)); lemma_ops_pop(a); } } r }
pub proof fn lemma_drop(s: PS, k: nat) requires sound(s, k), s.ops.len() > 0, !(s.ops.last() is Fun) ensures sound(PS { ops: s.ops.drop_last(), ..s }, k)
{
    let n = PS { ops: s.ops.drop_last(), ..s };
    assert forall|i: int| 0 <= i < n.ops.len() implies jump_ok(#[trigger] n.ops[i], n.out.len()) by { assert(jump_ok(s.ops[i], s.out.len())); }
    assert forall|i: int| 0 <= i < n.ops.len() implies build_ok(#[trigger] n.ops[i], k) by { assert(build_ok(s.ops[i], k)); }
}
pub proof fn lemma_grow(s: PS, k: nat) requires sound(s, k) ensures sound(s, (k + 1) as nat)
{ assert forall|i: int| 0 <= i < s.ops.len() implies build_ok(#[trigger] s.ops[i], (k + 1) as nat) by { assert(build_ok(s.ops[i], k)); } }
pub open spec fn later(s: PS, t: Seq<Token>) -> Option<PS> { run(s, t) }
impl ExpressionParser {
//@fn src/compiler/grammar/expr/parser.rs ExpressionParser::update_jmp_pos
//@ spec
    requires jmp_pos is Some ==> jmp_pos->0 < old(self).output@.len() <= u32::MAX,
    ensures final(self).operator_stack == old(self).operator_stack, final(self).arg_count == old(self).arg_count, final(self).tokenizer == old(self).tokenizer,
        final(self).output@ == landed(old(self).output@, jmp_pos),
//@end
//@fn src/compiler/grammar/expr/parser.rs ExpressionParser::dec_arg_count
//@ spec
    ensures final(self).output == old(self).output, final(self).operator_stack == old(self).operator_stack, final(self).tokenizer == old(self).tokenizer,
        final(self).arg_count@ == discounted(old(self).arg_count@),
//@end
//@fn src/compiler/grammar/expr/parser.rs ExpressionParser::inc_arg_count
//@ replace "match self.operator_stack.get_mut(op_pos) { Some((Token::Function { num_args, id, .. }, _)) if *id == ID_ARRAY_BUILD => { *num_args += 1; } _ => {} }" => "if op_pos < self.operator_stack.len() { if let (Token::Function { num_args, id, .. }, _) = &mut self.operator_stack[op_pos] { if *id == ID_ARRAY_BUILD { *num_args += 1; } } }"
//@ spec
    requires exists|k: nat| k <= limit() && #[trigger] sound(ps(*old(self), true), k),
    ensures final(self).output == old(self).output, final(self).tokenizer == old(self).tokenizer,
        forall|last: bool| #[trigger] ps(*final(self), last) == counted(ps(*old(self), last)),
//@ at start
    let ghost o0 = self.operator_stack@;
    proof { if o0.len() > 0 { let p = if o0.len() >= 2 { o0.len() - 2 } else { 0 }; let k = choose|k: nat| k <= limit() && #[trigger] sound(ps(*self, true), k); assert(ps(*self, true).ops[p] == op_of(o0[p])); assert(build_ok(ps(*self, true).ops[p], k)); } }
//@ at end
    proof { assert(ops_of(self.operator_stack@) =~= counted(ps(*old(self), true)).ops); assert(forall|last: bool| #[trigger] counted(ps(*old(self), last)).ops == counted(ps(*old(self), true)).ops); assert(self.arg_count@ =~= counted(ps(*old(self), true)).args); }
//@end
//@fn src/compiler/grammar/expr/parser.rs ExpressionParser::parse
//@ ret r
//@ loops 5
//@ sig "mut self" => "&mut self"
//@ sig "Result<Self, String>" => "Result<(), String>"
//@ replace "Ok(self)" => "Ok(())"
//@ replace "Expression::Constant(n.into())" => "Expression::Constant(Constant::from_number(n))"
//@ replace "Expression::Constant(s.into())" => "Expression::Constant(Constant::from_text(s))"
//@ replace "t == expect_token" => "same_bracket(&t, &expect_token)"
//@ replace "\"Mismatched parentheses\".to_string()" => "message()"
//@ replace "\"Invalid token on the operator stack\".to_string()" => "message()"
//@ replace "if *id != u32::MAX { format!( \"Expression function {:?} expected {} arguments, got {}\", name, num_args, got_args ) } else { \"Missing array index\".to_string() }" => "message()"
//@ replace "String::from(\"array\")" => "array_name()"
//@ spec
    requires old(self).output@.len() == 0, old(self).operator_stack@.len() == 0, old(self).arg_count@.len() == 0, old(self).tokenizer@.len() < limit(),
    ensures r is Ok ==> run(start(), old(self).tokenizer@) is Some && final(self).output@ == run(start(), old(self).tokenizer@)->0.out,
//@ at start
    let ghost toks = self.tokenizer@; let ghost mut k: nat = 0;
    proof { let p = ps(*self, false); assert(p.out =~= seq![]); assert(p.ops =~= seq![]); assert(p.args =~= seq![]); }
//@ loop 0 while
    invariant k + self.tokenizer@.len() == toks.len(), toks.len() < limit(), sound(ps(*self, last_is_var_or_fnc), k),
        run(ps(*self, last_is_var_or_fnc), self.tokenizer@) == run(start(), toks),
    ensures self.tokenizer@.len() == 0,
    decreases self.tokenizer@.len(),
//@ at loop 0 start
    let ghost s0 = ps(*self, last_is_var_or_fnc); let ghost t0 = token; let ghost rest = self.tokenizer@; let ghost v0 = self.operator_stack@;
    let ghost mut mid = s0; let ghost mut midv = v0; let ghost l0 = last_is_var_or_fnc;
    proof { lemma_counted(s0, k); lemma_grow(s0, k); assert(sound(ps(*self, true), k)); }
//@ at before "self.arg_count.push(0);"
    proof { midv = self.operator_stack@; }
//@ at before "self.arg_count.push(arg_count);"
    proof { midv = self.operator_stack@; }
//@ loop 1 loop
    invariant_except_break k < limit(), bracket(expect_token), sound(ps(*self, l0), k), pop_operators(ps(*self, l0)) == pop_operators(s0), self.tokenizer@ == rest, mid == s0,
    ensures sound(ps(*self, l0), k), self.tokenizer@ == rest, ({ let p = pop_operators(s0); p.ops.len() > 0 && p.ops.last() == (if expect_token is OpenParen { Op::Paren } else { Op::Bracket }) && ps(*self, l0) == (PS { ops: p.ops.drop_last(), ..p }) }),
    decreases self.operator_stack@.len(),
//@ at loop 1 start
    let ghost b = ps(*self, l0); let ghost bv = self.operator_stack@;
    proof { if bv.len() > 0 { lemma_ops_pop(bv); assert(jump_ok(b.ops[b.ops.len() - 1], b.out.len())); if operator(b.ops.last()) { lemma_emit(b, k); } else if !(b.ops.last() is Fun) { lemma_drop(b, k); } } }
//@ at after loop 1
    proof { mid = ps(*self, l0); midv = self.operator_stack@; if midv.len() > 0 { lemma_ops_pop(midv); } }
//@ loop 2 while
    invariant k < limit(), sound(ps(*self, l0), k), pop_higher(ps(*self, l0), level(bop)) == pop_higher(PS { args: discounted(s0.args), ..s0 }, level(bop)), self.tokenizer@ == rest,
    ensures pop_higher(ps(*self, l0), level(bop)) == ps(*self, l0),
    decreases self.operator_stack@.len(),
//@ at loop 2 start
    let ghost b = ps(*self, l0); let ghost bv = self.operator_stack@;
    proof { lemma_ops_pop(bv); assert(jump_ok(b.ops[b.ops.len() - 1], b.out.len())); if operator(b.ops.last()) { lemma_emit(b, k); } }
//@ at after loop 2
    proof { mid = ps(*self, l0); midv = self.operator_stack@; }
//@ loop 3 while
    invariant k < limit(), sound(ps(*self, l0), k), pop_operators(ps(*self, l0)) == pop_operators(s0), self.tokenizer@ == rest,
    ensures pop_operators(ps(*self, l0)) == ps(*self, l0),
    decreases self.operator_stack@.len(),
//@ at loop 3 start
    let ghost b = ps(*self, l0); let ghost bv = self.operator_stack@;
    proof { lemma_ops_pop(bv); assert(jump_ok(b.ops[b.ops.len() - 1], b.out.len())); if operator(b.ops.last()) { lemma_emit(b, k); } }
//@ at loop 0 end
    proof {
        let n = ps(*self, last_is_var_or_fnc); let v = self.operator_stack@;
        if v.len() > 0 { lemma_ops_pop(v); if v.len() > 1 { lemma_ops_pop(v.drop_last()); } }
        match t0 {
            Token::Variable(_) | Token::Number(_) | Token::String(_) => { lemma_more(counted(s0), n, (k + 1) as nat, (k + 1) as nat); }
            Token::UnaryOperator(_) | Token::OpenParen => { assert(v.drop_last() =~= v0); assert(n.ops =~= s0.ops.push(op_of(v.last()))); lemma_push(s0, n, op_of(v.last()), k, (k + 1) as nat); }
            Token::CloseParen | Token::CloseBracket => { if mid.ops.len() > 0 && mid.ops.last() is Fun { lemma_called(mid, n, k); lemma_grow(n, k); assert(n.args =~= mid.args.drop_last()); assert(n.ops =~= mid.ops.drop_last()); } else { lemma_more(mid, n, k, (k + 1) as nat); } }
            Token::BinaryOperator(_) => { assert(v.drop_last() =~= midv); assert(n.ops =~= mid.ops.push(op_of(v.last()))); lemma_push(mid, n, op_of(v.last()), k, (k + 1) as nat); }
            Token::Function { .. } => { let c = counted(s0); assert(v.drop_last() =~= midv); assert(n.ops =~= c.ops.push(op_of(v.last()))); lemma_push(c, n, op_of(v.last()), (k + 1) as nat, (k + 1) as nat); }
            Token::OpenBracket => { let c = if l0 { s0 } else { counted(s0) }; let w = v.drop_last(); assert(w.drop_last() =~= midv);
                let f = op_of(w.last()); let m = PS { ops: c.ops.push(f), args: n.args, ..c }; assert(n.ops =~= m.ops.push(op_of(v.last())));
                lemma_push(c, m, f, if l0 { k } else { (k + 1) as nat }, (k + 1) as nat); lemma_push(m, n, Op::Bracket, (k + 1) as nat, (k + 1) as nat); }
            Token::Comma => { lemma_more(PS { last: n.last, ..n }, n, k, (k + 1) as nat); }
        }
        assert(step(s0, t0) == Some(n));
        k = k + 1;
    }
//@ at after loop 0
    let ghost l1 = last_is_var_or_fnc; let ghost e0 = ps(*self, l1);
//@ replace "self.operator_stack.pop()" => "pop_op(&mut self.operator_stack)"
//@ loop 4 while
    invariant k < limit(), sound(ps(*self, l1), k), pop_operators(ps(*self, l1)) == pop_operators(e0),
    ensures self.operator_stack@.len() == 0,
    decreases self.operator_stack@.len(),
//@ at loop 4 start
    let ghost pv = self.operator_stack@.push((token, jmp_pos)); let ghost b = PS { ops: ops_of(pv), ..ps(*self, l1) };
    proof { lemma_ops_pop(pv); assert(pv.drop_last() =~= self.operator_stack@); assert(jump_ok(b.ops[b.ops.len() - 1], b.out.len())); if operator(b.ops.last()) { lemma_emit(b, k); } }
//@end
}
// ---- expressions as trees: what the tokens say, by the documented precedence ----------------
// Comma(l, r) separates arguments, Nil is the empty argument list; Call and List hold their arguments, Index a base and an index
pub enum Tree { Leaf(Token), Un(UnaryOperator, Box<Tree>), Bin(BinaryOperator, Box<Tree>, Box<Tree>), Paren(Box<Tree>), Call(u32, String, u32, Box<Tree>), List(u32, Box<Tree>), Index(Box<Tree>, Box<Tree>), Comma(Box<Tree>, Box<Tree>), Nil }
pub open spec fn toks(t: Tree) -> Seq<Token> decreases t {
    match t {
        Tree::Leaf(x) => seq![x],
        Tree::Un(u, a) => seq![Token::UnaryOperator(u)] + toks(*a),
        Tree::Bin(b, l, r) => toks(*l) + (seq![Token::BinaryOperator(b)] + toks(*r)),
        Tree::Paren(a) => seq![Token::OpenParen] + (toks(*a) + seq![Token::CloseParen]),
        Tree::Call(id, name, n, a) => seq![Token::Function { id, name, num_args: n }] + (seq![Token::OpenParen] + (toks(*a) + seq![Token::CloseParen])),
        Tree::List(n, a) => seq![Token::OpenBracket] + (toks(*a) + seq![Token::CloseBracket]),
        Tree::Index(b, i) => toks(*b) + (seq![Token::OpenBracket] + (toks(*i) + seq![Token::CloseBracket])),
        Tree::Comma(l, r) => toks(*l) + (seq![Token::Comma] + toks(*r)),
        Tree::Nil => seq![],
    }
}
// how tightly the head of an expression binds
pub open spec fn head(t: Tree) -> int { match t { Tree::Bin(b, _, _) => level(b), Tree::Un(_, _) => 8, Tree::Comma(_, _) | Tree::Nil => 0, _ => 9 } }
pub open spec fn size(t: Tree) -> nat decreases t { match t { Tree::Comma(l, r) => size(*l) + size(*r), Tree::Nil => 0, _ => 1 } } // how many values
// values of a list that begin with an operand (not with an operator or a parenthesis)
pub open spec fn plain(t: Tree) -> nat decreases t { match t { Tree::Leaf(_) | Tree::Call(_, _, _, _) | Tree::List(_, _) => 1, Tree::Bin(_, l, _) => plain(*l), Tree::Index(b, _) => plain(*b), Tree::Comma(l, r) => plain(*l) + plain(*r), _ => 0 } }
pub open spec fn closed(t: Tree) -> bool { match t { Tree::Leaf(x) => x is Variable, Tree::Paren(_) | Tree::Call(_, _, _, _) | Tree::List(_, _) | Tree::Index(_, _) => true, _ => false } }
// well formed: operands bind tighter than their operator, operators of one level group to the left
pub open spec fn ok(t: Tree) -> bool decreases t {
    match t {
        Tree::Leaf(x) => x is Variable || x is Number || x is String,
        Tree::Un(_, a) => ok(*a) && head(*a) >= 8,
        Tree::Bin(b, l, r) => ok(*l) && ok(*r) && head(*l) >= level(b) && head(*r) > level(b),
        Tree::Paren(a) => ok(*a) && head(*a) >= 1,
        Tree::Call(id, _, n, a) => ok(*a) && size(*a) == n && n < limit() && id != ID_ARRAY_ACCESS && id != ID_ARRAY_BUILD,
        Tree::List(n, a) => ok(*a) && size(*a) == n && plain(*a) == n && n < limit(),
        Tree::Index(b, i) => ok(*b) && closed(*b) && ok(*i) && head(*i) >= 1,
        Tree::Comma(l, r) => ok(*l) && ok(*r) && size(*l) >= 1 && head(*r) >= 1,
        Tree::Nil => true,
    }
}
pub open spec fn leaf(x: Token) -> Expression { match x { Token::Variable(v) => Expression::Variable(v), Token::Number(n) => Expression::Constant(number_constant(n)), Token::String(s) => Expression::Constant(text_constant(s)), _ => arbitrary() } }
pub open spec fn skipping(b: BinaryOperator, n: nat) -> Seq<Expression> { match b { BinaryOperator::And => seq![Expression::JmpIf { val: false, pos: n as u32 }], BinaryOperator::Or => seq![Expression::JmpIf { val: true, pos: n as u32 }], _ => seq![] } }
// the code of an expression: operands, then the operator; && and || jump over their right side
pub open spec fn code(t: Tree) -> Seq<Expression> decreases t {
    match t {
        Tree::Leaf(x) => seq![leaf(x)],
        Tree::Un(u, a) => code(*a).push(Expression::UnaryOperator(u)),
        Tree::Bin(b, l, r) => (code(*l) + skipping(b, code(*r).len() + 1) + code(*r)).push(Expression::BinaryOperator(b)),
        Tree::Paren(a) => code(*a),
        Tree::Call(id, _, n, a) => code(*a).push(called(id, n)),
        Tree::List(n, a) => code(*a).push(Expression::ArrayBuild(n)),
        Tree::Index(b, i) => (code(*b) + code(*i)).push(Expression::ArrayAccess),
        Tree::Comma(l, r) => code(*l) + code(*r),
        Tree::Nil => seq![],
    }
}
// what is written when the last token of the expression has been read, and which operators wait
pub open spec fn pre(t: Tree) -> Seq<Expression> decreases t {
    match t { Tree::Un(_, a) => pre(*a), Tree::Bin(b, l, r) => code(*l) + skipping(b, 0) + pre(*r), Tree::Comma(l, r) => code(*l) + pre(*r), _ => code(t) }
}
pub open spec fn site(b: BinaryOperator, at: nat) -> Option<usize> { match b { BinaryOperator::And | BinaryOperator::Or => Some(at as usize), _ => None } }
pub open spec fn pend(t: Tree, at: nat) -> Seq<Op> decreases t {
    match t {
        Tree::Un(u, a) => seq![Op::Un(u)] + pend(*a, at),
        Tree::Bin(b, l, r) => seq![Op::Bin(b, site(b, at + code(*l).len()))] + pend(*r, at + code(*l).len() + skipping(b, 0).len()),
        Tree::Comma(l, r) => pend(*r, at + code(*l).len()),
        _ => seq![],
    }
}
pub open spec fn ends(t: Tree) -> bool decreases t { match t { Tree::Un(_, a) => ends(*a), Tree::Bin(_, _, r) => ends(*r), Tree::Comma(_, r) => ends(*r), _ => closed(t) } }
// operator stacks: a list under construction is always followed by its bracket
pub open spec fn paired(o: Seq<Op>) -> bool { forall|i: int| 0 <= i < o.len() && (#[trigger] o[i] is Fun) && o[i]->Fun_0 == ID_ARRAY_BUILD ==> i + 1 < o.len() && o[i + 1] is Bracket }
pub open spec fn ctx(o: Seq<Op>) -> int { if o.len() == 0 { 0 } else { match o.last() { Op::Bin(b, _) => level(b), Op::Un(_) => 7, _ => if o.len() >= 2 && o[o.len() - 2] is Fun { -1 } else { 0 } } } }
pub open spec fn in_list(o: Seq<Op>) -> bool { o.len() >= 2 && o[o.len() - 2] is Fun && o[o.len() - 2]->Fun_0 == ID_ARRAY_BUILD }
pub open spec fn more_ops(o: Seq<Op>, k: nat) -> Seq<Op> { if in_list(o) { o.update(o.len() - 2, Op::Fun(ID_ARRAY_BUILD, (o[o.len() - 2]->Fun_1 + k) as u32)) } else { o } }
pub open spec fn more_args(a: Seq<i32>, k: nat) -> Seq<i32> { if a.len() == 0 { a } else { a.drop_last().push((a.last() + k) as i32) } }
// ready to read an operand
pub open spec fn ready(s: PS, k: nat) -> bool {
    &&& paired(s.ops) && !s.last
    &&& s.ops.len() > 0 ==> !(s.ops.last() is Fun)
    &&& s.args.len() > 0 ==> 0 <= s.args.last() && s.args.last() + k <= limit()
    &&& in_list(s.ops) ==> s.ops[s.ops.len() - 2]->Fun_1 + k <= limit() && s.args.len() > 0
}
pub open spec fn read(s: PS, t: Tree) -> PS { PS { out: s.out + pre(t), ops: more_ops(s.ops, plain(t)) + pend(t, s.out.len()), args: more_args(s.args, size(t)), last: ends(t) } }
pub proof fn lemma_run(s: PS, x: Token, rest: Seq<Token>) ensures run(s, seq![x] + rest) == (match step(s, x) { Some(n) => run(n, rest), None => None })
{ let t = seq![x] + rest; assert(t[0] == x); assert(t.skip(1) =~= rest); }
pub proof fn lemma_plain(t: Tree) requires ok(t) ensures plain(t) <= size(t) decreases t { match t { Tree::Bin(_, l, _) => { lemma_plain(*l); lemma_head(*l); } Tree::Index(b, _) => { lemma_plain(*b); } Tree::Comma(l, r) => { lemma_plain(*l); lemma_plain(*r); } _ => {} } }
pub proof fn lemma_pop_all(s: PS) ensures pop_operators(s) == pop_higher(s, 0) decreases s.ops.len()
{ if s.ops.len() > 0 && operator(s.ops.last()) { if s.ops.last() is Bin { assert(0 <= level(s.ops.last()->Bin_0)); } lemma_pop_all(emit(s)); } }
pub open spec fn written(s: PS, t: Tree) -> PS { PS { out: s.out + code(t), ..s } }
pub open spec fn waiting(s: PS, t: Tree) -> PS { PS { out: s.out + pre(t), ops: s.ops + pend(t, s.out.len()), ..s } }
pub proof fn lemma_lengths(t: Tree) ensures pre(t).len() <= code(t).len() decreases t { match t { Tree::Un(_, a) => lemma_lengths(*a), Tree::Bin(_, _, r) => lemma_lengths(*r), Tree::Comma(_, r) => lemma_lengths(*r), _ => {} } }
// the operators an expression leaves waiting are written before any that bind no tighter than its head
pub proof fn lemma_flush(s: PS, t: Tree, l: int)
    requires ok(t), l <= head(t), s.out.len() + code(t).len() <= usize::MAX
    ensures pop_higher(waiting(s, t), l) == pop_higher(written(s, t), l)
    decreases t, 1int
{
    match t {
        Tree::Un(u, a) => {
            let m = PS { ops: s.ops.push(Op::Un(u)), ..s };
            assert(waiting(s, t).ops =~= waiting(m, *a).ops);
            lemma_flush(m, *a, l);
            let w = written(m, *a); assert(w.ops.last() == Op::Un(u));
            assert(emit(w).ops =~= s.ops); assert(emit(w).out =~= s.out + code(t));
        }
        Tree::Bin(b, x, y) => {
            lemma_flush_bin(s, t, l, b, *x, *y);
        }
        Tree::Comma(x, y) => {
            let m = PS { out: s.out + code(*x), ..s };
            assert(waiting(s, t).out =~= waiting(m, *y).out);
            lemma_flush(m, *y, l);
            assert(written(s, t).out =~= written(m, *y).out);
        }
        _ => { assert(waiting(s, t).ops =~= s.ops); }
    }
}
pub proof fn lemma_flush_bin(s: PS, t: Tree, l: int, b: BinaryOperator, x: Tree, y: Tree)
    requires ok(t), l <= head(t), s.out.len() + code(t).len() <= usize::MAX, t == Tree::Bin(b, Box::new(x), Box::new(y))
    ensures pop_higher(waiting(s, t), l) == pop_higher(written(s, t), l)
    decreases t, 0int
{
            let j = site(b, s.out.len() + code(x).len());
            let m = PS { out: s.out + code(x) + skipping(b, 0), ops: s.ops.push(Op::Bin(b, j)), ..s };
            assert(m.out.len() == s.out.len() + code(x).len() + skipping(b, 0).len());
            assert(waiting(s, t).ops =~= waiting(m, y).ops); assert(waiting(s, t).out =~= waiting(m, y).out);
            lemma_flush(m, y, l);
            let w = written(m, y); assert(w.ops.last() == Op::Bin(b, j));
            assert(emit(w).ops =~= s.ops);
            let k = s.out.len() + code(x).len();
            if j is Some { assert(j->0 == k); assert(w.out[k as int] == skipping(b, 0)[0]); assert((w.out.len() - j->0) as u32 == (code(y).len() + 1) as u32);
                assert(landed(w.out, j) =~= s.out + (code(x) + skipping(b, code(y).len() + 1) + code(y))); }
            assert(emit(w).out =~= s.out + code(t));
        }
pub proof fn lemma_head(t: Tree) ensures head(t) >= 1 ==> size(t) == 1, head(t) >= 0 {}
pub proof fn lemma_bump(s: PS, k: nat) requires ready(s, k), k >= 1 ensures counted(s) == (PS { ops: more_ops(s.ops, 1), args: more_args(s.args, 1), ..s })
{ let o = s.ops; if o.len() == 1 { assert(o[0] == o.last()); } if o.len() >= 2 && !in_list(o) { } assert(counted(s).ops =~= more_ops(o, 1)); assert(counted(s).args =~= more_args(s.args, 1)); }
pub proof fn lemma_same(s: PS, k: nat) requires ready(s, k) ensures more_ops(s.ops, 0) == s.ops, more_args(s.args, 0) == s.args
{ assert(more_ops(s.ops, 0) =~= s.ops); assert(more_args(s.args, 0) =~= s.args); }
pub proof fn lemma_paired(o: Seq<Op>, k: nat) requires paired(o) ensures paired(more_ops(o, k)), more_ops(o, k).len() == o.len(), o.len() > 0 ==> more_ops(o, k).last() == o.last(), ctx(more_ops(o, k)) == ctx(o), in_list(more_ops(o, k)) == in_list(o)
{ let m = more_ops(o, k); assert forall|i: int| 0 <= i < m.len() && (#[trigger] m[i] is Fun) && m[i]->Fun_0 == ID_ARRAY_BUILD implies i + 1 < m.len() && m[i + 1] is Bracket by { assert(o[i] is Fun && o[i]->Fun_0 == ID_ARRAY_BUILD); } }
pub proof fn lemma_paired_push(o: Seq<Op>, x: Op) requires paired(o), !(x is Fun) || x->Fun_0 != ID_ARRAY_BUILD ensures paired(o.push(x))
{ let m = o.push(x); assert forall|i: int| 0 <= i < m.len() && (#[trigger] m[i] is Fun) && m[i]->Fun_0 == ID_ARRAY_BUILD implies i + 1 < m.len() && m[i + 1] is Bracket by { assert(m[i] == o[i]); assert(o[i + 1] is Bracket); } }
pub proof fn lemma_paired_list(o: Seq<Op>) requires paired(o) ensures paired(o.push(Op::Fun(ID_ARRAY_BUILD, 0)).push(Op::Bracket))
{ let m = o.push(Op::Fun(ID_ARRAY_BUILD, 0)).push(Op::Bracket); assert forall|i: int| 0 <= i < m.len() && (#[trigger] m[i] is Fun) && m[i]->Fun_0 == ID_ARRAY_BUILD implies i + 1 < m.len() && m[i + 1] is Bracket by { if i < o.len() { assert(m[i] == o[i]); assert(o[i + 1] is Bracket); } } }
// reading an expression in parentheses or brackets, up to its closing one
pub proof fn lemma_close(s: PS, open: Op, a: Tree)
    requires s.ops.len() > 0, s.ops.last() == open, open is Paren || open is Bracket, ok(a), s.out.len() + code(a).len() <= usize::MAX
    ensures pop_operators(waiting(s, a)) == written(s, a)
{ lemma_pop_all(waiting(s, a)); lemma_head(a); lemma_flush(s, a, 0); }
pub open spec fn fits(s: PS, t: Tree) -> bool { ok(t) && ready(s, size(t)) && ctx(s.ops) < head(t) && s.out.len() + code(t).len() <= usize::MAX }
// reading the tokens of an expression writes its code, all but the operators that wait
pub proof fn lemma_read(s: PS, t: Tree, rest: Seq<Token>)
    requires fits(s, t)
    ensures run(s, toks(t) + rest) == run(read(s, t), rest)
    decreases t, 1int
{
    lemma_same(s, size(t)); lemma_paired(s.ops, plain(t)); lemma_lengths(t); lemma_plain(t);
    match t {
        Tree::Leaf(x) => { lemma_run(s, x, rest); lemma_bump(s, 1); let n = step(s, x)->0; assert(n.out =~= read(s, t).out); assert(n.ops =~= read(s, t).ops); }
        Tree::Nil => { assert(toks(t) + rest =~= rest); assert(read(s, t).out =~= s.out); assert(read(s, t).ops =~= s.ops); }
        Tree::Un(u, a) => {
            let m = PS { ops: s.ops.push(Op::Un(u)), last: false, ..s }; lemma_paired_push(s.ops, Op::Un(u)); lemma_head(*a);
            assert(toks(t) + rest =~= seq![Token::UnaryOperator(u)] + (toks(*a) + rest));
            lemma_run(s, Token::UnaryOperator(u), toks(*a) + rest);
            lemma_read(m, *a, rest);
            assert(read(m, *a).ops =~= read(s, t).ops);
        }
        Tree::Paren(a) => {
            let m = PS { ops: s.ops.push(Op::Paren), last: false, ..s }; lemma_paired_push(s.ops, Op::Paren); lemma_head(*a);
            let tail = seq![Token::CloseParen] + rest;
            assert(toks(t) + rest =~= seq![Token::OpenParen] + (toks(*a) + tail));
            lemma_run(s, Token::OpenParen, toks(*a) + tail);
            lemma_read(m, *a, tail);
            let n = read(m, *a); let b = PS { args: n.args, last: n.last, ..m };
            assert(n.ops =~= waiting(b, *a).ops);
            lemma_close(b, Op::Paren, *a); lemma_run(n, Token::CloseParen, rest);
            assert(b.ops.drop_last() =~= s.ops); assert(read(s, t).ops =~= s.ops);
            assert(step(n, Token::CloseParen) == Some(read(s, t)));
        }
        Tree::Call(id, name, n, a) => { lemma_read_call(s, t, rest, id, name, n, *a); }
        Tree::List(n, a) => { lemma_read_list(s, t, rest, n, *a); }
        Tree::Index(b, i) => { lemma_read_index(s, t, rest, *b, *i); }
        Tree::Bin(b, x, y) => { lemma_read_bin(s, t, rest, b, *x, *y); }
        Tree::Comma(x, y) => { lemma_read_comma(s, t, rest, *x, *y); }
    }
}
pub proof fn lemma_read_call(s: PS, t: Tree, rest: Seq<Token>, id: u32, name: String, n: u32, a: Tree)
    requires fits(s, t), t == Tree::Call(id, name, n, Box::new(a)) ensures run(s, toks(t) + rest) == run(read(s, t), rest) decreases t, 0int
{
    lemma_bump(s, 1); lemma_paired(s.ops, 1);
    let c = counted(s); let f = Token::Function { id, name, num_args: n }; let o = Op::Fun(id, n);
    let m1 = PS { args: c.args.push(0), ops: c.ops.push(o), last: false, ..c }; let m = PS { ops: m1.ops.push(Op::Paren), ..m1 };
    lemma_paired_push(c.ops, o); lemma_paired_push(m1.ops, Op::Paren); lemma_head(a);
    let tail = seq![Token::CloseParen] + rest; let u = seq![Token::OpenParen] + (toks(a) + tail);
    assert(toks(t) + rest =~= seq![f] + u);
    lemma_run(s, f, u); lemma_run(m1, Token::OpenParen, toks(a) + tail);
    assert(m.ops[m.ops.len() - 2] == o);
    lemma_read(m, a, tail); lemma_lengths(a);
    let r = read(m, a); let b = PS { args: r.args, last: r.last, ..m };
    assert(r.ops =~= waiting(b, a).ops);
    lemma_close(b, Op::Paren, a); lemma_run(r, Token::CloseParen, rest);
    assert(b.ops.drop_last() =~= m1.ops); assert(m1.ops.last() == o); assert(m1.ops.drop_last() =~= c.ops);
    assert(r.args.last() == n as i32); assert(r.args.drop_last() =~= c.args);
    let e = read(s, t); let g = step(r, Token::CloseParen)->0;
    assert(e.ops =~= g.ops); assert(e.out =~= g.out);
}
pub proof fn lemma_read_list(s: PS, t: Tree, rest: Seq<Token>, n: u32, a: Tree)
    requires fits(s, t), t == Tree::List(n, Box::new(a)) ensures run(s, toks(t) + rest) == run(read(s, t), rest) decreases t, 0int
{
    lemma_bump(s, 1); lemma_paired(s.ops, 1);
    let c = counted(s); let o = Op::Fun(ID_ARRAY_BUILD, 0); let o2 = Op::Fun(ID_ARRAY_BUILD, n);
    let m = PS { args: c.args.push(0), ops: c.ops.push(o).push(Op::Bracket), last: false, ..c };
    lemma_paired_list(c.ops); lemma_head(a);
    let tail = seq![Token::CloseBracket] + rest;
    assert(toks(t) + rest =~= seq![Token::OpenBracket] + (toks(a) + tail));
    lemma_run(s, Token::OpenBracket, toks(a) + tail);
    assert(m.ops[m.ops.len() - 2] == o);
    lemma_read(m, a, tail); lemma_lengths(a);
    let r = read(m, a); let b = PS { args: r.args, last: r.last, ops: c.ops.push(o2).push(Op::Bracket), ..m };
    assert(more_ops(m.ops, n as nat) =~= b.ops);
    assert(r.ops =~= waiting(b, a).ops);
    lemma_close(b, Op::Bracket, a); lemma_run(r, Token::CloseBracket, rest);
    assert(b.ops.drop_last() =~= c.ops.push(o2)); assert(c.ops.push(o2).last() == o2); assert(c.ops.push(o2).drop_last() =~= c.ops);
    assert(r.args.last() == n as i32); assert(r.args.drop_last() =~= c.args);
    let e = read(s, t); let g = step(r, Token::CloseBracket)->0;
    assert(e.ops =~= g.ops); assert(e.out =~= g.out);
}
pub proof fn lemma_read_index(s: PS, t: Tree, rest: Seq<Token>, x: Tree, i: Tree)
    requires fits(s, t), t == Tree::Index(Box::new(x), Box::new(i)) ensures run(s, toks(t) + rest) == run(read(s, t), rest) decreases t, 0int
{
    let tail = seq![Token::CloseBracket] + rest; let u = seq![Token::OpenBracket] + (toks(i) + tail);
    assert(toks(t) + rest =~= toks(x) + u);
    lemma_head(x); lemma_head(i);
    lemma_read(s, x, u); lemma_paired(s.ops, plain(x));
    let c = read(s, x); assert(c.ops =~= more_ops(s.ops, plain(x)));
    let o = Op::Fun(ID_ARRAY_ACCESS, 2); let m1 = c.ops.push(o);
    let m = PS { args: c.args.push(1), ops: m1.push(Op::Bracket), last: false, ..c };
    lemma_paired_push(c.ops, o); lemma_paired_push(m1, Op::Bracket);
    lemma_run(c, Token::OpenBracket, toks(i) + tail);
    assert(m.ops[m.ops.len() - 2] == o);
    lemma_read(m, i, tail); lemma_lengths(i);
    let r = read(m, i); let b = PS { args: r.args, last: r.last, ..m };
    assert(r.ops =~= waiting(b, i).ops);
    lemma_close(b, Op::Bracket, i); lemma_run(r, Token::CloseBracket, rest);
    assert(b.ops.drop_last() =~= m1); assert(m1.last() == o); assert(m1.drop_last() =~= c.ops);
    assert(r.args.last() == 2); assert(r.args.drop_last() =~= c.args);
    let e = read(s, t); let g = step(r, Token::CloseBracket)->0;
    assert(e.ops =~= g.ops); assert(e.out =~= g.out);
}
pub proof fn lemma_read_bin(s: PS, t: Tree, rest: Seq<Token>, bo: BinaryOperator, x: Tree, y: Tree)
    requires fits(s, t), t == Tree::Bin(bo, Box::new(x), Box::new(y)) ensures run(s, toks(t) + rest) == run(read(s, t), rest) decreases t, 0int
{
    let tail = toks(y) + rest;
    assert(toks(t) + rest =~= toks(x) + (seq![Token::BinaryOperator(bo)] + tail));
    lemma_head(x); lemma_head(y); lemma_paired(s.ops, plain(x)); lemma_plain(x); lemma_plain(y); lemma_lengths(x); lemma_lengths(y);
    lemma_read(s, x, seq![Token::BinaryOperator(bo)] + tail);
    let n = read(s, x); lemma_run(n, Token::BinaryOperator(bo), tail);
    let b = PS { ops: more_ops(s.ops, plain(x)), last: ends(x), ..s };
    let d = PS { args: discounted(n.args), ..n };
    assert(discounted(n.args) =~= s.args);
    assert(d =~= waiting(b, x)); assert(d.ops =~= waiting(b, x).ops);
    lemma_flush(b, x, level(bo));
    let w = written(b, x);
    assert(pop_higher(w, level(bo)) == w) by { assert(ctx(w.ops) == ctx(s.ops)); }
    let m = jump(w, bo);
    assert(m.ops =~= w.ops.push(Op::Bin(bo, site(bo, w.out.len())))); assert(m.out =~= w.out + skipping(bo, 0));
    lemma_paired_push(w.ops, Op::Bin(bo, site(bo, w.out.len())));
    lemma_read(m, y, rest);
    assert(read(m, y).ops =~= read(s, t).ops); assert(read(m, y).out =~= read(s, t).out); assert(read(m, y).args =~= read(s, t).args);
}
pub proof fn lemma_read_comma(s: PS, t: Tree, rest: Seq<Token>, x: Tree, y: Tree)
    requires fits(s, t), t == Tree::Comma(Box::new(x), Box::new(y)) ensures run(s, toks(t) + rest) == run(read(s, t), rest) decreases t, 0int
{
    let tail = toks(y) + rest;
    assert(toks(t) + rest =~= toks(x) + (seq![Token::Comma] + tail));
    lemma_head(x); lemma_head(y); lemma_paired(s.ops, plain(x)); lemma_plain(x); lemma_plain(y); lemma_lengths(x); lemma_lengths(y);
    lemma_read(s, x, seq![Token::Comma] + tail);
    let n = read(s, x); lemma_run(n, Token::Comma, tail);
    let b = PS { ops: more_ops(s.ops, plain(x)), args: n.args, last: ends(x), ..s };
    assert(n.ops =~= waiting(b, x).ops);
    lemma_pop_all(n); lemma_flush(b, x, 0); lemma_pop_all(written(b, x));
    let m = PS { last: false, ..written(b, x) };
    assert(ctx(m.ops) == -1);
    assert(pop_operators(written(b, x)) == written(b, x));
    lemma_read(m, y, rest);
    assert(more_ops(m.ops, plain(y)) =~= more_ops(s.ops, plain(x) + plain(y))); assert(more_args(m.args, size(y)) =~= more_args(s.args, size(t)));
    assert(read(m, y).ops =~= read(s, t).ops); assert(read(m, y).out =~= read(s, t).out);
}
// the compiler turns the tokens of every expression into its code
pub proof fn lemma_compiled(t: Tree)
    requires ok(t), head(t) >= 1, code(t).len() <= usize::MAX
    ensures run(start(), toks(t)) is Some, run(start(), toks(t))->0.out == code(t)
{
    let s = start(); let none = Seq::<Token>::empty();
    lemma_head(t); assert(toks(t) + none =~= toks(t));
    lemma_read(s, t, none);
    let r = read(s, t); let b = PS { args: r.args, last: r.last, ..s };
    lemma_pop_all(r); assert(r.ops =~= waiting(b, t).ops); lemma_flush(b, t, 0); lemma_pop_all(written(b, t)); assert(written(b, t).out =~= code(t));
}
// ---- and that code yields the value of the expression ---------------------------------------
// (functions of the host that suspend the script are left to eval_expression's own contract)
pub open spec fn inside(t: Tree, c: Env) -> bool decreases t {
    match t { Tree::Un(_, a) | Tree::Paren(a) | Tree::List(_, a) => inside(*a, c), Tree::Bin(_, x, y) | Tree::Index(x, y) | Tree::Comma(x, y) => inside(*x, c) && inside(*y, c), Tree::Call(id, _, _, a) => id < c.fns.len() && inside(*a, c), _ => true }
}
pub open spec fn leaf_value(c: Env, x: Token) -> Variable { match leaf(x) { Expression::Variable(v) => lookup(c, v), Expression::Constant(k) => constant(k), _ => empty_value() } }
// && yields its left side when that is false, || when that is true; everything else is computed from both sides
pub open spec fn values(c: Env, t: Tree) -> Seq<Variable> decreases t {
    match t {
        Tree::Leaf(x) => seq![leaf_value(c, x)],
        Tree::Un(u, a) => seq![match u { UnaryOperator::Not => not_(values(c, *a)[0]), UnaryOperator::Minus => neg(values(c, *a)[0]) }],
        Tree::Bin(b, x, y) => { let l = values(c, *x)[0]; if (b is And && !truth(l)) || (b is Or && truth(l)) { seq![l] } else { seq![bin(b, l, values(c, *y)[0])] } }
        Tree::Paren(a) => values(c, *a),
        Tree::Call(id, _, _, a) => seq![host_result(c.fns[id as int], c, values(c, *a))],
        Tree::List(_, a) => seq![list_of(values(c, *a))],
        Tree::Index(b, i) => seq![nth_or_empty(elements(values(c, *b)[0]), index_of(values(c, *i)[0]) as int)],
        Tree::Comma(x, y) => values(c, *x) + values(c, *y),
        Tree::Nil => seq![],
    }
}
pub proof fn lemma_count(c: Env, t: Tree) requires ok(t) ensures values(c, t).len() == size(t) decreases t
{ match t { Tree::Comma(x, y) => { lemma_count(c, *x); lemma_count(c, *y); } Tree::Paren(a) => { lemma_count(c, *a); lemma_head(*a); } _ => {} } }
pub proof fn lemma_take(s: Seq<Variable>, v: Seq<Variable>) ensures taken(s + v, v.len()) == v, downn(s + v, v.len()) == s decreases v.len()
{
    if v.len() == 0 { assert(s + v =~= s); assert(v =~= seq![]); } else { let w = v.drop_last(); assert((s + v).drop_last() =~= s + w); assert((s + v).last() == v.last()); lemma_take(s, w); assert(w.push(v.last()) =~= v); }
}
pub open spec fn at(e: Seq<Expression>, p: int, x: Seq<Expression>) -> bool { 0 <= p && p + x.len() <= e.len() && forall|i: int| 0 <= i < x.len() ==> #[trigger] e[p + i] == x[i] }
pub proof fn lemma_at(e: Seq<Expression>, p: int, x: Seq<Expression>, y: Seq<Expression>) requires at(e, p, x + y) ensures at(e, p, x), at(e, p + x.len(), y)
{
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] e[p + i] == x[i] by { assert((x + y)[i] == x[i]); }
    assert forall|i: int| 0 <= i < y.len() implies #[trigger] e[p + x.len() + i] == y[i] by { assert((x + y)[x.len() + i] == y[i]); assert(e[p + (x.len() + i)] == y[i]); }
}
pub proof fn lemma_one(e: Seq<Expression>, p: int, x: Seq<Expression>, o: Expression) requires at(e, p, x.push(o)) ensures at(e, p, x), e[p + x.len()] == o, p + x.len() < e.len()
{ assert(x.push(o) =~= x + seq![o]); lemma_at(e, p, x, seq![o]); assert(e[p + x.len() + 0] == o); }
pub proof fn lemma_value(c: Env, e: Seq<Expression>, p: int, t: Tree, s: Seq<Variable>)
    requires ok(t), inside(t, c), code(t).len() < u32::MAX, at(e, p, code(t))
    ensures meaning(c, e, p, s) == meaning(c, e, p + code(t).len(), s + values(c, t))
    decreases t, 1int
{
    let v = values(c, t); lemma_count(c, t);
    match t {
        Tree::Leaf(x) => { assert(e[p + 0] == code(t)[0]); assert(s + v =~= s.push(v[0])); }
        Tree::Nil => { assert(s + v =~= s); }
        Tree::Paren(a) => { lemma_value(c, e, p, *a, s); }
        Tree::Un(u, a) => {
            lemma_head(*a); lemma_count(c, *a);
            lemma_one(e, p, code(*a), Expression::UnaryOperator(u)); lemma_value(c, e, p, *a, s);
            let m = s + values(c, *a); assert(m.last() == values(c, *a)[0]); assert(down(m) =~= s); assert(s + v =~= s.push(v[0]));
        }
        Tree::Call(id, _, n, a) => {
            lemma_count(c, *a); lemma_one(e, p, code(*a), called(id, n)); lemma_value(c, e, p, *a, s);
            lemma_take(s, values(c, *a)); assert(s + v =~= s.push(v[0]));
        }
        Tree::List(n, a) => {
            lemma_count(c, *a); lemma_one(e, p, code(*a), Expression::ArrayBuild(n)); lemma_value(c, e, p, *a, s);
            lemma_take(s, values(c, *a)); assert(s + v =~= s.push(v[0]));
        }
        Tree::Index(b, i) => { lemma_value_index(c, e, p, t, s, *b, *i); }
        Tree::Comma(x, y) => { lemma_value_comma(c, e, p, t, s, *x, *y); }
        Tree::Bin(b, x, y) => { lemma_value_bin(c, e, p, t, s, b, *x, *y); }
    }
}
pub proof fn lemma_value_bin(c: Env, e: Seq<Expression>, p: int, t: Tree, s: Seq<Variable>, b: BinaryOperator, x: Tree, y: Tree)
    requires ok(t), inside(t, c), code(t).len() < u32::MAX, at(e, p, code(t)), t == Tree::Bin(b, Box::new(x), Box::new(y))
    ensures meaning(c, e, p, s) == meaning(c, e, p + code(t).len(), s + values(c, t))
    decreases t, 0int
{
    let v = values(c, t); lemma_count(c, t);
            lemma_head(x); lemma_head(y); lemma_count(c, x); lemma_count(c, y);
            let k = skipping(b, code(y).len() + 1);
            lemma_one(e, p, code(x) + k + code(y), Expression::BinaryOperator(b)); lemma_at(e, p, code(x) + k, code(y)); lemma_at(e, p, code(x), k);
            lemma_value(c, e, p, x, s); let l = values(c, x)[0]; let m = s + values(c, x); let q = p + code(x).len();
            assert(m.last() == l); assert(down(m) =~= s); assert(s + v =~= s.push(v[0]));
            if k.len() > 0 { assert(e[q + 0] == k[0]); }
            if (b is And && !truth(l)) || (b is Or && truth(l)) { assert(s + v =~= m); } else {
                assert(meaning(c, e, q, m) == meaning(c, e, q + k.len(), m));
                lemma_value(c, e, q + k.len(), y, m); let n = m + values(c, y);
                assert(n.last() == values(c, y)[0]); assert(down(n) =~= m);
            }
        }
pub proof fn lemma_value_index(c: Env, e: Seq<Expression>, p: int, t: Tree, s: Seq<Variable>, b: Tree, i: Tree)
    requires ok(t), inside(t, c), code(t).len() < u32::MAX, at(e, p, code(t)), t == Tree::Index(Box::new(b), Box::new(i))
    ensures meaning(c, e, p, s) == meaning(c, e, p + code(t).len(), s + values(c, t))
    decreases t, 0int
{
    let v = values(c, t); lemma_count(c, t);
            lemma_head(b); lemma_head(i); lemma_count(c, b); lemma_count(c, i);
            lemma_one(e, p, code(b) + code(i), Expression::ArrayAccess); lemma_at(e, p, code(b), code(i));
            lemma_value(c, e, p, b, s); let m = s + values(c, b);
            lemma_value(c, e, p + code(b).len(), i, m); let n = m + values(c, i);
            assert(n.last() == values(c, i)[0]); assert(down(n) =~= m); assert(m.last() == values(c, b)[0]); assert(down(m) =~= s); assert(s + v =~= s.push(v[0]));
        }
pub proof fn lemma_value_comma(c: Env, e: Seq<Expression>, p: int, t: Tree, s: Seq<Variable>, x: Tree, y: Tree)
    requires ok(t), inside(t, c), code(t).len() < u32::MAX, at(e, p, code(t)), t == Tree::Comma(Box::new(x), Box::new(y))
    ensures meaning(c, e, p, s) == meaning(c, e, p + code(t).len(), s + values(c, t))
    decreases t, 0int
{
    let v = values(c, t); lemma_count(c, t);
            lemma_at(e, p, code(x), code(y)); lemma_value(c, e, p, x, s); let m = s + values(c, x);
            lemma_value(c, e, p + code(x).len(), y, m); assert(m + values(c, y) =~= s + v);
        }
// compiled and run, an expression yields its value
pub proof fn lemma_expression(c: Env, t: Tree)
    requires ok(t), head(t) >= 1, inside(t, c), code(t).len() < u32::MAX
    ensures run(start(), toks(t)) is Some, meaning(c, run(start(), toks(t))->0.out, 0, seq![]) == Out::Value(values(c, t)[0])
{
    lemma_compiled(t); lemma_head(t); lemma_count(c, t);
    lemma_value(c, code(t), 0, t, seq![]); assert(seq![] + values(c, t) =~= values(c, t));
}
}
fn main() {}
