use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@type src/compiler/mod.rs Number
//@end
//@type src/compiler/grammar/mod.rs RelationalMatch
//@end
//@type src/compiler/grammar/mod.rs MatchType
//@end
#[verifier::external_body] pub struct Value { x: u8 }
#[verifier::external_body] pub struct Comparator { x: u8 }
#[verifier::external_body] pub struct MatchAs { x: u8 }
#[verifier::external_body] pub struct Vars { x: u8 }
//@type src/lib.rs Event
//@ keep ListContains
//@end
pub enum RuntimeError { InvalidInstruction }
//@type src/runtime/tests/mod.rs TestResult
//@end
//@type src/compiler/grammar/tests/test_string.rs TestString
//@end
pub struct TestEnvelope { pub match_type: MatchType, pub comparator: Comparator, pub is_not: bool }
pub struct TestHeader { pub match_type: MatchType, pub comparator: Comparator, pub is_not: bool }
pub struct Context { pub vars: Vars }
// ---- one value against one key: decided by the comparators (C06, C07, C10) --------------------
pub uninterp spec fn value_of(c: Context, v: Value) -> Variable;
pub uninterp spec fn is_m(c: Comparator, a: Variable, b: Variable) -> bool;
pub uninterp spec fn contains_m(c: Comparator, a: Seq<char>, b: Seq<char>) -> bool;
pub uninterp spec fn rel_m(c: Comparator, r: RelationalMatch, a: Variable, b: Variable) -> bool;
pub uninterp spec fn glob_m(c: Comparator, a: Seq<char>, b: Seq<char>) -> bool;
pub uninterp spec fn regex_m(c: Comparator, p: Value, k: Variable, a: Seq<char>) -> bool;
pub uninterp spec fn num_rel(r: RelationalMatch, a: Number, b: Number) -> bool;
pub uninterp spec fn num_of(v: Variable) -> Number;
pub uninterp spec fn match_as(c: Comparator) -> MatchAs;
// what a bare text is to a comparator
pub open spec fn txt(s: Seq<char>) -> Variable { choose|v: Variable| #[trigger] is_text(v, s) }
pub trait Operand { spec fn as_var(&self) -> Variable; }
impl Operand for Variable { open spec fn as_var(&self) -> Variable { *self } }
impl Operand for &Variable { open spec fn as_var(&self) -> Variable { **self } }
impl Operand for &str { open spec fn as_var(&self) -> Variable { txt(self@) } }
impl Comparator {
    #[verifier::external_body] pub fn is<A: Operand, B: Operand>(&self, a: &A, b: &B) -> (r: bool) ensures r == is_m(*self, a.as_var(), b.as_var()) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, a: &str, b: &str) -> (r: bool) ensures r == contains_m(*self, a@, b@) { unimplemented!() }
    #[verifier::external_body] pub fn relational<A: Operand, B: Operand>(&self, rel: &RelationalMatch, a: &A, b: &B) -> (r: bool) ensures r == rel_m(*self, *rel, a.as_var(), b.as_var()) { unimplemented!() }
    #[verifier::external_body] pub fn matches(&self, a: &str, b: &str, c: u64, v: &mut Vec<(usize, String)>) -> (r: bool) ensures r == glob_m(*self, a@, b@) { unimplemented!() }
    #[verifier::external_body] pub fn regex(&self, p: &Value, k: &Variable, a: &str, c: u64, v: &mut Vec<(usize, String)>) -> (r: bool) ensures r == regex_m(*self, *p, *k, a@) { unimplemented!() }
    #[verifier::external_body] pub fn as_match(&self) -> (r: MatchAs) ensures r == match_as(*self) { unimplemented!() }
}
impl RelationalMatch { #[verifier::external_body] pub fn cmp(&self, a: &Number, b: &Number) -> (r: bool) ensures r == num_rel(*self, *a, *b) { unimplemented!() } }
impl Variable { #[verifier::external_body] pub fn to_number(&self) -> (r: Number) ensures r == num_of(*self) { unimplemented!() } }
pub fn int_number(n: i64) -> (r: Number) ensures r == Number::Integer(n) { Number::Integer(n) }
pub open spec fn values_of(c: Context, v: Seq<Value>) -> Seq<Variable> { v.map_values(|x: Value| value_of(c, x)) }
pub open spec fn empty(v: Variable) -> bool { v is String && str_of(v).len() == 0 }
pub open spec fn nonempty(v: Seq<Variable>) -> Seq<Variable> { v.filter(|x: Variable| !empty(x)) }
impl Context {
    #[verifier::external_body] pub fn eval_value(&self, v: &Value) -> (r: Variable) ensures r == value_of(*self, *v) { unimplemented!() }
    #[verifier::external_body] pub fn eval_values(&self, v: &Vec<Value>) -> (r: Vec<Variable>) ensures r@ == values_of(*self, v@) { unimplemented!() }
    #[verifier::external_body] pub fn eval_values_owned(&self, v: &Vec<Value>) -> (r: Vec<String>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i]@ == vtext(value_of(*self, v@[i])) { unimplemented!() }
    #[verifier::external_body] pub fn set_match_variables(&mut self, v: Vec<(usize, String)>) { unimplemented!() }
    // values.iter().filter(|x| !ctx.eval_value(x).is_empty()).count()
    #[verifier::external_body] pub fn count_nonempty(&self, v: &Vec<Value>) -> (r: usize) ensures r == nonempty(values_of(*self, v@)).len(), r <= v@.len() { unimplemented!() }
}
#[verifier::external_body] pub fn any_eq(v: &Vec<String>, s: &String) -> (r: bool) ensures r == exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i]@ == s@ { unimplemented!() }
// does this value match this key
pub open spec fn hit(c: Context, t: TestString, p: Value, s: Variable) -> bool { let k = value_of(c, p); match t.match_type {
    MatchType::Is => is_m(t.comparator, s, k), MatchType::Contains => contains_m(t.comparator, vtext(s), vtext(k)), MatchType::Value(r) => rel_m(t.comparator, r, s, k),
    MatchType::Matches(_) => glob_m(t.comparator, vtext(s), vtext(k)), MatchType::Regex(_) => regex_m(t.comparator, p, k, vtext(s)), _ => false } }
pub open spec fn eligible(null: bool, s: Variable) -> bool { !null || !empty(s) }
pub open spec fn some_hit(c: Context, t: TestString, p: Value, vs: Seq<Variable>, null: bool) -> bool { exists|i: int| 0 <= i < vs.len() && eligible(null, vs[i]) && hit(c, t, p, #[trigger] vs[i]) }
pub open spec fn none_eligible(vs: Seq<Variable>, null: bool) -> bool { forall|i: int| 0 <= i < vs.len() ==> !eligible(null, #[trigger] vs[i]) }
// the result of the code as it is: that of the last key (known finding C11-string-key-order: it should be that of any key)
pub open spec fn outcome(c: Context, t: TestString, n: int, vs: Seq<Variable>, null: bool) -> bool decreases n { if n <= 0 { false } else if none_eligible(vs, null) { outcome(c, t, n - 1, vs, null) } else { some_hit(c, t, t.key_list@[n - 1], vs, null) } }
// with one key (and with the finding repaired always) this is: some value matches some key
pub proof fn one_key(c: Context, t: TestString, vs: Seq<Variable>, null: bool) requires t.key_list@.len() == 1 ensures outcome(c, t, 1, vs, null) == some_hit(c, t, t.key_list@[0], vs, null) { assert(outcome(c, t, 0, vs, null) == false); }
pub open spec fn counted(c: Context, t: TestString, r: RelationalMatch, n: int) -> bool { exists|i: int| 0 <= i < t.key_list@.len() && num_rel(r, Number::Integer(n as i64), num_of(value_of(c, #[trigger] t.key_list@[i]))) }
impl TestString {
//@fn src/runtime/tests/test_string.rs TestString::exec
//@ ret r
//@ sig "ctx: &mut Context" => "ctx: &mut Context"
//@ replace "self.source.iter().filter(|x| !ctx.eval_value(x).is_empty()).count()" => "ctx.count_nonempty(&self.source)"
//@ replace "Number::from(num_items)" => "int_number(num_items)"
//@ replace "let mut values = Vec::with_capacity(self.source.len());" => "let mut values: Vec<String> = Vec::with_capacity(self.source.len());"
//@ replace "ctx.eval_value(source).to_string().into_owned()" => "ctx.eval_value(source).to_string()"
//@ replace "values.iter().any(|v: &String| v.eq(&value))" => "any_eq(&values, &value)"
//@ replace "let mut captured_values = Vec::new();" => "let mut captured_values: Vec<(usize, String)> = Vec::new();"
//@ replace? "source.to_string().as_ref()" => "source.to_string().as_str()"
//@ replace? "key.to_string().as_ref()" => "key.to_string().as_str()"
//@ spec
    requires self.source@.len() < i64::MAX,
    ensures r is Bool || (self.match_type is List && r is Event),
        match self.match_type {
            MatchType::Count(rel) => ({ let n = nonempty(values_of(*old(ctx), self.source@)).len(); r is Bool && r->Bool_0 == ((counted(*old(ctx), *self, rel, n as int) && (!empty_is_null || n > 0)) != self.is_not) }),
            MatchType::List => if forall|i: int| 0 <= i < self.source@.len() ==> vtext(value_of(*old(ctx), #[trigger] self.source@[i])).len() == 0 { r is Bool && r->Bool_0 == self.is_not } else { r is Event && r->is_not == self.is_not && r->event->match_as == match_as(self.comparator) },
            _ => r is Bool && r->Bool_0 == (outcome(*old(ctx), *self, self.key_list@.len() as int, values_of(*old(ctx), self.source@), empty_is_null) != self.is_not),
        },
//@ loops 4
//@ loop 0 for it it
    invariant_except_break !result, 
    invariant it.seq().len() == self.key_list@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.key_list@[i], *ctx == *old(ctx), 0 <= it.index() <= it.seq().len(),
        !result ==> forall|i: int| 0 <= i < it.index() ==> !num_rel(*match_type, Number::Integer(num_items), num_of(value_of(*ctx, #[trigger] self.key_list@[i]))),
        result ==> exists|i: int| 0 <= i < self.key_list@.len() && num_rel(*match_type, Number::Integer(num_items), num_of(value_of(*ctx, #[trigger] self.key_list@[i]))),
    ensures result == exists|i: int| 0 <= i < self.key_list@.len() && num_rel(*match_type, Number::Integer(num_items), num_of(value_of(*ctx, #[trigger] self.key_list@[i]))),
//@ loop 1 for it it
    invariant it.seq().len() == self.source@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.source@[i], *ctx == *old(ctx), 0 <= it.index() <= it.seq().len(),
        (values@.len() == 0) == (forall|i: int| 0 <= i < it.index() ==> vtext(value_of(*ctx, #[trigger] self.source@[i])).len() == 0),
//@ loop 2 for it it
    invariant it.seq().len() == self.key_list@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.key_list@[i], *ctx == *old(ctx), 0 <= it.index() <= it.seq().len(),
        sources@ == values_of(*ctx, self.source@), !(self.match_type is Count) && !(self.match_type is List),
        result == outcome(*ctx, *self, it.index(), sources@, empty_is_null),
//@ loop 3 for it it
    invariant_except_break (forall|i: int| 0 <= i < it.index() ==> !eligible(empty_is_null, #[trigger] sources@[i])) ==> result == r0, (exists|i: int| 0 <= i < it.index() && eligible(empty_is_null, #[trigger] sources@[i])) ==> !result, forall|i: int| 0 <= i < it.index() && eligible(empty_is_null, sources@[i]) ==> !hit(*ctx, *self, *pattern, #[trigger] sources@[i]),
    invariant it.seq().len() == sources@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == sources@[i], *ctx == *old(ctx), 0 <= it.index() <= it.seq().len(), key == value_of(*ctx, *pattern), !(self.match_type is Count) && !(self.match_type is List),
    ensures result == (if none_eligible(sources@, empty_is_null) { r0 } else { some_hit(*ctx, *self, *pattern, sources@, empty_is_null) }),
//@ at loop 3 start
    proof { let n = it.index(); assert(*source == sources@[n]); assert(0 <= n < sources@.len()); }
//@ at before loop 3
    let ghost r0 = result;
//@end
}
// the visitors the envelope and header tests give to the walk over their values (cut out of exec): true iff some key matches
impl TestEnvelope {
//@fn src/runtime/tests/test_envelope.rs TestEnvelope::exec
//@ rename hits_is
//@ sig "ctx: &mut Context" => "key_list: Vec<Variable>, is_is: bool, value: &str"
//@ sig "TestResult" => "(r: bool)"
//@ cut "let key_list" to "ctx.find_envelopes(self, |value| {" => ";"
//@ cut "}) } MatchType::Value(rel_match)" to "TestResult::Bool(result ^ self.is_not)" => ""
//@ replace "key.to_string().as_ref()" => "key.to_string().as_str()"
//@ spec
    ensures r == exists|i: int| 0 <= i < key_list@.len() && (if is_is { is_m(self.comparator, txt(value@), #[trigger] key_list@[i]) } else { contains_m(self.comparator, value@, vtext(key_list@[i])) }),
//@ loop 0 for it it
    invariant it.seq().len() == key_list@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == key_list@[i], 0 <= it.index() <= it.seq().len(),
        forall|i: int| 0 <= i < it.index() ==> !(if is_is { is_m(self.comparator, txt(value@), #[trigger] key_list@[i]) } else { contains_m(self.comparator, value@, vtext(key_list@[i])) }),
//@ at loop 0 start
    let ghost n0 = it.index(); proof { assert(*key == key_list@[n0]); }
//@end
}
impl TestEnvelope {
//@fn src/runtime/tests/test_envelope.rs TestEnvelope::exec
//@ rename hits_value
//@ sig "ctx: &mut Context" => "key_list: Vec<Variable>, rel_match: &RelationalMatch, value: &str"
//@ sig "TestResult" => "(r: bool)"
//@ cut "let key_list" to "MatchType::Value(rel_match) => ctx.find_envelopes(self, |value| {" => ";"
//@ cut "}), MatchType::Matches(capture_positions)" to "TestResult::Bool(result ^ self.is_not)" => ""
//@ spec
    ensures r == exists|i: int| 0 <= i < key_list@.len() && rel_m(self.comparator, *rel_match, txt(value@), #[trigger] key_list@[i]),
//@ loop 1 for it it
    invariant it.seq().len() == key_list@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == key_list@[i], 0 <= it.index() <= it.seq().len(),
        forall|i: int| 0 <= i < it.index() ==> !rel_m(self.comparator, *rel_match, txt(value@), #[trigger] key_list@[i]),
//@ at loop 1 start
    let ghost n0 = it.index(); proof { assert(*key == key_list@[n0]); }
//@end
}
impl TestHeader {
//@fn src/runtime/tests/test_header.rs TestHeader::exec
//@ rename hits_is
//@ sig "ctx: &mut Context" => "key_list: Vec<Variable>, is_is: bool, value: &str"
//@ sig "TestResult" => "(r: bool)"
//@ cut "let key_list" to "ctx.find_header_values(header, &mime_opts, |value| {" => ";"
//@ cut "}) }, ) } MatchType::Value(rel_match)" to "TestResult::Bool(result ^ self.is_not)" => ""
//@ replace "key.to_string().as_ref()" => "key.to_string().as_str()"
//@ spec
    ensures r == exists|i: int| 0 <= i < key_list@.len() && (if is_is { is_m(self.comparator, txt(value@), #[trigger] key_list@[i]) } else { contains_m(self.comparator, value@, vtext(key_list@[i])) }),
//@ loop 0 for it it
    invariant it.seq().len() == key_list@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == key_list@[i], 0 <= it.index() <= it.seq().len(),
        forall|i: int| 0 <= i < it.index() ==> !(if is_is { is_m(self.comparator, txt(value@), #[trigger] key_list@[i]) } else { contains_m(self.comparator, value@, vtext(key_list@[i])) }),
//@ at loop 0 start
    let ghost n0 = it.index(); proof { assert(*key == key_list@[n0]); }
//@end
}
impl TestHeader {
//@fn src/runtime/tests/test_header.rs TestHeader::exec
//@ rename hits_value
//@ sig "ctx: &mut Context" => "key_list: Vec<Variable>, rel_match: &RelationalMatch, value: &str"
//@ sig "TestResult" => "(r: bool)"
//@ cut "let key_list" to "MatchType::Value(rel_match) => ctx.find_headers(&header_list, self.index, self.mime_anychild, |header, _, _| { ctx.find_header_values(header, &mime_opts, |value| {" => ";"
//@ cut "}) }, ), MatchType::Matches(capture_positions)" to "TestResult::Bool(result ^ self.is_not)" => ""
//@ spec
    ensures r == exists|i: int| 0 <= i < key_list@.len() && rel_m(self.comparator, *rel_match, txt(value@), #[trigger] key_list@[i]),
//@ loop 1 for it it
    invariant it.seq().len() == key_list@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == key_list@[i], 0 <= it.index() <= it.seq().len(),
        forall|i: int| 0 <= i < it.index() ==> !rel_m(self.comparator, *rel_match, txt(value@), #[trigger] key_list@[i]),
//@ at loop 1 start
    let ghost n0 = it.index(); proof { assert(*key == key_list@[n0]); }
//@end
}
//@literals
}
fn main() {}
