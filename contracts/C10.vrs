use vstd::prelude::*;
use std::sync::Arc;
use std::cmp::Ordering;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@include ops_spec.vrs
//@include ops_fns.vrs
//@type src/compiler/mod.rs Number
//@end
//@type src/compiler/grammar/mod.rs RelationalMatch
//@end
pub open spec fn nnum(n: Number) -> Variable { match n { Number::Integer(i) => Variable::Integer(i), Number::Float(f) => Variable::Float(f) } }
#[verifier::external_body] pub fn flt_cmp(a: &f64, b: &f64) -> (r: Option<Ordering>) ensures r == f_cmp(*a, *b) { a.partial_cmp(b) }
impl Number {
//@fn src/runtime/mod.rs <PartialEq for Number>::eq
//@ ret r
//@ rename eq_
//@ replace "(Self::Integer(a), Self::Integer(b)) => a == b" => "(Self::Integer(a), Self::Integer(b)) => *a == *b"
//@ replace "(Self::Float(a), Self::Float(b)) => a == b" => "(Self::Float(a), Self::Float(b)) => *a == *b"
//@ replace "*a as f64" => "fof(*a)"
//@ replace "*b as f64" => "fof(*b)"
//@ spec
    ensures r == n_eq(nnum(*self), nnum(*other)),
//@ at start
    proof { axiom_float(); axiom_num_eq(); }
//@end
//@fn src/runtime/mod.rs <PartialOrd for Number>::partial_cmp
//@ ret r
//@ rename cmp_
//@ sig "std::cmp::Ordering" => "Ordering"
//@ replace "return a.partial_cmp(b)" => "return int_cmp(a, b)"
//@ replace "*a as f64" => "fof(*a)"
//@ replace "*b as f64" => "fof(*b)"
//@ spec
    ensures r == n_cmp(nnum(*self), nnum(*other)),
//@ at start
    proof { axiom_float(); }
//@end
}
impl Variable {
// the number read from a value, or None (infinity in comparisons)
//@fn src/runtime/mod.rs Variable::to_number_checked
//@ ret r
//@ replace "return Number::Integer(*n).into()" => "return Some(Number::Integer(*n))"
//@ replace "return Number::Float(*n).into()" => "return Some(Number::Float(*n))"
//@ replace "!s.is_empty() => s.as_str()" => "!text_empty(s) => s"
//@ replace "!s.contains('.')" => "!has_dot(s)"
//@ replace "s.parse::<i64>().map(Number::Integer).ok()" => "number_i(parse_i64(s))"
//@ replace "s.parse::<f64>().map(Number::Float).ok()" => "number_f(parse_f64(s))"
//@ spec
    ensures r == num_read(*self),
//@end
//@fn src/runtime/mod.rs Variable::to_number
//@ ret r
//@ replace "self.to_number_checked().unwrap_or(Number::Float(f64::INFINITY))" => "or_infinity(self.to_number_checked())"
//@ spec
    ensures r == (match num_read(*self) { Some(n) => n, None => Number::Float(f_inf()) }),
//@end
}
pub uninterp spec fn f_inf() -> f64;
#[verifier::external_body] pub fn or_infinity(n: Option<Number>) -> (r: Number) ensures r == (match n { Some(n) => n, None => Number::Float(f_inf()) }) { unimplemented!() }
#[verifier::external_body] pub fn has_dot(s: &Arc<String>) -> (r: bool) ensures r == (**s)@.contains('.') { s.contains('.') }
pub fn number_i(o: Option<i64>) -> (r: Option<Number>) ensures r == (match o { Some(n) => Some(Number::Integer(n)), None => None }) { match o { Some(n) => Some(Number::Integer(n)), None => None } }
pub fn number_f(o: Option<f64>) -> (r: Option<Number>) ensures r == (match o { Some(n) => Some(Number::Float(n)), None => None }) { match o { Some(n) => Some(Number::Float(n)), None => None } }
pub open spec fn num_read(v: Variable) -> Option<Number> {
    match v {
        Variable::Integer(n) => Some(Number::Integer(n)), Variable::Float(f) => Some(Number::Float(f)), Variable::Array(_) => None,
        Variable::String(s) => if (*s)@.len() == 0 { None } else if (*s)@.contains('.') { match s_f64((*s)@) { Some(f) => Some(Number::Float(f)), None => None } } else { match s_i64((*s)@) { Some(n) => Some(Number::Integer(n)), None => None } },
    }
}
pub open spec fn nan(f: f64) -> bool { !f_eq(f, f) }
// IEEE comparison of two numbers that are not NaN is a total order whose Equal is ==
#[verifier::external_body]
pub proof fn axiom_ieee_order()
    ensures forall|a: f64, b: f64| !nan(a) && !nan(b) ==> (#[trigger] f_cmp(a, b)) is Some,
        forall|a: f64, b: f64| (#[trigger] f_cmp(a, b) == Some(Ordering::Equal)) == f_eq(a, b),
        forall|a: f64, b: f64| (#[trigger] f_cmp(a, b) == Some(Ordering::Less)) == (f_cmp(b, a) == Some(Ordering::Greater)),
        forall|a: Seq<char>, b: Seq<char>| (#[trigger] s_cmp(a, b) == Ordering::Equal) == (a == b),
        forall|a: Seq<char>, b: Seq<char>| (#[trigger] s_cmp(a, b) == Ordering::Less) == (s_cmp(b, a) == Ordering::Greater),
        forall|n: i64| !nan(#[trigger] f_of(n)),
{}
pub open spec fn scalar(v: Variable) -> bool { !(v is Array) && !(num(v) is Float && nan(fl(num(v)))) }
// C10: for scalars that are not NaN exactly one of lt, eq, gt holds, eq is symmetric and lt is the mirror of gt
pub proof fn theorem_trichotomy(a: Variable, b: Variable)
    requires scalar(a), scalar(b)
    ensures compared(a, b) is Some, (compared(a, b) == Some(Ordering::Equal)) == equal(a, b),
        equal(a, b) == equal(b, a), (compared(a, b) == Some(Ordering::Less)) == (compared(b, a) == Some(Ordering::Greater)),
{ axiom_ieee_order(); axiom_num_eq(); }
pub proof fn theorem_number_order(a: Number, b: Number)
    requires scalar(nnum(a)), scalar(nnum(b))
    ensures n_cmp(nnum(a), nnum(b)) is Some, (n_cmp(nnum(a), nnum(b)) == Some(Ordering::Equal)) == n_eq(nnum(a), nnum(b)),
{ axiom_ieee_order(); axiom_num_eq(); }
}
fn main() {}
