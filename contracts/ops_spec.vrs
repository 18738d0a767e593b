// ---- numbers and operators of expressions: what each operator yields ---------------
pub uninterp spec fn f_of(n: i64) -> f64;                    // n as f64
pub uninterp spec fn f_add(a: f64, b: f64) -> f64;
pub uninterp spec fn f_sub(a: f64, b: f64) -> f64;
pub uninterp spec fn f_mul(a: f64, b: f64) -> f64;
pub uninterp spec fn f_div(a: f64, b: f64) -> f64;
pub uninterp spec fn f_neg(a: f64) -> f64;
pub uninterp spec fn f_zero() -> f64;
pub uninterp spec fn f_eq(a: f64, b: f64) -> bool;
pub uninterp spec fn f_cmp(a: f64, b: f64) -> Option<Ordering>;
pub uninterp spec fn s_cmp(a: Seq<char>, b: Seq<char>) -> Ordering;
pub uninterp spec fn s_i64(s: Seq<char>) -> Option<i64>;     // str::parse::<i64>
pub uninterp spec fn s_f64(s: Seq<char>) -> Option<f64>;     // str::parse::<f64>
#[verifier::external_body] pub fn fof(n: i64) -> (r: f64) ensures r == f_of(n) { n as f64 }
#[verifier::external_body] pub fn fneg(a: f64) -> (r: f64) ensures r == f_neg(a) { -a }
#[verifier::external_body] pub fn fzero() -> (r: f64) ensures r == f_zero() { 0.0 }
// IEEE operations give one result for given operands (uninterpreted)
#[verifier::external_body]
pub proof fn axiom_float()
    ensures forall|a: f64, b: f64, r: f64| #[trigger] vstd::std_specs::ops::add_ensures(a, b, r) ==> r == f_add(a, b),
        forall|a: f64, b: f64, r: f64| #[trigger] vstd::std_specs::ops::sub_ensures(a, b, r) ==> r == f_sub(a, b),
        forall|a: f64, b: f64, r: f64| #[trigger] vstd::std_specs::ops::mul_ensures(a, b, r) ==> r == f_mul(a, b),
        forall|a: f64, b: f64, r: f64| #[trigger] vstd::std_specs::ops::div_ensures(a, b, r) ==> r == f_div(a, b),
        forall|a: f64, b: f64, r: bool| #[trigger] vstd::std_specs::cmp::eq_ensures(a, b, r) ==> r == f_eq(a, b),
        forall|a: f64, b: f64, r: bool| #[trigger] vstd::std_specs::cmp::ne_ensures(a, b, r) ==> r == !f_eq(a, b),
        forall|a: f64, b: f64, r: Option<Ordering>| #[trigger] vstd::std_specs::cmp::partial_cmp_ensures(a, b, r) ==> r == f_cmp(a, b),
        forall|a: f64, b: f64| #[trigger] <f64 as vstd::std_specs::ops::AddSpec>::add_req(a, b),
        forall|a: f64, b: f64| #[trigger] <f64 as vstd::std_specs::ops::SubSpec>::sub_req(a, b),
        forall|a: f64, b: f64| #[trigger] <f64 as vstd::std_specs::ops::MulSpec>::mul_req(a, b),
        forall|a: f64, b: f64| #[trigger] <f64 as vstd::std_specs::ops::DivSpec>::div_req(a, b),
{}
#[verifier::external_body] pub fn parse_i64(s: &Arc<String>) -> (r: Option<i64>) ensures r == s_i64((**s)@) { unimplemented!() }
#[verifier::external_body] pub fn parse_f64(s: &Arc<String>) -> (r: Option<f64>) ensures r == s_f64((**s)@) { unimplemented!() }
pub open spec fn clamp(n: int) -> Variable { Variable::Integer(if n > i64::MAX { i64::MAX } else if n < i64::MIN { i64::MIN } else { n as i64 }) }
pub assume_specification[ i64::saturating_add ](a: i64, b: i64) -> (r: i64) ensures Variable::Integer(r) == clamp(a + b);
pub assume_specification[ i64::saturating_sub ](a: i64, b: i64) -> (r: i64) ensures Variable::Integer(r) == clamp(a - b);
pub assume_specification[ i64::saturating_mul ](a: i64, b: i64) -> (r: i64) ensures Variable::Integer(r) == clamp(a * b);
pub assume_specification[ i64::saturating_neg ](a: i64) -> (r: i64) ensures Variable::Integer(r) == clamp(-a);
// list operands
pub open spec fn items_of(v: Variable) -> Seq<Variable> { match v { Variable::Array(a) => (*a)@, v => seq![v] } }
pub open spec fn is_list(v: Variable, s: Seq<Variable>) -> bool { match v { Variable::Array(a) => (*a)@ == s, _ => false } }
#[verifier::external_body] pub fn list_join(a: Arc<Vec<Variable>>, b: Arc<Vec<Variable>>) -> (r: Variable) ensures is_list(r, (*a)@ + (*b)@) { unimplemented!() }
#[verifier::external_body] pub fn list_push(a: Arc<Vec<Variable>>, b: Variable) -> (r: Variable) ensures is_list(r, (*a)@ + seq![b]) { unimplemented!() }
#[verifier::external_body] pub fn list_cons(a: Variable, b: Arc<Vec<Variable>>) -> (r: Variable) ensures is_list(r, seq![a] + (*b)@) { unimplemented!() }
#[verifier::external_body] pub fn list_without(a: Arc<Vec<Variable>>, b: Variable) -> (r: Variable) ensures is_list(r, (*a)@.filter(|v: Variable| !equal(v, b))) { unimplemented!() }
#[verifier::external_body] pub fn text_join_l(a: Arc<String>, b: Variable) -> (r: Variable) ensures is_text(r, (*a)@ + vtext(b)) { unimplemented!() }
#[verifier::external_body] pub fn text_join_r(a: Variable, b: Arc<String>) -> (r: Variable) ensures is_text(r, vtext(a) + (*b)@) { unimplemented!() }
#[verifier::external_body] pub fn list_empty(a: &Arc<Vec<Variable>>) -> (r: bool) ensures r == ((**a)@.len() == 0) { a.is_empty() }
#[verifier::external_body] pub fn text_empty(a: &Arc<String>) -> (r: bool) ensures r == ((**a)@.len() == 0) { a.is_empty() }
pub open spec fn truth(v: Variable) -> bool { match v { Variable::Float(f) => !f_eq(f, f_zero()), Variable::Integer(n) => n != 0, Variable::String(s) => (*s)@.len() > 0, Variable::Array(a) => (*a)@.len() > 0 } }
pub open spec fn is_num(v: Variable) -> bool { v is Integer || v is Float }
// the number a value counts as
pub open spec fn num(v: Variable) -> Variable {
    match v {
        Variable::String(s) => if (*s)@.len() == 0 { Variable::Integer(0) } else { match s_i64((*s)@) { Some(n) => Variable::Integer(n), None => match s_f64((*s)@) { Some(f) => Variable::Float(f), None => Variable::Integer(0) } } },
        Variable::Array(a) => Variable::Integer(if (*a)@.len() == 0 { 1i64 } else { 0i64 }),
        n => n,
    }
}
pub open spec fn fl(v: Variable) -> f64 { match v { Variable::Integer(n) => f_of(n), Variable::Float(f) => f, _ => f_zero() } }
pub open spec fn both_int(a: Variable, b: Variable) -> bool { num(a) is Integer && num(b) is Integer }
pub open spec fn iv(v: Variable) -> int { match num(v) { Variable::Integer(n) => n as int, _ => 0 } }
pub open spec fn flag(b: bool) -> Variable { Variable::Integer(if b { 1i64 } else { 0i64 }) }
// equality and order of two values
pub uninterp spec fn list_eq(a: Variable, b: Variable) -> bool;
pub uninterp spec fn list_cmp(a: Variable, b: Variable) -> Option<Ordering>;
pub open spec fn i_cmp(a: int, b: int) -> Option<Ordering> { Some(if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }) }
pub open spec fn n_eq(a: Variable, b: Variable) -> bool { if both_int(a, b) { iv(a) == iv(b) } else { f_eq(fl(num(a)), fl(num(b))) } }
pub open spec fn n_cmp(a: Variable, b: Variable) -> Option<Ordering> { if both_int(a, b) { i_cmp(iv(a), iv(b)) } else { f_cmp(fl(num(a)), fl(num(b))) } }
pub open spec fn equal(a: Variable, b: Variable) -> bool {
    match (a, b) {
        (Variable::String(x), Variable::String(y)) => (*x)@ == (*y)@,
        (Variable::Array(_), Variable::Array(_)) => list_eq(a, b),
        (Variable::Array(_), _) => false, (_, Variable::Array(_)) => false,
        _ => n_eq(a, b),
    }
}
pub open spec fn compared(a: Variable, b: Variable) -> Option<Ordering> {
    match (a, b) {
        (Variable::String(x), Variable::String(y)) => Some(s_cmp((*x)@, (*y)@)),
        (Variable::Array(_), Variable::Array(_)) => list_cmp(a, b),
        (Variable::Array(_), _) => Some(Ordering::Greater), (Variable::String(_), Variable::Array(_)) => Some(Ordering::Greater),
        (_, Variable::Array(_)) => Some(Ordering::Less),
        _ => n_cmp(a, b),
    }
}
#[verifier::external_body] pub fn text_cmp(a: &Arc<String>, b: &Arc<String>) -> (r: Option<Ordering>) ensures r == Some(s_cmp((**a)@, (**b)@)) { unimplemented!() }
#[verifier::external_body] pub fn text_eq(a: &Arc<String>, b: &Arc<String>) -> (r: bool) ensures r == ((**a)@ == (**b)@) { unimplemented!() }
#[verifier::external_body] pub fn lists_eq(a: &Variable, b: &Variable) -> (r: bool) ensures r == list_eq(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn lists_cmp(a: &Variable, b: &Variable) -> (r: Option<Ordering>) ensures r == list_cmp(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn int_cmp(a: &i64, b: &i64) -> (r: Option<Ordering>) ensures r == i_cmp(*a as int, *b as int) { a.partial_cmp(b) }
// PartialOrd's provided methods
#[verifier::external_body] pub fn ord_is(o: Option<Ordering>, lt: bool, eq: bool, gt: bool) -> (r: bool)
    ensures r == match o { Some(Ordering::Less) => lt, Some(Ordering::Equal) => eq, Some(Ordering::Greater) => gt, None => false } { unimplemented!() }
