use vstd::prelude::*;
use std::sync::Arc;
use std::cmp::Ordering;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@include ops_spec.vrs
// ---- floating point: IEEE 754 facts (uninterpreted; see the assumptions) -----------------
pub uninterp spec fn i_of(a: f64) -> i64; // a as i64 (saturating)
pub uninterp spec fn f_ceil(a: f64) -> f64;
pub fn same(a: f64) -> (r: f64) ensures r == a { a } // (lets the verifier know its type)
pub trait Cut { fn int(self) -> i64; }
impl Cut for f64 { #[verifier::external_body] fn int(self) -> (r: i64) ensures r == i_of(self) { self as i64 } }
#[verifier::external_body] pub fn float_of(a: u32) -> (r: f64) ensures r == f_of(a as i64) { a as f64 }
pub assume_specification[ f64::ceil ](a: f64) -> (r: f64) ensures r == f_ceil(a);
pub open spec fn at_most(a: f64, b: f64) -> bool { f_cmp(a, b) == Some(Ordering::Less) || f_cmp(a, b) == Some(Ordering::Equal) }
#[verifier::external_body] pub proof fn axiom_scale(a: f64, b: f64) requires at_most(a, b) ensures at_most(f_mul(a, 10.0f64), f_mul(b, 10.0f64)), at_most(f_mul(a, 100.0f64), f_mul(b, 100.0f64)) {}
#[verifier::external_body] pub proof fn axiom_ceil(a: f64, b: f64) requires at_most(a, b) ensures at_most(f_ceil(a), f_ceil(b)) {}
#[verifier::external_body] pub proof fn axiom_int(a: f64, b: f64) requires at_most(a, b) ensures i_of(a) <= i_of(b) {}
#[verifier::external_body] pub proof fn axiom_tenths(n: i64) requires 0 <= n <= 10 ensures i_of(f_mul(f_div(f_of(n), 10.0f64), 10.0f64)) == n {}
//@type src/lib.rs SpamStatus
//@end
//@type src/lib.rs VirusStatus
//@end
pub open spec fn between(a: int, lo: int, hi: int) -> int { if a < lo { lo } else if a > hi { hi } else { a } }
pub open spec fn spam_number(s: SpamStatus) -> int { match s { SpamStatus::Unknown => 0, SpamStatus::Ham => 1, SpamStatus::MaybeSpam(p) => between(i_of(f_mul(p, 10.0f64)) as int, 2, 9), SpamStatus::Spam => 10 } }
pub open spec fn spam_percent(s: SpamStatus) -> int { match s { SpamStatus::MaybeSpam(p) => between(i_of(f_ceil(f_mul(p, 100.0f64))) as int, 1, 100), SpamStatus::Spam => 100, _ => 0 } }
pub open spec fn virus_number(s: VirusStatus) -> int { match s { VirusStatus::Unknown => 0, VirusStatus::Clean => 1, VirusStatus::Replaced => 2, VirusStatus::Cured => 3, VirusStatus::MaybeVirus => 4, VirusStatus::Virus => 5 } }
pub open spec fn spam_from(n: u32) -> SpamStatus { if n == 1 { SpamStatus::Ham } else if 2 <= n <= 9 { SpamStatus::MaybeSpam(f_div(f_of(n as i64), 10.0f64)) } else if n == 10 { SpamStatus::Spam } else { SpamStatus::Unknown } }
pub open spec fn virus_from(n: u32) -> VirusStatus { match n { 1 => VirusStatus::Clean, 2 => VirusStatus::Replaced, 3 => VirusStatus::Cured, 4 => VirusStatus::MaybeVirus, 5 => VirusStatus::Virus, _ => VirusStatus::Unknown } }
// how likely spam a status is: ham, then the probability, then spam
pub open spec fn less_spam(a: SpamStatus, b: SpamStatus) -> bool { match (a, b) { (SpamStatus::Unknown, _) => b is Unknown, (_, SpamStatus::Unknown) => false, (SpamStatus::Ham, _) => true, (_, SpamStatus::Ham) => false, (_, SpamStatus::Spam) => true, (SpamStatus::Spam, _) => false, (SpamStatus::MaybeSpam(p), SpamStatus::MaybeSpam(q)) => at_most(p, q) } }
pub proof fn lemma_ranges(s: SpamStatus, v: VirusStatus) ensures s is Unknown <==> spam_number(s) == 0, 0 <= spam_number(s) <= 10, 0 <= spam_percent(s) <= 100, 0 <= virus_number(v) <= 5, v is Unknown <==> virus_number(v) == 0 {}
pub proof fn lemma_monotone(a: SpamStatus, b: SpamStatus) requires less_spam(a, b) ensures spam_number(a) <= spam_number(b), spam_percent(a) <= spam_percent(b) {
    if let SpamStatus::MaybeSpam(p) = a { if let SpamStatus::MaybeSpam(q) = b { axiom_scale(p, q); axiom_int(f_mul(p, 10.0f64), f_mul(q, 10.0f64)); axiom_ceil(f_mul(p, 100.0f64), f_mul(q, 100.0f64)); axiom_int(f_ceil(f_mul(p, 100.0f64)), f_ceil(f_mul(q, 100.0f64))); } } }
pub proof fn lemma_back(n: u32) ensures n <= 10 ==> spam_number(spam_from(n)) == n, n > 10 ==> spam_from(n) is Unknown, n <= 5 ==> virus_number(virus_from(n)) == n, n > 5 ==> virus_from(n) is Unknown { if n <= 10 { axiom_tenths(n as i64); } }
impl SpamStatus {
//@fn src/runtime/tests/test_spamtest.rs SpamStatus::from_number
//@ ret r
//@ replace "number as f64" => "float_of(number)"
//@ spec
    ensures r == spam_from(number),
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/tests/test_spamtest.rs SpamStatus::as_number
//@ ret r
//@ sig "&self" => "self"
//@ replace "as i64" => ".int()"
//@ replace "(pct *" => "(same(pct) *"
//@ spec
    ensures r == Variable::Integer(spam_number(self) as i64),
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/tests/test_spamtest.rs SpamStatus::as_percentage
//@ ret r
//@ sig "&self" => "self"
//@ replace "as i64" => ".int()"
//@ replace "(pct *" => "(same(pct) *"
//@ spec
    ensures r == Variable::Integer(spam_percent(self) as i64),
//@ at start
    proof { axiom_float(); }
//@end
}
impl VirusStatus {
//@fn src/runtime/tests/test_spamtest.rs VirusStatus::from_number
//@ ret r
//@ spec
    ensures r == virus_from(number),
//@end
//@fn src/runtime/tests/test_spamtest.rs VirusStatus::as_number
//@ ret r
//@ spec
    ensures r == Variable::Integer(virus_number(*self) as i64),
//@end
}
//@literals
}
fn main() {}
