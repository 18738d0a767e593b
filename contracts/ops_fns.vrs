#[verifier::external_body] pub fn bool_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a & b }
#[verifier::external_body] pub fn bool_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a | b }
#[verifier::external_body] pub fn from_bool(b: bool) -> (r: i64) ensures r == (if b { 1i64 } else { 0i64 }) { i64::from(b) }
#[verifier::external_body]
pub proof fn axiom_num_eq() ensures forall|a: f64, b: f64| f_eq(a, b) == f_eq(b, a) {}
impl Variable {
//@fn src/runtime/expression.rs Variable::op_add
//@ ret r
//@ replace "i as f64" => "fof(i)"
//@ replace "Variable::Array(a.iter().chain(b.iter()).cloned().collect::<Vec<_>>().into())" => "list_join(a, b)"
//@ replace "a.iter().cloned().chain([b]).collect::<Vec<_>>().into()" => "list_push(a, b)"
//@ replace "[a].into_iter().chain(b.iter().cloned()).collect::<Vec<_>>().into()" => "list_cons(a, b)"
//@ replace "(Variable::String(a), b) => { if !a.is_empty() { Variable::String(format!(\"{}{}\", a, b).into()) }" => "(Variable::String(a), b) => { if !text_empty(&a) { text_join_l(a, b) }"
//@ replace "(a, Variable::String(b)) => { if !b.is_empty() { Variable::String(format!(\"{}{}\", a, b).into()) }" => "(a, Variable::String(b)) => { if !text_empty(&b) { text_join_r(a, b) }"
//@ spec
    ensures match (self, other) {
        (Variable::Array(a), _) => is_list(r, (*a)@ + items_of(other)),
        (_, Variable::Array(b)) => is_list(r, seq![self] + (*b)@),
        (Variable::String(a), _) => if (*a)@.len() == 0 { r == other } else { is_text(r, (*a)@ + vtext(other)) },
        (_, Variable::String(b)) => if (*b)@.len() == 0 { r == self } else { is_text(r, vtext(self) + (*b)@) },
        (Variable::Integer(a), Variable::Integer(b)) => r == clamp(a + b),
        (Variable::Integer(a), Variable::Float(b)) => r == Variable::Float(f_add(f_of(a), b)),
        (Variable::Float(a), Variable::Integer(b)) => r == Variable::Float(f_add(f_of(b), a)),
        (Variable::Float(a), Variable::Float(b)) => r == Variable::Float(f_add(a, b)),
    },
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs Variable::op_subtract
//@ ret r
//@ replace "a as f64" => "fof(a)"
//@ replace "b as f64" => "fof(b)"
//@ replace "Variable::Array(a.iter().filter(|v| *v != &b).cloned().collect::<Vec<_>>().into(),)" => "list_without(a, b)"
//@ spec
    ensures match (self, other) {
        (Variable::Array(a), b) => is_list(r, (*a)@.filter(|v: Variable| !equal(v, b))),
        (b, Variable::Array(a)) => is_list(r, (*a)@.filter(|v: Variable| !equal(v, b))),
        _ => if both_int(self, other) { r == clamp(iv(self) - iv(other)) } else { r == Variable::Float(f_sub(fl(num(self)), fl(num(other)))) },
    },
    decreases if is_num(self) && is_num(other) { 0nat } else { 1nat },
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs Variable::op_multiply
//@ ret r
//@ replace "i as f64" => "fof(i)"
//@ spec
    ensures match (self, other) {
        (Variable::Float(a), Variable::Integer(b)) => r == Variable::Float(f_mul(f_of(b), a)),
        (Variable::Integer(a), Variable::Float(b)) => r == Variable::Float(f_mul(f_of(a), b)),
        _ => if both_int(self, other) { r == clamp(iv(self) * iv(other)) } else { r == Variable::Float(f_mul(fl(num(self)), fl(num(other)))) || r == Variable::Float(f_mul(fl(num(other)), fl(num(self)))) },
    },
    decreases if is_num(self) && is_num(other) { 0nat } else { 1nat },
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs Variable::op_divide
//@ ret r
//@ replace "a as f64" => "fof(a)"
//@ replace "b as f64" => "fof(b)"
//@ replace "0.0" => "fzero()"
//@ spec
    ensures match (self, other) {
        _ => if both_int(self, other) { r == Variable::Float(if iv(other) == 0 { f_zero() } else { f_div(f_of(iv(self) as i64), f_of(iv(other) as i64)) }) } else { r == Variable::Float(if num(other) is Integer { if iv(other) == 0 { f_zero() } else { f_div(fl(num(self)), fl(num(other))) } } else if f_eq(fl(num(other)), f_zero()) { f_zero() } else { f_div(fl(num(self)), fl(num(other))) }) },
    },
    decreases if is_num(self) && is_num(other) { 0nat } else { 1nat },
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs Variable::op_and
//@ ret r
//@ replace? "self.to_bool() & other.to_bool()" => "bool_and(self.to_bool(), other.to_bool())"
//@ replace "i64::from(" => "from_bool("
//@ spec
    ensures r == flag(truth(self) && truth(other)),
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs Variable::op_or
//@ ret r
//@ replace? "self.to_bool() | other.to_bool()" => "bool_or(self.to_bool(), other.to_bool())"
//@ replace "i64::from(" => "from_bool("
//@ spec
    ensures r == flag(truth(self) || truth(other)),
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs Variable::op_xor
//@ ret r
//@ replace "i64::from(" => "from_bool("
//@ spec
    ensures r == flag(truth(self) != truth(other)),
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs Variable::op_not
//@ ret r
//@ replace "i64::from(" => "from_bool("
//@ spec
    ensures r == flag(!truth(self)),
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs Variable::op_eq
//@ ret r
//@ replace "i64::from(" => "from_bool("
//@ replace "self == other" => "self.eq_(&other)"
//@ spec
    ensures r == flag(equal(self, other)),
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs Variable::op_ne
//@ ret r
//@ replace "i64::from(" => "from_bool("
//@ replace "self != other" => "!self.eq_(&other)"
//@ spec
    ensures r == flag(!equal(self, other)),
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs Variable::op_lt
//@ ret r
//@ replace "i64::from(" => "from_bool("
//@ replace "self < other" => "ord_is(self.cmp_(&other), true, false, false)"
//@ spec
    ensures r == flag(compared(self, other) == Some(Ordering::Less)),
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs Variable::op_le
//@ ret r
//@ replace "i64::from(" => "from_bool("
//@ replace "self <= other" => "ord_is(self.cmp_(&other), true, true, false)"
//@ spec
    ensures r == flag(compared(self, other) == Some(Ordering::Less) || compared(self, other) == Some(Ordering::Equal)),
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs Variable::op_gt
//@ ret r
//@ replace "i64::from(" => "from_bool("
//@ replace "self > other" => "ord_is(self.cmp_(&other), false, false, true)"
//@ spec
    ensures r == flag(compared(self, other) == Some(Ordering::Greater)),
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs Variable::op_ge
//@ ret r
//@ replace "i64::from(" => "from_bool("
//@ replace "self >= other" => "ord_is(self.cmp_(&other), false, true, true)"
//@ spec
    ensures r == flag(compared(self, other) == Some(Ordering::Greater) || compared(self, other) == Some(Ordering::Equal)),
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs Variable::op_minus
//@ ret r
//@ replace "-n" => "fneg(n)"
//@ spec
    ensures match num(self) { Variable::Integer(n) => r == clamp(-n), Variable::Float(f) => r == Variable::Float(f_neg(f)), _ => false },
    decreases if is_num(self) { 0nat } else { 1nat },
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs Variable::parse_number
//@ ret r
//@ replace "!s.is_empty()" => "!text_empty(s)"
//@ replace "let Ok(n) = s.parse::<i64>()" => "let Some(n) = parse_i64(s)"
//@ replace "let Ok(n) = s.parse::<f64>()" => "let Some(n) = parse_f64(s)"
//@ replace "l.is_empty() as i64" => "from_bool(list_empty(l))"
//@ spec
    ensures r == num(*self), is_num(r),
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs Variable::to_bool
//@ ret r
//@ replace "0.0" => "fzero()"
//@ replace "!s.is_empty()" => "!text_empty(s)"
//@ replace "!a.is_empty()" => "!list_empty(a)"
//@ spec
    ensures r == truth(*self),
//@ at start
    proof { axiom_float(); }
//@end
//@fn src/runtime/expression.rs <PartialEq for Variable>::eq
//@ ret r
//@ rename eq_
//@ replace "(Self::Integer(a), Self::Integer(b)) => a == b" => "(Self::Integer(a), Self::Integer(b)) => *a == *b"
//@ replace "(Self::Float(a), Self::Float(b)) => a == b" => "(Self::Float(a), Self::Float(b)) => *a == *b"
//@ replace "*a as f64" => "fof(*a)"
//@ replace "(Self::String(a), Self::String(b)) => a == b" => "(Self::String(a), Self::String(b)) => text_eq(a, b)"
//@ replace "(Self::Array(a), Self::Array(b)) => a == b" => "(Self::Array(_), Self::Array(_)) => lists_eq(self, other)"
//@ replace "&self.parse_number() == other" => "self.parse_number().eq_(other)"
//@ replace "self == &other.parse_number()" => "self.eq_(&other.parse_number())"
//@ spec
    ensures r == equal(*self, *other),
    decreases if is_num(*self) && is_num(*other) { 0nat } else { 1nat },
//@ at start
    proof { axiom_float(); axiom_num_eq(); }
//@end
//@fn src/runtime/expression.rs <PartialOrd for Variable>::partial_cmp
//@ ret r
//@ rename cmp_
//@ replace "(Self::Integer(a), Self::Integer(b)) => a.partial_cmp(b)" => "(Self::Integer(a), Self::Integer(b)) => int_cmp(a, b)"
//@ replace "(*a as f64)" => "fof(*a)"
//@ replace "(*b as f64)" => "fof(*b)"
//@ replace "(Self::String(a), Self::String(b)) => a.partial_cmp(b)" => "(Self::String(a), Self::String(b)) => text_cmp(a, b)"
//@ replace "(Self::Array(a), Self::Array(b)) => a.partial_cmp(b)" => "(Self::Array(_), Self::Array(_)) => lists_cmp(self, other)"
//@ replace "self.parse_number().partial_cmp(other)" => "self.parse_number().cmp_(other)"
//@ replace "self.partial_cmp(&other.parse_number())" => "self.cmp_(&other.parse_number())"
//@ replace "Ordering::Greater.into()" => "Some(Ordering::Greater)"
//@ replace "Ordering::Less.into()" => "Some(Ordering::Less)"
//@ spec
    ensures r == compared(*self, *other),
    decreases if is_num(*self) && is_num(*other) { 0nat } else { 1nat },
//@ at start
    proof { axiom_float(); }
//@end
}
