// ---- what a value in a script stands for at run time -----------------------------------------
//@type src/lib.rs Envelope
//@ attr #[derive(PartialEq, Eq, Clone, Copy, Structural)]
//@end
//@type src/compiler/mod.rs VariableType
//@ replace "Header(HeaderVariable)" => "Header(HdrVar)"
//@ replace "Part(MessagePart)" => "Part(MsgPart)"
//@end
#[verifier::external_body] pub struct HdrVar { x: u8 }
#[verifier::external_body] pub struct MsgPart { x: u8 }
//@type src/compiler/mod.rs Number
//@end
//@type src/compiler/mod.rs Regex
//@ keep expr
//@end
//@type src/compiler/mod.rs Value
//@end
//@type src/lib.rs Runtime
//@ keep environment
//@ replace "AHashMap<Cow<'static, str>, Variable>" => "VarMap"
//@end
//@type src/lib.rs Context
//@ keep runtime envelope vars_env vars_global vars_local vars_match
//@ replace "AHashMap<Cow<'static, str>, Variable>" => "VarMap"
//@end
pub open spec fn map_get(m: VarMap, n: Seq<char>) -> Option<Variable> { if m@.dom().contains(n) { Some(m@[n]) } else { None } }
pub open spec fn slot(v: Seq<Variable>, i: usize) -> Option<Variable> { if i < v.len() { Some(v[i as int]) } else { None } }
// the first envelope entry of that name
pub open spec fn env_get(e: Seq<(Envelope, Variable)>, n: Envelope) -> Option<Variable> decreases e.len() { if e.len() == 0 { None } else if e[0].0 == n { Some(e[0].1) } else { env_get(e.skip(1), n) } }
pub uninterp spec fn header_value(c: Context, h: HdrVar) -> Option<Variable>;
pub uninterp spec fn part_value(c: Context, p: MsgPart) -> Option<Variable>;
pub open spec fn holds(c: Context, v: VariableType) -> Option<Variable> { match v {
    VariableType::Local(i) => slot(c.vars_local@, i), VariableType::Match(i) => slot(c.vars_match@, i), VariableType::Global(n) => map_get(c.vars_global, n@),
    VariableType::Environment(n) => if map_get(c.vars_env, n@) is Some { map_get(c.vars_env, n@) } else { map_get(c.runtime.environment, n@) },
    VariableType::Envelope(e) => env_get(c.envelope@, e), VariableType::Header(h) => header_value(c, h), VariableType::Part(p) => part_value(c, p) } }
pub fn copy_of(o: Option<&Variable>) -> (r: Option<Variable>) ensures r == (match o { Some(v) => Some(*v), None => None }) { match o { Some(v) => Some(v.clone()), None => None } }
pub fn copy_either(o: Option<&Variable>, p: Option<&Variable>) -> (r: Option<Variable>) ensures r == (match o { Some(v) => Some(*v), None => match p { Some(v) => Some(*v), None => None } }) { match o { Some(v) => Some(v.clone()), None => copy_of(p) } }
pub fn env_find<'a>(e: &'a Vec<(Envelope, Variable)>, n: &Envelope) -> (r: Option<&'a Variable>) ensures match r { Some(v) => env_get(e@, *n) == Some(*v), None => env_get(e@, *n) is None }
{
    let mut i: usize = 0; proof { assert(e@.skip(0) =~= e@); }
    while i < e.len() invariant 0 <= i <= e@.len(), env_get(e@, *n) == env_get(e@.skip(i as int), *n), decreases e.len() - i, {
        proof { assert(e@.skip(i as int).skip(1) =~= e@.skip(i + 1)); }
        if e[i].0 == *n { return Some(&e[i].1); } i = i + 1;
    }
    None
}
pub uninterp spec fn number_str(n: Number) -> Seq<char>;
#[verifier::external_body] pub fn number_text_of(n: &Number) -> (r: String) ensures r@ == number_str(*n) { unimplemented!() }
pub uninterp spec fn number_var(n: Number) -> Variable;
#[verifier::external_body] pub fn number_value(n: &Number) -> (r: Variable) ensures r == number_var(*n) { unimplemented!() }
impl Variable { #[verifier::external_body] pub fn default() -> (r: Variable) ensures is_text(r, Seq::<char>::empty()) { unimplemented!() } }
// a text with references: its pieces one after the other, each reference replaced by the text of the value (nothing if there is none)
pub open spec fn piece(c: Context, v: Value) -> Seq<char> { match v { Value::Text(t) => (*t)@, Value::Variable(n) => match holds(c, n) { Some(x) => vtext(x), None => seq![] }, Value::Number(n) => number_str(n), _ => seq![] } }
pub open spec fn pieces(c: Context, l: Seq<Value>) -> Seq<char> decreases l.len() { if l.len() == 0 { seq![] } else { pieces(c, l.drop_last()) + piece(c, l.last()) } }
pub open spec fn stands_for(c: Context, v: Value, r: Variable) -> bool { match v {
    Value::Text(t) => is_text(r, (*t)@), Value::Variable(n) => match holds(c, n) { Some(x) => r == x, None => is_text(r, seq![]) },
    Value::List(l) => is_text(r, pieces(c, l@)), Value::Number(n) => r == number_var(n), Value::Regex(x) => is_text(r, x.expr@) } }
impl<'x> Context<'x> {
    #[verifier::external_body] pub fn eval_header(&self, h: &HdrVar) -> (r: Option<Variable>) ensures r == header_value(*self, *h) { unimplemented!() }
    #[verifier::external_body] pub fn eval_part(&self, p: &MsgPart) -> (r: Option<Variable>) ensures r == part_value(*self, *p) { unimplemented!() }
//@fn src/runtime/eval.rs Context::variable
//@ ret r
//@ sig "<'y: 'x>" => ""
//@ sig "&'y self" => "&self"
//@ replace "self.vars_local.get(*var_num).cloned()" => "copy_of(self.vars_local.get(*var_num))"
//@ replace "self.vars_match.get(*var_num).cloned()" => "copy_of(self.vars_match.get(*var_num))"
//@ replace "self.vars_global.get(var_name.as_str()).cloned()" => "copy_of(self.vars_global.get(var_name.as_str()))"
//@ replace "self.vars_env.get(var_name.as_str()).or_else(|| self.runtime.environment.get(var_name.as_str())).cloned()" => "copy_either(self.vars_env.get(var_name.as_str()), self.runtime.environment.get(var_name.as_str()))"
//@ replace "self.envelope.iter().find_map( |(e, v)| { if e == envelope { Some(v.clone()) } else { None } }, )" => "copy_of(env_find(&self.envelope, envelope))"
//@ cut "match part { MessagePart::TextBody(convert) => {" to "Variable::from(String::from_utf8_lossy(v))) } }" => "self.eval_part(part)"
//@ spec
    ensures r == holds(*self, *var),
//@end
//@fn src/runtime/actions/action_set.rs Context::get_variable
//@ ret r
//@ replace "self.envelope.iter().find_map( |(name, val)| { if name == env { Some(val) } else { None } }, )" => "env_find(&self.envelope, env)"
//@ spec
    requires var_name is Local || var_name is Global || var_name is Envelope,
    ensures match r { Some(v) => holds(*self, *var_name) == Some(*v), None => holds(*self, *var_name) is None },
//@end
//@fn src/runtime/eval.rs Context::eval_value
//@ ret r
//@ replace "self.variable(var).unwrap_or_default()" => "(match self.variable(var) { Some(v) => v, None => Variable::default() })"
//@ loop 0 for it it
    invariant it.seq().len() == list@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == list@[i], 0 <= it.index() <= list@.len(), data@ == pieces(*self, list@.take(it.index() as int)),
//@ at loop 0 start
    proof { assert(list@.take(it.index() + 1).drop_last() =~= list@.take(it.index() as int)); assert(list@.take(it.index() + 1).last() == *item); }
//@ replace "data.push_str(string)" => "data.push_str(string.as_str())"
//@ replace "data.push_str(&value.to_string())" => "data.push_str(value.to_string().as_str())"
//@ replace "data.push_str(&n.to_string())" => "data.push_str(number_text_of(n).as_str())"
//@ replace "data.into()" => "let ghost all = list@.take(list@.len() as int); proof { assert(all =~= list@); } Variable::from(data)"
//@ replace "Variable::from(*n)" => "number_value(n)"
//@ replace "r.expr.clone().into()" => "Arc::new(r.expr.clone())"
//@ spec
    ensures stands_for(*self, *string, r),
//@end
}
