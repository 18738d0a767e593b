// ---- :local variables get their final place ---------------------------------------------------
//@type src/lib.rs Envelope
//@end
#[verifier::external_body] pub struct HdrVar { x: u8 }
#[verifier::external_body] pub struct MsgPart { x: u8 }
//@type src/compiler/mod.rs VariableType
//@ replace "Header(HeaderVariable)" => "Header(HdrVar)"
//@ replace "Part(MessagePart)" => "Part(MsgPart)"
//@end
//@type src/compiler/mod.rs Value
//@ keep Text Variable List
//@end
//@type src/compiler/grammar/actions/action_set.rs Modifier
//@end
//@type src/compiler/grammar/expr/mod.rs Expression
//@ keep Variable UnaryOperator
//@ replace "UnaryOperator(UnaryOperator)" => "UnaryOperator(u8)"
//@end
pub trait MapLocalVars: Sized {
    spec fn moved(a: Self, b: Self, num: usize) -> bool;
    fn map_local_vars(&mut self, last_id: usize) ensures Self::moved(*old(self), *final(self), last_id);
}
pub open spec fn var_moved(a: VariableType, b: VariableType, num: usize) -> bool { match a { VariableType::Local(i) => b is Local && b->Local_0 == placed(i, num), _ => b == a } }
pub open spec fn value_moved(a: Value, b: Value, num: usize) -> bool decreases a { match a { Value::Text(_) => b == a, Value::Variable(v) => b is Variable && var_moved(v, b->Variable_0, num), Value::List(l) => b is List && b->List_0@.len() == l@.len() && forall|i: int| 0 <= i < l@.len() ==> value_moved(#[trigger] l@[i], b->List_0@[i], num) } }
impl MapLocalVars for VariableType {
    open spec fn moved(a: Self, b: Self, num: usize) -> bool { var_moved(a, b, num) }
//@fn src/compiler/grammar/instruction.rs <MapLocalVars for VariableType>::map_local_vars
//@ replace "if *id > last_id => {" => "=> { if *id > last_id {"
//@ replace "+ last_id; }" => "+ last_id; } }"
//@end
}
impl<T: MapLocalVars> MapLocalVars for Option<T> {
    open spec fn moved(a: Self, b: Self, num: usize) -> bool { match a { None => b is None, Some(x) => b is Some && T::moved(x, b->0, num) } }
//@fn src/compiler/grammar/instruction.rs <MapLocalVars for Option>::map_local_vars
//@end
}
impl MapLocalVars for Value {
    open spec fn moved(a: Self, b: Self, num: usize) -> bool { value_moved(a, b, num) }
//@fn src/compiler/grammar/instruction.rs <MapLocalVars for Value>::map_local_vars
//@ replace "items.map_local_vars(last_id)" => "move_items(items, last_id)"
//@end
}
// Vec<Value>: as for every vector below
#[verifier::external_body] pub fn move_items(v: &mut Vec<Value>, last_id: usize) ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> value_moved(#[trigger] old(v)@[i], final(v)@[i], last_id) { unimplemented!() }
impl MapLocalVars for Modifier {
    open spec fn moved(a: Self, b: Self, num: usize) -> bool { match a { Modifier::Replace { find, replace } => (match b { Modifier::Replace { find: f, replace: r } => value_moved(find, f, num) && value_moved(replace, r, num), _ => false }), _ => b == a } }
//@fn src/compiler/grammar/instruction.rs <MapLocalVars for Modifier>::map_local_vars
//@end
}
impl MapLocalVars for Expression {
    open spec fn moved(a: Self, b: Self, num: usize) -> bool { match a { Expression::Variable(v) => b is Variable && var_moved(v, b->Variable_0, num), _ => b == a } }
//@fn src/compiler/grammar/instruction.rs <MapLocalVars for Expression>::map_local_vars
//@end
}
impl<T: MapLocalVars> MapLocalVars for Vec<T> {
    open spec fn moved(a: Self, b: Self, num: usize) -> bool { b@.len() == a@.len() && forall|i: int| 0 <= i < a@.len() ==> T::moved(#[trigger] a@[i], b@[i], num) }
//@fn src/compiler/grammar/instruction.rs <MapLocalVars for Vec>::map_local_vars
//@ replace "for item in self {" => "let ghost a = self@; let n = self.len(); let mut i: usize = 0; while i < n invariant 0 <= i <= n, n == a.len(), self@.len() == n, forall|k: int| 0 <= k < i ==> T::moved(#[trigger] a[k], self@[k], last_id), forall|k: int| i <= k < n ==> self@[k] == #[trigger] a[k], decreases n - i, { let item = &mut self[i]; i = i + 1;"
//@end
}
