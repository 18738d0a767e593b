use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@type src/lib.rs Runtime
//@ keep max_variable_size
//@end
//@type src/lib.rs Context
//@ keep runtime vars_match
//@end
impl Variable {
    #[verifier::external_body]
    pub fn default() -> (r: Variable) ensures is_text(r, Seq::<char>::empty()) { unimplemented!() }
}
pub open spec fn is_clear(v: Variable) -> bool { v is String && str_of(v).len() == 0 }
pub open spec fn bit(p: u64, i: int) -> bool { 0 <= i < 64 && (p >> (i as u64)) & 1 == 1 }
// slot i after a clear of p: empty if it was selected, else untouched
pub open spec fn cleared(o: Seq<Variable>, p: u64, f: Seq<Variable>) -> bool {
    f.len() == o.len() && forall|i: int| 0 <= i < o.len() ==> (if bit(p, i) { is_clear(#[trigger] f[i]) } else { f[i] == o[i] })
}
// the slots after writing v[0..n] in order; numbers outside the table write nothing
// the last of the first n assignments that names slot i; -1 if there is none
pub open spec fn last(v: Seq<(usize, String)>, n: int, i: int) -> int decreases n { if n <= 0 { -1 } else if v[n - 1].0 == i { n - 1 } else { last(v, n - 1, i) } }
pub proof fn lemma_last(v: Seq<(usize, String)>, n: int, i: int) requires n >= 0 ensures -1 <= last(v, n, i) < n, last(v, n, i) >= 0 ==> v[last(v, n, i)].0 == i decreases n
{ if n > 0 && v[n - 1].0 != i { lemma_last(v, n - 1, i); } }
// the slots after writing v[0..n] in order; numbers outside the table write nothing
pub open spec fn written(o: Seq<Variable>, v: Seq<(usize, String)>, n: int, f: Seq<Variable>) -> bool {
    f.len() == o.len() && forall|i: int| 0 <= i < o.len() ==> (if last(v, n, i) >= 0 { is_text(#[trigger] f[i], v[last(v, n, i)].1@) } else { f[i] == o[i] })
}
pub proof fn lemma_bits(p: u64, index: u32)
    requires p != 0, index == 63 - vstd::std_specs::bits::u64_leading_zeros(p)
    ensures 0 <= index < 64, bit(p, index as int), (p ^ (1u64 << index)) < p, forall|i: int| (#[trigger] bit(p ^ (1u64 << index), i)) == (bit(p, i) && i != index)
{
    vstd::std_specs::bits::axiom_u64_leading_zeros(p);
    let q = p ^ (1u64 << index);
    let x = index as u64;
    assert(0 <= index < 64);
    assert(x == (63 - vstd::std_specs::bits::u64_leading_zeros(p)) as u64);
    assert((p >> x) & 1 != 0);
    assert((p >> x) & 1 == 1) by (bit_vector) requires (p >> x) & 1 != 0;
    assert(bit(p, index as int));
    assert((p ^ (1u64 << x)) < p) by (bit_vector) requires (p >> x) & 1 == 1, x < 64;
    assert(1u64 << index == 1u64 << x) by (bit_vector) requires x == index as u64, index < 64;
    assert forall|i: int| (#[trigger] bit(q, i)) == (bit(p, i) && i != index) by {
        if 0 <= i < 64 { let y = i as u64;
            assert(((p ^ (1u64 << x)) >> y) & 1 == (if y == x { 1u64 ^ ((p >> y) & 1) } else { (p >> y) & 1 })) by (bit_vector) requires x < 64, y < 64;
            assert((1u64 ^ ((p >> y) & 1)) == 1 <==> ((p >> y) & 1) != 1) by (bit_vector);
            assert(bit(q, i) == ((q >> y) & 1 == 1)); assert(bit(p, i) == ((p >> y) & 1 == 1));
        } }
}
impl Context<'_> {
//@fn src/runtime/variables.rs Context::set_match_variables
//@ loops 1
//@ replace "(var_num, value) in" => "pair in"
//@ replace "value.into()" => "Variable::from(value)"
//@ spec
    ensures written(old(self).vars_match@, set_vars@, set_vars@.len() as int, final(self).vars_match@),
//@ at start
    let ghost o = self.vars_match@;
    let ghost v = set_vars@;
//@ loop 0 for it it
    invariant it.seq() == v, 0 <= it.index() <= v.len(), written(o, v, it.index(), self.vars_match@),
//@ at loop 0 start
    let ghost m = self.vars_match@;
    let (var_num, value) = pair;
//@ at loop 0 end
    proof { assert forall|i: int| 0 <= i < o.len() implies (if last(v, it.index() + 1, i) >= 0 { is_text(#[trigger] self.vars_match@[i], v[last(v, it.index() + 1, i)].1@) } else { self.vars_match@[i] == o[i] }) by { lemma_last(v, it.index(), i); } }
//@end
//@fn src/runtime/variables.rs Context::clear_match_variables
//@ loops 1
//@ spec
    ensures cleared(old(self).vars_match@, positions, final(self).vars_match@),
//@ at start
    let ghost o = self.vars_match@;
    let ghost p = positions;
//@ loop 0 while
    invariant self.vars_match@.len() == o.len(), forall|i: int| bit(positions, i) ==> bit(p, i),
        forall|i: int| 0 <= i < o.len() ==> (if bit(p, i) && !bit(positions, i) { is_clear(#[trigger] self.vars_match@[i]) } else { self.vars_match@[i] == o[i] }),
    decreases positions,
//@ at loop 0 start
    proof { lemma_bits(positions, (63 - vstd::std_specs::bits::u64_leading_zeros(positions)) as u32); }
//@ at after loop 0
    proof { assert forall|i: int| !bit(0, i) by { if 0 <= i < 64 { let y = i as u64; assert((0u64 >> y) & 1 == 0) by (bit_vector) requires y < 64; } } }
//@end
}
}
fn main() {}
