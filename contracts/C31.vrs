use vstd::prelude::*;
use std::sync::Arc;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@include edit_base.vrs
pub assume_specification<T>[ std::mem::replace ](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
// an iterator over part numbers
#[verifier::external_body] pub struct Ids { x: u8 }
impl View for Ids { type V = Seq<u32>; uninterp spec fn view(&self) -> Seq<u32>; }
impl Ids { #[verifier::external_body] pub fn next(&mut self) -> (r: Option<u32>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first() { unimplemented!() } }
#[verifier::external_body] pub fn ids_of(v: &[u32]) -> (r: Ids) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn numbers(a: u32, b: u32) -> (r: Vec<u32>) ensures r@ == Seq::new((if b >= a { b - a } else { 0 }) as nat, |i: int| (a + i) as u32) { unimplemented!() }
pub fn body_of<'a>(m: &'a Mail, p: u32) -> (r: Option<&'a PartType>) ensures r is Some <==> p < m.parts@.len(), r is Some ==> *(r->0) == m.parts@[p as int].body { match m.parts.get(p as usize) { Some(p) => Some(&p.body), None => None } }
// ---- the parts below a part, depth first in message order ------------------------------
pub open spec fn kids(m: Mail, p: u32) -> Seq<u32> { if p < m.parts@.len() { match m.parts@[p as int].body { PartType::Multipart(k) => k@, _ => seq![] } } else { seq![] } }
pub open spec fn low(s: Seq<u32>) -> int decreases s.len() { if s.len() == 0 { u32::MAX + 1 } else if s[0] < low(s.drop_first()) { s[0] as int } else { low(s.drop_first()) } }
// parts come after the part they are nested in (mail_parser numbers them as they appear)
pub open spec fn nested(m: Mail) -> bool { forall|p: u32| p < low(#[trigger] kids(m, p)) }
pub open spec fn pre(m: Mail, p: u32) -> Seq<u32> decreases u32::MAX + 1 - p, 0nat { if p < low(kids(m, p)) { seq![p] + pre_all(m, kids(m, p)) } else { seq![p] } }
pub open spec fn pre_all(m: Mail, s: Seq<u32>) -> Seq<u32> decreases u32::MAX + 1 - low(s), 1 + s.len() { if s.len() == 0 { seq![] } else { pre(m, s[0]) + pre_all(m, s.drop_first()) } }
pub open spec fn pending(m: Mail, st: Seq<Ids>) -> Seq<u32> decreases st.len() { if st.len() == 0 { seq![] } else { pre_all(m, st.last()@) + pending(m, st.drop_last()) } }
// one step of the walk
pub proof fn lemma_step(m: Mail, s: Seq<u32>) requires nested(m), s.len() > 0 ensures pre_all(m, s) == seq![s[0]] + (pre_all(m, kids(m, s[0])) + pre_all(m, s.drop_first())) { assert(s[0] < low(kids(m, s[0]))); assert(pre(m, s[0]) == seq![s[0]] + pre_all(m, kids(m, s[0]))); assert(pre_all(m, s) =~= seq![s[0]] + (pre_all(m, kids(m, s[0])) + pre_all(m, s.drop_first()))); }
pub proof fn lemma_stacked(m: Mail, st: Seq<Ids>, i: Ids) ensures pending(m, st.push(i)) == pre_all(m, i@) + pending(m, st) { assert(st.push(i).drop_last() =~= st); }
// -- exactly once: parts numbered as they appear, a part and all below it in one run of numbers
pub open spec fn size(m: Mail, p: u32) -> nat { pre(m, p).len() }
pub open spec fn in_line(m: Mail, s: Seq<u32>, from: int) -> bool decreases s.len() { s.len() == 0 || (s[0] == from && in_line(m, s.drop_first(), from + size(m, s[0]))) }
pub open spec fn numbered(m: Mail) -> bool { nested(m) && forall|p: u32| in_line(m, #[trigger] kids(m, p), p + 1) }
pub open spec fn run_of(s: Seq<u32>, from: int) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == from + i }
pub proof fn lemma_once(m: Mail, p: u32) requires numbered(m) ensures run_of(pre(m, p), p as int) decreases u32::MAX + 1 - p, 0nat { if p < low(kids(m, p)) { assert(in_line(m, kids(m, p), p + 1)); lemma_once_all(m, kids(m, p), p + 1); } }
pub proof fn lemma_once_all(m: Mail, s: Seq<u32>, from: int) requires numbered(m), in_line(m, s, from) ensures run_of(pre_all(m, s), from) decreases u32::MAX + 1 - low(s), 1 + s.len()
{ if s.len() > 0 { lemma_once(m, s[0]); lemma_once_all(m, s.drop_first(), from + size(m, s[0])); let (a, b) = (pre(m, s[0]), pre_all(m, s.drop_first())); assert(pre_all(m, s) == a + b); assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] (a + b)[i] == from + i by { if i < a.len() {} else { assert((a + b)[i] == b[i - a.len()]); } } } }
// a run of numbers holds each number once
pub proof fn lemma_no_double(s: Seq<u32>, from: int) requires run_of(s, from) ensures s.no_duplicates() {}
pub proof fn visits_once(m: Mail, p: u32) requires numbered(m) ensures pre(m, p).no_duplicates() { lemma_once(m, p); lemma_no_double(pre(m, p), p as int); }
// what foreverypart visits in part p; at the top the message with all of its parts
pub open spec fn visited(m: Mail, p: u32, current: bool) -> Seq<u32> { if p == 0 { Seq::new((if current || m.parts@.len() == 0 { m.parts@.len() as int } else { m.parts@.len() - 1 }) as nat, |i: int| (i + if current { 0int } else { 1 }) as u32) } else { (if current { seq![p] } else { seq![] }) + pre_all(m, kids(m, p)) } }
// for a received message this is the part and everything below it, once
pub proof fn lemma_visited(m: Mail, p: u32, current: bool) requires numbered(m), p == 0 ==> size(m, 0) == m.parts@.len() && m.parts@.len() <= u32::MAX ensures visited(m, p, current) == (if current { pre(m, p) } else { pre(m, p).drop_first() }), visited(m, p, current).no_duplicates()
{ visits_once(m, p); lemma_once(m, p); assert(p < low(kids(m, p))); if p == 0 { if current { assert(visited(m, p, current) =~= pre(m, p)); } else { assert(visited(m, p, current) =~= pre(m, p).drop_first()); } } else if current { assert(visited(m, p, current) =~= pre(m, p)); } else { assert(visited(m, p, current) =~= pre(m, p).drop_first()); }
    assert forall|i: int, j: int| 0 <= i < pre(m, p).drop_first().len() && 0 <= j < pre(m, p).drop_first().len() && i != j implies pre(m, p).drop_first()[i] != pre(m, p).drop_first()[j] by { assert(pre(m, p)[i + 1] != pre(m, p)[j + 1]); } }
// ---- :anychild and lists of parts ------------------------------------------------------
//@type src/runtime/tests/mime.rs SubpartIterator
//@ replace "Iter<'x, u32>" => "Ids"
//@end
// what the iterator still has to deliver
pub open spec fn to_come(it: SubpartIterator) -> Seq<u32> { if it.anychild { pre_all(it.ctx.message, it.iter@) + pending(it.ctx.message, it.iter_stack@) } else { it.iter@ } }
pub open spec fn well(it: SubpartIterator) -> bool { nested(it.ctx.message) && (!it.anychild ==> it.iter_stack@.len() == 0) }
impl<'x> SubpartIterator<'x> {
//@fn src/runtime/tests/mime.rs SubpartIterator::new
//@ ret r
//@ replace "parts.iter()" => "ids_of(parts)"
//@ spec
    ensures well(r) == nested(ctx.message), to_come(r) == (if anychild { pre_all(ctx.message, parts@) } else { parts@ }), r.ctx == ctx, r.anychild == anychild,
//@ at start
    proof { assert forall|s: Seq<u32>| #[trigger] (s + pending(ctx.message, seq![])) =~= s by {} }
//@end
//@fn src/runtime/tests/mime.rs SubpartIterator::next
//@ ret r
//@ sig "&MessagePart<'x>" => "&'x Part"
//@ replace "Some(&part_id) = self.iter.next()" => "Some(part_id) = self.iter.next()"
//@ replace "PartType::Multipart(subparts) if self.anychild =>" => "PartType::Multipart(subparts) => if self.anychild"
//@ replace "subparts.iter()" => "ids_of(subparts)"
//@ spec
    requires well(*old(self)),
    ensures well(*final(self)), final(self).ctx == old(self).ctx, final(self).anychild == old(self).anychild,
        to_come(*old(self)).len() == 0 ==> r is None && to_come(*final(self)).len() == 0,
        to_come(*old(self)).len() > 0 ==> ({ let p = to_come(*old(self))[0]; if p < old(self).ctx.message.parts@.len() { r is Some && (r->0).0 == p && *(r->0).1 == old(self).ctx.message.parts@[p as int] && to_come(*final(self)) == to_come(*old(self)).drop_first() } else { r is None } }),
//@ loop 0 loop
    invariant well(*self), self.ctx == old(self).ctx, self.anychild == old(self).anychild, to_come(*self) == to_come(*old(self)),
    decreases self.iter_stack@.len(),
//@ at loop 0 start
    let ghost s0 = *self;
    proof { let m = self.ctx.message; if s0.iter@.len() > 0 { lemma_step(m, s0.iter@); } assert(pre_all(m, Seq::<u32>::empty()) =~= Seq::<u32>::empty()); }
//@ at before "return Some((part_id, subpart))"
    proof { let m = s0.ctx.message; lemma_stacked(m, s0.iter_stack@, s0.iter); if self.iter_stack@.len() > s0.iter_stack@.len() { lemma_stacked(m, s0.iter_stack@, self.iter_stack@.last()); assert(self.iter_stack@ =~= s0.iter_stack@.push(self.iter_stack@.last())); }
        assert(to_come(*self) =~= to_come(s0).drop_first()); }
//@end
}
impl<'x> Context<'x> {
//@fn src/runtime/tests/mime.rs Context::find_nested_parts_ids
//@ ret r
//@ replace "(0u32..self.message.parts.len() as u32).collect()" => "numbers(0, self.message.parts.len() as u32)"
//@ replace "(1u32..self.message.parts.len() as u32).collect()" => "numbers(1, self.message.parts.len() as u32)"
//@ replace "let mut part_ids = Vec::new();" => "let mut part_ids: Vec<u32> = Vec::new();"
//@ replace "let mut iter_stack = Vec::new();" => "let mut iter_stack: Vec<Ids> = Vec::new();"
//@ replace "self.message.parts.get(self.part as usize).map(|p| &p.body)" => "body_of(&self.message, self.part)"
//@ replace "self.message.parts.get(part_id as usize).map(|p| &p.body)" => "body_of(&self.message, part_id)"
//@ replace "Some(&part_id) = iter.next()" => "Some(part_id) = iter.next()"
//@ replace "subparts.iter()" => "ids_of(subparts)"
//@ spec
    requires nested(self.message), self.message.parts@.len() <= u32::MAX,
    ensures r@ == visited(self.message, self.part, include_current),
//@ at before "if let Some(PartType::Multipart(subparts)) = self"
    let ghost head = part_ids@; let ghost want = head + pre_all(self.message, kids(self.message, self.part));
    proof { assert(pre_all(self.message, seq![]) =~= seq![]); }
//@ at before "loop {"
    proof { assert(part_ids@ + (pre_all(self.message, iter@) + pending(self.message, iter_stack@)) =~= want); }
//@ loop 0 loop
    invariant nested(self.message), part_ids@ + (pre_all(self.message, iter@) + pending(self.message, iter_stack@)) == want,
    ensures part_ids@ == want,
    decreases (pre_all(self.message, iter@) + pending(self.message, iter_stack@)).len(), iter_stack@.len(),
//@ loop 1 while
    invariant nested(self.message), part_ids@ + (pre_all(self.message, iter@) + pending(self.message, iter_stack@)) == want, (pre_all(self.message, iter@) + pending(self.message, iter_stack@)).len() <= rest0.len(), (pre_all(self.message, iter@) + pending(self.message, iter_stack@)).len() < rest0.len() || (iter_stack@.len() == st0.len()),
    ensures iter@.len() == 0,
    decreases (pre_all(self.message, iter@) + pending(self.message, iter_stack@)).len(),
//@ at loop 0 start
    let ghost rest0 = pre_all(self.message, iter@) + pending(self.message, iter_stack@); let ghost st0 = iter_stack@;
//@ at before "part_ids.push(part_id);"
    let ghost ids0 = part_ids@; let ghost st1 = iter_stack@; let ghost it0 = seq![part_id] + iter@;
    proof { assert(it0.drop_first() =~= iter@); lemma_step(self.message, it0); lemma_stacked(self.message, st1, iter); assert(pre_all(self.message, Seq::<u32>::empty()) =~= Seq::<u32>::empty());
        assert(ids0.push(part_id) + (pre_all(self.message, kids(self.message, part_id)) + (pre_all(self.message, iter@) + pending(self.message, st1))) =~= ids0 + (pre_all(self.message, it0) + pending(self.message, st1)));
        assert(pre_all(self.message, it0).len() == 1 + pre_all(self.message, kids(self.message, part_id)).len() + pre_all(self.message, iter@).len()); }
//@ at loop 0 end
    proof { assert(iter_stack@.len() < st0.len() || rest0.len() > (pre_all(self.message, iter@) + pending(self.message, iter_stack@)).len()); }
//@end
}
//@literals
}
fn main() {}
