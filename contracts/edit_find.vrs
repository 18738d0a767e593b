// ---- which occurrences of a header field a test or action sees -----------------------------
pub open spec fn places(h: Seq<Header>, n: HeaderName) -> Seq<int> decreases h.len() { if h.len() == 0 { seq![] } else if same_field(h.last().name, n) { places(h.drop_last(), n).push(h.len() - 1) } else { places(h.drop_last(), n) } }
// without index all of them in order; the n-th from the first, or from the last for a negative index
pub open spec fn chosen(h: Seq<Header>, n: HeaderName, index: Option<i32>) -> Seq<int> { let a = places(h, n); match index {
    None => a,
    Some(i) => if 1 <= i && i <= a.len() { seq![a[i - 1]] } else if i < 0 && -i <= a.len() { seq![a[a.len() + i]] } else { seq![] },
} }
pub open spec fn at_part(p: u32, s: Seq<int>) -> Seq<(u32, int)> { s.map_values(|x: int| (p, x)) }
pub open spec fn in_part(m: Mail, p: u32, names: Seq<HeaderName>, index: Option<i32>) -> Seq<(u32, int)> decreases names.len() { if names.len() == 0 { seq![] } else { in_part(m, p, names.drop_last(), index) + at_part(p, chosen(m.parts@[p as int].headers@, names.last(), index)) } }
pub open spec fn in_parts(m: Mail, ps: Seq<u32>, names: Seq<HeaderName>, index: Option<i32>) -> Seq<(u32, int)> decreases ps.len() { if ps.len() == 0 { seq![] } else { in_parts(m, ps.drop_last(), names, index) + in_part(m, ps.last(), names, index) } }
pub open spec fn seen(f: Seq<(u32, usize)>) -> Seq<(u32, int)> { f.map_values(|x: (u32, usize)| (x.0, x.1 as int)) }
pub proof fn lemma_places(h: Seq<Header>, n: HeaderName) ensures forall|i: int| 0 <= i < places(h, n).len() ==> 0 <= #[trigger] places(h, n)[i] < h.len() && same_field(h[places(h, n)[i]].name, n), forall|i: int, j: int| 0 <= i < j < places(h, n).len() ==> places(h, n)[i] < places(h, n)[j],
    places(h, n).len() <= h.len() decreases h.len() { if h.len() > 0 { lemma_places(h.drop_last(), n); assert forall|i: int| 0 <= i < places(h, n).len() implies 0 <= #[trigger] places(h, n)[i] < h.len() && same_field(h[places(h, n)[i]].name, n) by { if i < places(h.drop_last(), n).len() { assert(h.drop_last()[places(h.drop_last(), n)[i]] == h[places(h, n)[i]]); } } } }
pub proof fn lemma_places_prefix(h: Seq<Header>, n: HeaderName, k: int) requires 0 <= k <= h.len() ensures places(h.take(k), n).len() <= places(h, n).len(), forall|i: int| 0 <= i < places(h.take(k), n).len() ==> places(h.take(k), n)[i] == places(h, n)[i], k < h.len() && same_field(h[k].name, n) ==> places(h.take(k), n).len() < places(h, n).len() && places(h, n)[places(h.take(k), n).len() as int] == k decreases h.len() - k {
    if k < h.len() { lemma_places_prefix(h, n, k + 1); assert(h.take(k + 1).drop_last() =~= h.take(k)); } else { assert(h.take(k) =~= h); } }
pub proof fn lemma_done(done: Seq<(u32, int)>, m: Mail, p: u32, names: Seq<HeaderName>, index: Option<i32>, f: Seq<(u32, int)>)
    requires names.len() > 0, f == (done + in_part(m, p, names.drop_last(), index)) + at_part(p, chosen(m.parts@[p as int].headers@, names.last(), index)) ensures f == done + in_part(m, p, names, index)
{ assert(f =~= done + in_part(m, p, names, index)); }
// the parts looked at: the current part, or with :anychild all parts below it too
pub uninterp spec fn walk(c: Context, anychild: bool) -> Seq<u32>;
pub struct Walk<'a> { pub ids: Vec<u32>, pub i: usize, pub parts: &'a Vec<Part> }
#[verifier::external_body] pub fn new_walk<'a>(c: &'a Context, anychild: bool) -> (r: Walk<'a>) ensures r.i == 0, r.ids@ == walk(*c, anychild), *r.parts == c.message.parts, forall|i: int| 0 <= i < r.ids@.len() ==> #[trigger] r.ids@[i] < c.message.parts@.len() { unimplemented!() }
impl<'a> Walk<'a> {
    pub fn next(&mut self) -> (r: Option<(u32, &'a Part)>) requires forall|i: int| 0 <= i < old(self).ids@.len() ==> #[trigger] old(self).ids@[i] < old(self).parts@.len()
        ensures final(self).ids == old(self).ids, final(self).parts == old(self).parts, old(self).i < old(self).ids@.len() ==> r is Some && (r->0).0 == old(self).ids@[old(self).i as int] && *(r->0).1 == old(self).parts@[(r->0).0 as int] && final(self).i == old(self).i + 1, old(self).i >= old(self).ids@.len() ==> r is None && final(self).i == old(self).i
    { if self.i < self.ids.len() { let p = self.ids[self.i]; self.i = self.i + 1; Some((p, &self.parts[p as usize])) } else { None } }
}
impl<'x> Context<'x> {
//@fn src/runtime/tests/test_header.rs Context::find_headers
//@ rename headers_found
//@ sig "mut visitor_fnc: impl FnMut(&Header, u32, usize) -> bool," => ""
//@ sig "-> bool" => "-> (r: Vec<(u32, usize)>)"
//@ replace "let parts = [self.part];" => "let mut found: Vec<(u32, usize)> = Vec::new();"
//@ replace "SubpartIterator::new(self, &parts, any_child)" => "new_walk(self, any_child)"
//@ replace "'outer: for header_name in header_names" => "let mut hi: usize = 0; #[verifier::loop_isolation(false)] 'outer: while hi < header_names.len()"
//@ replace "for (pos, header) in message_part.headers.iter().enumerate().filter(|(_, h)| &h.name == header_name)" => "for pos in it: 0..message_part.headers.len()"
//@ replace "for (pos, header) in message_part.headers.iter().enumerate() {" => "for pos in it: 0..message_part.headers.len() invariant header_count as int == places(hs.take(it.index() as int), *header_name).len(), 1 <= index ==> header_count < index, found@ == mine, hs == message_part.headers@, it.seq().len() == hs.len(), {"
//@ replace "for (pos, header) in message_part.headers.iter().enumerate().rev()" => "let mut pos: usize = message_part.headers.len(); while pos > 0"
//@ replace "&header.name == header_name" => "same_name(&header.name, header_name)"
//@ replace "if visitor_fnc(header, part_id, pos) { return true; }" => "if same_name(&message_part.headers[pos].name, header_name) { found.push((part_id, pos)); }"
//@ replace "let mut header_count = 0;" => "let mut header_count: i32 = 0;"
//@ replace "false" => "found"
//@ spec
    requires index is Some ==> index->0 > i32::MIN, forall|i: int| 0 <= i < self.message.parts@.len() ==> (#[trigger] self.message.parts@[i]).headers@.len() < i32::MAX,
    ensures seen(r@) == in_parts(self.message, walk(*self, any_child), header_names@, index),
//@ loop 0 while
    invariant index is Some ==> index->0 > i32::MIN, forall|i: int| 0 <= i < self.message.parts@.len() ==> (#[trigger] self.message.parts@[i]).headers@.len() < i32::MAX,
        part_iter.ids@ == walk(*self, any_child), *part_iter.parts == self.message.parts, forall|i: int| 0 <= i < part_iter.ids@.len() ==> #[trigger] part_iter.ids@[i] < part_iter.parts@.len(), part_iter.i <= part_iter.ids@.len(),
        seen(found@) == in_parts(self.message, part_iter.ids@.take(part_iter.i as int), header_names@, index),
    ensures part_iter.i >= part_iter.ids@.len(),
    decreases part_iter.ids@.len() - part_iter.i,
//@ at before loop 0
    proof { assert(seen(found@) =~= in_parts(self.message, part_iter.ids@.take(0), header_names@, index)); }
//@ at loop 0 start
    let ghost done = found@; let ghost hs = message_part.headers@; assert(*message_part == self.message.parts@[part_id as int]); assert(hs.len() < i32::MAX);
    proof { assert(part_iter.ids@.take(part_iter.i as int).drop_last() =~= part_iter.ids@.take(part_iter.i - 1)); assert(seen(found@) =~= seen(done) + in_part(self.message, part_id, header_names@.take(0), index)); }
//@ at loop 0 end
    proof { assert(header_names@.take(header_names@.len() as int) =~= header_names@); assert(part_iter.ids@.take(part_iter.i as int).last() == part_id);
        assert(in_parts(self.message, part_iter.ids@.take(part_iter.i as int), header_names@, index) == in_parts(self.message, part_iter.ids@.take(part_iter.i - 1), header_names@, index) + in_part(self.message, part_id, header_names@, index)); }
//@ at after loop 0
    proof { assert(part_iter.ids@.take(part_iter.i as int) =~= part_iter.ids@); }
//@ loopattr 3 #[verifier::loop_isolation(false)]
//@ loop 1 for
    invariant hi <= header_names@.len(), seen(found@) == seen(done) + in_part(self.message, part_id, header_names@.take(hi as int), index), hs == message_part.headers@, hs.len() < i32::MAX,
    decreases header_names@.len() - hi,
//@ at loop 1 start
    let header_name = &header_names[hi]; hi = hi + 1; let ghost mine = found@; let ghost all = places(hs, *header_name); let ghost names = header_names@.take(hi as int);
    proof { assert(names.drop_last() =~= header_names@.take(hi - 1)); lemma_places(hs, *header_name); assert(hs.take(0) =~= Seq::<Header>::empty()); assert(hs.take(hs.len() as int) =~= hs); }
//@ at loop 1 end
    proof { lemma_done(seen(done), self.message, part_id, names, index, seen(found@)); }
//@ loop 2 for
    invariant seen(found@) == seen(mine) + at_part(part_id, places(hs.take(it.index() as int), *header_name)), hs == message_part.headers@, it.seq().len() == hs.len(),
//@ at before loop 2
    proof { assert(seen(found@) =~= seen(mine) + at_part(part_id, places(hs.take(0), *header_name))); }
//@ at loop 2 start
    let ghost before = found@; proof { assert(pos == it.index()); assert(hs.take(pos + 1).drop_last() =~= hs.take(pos as int)); }
//@ at loop 2 end
    proof { assert(hs.take(pos + 1).last() == hs[pos as int]); assert(message_part.headers@[pos as int] == hs[pos as int]);
        if same_field(hs[pos as int].name, *header_name) { assert(found@ =~= before.push((part_id, pos))); assert(places(hs.take(pos + 1), *header_name) =~= places(hs.take(pos as int), *header_name).push(pos as int)); assert(seen(found@) =~= seen(before).push((part_id, pos as int))); }
        else { assert(found@ =~= before); assert(places(hs.take(pos + 1), *header_name) =~= places(hs.take(pos as int), *header_name)); }
        assert(seen(found@) =~= seen(mine) + at_part(part_id, places(hs.take(pos + 1), *header_name))); }
//@ at after loop 2
    proof { assert(seen(found@) == seen(mine) + at_part(part_id, chosen(hs, *header_name, index))); }
//@ at loop 3 start
    let header = &message_part.headers[pos];
    proof { assert(hs.take(pos + 1).drop_last() =~= hs.take(pos as int)); lemma_places_prefix(hs, *header_name, pos as int); lemma_places(hs.take(pos as int), *header_name); }
//@ at before "continue 'outer"
    proof { assert(seen(found@) =~= seen(mine) + at_part(part_id, chosen(hs, *header_name, Some(index)))); lemma_done(seen(done), self.message, part_id, names, Some(index), seen(found@)); }
//@ at after loop 3
    proof { assert(seen(found@) =~= seen(mine) + at_part(part_id, chosen(hs, *header_name, Some(index)))); }
//@ loop 4 for
    invariant_except_break header_count as int == all.len() - places(hs.take(pos as int), *header_name).len(), header_count < index, found@ == mine,
    invariant pos <= hs.len(), hs == message_part.headers@, 0 < index, all == places(hs, *header_name), hs.len() < i32::MAX,
    ensures seen(found@) == seen(mine) + at_part(part_id, chosen(hs, *header_name, Some((-index) as i32))),
    decreases pos,
//@ at loop 4 start
    pos = pos - 1; let header = &message_part.headers[pos];
    proof { assert(hs.take(pos + 1).drop_last() =~= hs.take(pos as int)); lemma_places_prefix(hs, *header_name, pos as int); lemma_places(hs.take(pos as int), *header_name); }
//@ at before "break"
    proof { assert(seen(found@) =~= seen(mine) + at_part(part_id, chosen(hs, *header_name, Some((-index) as i32)))); }
//@ at after loop 4
    proof { assert(seen(found@) =~= seen(mine) + at_part(part_id, chosen(hs, *header_name, Some((-index) as i32)))); }
//@end
}
