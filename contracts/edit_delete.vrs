// whether a field's value matches one of the patterns of deleteheader
pub uninterp spec fn value_hit(c: Context, d: DeleteHeader, pats: Seq<Variable>, h: Header) -> bool;
#[verifier::external_body] pub fn value_matches(c: &Context, d: &DeleteHeader, pats: &Vec<Variable>, h: &Header) -> (r: bool) ensures r == value_hit(*c, *d, pats@, *h) { unimplemented!() }
pub open spec fn values_of(c: Context, v: Seq<Value>) -> Seq<Variable> { Seq::new(v.len(), |i: int| value_of(c, v[i])) }
#[verifier::external_body] pub fn eval_values(c: &Context, v: &Vec<Value>) -> (r: Vec<Variable>) ensures r@ == values_of(*c, v@) { unimplemented!() }
pub open spec fn goes(c: Context, d: DeleteHeader, x: (u32, int)) -> bool { d.value_patterns@.len() == 0 || value_hit(c, d, values_of(c, d.value_patterns@), c.message.parts@[x.0 as int].headers@[x.1]) }
// the occurrences a deleteheader removes, in the order they are found
pub open spec fn gone(c: Context, d: DeleteHeader, f: Seq<(u32, int)>) -> Seq<(u32, int)> decreases f.len() { if f.len() == 0 { seq![] } else if goes(c, d, f.last()) { gone(c, d, f.drop_last()).push(f.last()) } else { gone(c, d, f.drop_last()) } }
pub open spec fn sorted(f: Seq<(u32, int)>) -> bool { forall|i: int, j: int| 0 <= i < j < f.len() && f[i].0 == f[j].0 ==> f[i].1 < f[j].1 }
pub open spec fn valid(m: Mail, f: Seq<(u32, int)>, n: HeaderName) -> bool { forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).0 < m.parts@.len() && 0 <= f[i].1 < m.parts@[f[i].0 as int].headers@.len() && same_field(m.parts@[f[i].0 as int].headers@[f[i].1].name, n) }
pub open spec fn no_twice(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
// the walk below a part comes to each part once
#[verifier::external_body] pub proof fn axiom_walk(c: Context, anychild: bool) ensures no_twice(walk(c, anychild)), forall|i: int| 0 <= i < walk(c, anychild).len() ==> #[trigger] walk(c, anychild)[i] < c.message.parts@.len() {}
pub proof fn lemma_chosen(h: Seq<Header>, n: HeaderName, index: Option<i32>) ensures forall|i: int| 0 <= i < chosen(h, n, index).len() ==> 0 <= #[trigger] chosen(h, n, index)[i] < h.len() && same_field(h[chosen(h, n, index)[i]].name, n), forall|i: int, j: int| 0 <= i < j < chosen(h, n, index).len() ==> chosen(h, n, index)[i] < chosen(h, n, index)[j] { lemma_places(h, n); }
pub proof fn lemma_in_parts(m: Mail, ps: Seq<u32>, n: HeaderName, index: Option<i32>) requires no_twice(ps), forall|i: int| 0 <= i < ps.len() ==> #[trigger] ps[i] < m.parts@.len()
    ensures sorted(in_parts(m, ps, seq![n], index)), valid(m, in_parts(m, ps, seq![n], index), n), forall|i: int| 0 <= i < in_parts(m, ps, seq![n], index).len() ==> ps.contains((#[trigger] in_parts(m, ps, seq![n], index)[i]).0) decreases ps.len()
{
    if ps.len() > 0 {
        let f = in_parts(m, ps, seq![n], index); let f0 = in_parts(m, ps.drop_last(), seq![n], index); let p = ps.last(); let c = chosen(m.parts@[p as int].headers@, n, index);
        lemma_in_parts(m, ps.drop_last(), n, index); lemma_chosen(m.parts@[p as int].headers@, n, index);
        reveal_with_fuel(in_part, 3); assert(seq![n].drop_last() =~= Seq::<HeaderName>::empty()); assert(seq![n].last() == n); assert(in_part(m, p, seq![n], index) =~= at_part(p, c)); assert(f =~= f0 + at_part(p, c));
        assert forall|i: int| 0 <= i < f.len() implies ps.contains((#[trigger] f[i]).0) && f[i].0 < m.parts@.len() && 0 <= f[i].1 < m.parts@[f[i].0 as int].headers@.len() && same_field(m.parts@[f[i].0 as int].headers@[f[i].1].name, n) by {
            if i < f0.len() { assert(f[i] == f0[i]); let k = choose|k: int| 0 <= k < ps.drop_last().len() && ps.drop_last()[k] == f0[i].0; assert(ps[k] == f[i].0); } else { assert(f[i] == (p, c[i - f0.len()])); assert(ps[ps.len() - 1] == p); }
        }
        assert forall|i: int, j: int| 0 <= i < j < f.len() && f[i].0 == f[j].0 implies f[i].1 < f[j].1 by {
            if j < f0.len() { assert(f[i] == f0[i] && f[j] == f0[j]); } else { assert(f[j] == (p, c[j - f0.len()])); if i < f0.len() { assert(f[i] == f0[i]); let k = choose|k: int| 0 <= k < ps.drop_last().len() && ps.drop_last()[k] == f0[i].0; assert(ps[k] == p && ps[ps.len() - 1] == p); } else { assert(f[i] == (p, c[i - f0.len()])); } }
        }
    }
}
pub proof fn lemma_gone(c: Context, d: DeleteHeader, f: Seq<(u32, int)>, n: HeaderName) requires sorted(f), valid(c.message, f, n)
    ensures sorted(gone(c, d, f)), valid(c.message, gone(c, d, f), n), gone(c, d, f).len() <= f.len(), forall|i: int| 0 <= i < gone(c, d, f).len() ==> f.contains(#[trigger] gone(c, d, f)[i]) decreases f.len()
{
    if f.len() > 0 { lemma_gone(c, d, f.drop_last(), n); let g = gone(c, d, f); let g0 = gone(c, d, f.drop_last()); assert(f[f.len() - 1] == f.last());
        assert forall|i: int| 0 <= i < g.len() implies f.contains(#[trigger] g[i]) by { if i < g0.len() { assert(g[i] == g0[i]); let k = choose|k: int| 0 <= k < f.drop_last().len() && f.drop_last()[k] == g0[i]; assert(f[k] == g[i]); } else { assert(g[i] == f.last()); } }
        assert forall|i: int, j: int| 0 <= i < j < g.len() && g[i].0 == g[j].0 implies g[i].1 < g[j].1 by { if j == g0.len() { assert(g[i] == g0[i]); let k = choose|k: int| 0 <= k < f.drop_last().len() && f.drop_last()[k] == g0[i]; assert(f[k] == g[i]); } else { assert(g[i] == g0[i] && g[j] == g0[j]); } }
    }
}
// after removing the occurrences g[k..] from the last one back, every part holds what it had without them
pub open spec fn positions(p: u32, g: Seq<(u32, int)>) -> Seq<int> decreases g.len() { if g.len() == 0 { seq![] } else if g.first().0 == p { seq![g.first().1] + positions(p, g.drop_first()) } else { positions(p, g.drop_first()) } }
pub open spec fn without_from(a: Context, b: Context, g: Seq<(u32, int)>) -> bool { forall|p: int| 0 <= p < a.message.parts@.len() ==> (#[trigger] b.message.parts@[p]).headers@ == dropped(a.message.parts@[p].headers@, positions(p as u32, g)) }
// what stands before the removed fields stays where it is
pub proof fn lemma_dropped(h: Seq<Header>, at: Seq<int>, k: int) requires forall|i: int| 0 <= i < at.len() ==> k < #[trigger] at[i] < h.len(), forall|i: int, j: int| 0 <= i < j < at.len() ==> at[i] < at[j], 0 <= k < h.len()
    ensures dropped(h, at).len() == h.len() - at.len(), forall|i: int| 0 <= i <= k ==> #[trigger] dropped(h, at)[i] == h[i], k + at.len() < h.len() decreases at.len()
{ if at.len() > 0 { assert(at.first() == at[0]); assert forall|i: int| 0 <= i < at.drop_first().len() implies at[0] < #[trigger] at.drop_first()[i] < h.len() by { assert(at.drop_first()[i] == at[i + 1]); } lemma_dropped(h, at.drop_first(), at[0]); } }
pub proof fn lemma_positions(p: u32, g: Seq<(u32, int)>, lim: int) requires sorted(g), forall|i: int| 0 <= i < g.len() && g[i].0 == p ==> 0 <= (#[trigger] g[i]).1 < lim
    ensures forall|i: int| 0 <= i < positions(p, g).len() ==> 0 <= #[trigger] positions(p, g)[i] < lim && g.contains((p, positions(p, g)[i])), forall|i: int, j: int| 0 <= i < j < positions(p, g).len() ==> positions(p, g)[i] < positions(p, g)[j] decreases g.len()
{
    if g.len() > 0 {
        let r = g.drop_first(); assert forall|i: int, j: int| 0 <= i < j < r.len() && r[i].0 == r[j].0 implies r[i].1 < r[j].1 by { assert(r[i] == g[i + 1] && r[j] == g[j + 1]); }
        assert forall|i: int| 0 <= i < r.len() && r[i].0 == p implies 0 <= (#[trigger] r[i]).1 < lim by { assert(r[i] == g[i + 1]); }
        lemma_positions(p, r, lim); let q = positions(p, g); let q0 = positions(p, r); let o = if g.first().0 == p { 1int } else { 0 };
        assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < lim && g.contains((p, q[i])) by { if i < o { assert(g[0] == (p, q[i])); } else { assert(q[i] == q0[i - o]); let k = choose|k: int| 0 <= k < r.len() && r[k] == (p, q0[i - o]); assert(g[k + 1] == r[k]); } }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] < q[j] by { assert(q[j] == q0[j - o]); if i < o { let k = choose|k: int| 0 <= k < r.len() && r[k] == (p, q0[j - o]); assert(g[k + 1] == r[k] && g[0] == (p, q[i])); } else { assert(q[i] == q0[i - o]); } }
    }
}
// one step of the removal
pub proof fn lemma_remove_one(a: Context, b0: Context, b1: Context, g: Seq<(u32, int)>, k: int, n: HeaderName)
    requires sorted(g), valid(a.message, g, n), 0 <= k < g.len(), without_from(a, b0, g.subrange(k + 1, g.len() as int)), b0.message.parts@.len() == a.message.parts@.len(), b1.message.parts@.len() == a.message.parts@.len(),
        forall|p: int| 0 <= p < a.message.parts@.len() && p != g[k].0 ==> #[trigger] b1.message.parts@[p] == b0.message.parts@[p], b1.message.parts@[g[k].0 as int].headers@ == b0.message.parts@[g[k].0 as int].headers@.remove(g[k].1), a.message.parts@.len() <= u32::MAX,
    ensures without_from(a, b1, g.subrange(k, g.len() as int))
{ let r = g.subrange(k + 1, g.len() as int); let q = g.subrange(k, g.len() as int); assert(q.drop_first() =~= r); assert(q.first() == g[k]);
    assert forall|p: int| 0 <= p < a.message.parts@.len() implies (#[trigger] b1.message.parts@[p]).headers@ == dropped(a.message.parts@[p].headers@, positions(p as u32, q)) by {
        let _ = b0.message.parts@[p]; if p == g[k].0 { assert(positions(p as u32, q).drop_first() =~= positions(p as u32, r)); assert(positions(p as u32, q).first() == g[k].1); } else { assert(p as u32 != g[k].0); } } }
pub proof fn lemma_next_there(a: Context, b: Context, g: Seq<(u32, int)>, k: int, n: HeaderName) requires sorted(g), valid(a.message, g, n), 0 <= k < g.len(), without_from(a, b, g.subrange(k + 1, g.len() as int)), a.message.parts@.len() <= u32::MAX, b.message.parts@.len() == a.message.parts@.len()
    ensures g[k].1 < b.message.parts@[g[k].0 as int].headers@.len()
{ let r = g.subrange(k + 1, g.len() as int); let p = g[k].0; let h = a.message.parts@[p as int].headers@;
    assert forall|i: int, j: int| 0 <= i < j < r.len() && r[i].0 == r[j].0 implies r[i].1 < r[j].1 by { assert(r[i] == g[k + 1 + i] && r[j] == g[k + 1 + j]); }
    assert forall|i: int| 0 <= i < r.len() && r[i].0 == p implies 0 <= (#[trigger] r[i]).1 < h.len() by { assert(r[i] == g[k + 1 + i]); }
    lemma_positions(p, r, h.len() as int); let at = positions(p, r);
    assert forall|i: int| 0 <= i < at.len() implies g[k].1 < #[trigger] at[i] < h.len() by { let j = choose|j: int| 0 <= j < r.len() && r[j] == (p, at[i]); assert(g[k + 1 + j] == r[j]); }
    assert(0 <= g[k].1 < h.len()); lemma_dropped(h, at, g[k].1); let _ = b.message.parts@[p as int]; }
// fields of other names stay, in order
pub proof fn lemma_guarded(c: Context, h: Seq<Header>, at: Seq<int>, n: HeaderName) requires forall|i: int| 0 <= i < at.len() ==> 0 <= #[trigger] at[i] < h.len() && same_field(h[at[i]].name, n), forall|i: int, j: int| 0 <= i < j < at.len() ==> at[i] < at[j], !protected(c, n)
    ensures guarded(c, dropped(h, at)) == guarded(c, h) decreases at.len()
{ if at.len() > 0 { let r = at.drop_first(); assert forall|i: int| 0 <= i < r.len() implies at[0] < #[trigger] r[i] < h.len() && same_field(h[r[i]].name, n) by { assert(r[i] == at[i + 1]); } assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] < r[j] by { assert(r[i] == at[i + 1] && r[j] == at[j + 1]); }
    lemma_guarded(c, h, r, n); lemma_dropped(h, r, at[0]); let d = dropped(h, r); lemma_filter_remove(d, at[0], |x: Header| protected(c, x.name)); } }
pub proof fn lemma_filter_remove(d: Seq<Header>, k: int, f: spec_fn(Header) -> bool) requires 0 <= k < d.len(), !f(d[k]) ensures d.remove(k).filter(f) == d.filter(f) decreases d.len()
{ reveal(Seq::filter); if k == d.len() - 1 { assert(d.remove(k) =~= d.drop_last()); } else { assert(d.remove(k).drop_last() =~= d.drop_last().remove(k)); assert(d.remove(k).last() == d.last()); lemma_filter_remove(d.drop_last(), k, f); } }
pub proof fn lemma_guarded_all(a: Context, b: Context, g: Seq<(u32, int)>, n: HeaderName) requires sorted(g), valid(a.message, g, n), without_from(a, b, g), !protected(a, n), a.message.parts@.len() <= u32::MAX, a.message.parts@.len() == b.message.parts@.len()
    ensures forall|p: int| 0 <= p < a.message.parts@.len() ==> guarded(a, (#[trigger] b.message.parts@[p]).headers@) == guarded(a, a.message.parts@[p].headers@)
{ assert forall|p: int| 0 <= p < a.message.parts@.len() implies guarded(a, (#[trigger] b.message.parts@[p]).headers@) == guarded(a, a.message.parts@[p].headers@) by {
    let h = a.message.parts@[p].headers@; let at = positions(p as u32, g); lemma_positions(p as u32, g, h.len() as int);
    assert forall|i: int| 0 <= i < at.len() implies 0 <= #[trigger] at[i] < h.len() && same_field(h[at[i]].name, n) by { let k = choose|k: int| 0 <= k < g.len() && g[k] == (p as u32, at[i]); assert(g[k].0 as int == p); }
    lemma_guarded(a, h, at, n); } }
// offsets of a parsed field are in order and fields are smaller than 4 GB
pub open spec fn fields_ok(m: Mail) -> bool { forall|p: int, i: int| 0 <= p < m.parts@.len() && 0 <= i < m.parts@[p].headers@.len() ==> { let h = #[trigger] m.parts@[p].headers@[i]; (h.offset_end != 0 ==> h.offset_end >= h.offset_field && field_size(h) <= u32::MAX) && blen(name_of(h.name)) + value_size(h.value) + 4 <= u32::MAX } }
pub uninterp spec fn body_size(b: Body) -> nat;
pub open spec fn value_size(v: HeaderValue) -> nat { match v { HeaderValue::Text(t) => blen(t@), HeaderValue::Parsed(b) => body_size(b) } }
impl HeaderValue { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == value_size(*self) { unimplemented!() } }
// what the deleted fields counted: a renamed field is written as its new name and the text after the old one
pub open spec fn field_size(h: Header) -> int { if h.offset_end != 0 { h.offset_end - h.offset_field + (if h.offset_field == h.offset_start { blen(name_of(h.name)) + 1 } else { 0 }) } else { (blen(name_of(h.name)) + value_size(h.value) + 4) as int } }
pub open spec fn gone_size(m: Mail, g: Seq<(u32, int)>) -> int decreases g.len() { if g.len() == 0 { 0 } else { gone_size(m, g.drop_last()) + field_size(m.parts@[g.last().0 as int].headers@[g.last().1]) } }
impl DeleteHeader {
//@fn src/runtime/actions/action_editheader.rs DeleteHeader::exec
//@ replace "HeaderName::parse(header_name_.as_ref())" => "HeaderName::parse(header_name_.as_str())"
//@ replace "ctx.eval_values(&self.value_patterns)" => "eval_values(ctx, &self.value_patterns)"
//@ replace "let mut deleted_headers = Vec::new();" => "let mut deleted_headers: Vec<(u32, usize)> = Vec::new();"
//@ replace "let mut deleted_bytes = 0;" => "let mut deleted_bytes: usize = 0; let ghost named = header_name;"
//@ cut "ctx.find_headers(" to "|header, part_id, header_pos| {" => "let names: [HeaderName; 1] = [header_name]; let found: Vec<(u32, usize)> = ctx.headers_found(&names, self.index, self.mime_anychild); let ghost all = seen(found@); let mut fi: usize = 0; proof { assert(names@ =~= seq![named]); axiom_walk(c0, self.mime_anychild); lemma_in_parts(c0.message, walk(c0, self.mime_anychild), named, self.index); assert(found@.len() == all.len()); assert(all.take(0) =~= Seq::<(u32, int)>::empty()); } while fi < found.len() invariant *ctx == c0, all == seen(found@), 0 <= fi <= found.len(), found@.len() <= u32::MAX, value_patterns@ == values_of(c0, self.value_patterns@), value_patterns@.len() == self.value_patterns@.len(), seen(deleted_headers@) == gone(c0, *self, all.take(fi as int)), valid(c0.message, all, named), fields_ok(c0.message), deleted_bytes <= fi * u32::MAX, deleted_bytes == gone_size(c0.message, seen(deleted_headers@)), ensures fi >= found.len(), decreases found.len() - fi, { let part_id = found[fi].0; let header_pos = found[fi].1; fi = fi + 1; proof { assert(all[fi - 1] == (part_id, header_pos as int)); assert(all.take(fi as int).drop_last() =~= all.take(fi - 1)); assert(all.take(fi as int).last() == all[fi - 1]); assert((fi - 1) * u32::MAX + u32::MAX == fi * u32::MAX) by(nonlinear_arith); assert(fi * u32::MAX <= u32::MAX * u32::MAX) by(nonlinear_arith) requires fi <= u32::MAX; } let ghost g0 = deleted_headers@; let header = &ctx.message.parts[part_id as usize].headers[header_pos]; proof { let _ = ctx.message.parts@[part_id as int].headers@[header_pos as int]; }"
//@ cut "let did_match =" to "false });" => "let did_match = value_matches(ctx, self, &value_patterns, header);"
//@ replace "return false;" => "continue;"
//@ replace "header.name.as_str().len()" => "header.name.len()"
//@ replace "deleted_headers.push((part_id, header_pos)); false }, );" => "deleted_headers.push((part_id, header_pos)); proof { assert(seen(deleted_headers@) =~= seen(g0).push((part_id, header_pos as int))); assert(seen(deleted_headers@).drop_last() =~= seen(g0)); } } let ghost g = seen(deleted_headers@); proof { assert(all.take(all.len() as int) =~= all); lemma_gone(c0, *self, all, named); }"
//@ replace "for (part_id, header_pos) in deleted_headers.iter().rev() {" => "let mut di: usize = deleted_headers.len(); proof { assert(g.subrange(di as int, g.len() as int) =~= Seq::<(u32, int)>::empty()); } while di > 0 invariant 0 <= di <= deleted_headers.len(), g == seen(deleted_headers@), sorted(g), valid(c0.message, g, named), edited(c0, *ctx), without_from(c0, *ctx, g.subrange(di as int, g.len() as int)), ctx.has_changes, ctx.message_size == c0.message_size, c0.message.parts@.len() <= u32::MAX, decreases di, { di = di - 1; let part_id = &deleted_headers[di].0; let header_pos = &deleted_headers[di].1; let ghost b0 = *ctx; proof { assert(g[di as int] == (*part_id, *header_pos as int)); lemma_next_there(c0, b0, g, di as int, named); }"
//@ spec
    requires old(ctx).message.parts@.len() <= u32::MAX, fields_ok(old(ctx).message), parsed_name(vtext(value_of(*old(ctx), self.field_name))) is Some ==> in_parts(old(ctx).message, walk(*old(ctx), self.mime_anychild), seq![parsed_name(vtext(value_of(*old(ctx), self.field_name)))->0], self.index).len() <= u32::MAX, self.index is Some ==> self.index->0 > i32::MIN, forall|i: int| 0 <= i < old(ctx).message.parts@.len() ==> (#[trigger] old(ctx).message.parts@[i]).headers@.len() < i32::MAX,
    ensures ({ let n = parsed_name(vtext(value_of(*old(ctx), self.field_name)));
        if n is Some && !protected(*old(ctx), n->0) { let g = gone(*old(ctx), *self, in_parts(old(ctx).message, walk(*old(ctx), self.mime_anychild), seq![n->0], self.index));
            edited(*old(ctx), *final(ctx)) && without_from(*old(ctx), *final(ctx), g) && valid(old(ctx).message, g, n->0) && sorted(g) && (final(ctx).has_changes == (old(ctx).has_changes || g.len() > 0)) && final(ctx).message_size == (if old(ctx).message_size >= gone_size(old(ctx).message, g) { old(ctx).message_size - gone_size(old(ctx).message, g) } else { 0 }) }
        else { untouched(*old(ctx), *final(ctx)) } }),
        forall|p: int| 0 <= p < old(ctx).message.parts@.len() ==> guarded(*old(ctx), (#[trigger] final(ctx).message.parts@[p]).headers@) == guarded(*old(ctx), old(ctx).message.parts@[p].headers@),
//@ at start
    let ghost c0 = *ctx; broadcast use axiom_parsed_name;
//@ at before "ctx.message_size = ctx.message_size.saturating_sub(deleted_bytes);"
    proof { if g.len() == 0 { assert(ctx.message == c0.message); } else { assert(g.subrange(0, g.len() as int) =~= g); } assert(without_from(c0, *ctx, g)); lemma_guarded_all(c0, *ctx, g, named); }
//@ at after ".remove(*header_pos);"
    proof { lemma_remove_one(c0, b0, *ctx, g, di as int, named); }
//@end
}
