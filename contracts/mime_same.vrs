// ---- what a script has not edited is written as it was received ----------------------------
// the fields of a header as received: they follow each other without a gap from a on
pub open spec fn fields_follow(m: Mail, h: Seq<Header>, a: u32) -> bool decreases h.len() { h.len() == 0 || fields_follow(m, h.drop_last(), a) && { let f = h.last(); f.offset_end != 0 && f.offset_field != f.offset_start && inside(m, f.offset_field, f.offset_end) && f.offset_field == fields_end(h.drop_last(), a) } }
pub open spec fn fields_end(h: Seq<Header>, a: u32) -> u32 { if h.len() == 0 { a } else { h.last().offset_end } }
// a part (and all parts nested in it) as received
pub open spec fn as_received(m: Mail, id: u32, lo: int) -> bool decreases m.parts@.len() - lo, 1nat {
    &&& 0 <= lo <= id < m.parts@.len()
    &&& { let p = m.parts@[id as int]; let e = fields_end(p.headers@, p.offset_header);
        p.offset_body != 0 && fields_follow(m, p.headers@, p.offset_header) && inside(m, p.offset_header, p.offset_body) && inside(m, e, p.offset_body) && from_to(m, e, p.offset_body) == crlf() && inside(m, p.offset_body, p.offset_end)
        && (p.body is Multipart ==> parts_follow(m, p.body->Multipart_0@, id + 1, p.offset_body) && inside(m, parts_end(m, p.body->Multipart_0@, p.offset_body), p.offset_end)) }
}
pub open spec fn parts_follow(m: Mail, ids: Seq<u32>, lo: int, a: u32) -> bool decreases m.parts@.len() - lo, 2 + ids.len() {
    if ids.len() == 0 { true } else { as_received(m, ids[0], lo) && inside(m, a, m.parts@[ids[0] as int].offset_header) && parts_follow(m, ids.drop_first(), lo, m.parts@[ids[0] as int].offset_end) } }
pub open spec fn parts_end(m: Mail, ids: Seq<u32>, a: u32) -> u32 decreases ids.len() { if ids.len() == 0 { a } else { parts_end(m, ids.drop_first(), m.parts@[ids[0] as int].offset_end) } }
pub proof fn lemma_fields(m: Mail, h: Seq<Header>, a: u32) requires fields_follow(m, h, a), a <= m.raw_message@.len() ensures a <= fields_end(h, a) <= m.raw_message@.len(), head_bytes(m, h) == from_to(m, a, fields_end(h, a)), head_ok(m, h) decreases h.len()
{
    if h.len() == 0 { assert(from_to(m, a, a) =~= Seq::<u8>::empty()); }
    else { let t = h.drop_last(); lemma_fields(m, t, a); let l = h.last();
        assert(from_to(m, a, l.offset_end) =~= from_to(m, a, l.offset_field) + from_to(m, l.offset_field, l.offset_end)); 
        assert forall|i: int| 0 <= i < h.len() implies field_ok(m, #[trigger] h[i]) by { if i < t.len() { assert(t[i] == h[i]); } } }
}
pub proof fn lemma_parts_end(m: Mail, ids: Seq<u32>, lo: int, a: u32) requires parts_follow(m, ids, lo, a), a <= m.raw_message@.len() ensures a <= parts_end(m, ids, a) <= m.raw_message@.len() decreases ids.len()
{ if ids.len() > 0 { assert(as_received(m, ids[0], lo)); let p = m.parts@[ids[0] as int]; lemma_parts_end(m, ids.drop_first(), lo, p.offset_end); } }
// an unedited part anywhere in a message: exactly its received bytes, then the parts behind it
pub proof fn lemma_same_part(m: Mail, ids: Seq<u32>, lo: int, last: u32, b: Seq<char>, att: bool)
    requires ids.len() > 0, as_received(m, ids[0], lo), last > 0 ==> inside(m, last, m.parts@[ids[0] as int].offset_header)
    ensures ({ let p = m.parts@[ids[0] as int]; let r = write_parts(m, ids.drop_first(), lo, p.offset_end, b, att); let w = write_parts(m, ids, lo, last, b, att);
        w.out == lead_bytes(m, p, last, b, att) + from_to(m, p.offset_header, p.offset_end) + r.out && w.last == r.last && (w.ok == r.ok) })
    decreases m.parts@.len() - lo, 1nat
{
    let p = m.parts@[ids[0] as int]; let e = fields_end(p.headers@, p.offset_header); lemma_fields(m, p.headers@, p.offset_header); let rest = ids.drop_first();
    let r = write_parts(m, rest, lo, p.offset_end, b, att); let w = write_parts(m, ids, lo, last, b, att); let f = front_bytes(m, p, last, b, att); let lead = lead_bytes(m, p, last, b, att);
    assert(from_to(m, p.offset_header, p.offset_body) =~= from_to(m, p.offset_header, e) + from_to(m, e, p.offset_body));
    assert(f =~= lead + from_to(m, p.offset_header, p.offset_body));
    if p.body is Multipart {
        let s = p.body->Multipart_0@; lemma_same_parts(m, s, ids[0] + 1, p.offset_body, b); lemma_parts_end(m, s, ids[0] + 1, p.offset_body);
        let x = write_parts(m, s, ids[0] + 1, p.offset_body, b, false); let pe = parts_end(m, s, p.offset_body);
        assert(w.out == f + x.out + from_to(m, x.last, p.offset_end) + r.out);
        assert(from_to(m, p.offset_header, p.offset_end) =~= from_to(m, p.offset_header, p.offset_body) + from_to(m, p.offset_body, pe) + from_to(m, pe, p.offset_end));
        assert(w.out =~= lead + from_to(m, p.offset_header, p.offset_end) + r.out);
    } else {
        assert(w.out == f + from_to(m, p.offset_body, p.offset_end) + r.out);
        assert(from_to(m, p.offset_header, p.offset_end) =~= from_to(m, p.offset_header, p.offset_body) + from_to(m, p.offset_body, p.offset_end));
        assert(w.out =~= lead + from_to(m, p.offset_header, p.offset_end) + r.out);
    }
}
pub proof fn lemma_same_parts(m: Mail, ids: Seq<u32>, lo: int, a: u32, b: Seq<char>)
    requires parts_follow(m, ids, lo, a), 0 < a <= m.raw_message@.len(), lo >= 0
    ensures ({ let w = write_parts(m, ids, lo, a, b, false); w.ok && w.last == parts_end(m, ids, a) && w.out == from_to(m, a, parts_end(m, ids, a)) })
    decreases m.parts@.len() - lo, 2 + ids.len()
{
    if ids.len() == 0 { assert(from_to(m, a, a) =~= Seq::<u8>::empty()); }
    else { assert(as_received(m, ids[0], lo)); let p = m.parts@[ids[0] as int]; let pe = parts_end(m, ids, a); lemma_same_part(m, ids, lo, a, b, false); lemma_same_parts(m, ids.drop_first(), lo, p.offset_end, b); lemma_parts_end(m, ids.drop_first(), lo, p.offset_end);
        assert(from_to(m, a, pe) =~= from_to(m, a, p.offset_header) + from_to(m, p.offset_header, p.offset_end) + from_to(m, p.offset_end, pe)); }
}
// a message nothing has been done to is written as it was received
pub proof fn lemma_same_message(m: Mail) requires m.parts@.len() > 0, as_received(m, 0, 0), m.parts@[0].offset_header == 0 ensures writable(m), message_bytes(m) == m.raw_message@
{
    let ids = seq![0u32]; lemma_same_part(m, ids, 0, 0, seq![], false); let p = m.parts@[0]; assert(ids.drop_first() =~= seq![]); let w = written(m);
    assert(write_parts(m, seq![], 0, p.offset_end, seq![], false) == (Written { out: seq![], last: p.offset_end, n: 0, ok: true }));
    assert(w.out + tail_bytes(m, w.last) =~= m.raw_message@);
}
