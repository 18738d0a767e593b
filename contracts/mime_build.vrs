// ---- writing an edited message -----------------------------------------------------------
pub enum Event { CreatedMessage { message_id: usize, message: Vec<u8> } }
//@type src/runtime/actions/action_mime.rs StackItem
//@ replace "Message<'x>" => "Mail"
//@end
pub open spec fn bytes_of(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
impl HeaderName { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == name_of(*self) { unimplemented!() } }
pub uninterp spec fn data_text(b: Body) -> Option<Seq<char>>;
pub open spec fn text_of(v: HeaderValue) -> Option<Seq<char>> { match v { HeaderValue::Text(t) => Some(t@), HeaderValue::Parsed(b) => data_text(b) } }
// the text between the first boundary=" of the text and the next "
pub uninterp spec fn quoted_boundary(s: Seq<char>) -> Option<Seq<char>>;
pub open spec fn named_boundary(v: HeaderValue) -> Option<Seq<char>> { match text_of(v) { Some(t) => quoted_boundary(t), None => None } }
impl HeaderValue {
    #[verifier::external_body] pub fn as_text(&self) -> (r: Option<&str>) ensures r is Some == text_of(*self) is Some, r is Some ==> r->0@ == text_of(*self)->0 { unimplemented!() }
    #[verifier::external_body] pub fn boundary(&self) -> (r: Option<&str>) ensures r is Some == named_boundary(*self) is Some, r is Some ==> r->0@ == named_boundary(*self)->0 { unimplemented!() }
}
pub uninterp spec fn data_bytes(b: Body) -> Seq<u8>;
pub open spec fn contents_of(b: PartType) -> Seq<u8> { match b { PartType::Text(s) => bytes_of(s@), PartType::Data(d) => data_bytes(d), PartType::Message(m) => m.raw_message@, PartType::Multipart(_) => seq![] } }
impl Part { #[verifier::external_body] pub fn contents(&self) -> (r: &[u8]) ensures r@ == contents_of(self.body) { unimplemented!() } }
// an iterator over part ids
#[verifier::external_body] pub struct Ids { x: u8 }
impl View for Ids { type V = Seq<u32>; uninterp spec fn view(&self) -> Seq<u32>; }
impl Ids { pub uninterp spec fn before(&self) -> Seq<u32>; // what was left before the last step
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<u32>) ensures final(self).before() == old(self)@, old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first() { unimplemented!() } }
#[verifier::external_body] pub fn ids_of(v: &Vec<u32>) -> (r: Ids) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn first_id() -> (r: Ids) ensures r@ == seq![0u32] { unimplemented!() }
pub fn next_part<'a>(i: &mut Ids, m: &'a Mail) -> (r: Option<&'a Part>)
    ensures final(i).before() == old(i)@, r is None ==> old(i)@.len() == 0 && final(i)@ == old(i)@ || old(i)@.len() > 0 && old(i)@[0] >= m.parts@.len(),
        r is Some ==> old(i)@.len() > 0 && old(i)@[0] < m.parts@.len() && *(r->0) == m.parts@[old(i)@[0] as int] && final(i)@ == old(i)@.drop_first(),
{ match i.next() { Some(p) => m.parts.get(p as usize), None => None } }
// -- what the message is, part by part
pub open spec fn from_to(m: Mail, a: u32, b: u32) -> Seq<u8> { m.raw_message@.subrange(a as int, b as int) }
pub open spec fn inside(m: Mail, a: u32, b: u32) -> bool { a <= b <= m.raw_message@.len() }
pub open spec fn crlf() -> Seq<u8> { seq![13u8, 10u8] }
// a field: as received, as received under another name, or as made by the script
pub open spec fn field_bytes(m: Mail, h: Header) -> Seq<u8> {
    if h.offset_end != 0 { if h.offset_field != h.offset_start { from_to(m, h.offset_field, h.offset_end) } else { bytes_of(name_of(h.name)) + seq![58u8] + from_to(m, h.offset_start, h.offset_end) } }
    else { bytes_of(name_of(h.name)) + seq![58u8, 32u8] + bytes_of(match text_of(h.value) { Some(t) => t, None => seq![] }) + crlf() } }
pub open spec fn field_ok(m: Mail, h: Header) -> bool { h.offset_end != 0 ==> inside(m, if h.offset_field != h.offset_start { h.offset_field } else { h.offset_start }, h.offset_end) }
pub open spec fn head_bytes(m: Mail, h: Seq<Header>) -> Seq<u8> decreases h.len() { if h.len() == 0 { seq![] } else { head_bytes(m, h.drop_last()) + field_bytes(m, h.last()) } }
pub open spec fn head_ok(m: Mail, h: Seq<Header>) -> bool { forall|i: int| 0 <= i < h.len() ==> field_ok(m, #[trigger] h[i]) }
pub open spec fn content_type_name() -> HeaderName { HeaderName::ContentType }
pub open spec fn is_made_type(h: Header) -> bool { h.offset_end == 0 && lower(name_of(h.name)) == lower("Content-Type"@) }
pub open spec fn type_at(h: Seq<Header>) -> int decreases h.len() { if h.len() == 0 { -1 } else if is_made_type(h.last()) { h.len() - 1 } else { type_at(h.drop_last()) } }
pub open spec fn boundary_of(h: Seq<Header>) -> Seq<char> { let t = type_at(h); if 0 <= t < h.len() && named_boundary(h[t].value) is Some { named_boundary(h[t].value)->0 } else { "invalid-boundary"@ } }
pub open spec fn opening(b: Seq<char>) -> Seq<u8> { seq![13u8, 10u8, 45u8, 45u8] + bytes_of(b) + crlf() }
pub open spec fn closing(b: Seq<char>) -> Seq<u8> { if b.len() == 0 { seq![] } else { seq![13u8, 10u8, 45u8, 45u8] + bytes_of(b) + seq![45u8, 45u8, 13u8, 10u8] } }
// last: up to where the received text has been written (0 within text made by the script)
pub open spec fn lead_bytes(m: Mail, p: Part, last: u32, b: Seq<char>, attached: bool) -> Seq<u8> { if last > 0 { from_to(m, last, p.offset_header) } else if b.len() > 0 && p.offset_end == 0 && !attached { opening(b) } else { seq![] } }
pub open spec fn gap_bytes(p: Part) -> Seq<u8> { if p.offset_body != 0 || p.encoding != Encoding::None { crlf() } else { seq![] } }
pub open spec fn front_bytes(m: Mail, p: Part, last: u32, b: Seq<char>, attached: bool) -> Seq<u8> { lead_bytes(m, p, last, b, attached) + head_bytes(m, p.headers@) + gap_bytes(p) }
pub open spec fn front_ok(m: Mail, p: Part, last: u32) -> bool { (last > 0 ==> inside(m, last, p.offset_header)) && head_ok(m, p.headers@) }
pub open spec fn tail_bytes(m: Mail, last: u32) -> Seq<u8> { if 0 < last <= m.raw_message@.len() { m.raw_message@.skip(last as int) } else { seq![] } }
// out: bytes, last: see above, n: steps taken, ok: every piece of received text lies in the message and every part is nested in an earlier one
pub struct Written { pub out: Seq<u8>, pub last: u32, pub n: nat, pub ok: bool }
// the parts ids of message m, all of them numbered lo or higher
pub open spec fn write_parts(m: Mail, ids: Seq<u32>, lo: int, last: u32, b: Seq<char>, attached: bool) -> Written decreases m, m.parts@.len() - lo, ids.len() {
    if ids.len() == 0 { Written { out: seq![], last, n: 0, ok: true } }
    else if lo < 0 || ids[0] < lo || ids[0] >= m.parts@.len() { Written { out: seq![], last, n: 0, ok: false } }
    else {
        let p = m.parts@[ids[0] as int]; let f = front_bytes(m, p, last, b, attached); let fok = front_ok(m, p, last);
        if p.offset_body != 0 {
            match p.body {
                PartType::Multipart(s) => { let w = write_parts(m, s@, ids[0] + 1, p.offset_body, b, false); let r = write_parts(m, ids.drop_first(), lo, p.offset_end, b, attached);
                    Written { out: f + w.out + from_to(m, w.last, p.offset_end) + r.out, last: r.last, n: 2 + w.n + r.n, ok: fok && w.ok && inside(m, w.last, p.offset_end) && r.ok } },
                _ => { let r = write_parts(m, ids.drop_first(), lo, p.offset_end, b, attached);
                    Written { out: f + from_to(m, p.offset_body, p.offset_end) + r.out, last: r.last, n: 2 + r.n, ok: fok && inside(m, p.offset_body, p.offset_end) && r.ok } },
            }
        } else {
            match p.body {
                PartType::Message(i) => { let w = write_parts(i, seq![0u32], 0, last, b, true); let r = write_parts(m, ids.drop_first(), lo, 0, b, attached);
                    Written { out: f + w.out + tail_bytes(i, w.last) + r.out, last: r.last, n: 2 + w.n + r.n, ok: fok && w.ok && r.ok } },
                PartType::Multipart(s) => { let nb = boundary_of(p.headers@); let w = write_parts(m, s@, ids[0] + 1, last, nb, false); let r = write_parts(m, ids.drop_first(), lo, w.last, b, attached);
                    Written { out: f + w.out + closing(nb) + r.out, last: r.last, n: 2 + w.n + r.n, ok: fok && w.ok && r.ok } },
                _ => { let r = write_parts(m, ids.drop_first(), lo, p.offset_end, b, attached);
                    Written { out: f + contents_of(p.body) + r.out, last: r.last, n: 2 + r.n, ok: fok && r.ok } },
            }
        }
    }
}
pub open spec fn written(m: Mail) -> Written { write_parts(m, seq![0u32], 0, 0, seq![], false) }
pub open spec fn message_bytes(m: Mail) -> Seq<u8> { written(m).out + tail_bytes(m, written(m).last) }
pub open spec fn writable(m: Mail) -> bool { written(m).ok }
// -- the parts that are still to come when the loop is inside others
pub type Frame<'a> = (StackItem<'a>, &'a Part, Ids);
pub open spec fn attached(s: Seq<Frame>) -> bool { s.len() > 0 && s.last().0 is Message }
pub open spec fn write_rest(s: Seq<Frame>, los: Seq<int>, m: Mail, last: u32, b: Seq<char>) -> Written decreases s.len() {
    if s.len() == 0 { Written { out: tail_bytes(m, last), last, n: 0, ok: true } }
    else { let t = s.drop_last(); let tl = los.drop_last(); let ids = s.last().2@;
        match s.last().0 {
            StackItem::Message(pm) => { let r = write_parts(*pm, ids, los.last(), 0, b, attached(t)); let e = write_rest(t, tl, *pm, r.last, b);
                Written { out: tail_bytes(m, last) + r.out + e.out, last: 0, n: 1 + r.n + e.n, ok: r.ok && e.ok } },
            StackItem::Boundary(pb) => { let r = write_parts(m, ids, los.last(), last, pb@, attached(t)); let e = write_rest(t, tl, m, r.last, pb@);
                Written { out: closing(b) + r.out + e.out, last: 0, n: 1 + r.n + e.n, ok: r.ok && e.ok } },
            StackItem::None => { let end = s.last().1.offset_end; let r = write_parts(m, ids, los.last(), end, b, attached(t)); let e = write_rest(t, tl, m, r.last, b);
                Written { out: from_to(m, last, end) + r.out + e.out, last: 0, n: 1 + r.n + e.n, ok: inside(m, last, end) && r.ok && e.ok } },
        } } }
// done has been written of total; ids and then the rest of the stack are to come
#[verifier::opaque] pub open spec fn state_ok(m: Mail, ids: Seq<u32>, lo: int, last: u32, b: Seq<char>, s: Seq<Frame>, los: Seq<int>, done: Seq<u8>, total: Seq<u8>) -> bool {
    let w = write_parts(m, ids, lo, last, b, attached(s)); let e = write_rest(s, los, m, w.last, b); w.ok && e.ok && total == done + w.out + e.out }
#[verifier::opaque] pub open spec fn steps(m: Mail, ids: Seq<u32>, lo: int, last: u32, b: Seq<char>, s: Seq<Frame>, los: Seq<int>) -> nat {
    let w = write_parts(m, ids, lo, last, b, attached(s)); let e = write_rest(s, los, m, w.last, b); w.n + e.n }
pub proof fn lemma_begin(m: Mail, s: Seq<Frame>) requires writable(m), s.len() == 0 ensures state_ok(m, seq![0u32], 0, 0, seq![], s, seq![], seq![], message_bytes(m)) {
    reveal(state_ok); let w = written(m); assert(message_bytes(m) =~= Seq::<u8>::empty() + w.out + tail_bytes(m, w.last)); }
pub proof fn lemma_done(m: Mail, last: u32, b: Seq<char>, lo: int, s: Seq<Frame>, los: Seq<int>, done: Seq<u8>, total: Seq<u8>)
    requires s.len() == 0, state_ok(m, seq![], lo, last, b, s, los, done, total) ensures total == done + tail_bytes(m, last) { reveal(state_ok); assert(done + Seq::<u8>::empty() =~= done); }
pub proof fn lemma_head(m: Mail, ids: Seq<u32>, lo: int, last: u32, b: Seq<char>, s: Seq<Frame>, los: Seq<int>, done: Seq<u8>, total: Seq<u8>)
    requires ids.len() > 0, state_ok(m, ids, lo, last, b, s, los, done, total)
    ensures 0 <= ids[0] < m.parts@.len(), ({ let p = m.parts@[ids[0] as int]; front_ok(m, p, last) && (p.offset_body != 0 && !(p.body is Multipart) ==> inside(m, p.offset_body, p.offset_end)) }) { reveal(state_ok); }
pub open spec fn deeper(s: Seq<Frame>, s2: Seq<Frame>, p: Part, rest: Seq<u32>) -> bool { s2.len() == s.len() + 1 && s2.drop_last() == s && *s2.last().1 == p && s2.last().2@ == rest }
pub proof fn lemma_enter(m: Mail, ids: Seq<u32>, lo: int, last: u32, b: Seq<char>, s: Seq<Frame>, los: Seq<int>, done: Seq<u8>, total: Seq<u8>, s2: Seq<Frame>)
    requires ids.len() > 0, state_ok(m, ids, lo, last, b, s, los, done, total), ids[0] < m.parts@.len(), deeper(s, s2, m.parts@[ids[0] as int], ids.drop_first()),
        s2.last().0 is None, ({ let p = m.parts@[ids[0] as int]; p.offset_body != 0 && p.body is Multipart })
    ensures ({ let p = m.parts@[ids[0] as int]; let sub = p.body->Multipart_0@; state_ok(m, sub, ids[0] + 1, p.offset_body, b, s2, los.push(lo), done + front_bytes(m, p, last, b, attached(s)), total)
        && steps(m, sub, ids[0] + 1, p.offset_body, b, s2, los.push(lo)) < steps(m, ids, lo, last, b, s, los) })
{
    reveal(state_ok); reveal(steps); let p = m.parts@[ids[0] as int]; let sub = p.body->Multipart_0@; let los2 = los.push(lo); assert(los2.drop_last() =~= los);
    let w = write_parts(m, sub, ids[0] + 1, p.offset_body, b, false); let r = write_parts(m, ids.drop_first(), lo, p.offset_end, b, attached(s)); let e = write_rest(s, los, m, r.last, b);
    assert(write_rest(s2, los2, m, w.last, b).out == from_to(m, w.last, p.offset_end) + r.out + e.out);
    assert(total =~= done + front_bytes(m, p, last, b, attached(s)) + w.out + (from_to(m, w.last, p.offset_end) + r.out + e.out));
}
pub proof fn lemma_enter_message(m: Mail, ids: Seq<u32>, lo: int, last: u32, b: Seq<char>, s: Seq<Frame>, los: Seq<int>, done: Seq<u8>, total: Seq<u8>, s2: Seq<Frame>)
    requires ids.len() > 0, state_ok(m, ids, lo, last, b, s, los, done, total), ids[0] < m.parts@.len(), deeper(s, s2, m.parts@[ids[0] as int], ids.drop_first()),
        s2.last().0 is Message, *(s2.last().0->Message_0) == m, ({ let p = m.parts@[ids[0] as int]; p.offset_body == 0 && p.body is Message })
    ensures ({ let p = m.parts@[ids[0] as int]; let i = p.body->Message_0; state_ok(i, seq![0u32], 0, last, b, s2, los.push(lo), done + front_bytes(m, p, last, b, attached(s)), total)
        && steps(i, seq![0u32], 0, last, b, s2, los.push(lo)) < steps(m, ids, lo, last, b, s, los) })
{
    reveal(state_ok); reveal(steps); let p = m.parts@[ids[0] as int]; let i = p.body->Message_0; let los2 = los.push(lo); assert(los2.drop_last() =~= los);
    let w = write_parts(i, seq![0u32], 0, last, b, true); let r = write_parts(m, ids.drop_first(), lo, 0, b, attached(s)); let e = write_rest(s, los, m, r.last, b);
    assert(write_rest(s2, los2, i, w.last, b).out == tail_bytes(i, w.last) + r.out + e.out);
    assert(total =~= done + front_bytes(m, p, last, b, attached(s)) + w.out + (tail_bytes(i, w.last) + r.out + e.out));
}
pub proof fn lemma_enter_made(m: Mail, ids: Seq<u32>, lo: int, last: u32, b: Seq<char>, s: Seq<Frame>, los: Seq<int>, done: Seq<u8>, total: Seq<u8>, s2: Seq<Frame>)
    requires ids.len() > 0, state_ok(m, ids, lo, last, b, s, los, done, total), ids[0] < m.parts@.len(), deeper(s, s2, m.parts@[ids[0] as int], ids.drop_first()),
        s2.last().0 is Boundary, s2.last().0->Boundary_0@ == b, ({ let p = m.parts@[ids[0] as int]; p.offset_body == 0 && p.body is Multipart })
    ensures ({ let p = m.parts@[ids[0] as int]; let sub = p.body->Multipart_0@; let nb = boundary_of(p.headers@); state_ok(m, sub, ids[0] + 1, last, nb, s2, los.push(lo), done + front_bytes(m, p, last, b, attached(s)), total)
        && steps(m, sub, ids[0] + 1, last, nb, s2, los.push(lo)) < steps(m, ids, lo, last, b, s, los) })
{
    reveal(state_ok); reveal(steps); let p = m.parts@[ids[0] as int]; let sub = p.body->Multipart_0@; let nb = boundary_of(p.headers@); let los2 = los.push(lo); assert(los2.drop_last() =~= los);
    let w = write_parts(m, sub, ids[0] + 1, last, nb, false); let r = write_parts(m, ids.drop_first(), lo, w.last, b, attached(s)); let e = write_rest(s, los, m, r.last, b);
    assert(write_rest(s2, los2, m, w.last, nb).out == closing(nb) + r.out + e.out);
    assert(total =~= done + front_bytes(m, p, last, b, attached(s)) + w.out + (closing(nb) + r.out + e.out));
}
pub open spec fn leaf_bytes(m: Mail, p: Part) -> Seq<u8> { if p.offset_body != 0 { from_to(m, p.offset_body, p.offset_end) } else { contents_of(p.body) } }
pub proof fn lemma_leaf(m: Mail, ids: Seq<u32>, lo: int, last: u32, b: Seq<char>, s: Seq<Frame>, los: Seq<int>, done: Seq<u8>, total: Seq<u8>)
    requires ids.len() > 0, state_ok(m, ids, lo, last, b, s, los, done, total), ids[0] < m.parts@.len(), ({ let p = m.parts@[ids[0] as int]; !(p.body is Multipart) && (p.offset_body != 0 || !(p.body is Message)) })
    ensures ({ let p = m.parts@[ids[0] as int]; state_ok(m, ids.drop_first(), lo, p.offset_end, b, s, los, done + front_bytes(m, p, last, b, attached(s)) + leaf_bytes(m, p), total)
        && steps(m, ids.drop_first(), lo, p.offset_end, b, s, los) < steps(m, ids, lo, last, b, s, los) })
{
    reveal(state_ok); reveal(steps); let p = m.parts@[ids[0] as int];
    let r = write_parts(m, ids.drop_first(), lo, p.offset_end, b, attached(s)); let e = write_rest(s, los, m, r.last, b); let f = front_bytes(m, p, last, b, attached(s));
    let w0 = write_parts(m, ids, lo, last, b, attached(s)); assert(w0.out == f + leaf_bytes(m, p) + r.out);
    assert(total =~= done + f + leaf_bytes(m, p) + r.out + e.out);
}
// leaving a part: what closes it, then the parts behind it
pub open spec fn leave_bytes(f: Frame, m: Mail, last: u32, b: Seq<char>) -> Seq<u8> { match f.0 { StackItem::Message(_) => tail_bytes(m, last), StackItem::Boundary(_) => closing(b), StackItem::None => from_to(m, last, f.1.offset_end) } }
pub proof fn lemma_leave(m: Mail, lo: int, last: u32, b: Seq<char>, s: Seq<Frame>, los: Seq<int>, done: Seq<u8>, total: Seq<u8>)
    requires s.len() > 0, s.len() == los.len(), state_ok(m, seq![], lo, last, b, s, los, done, total)
    ensures ({ let f = s.last(); let m2 = match f.0 { StackItem::Message(x) => *x, _ => m }; let l2 = match f.0 { StackItem::Message(_) => 0, StackItem::Boundary(_) => last, StackItem::None => f.1.offset_end }; let b2 = match f.0 { StackItem::Boundary(x) => x@, _ => b };
        (f.0 is None ==> inside(m, last, f.1.offset_end)) && state_ok(m2, f.2@, los.last(), l2, b2, s.drop_last(), los.drop_last(), done + leave_bytes(f, m, last, b), total)
        && steps(m2, f.2@, los.last(), l2, b2, s.drop_last(), los.drop_last()) < steps(m, seq![], lo, last, b, s, los) })
{
    reveal(state_ok); reveal(steps);
    let f = s.last(); let m2 = match f.0 { StackItem::Message(x) => *x, _ => m }; let l2: u32 = match f.0 { StackItem::Message(_) => 0, StackItem::Boundary(_) => last, StackItem::None => f.1.offset_end }; let b2 = match f.0 { StackItem::Boundary(x) => x@, _ => b };
    let t = s.drop_last(); let r = write_parts(m2, f.2@, los.last(), l2, b2, attached(t)); let e = write_rest(t, los.drop_last(), m2, r.last, b2);
    assert(write_parts(m, seq![], lo, last, b, attached(s)) == (Written { out: seq![], last, n: 0, ok: true }));
    assert(write_rest(s, los, m, last, b).out == leave_bytes(f, m, last, b) + r.out + e.out);
    assert(total =~= done + leave_bytes(f, m, last, b) + r.out + e.out);
}
impl<'x> Context<'x> {
//@fn src/runtime/actions/action_mime.rs Context::build_message
//@ ret r
//@ bytes
//@ replace "[0u32].iter()" => "first_id()"
//@ replace "[0].iter()" => "first_id()"
//@ replace "subparts.iter()" => "ids_of(subparts)"
//@ replace "iter.next().and_then(|p| current_message.parts.get(*p as usize))" => "next_part(&mut iter, current_message)"
//@ replace "header.name == HeaderName::Other(\"Content-Type\".into())" => "same_ci(header.name.as_str(), \"Content-Type\")"
//@ replace ".as_text().and_then(|h| h.split_once(\"boundary=\\\"\")).and_then(|(_, h)| h.split_once('\\\"')).map(|(h, _)| h)" => ".boundary()"
//@ spec
    requires writable(old(self).message),
    ensures r@ == message_bytes(old(self).message), *final(self) == *old(self),
//@ replace "(header_pos, header) in part.headers.iter().enumerate()" => "header_pos in it: 0..part.headers.len()"
//@ at start
    let ghost mut los: Seq<int> = seq![]; let ghost mut lo: int = 0; let ghost total = message_bytes(self.message); let ghost c0 = *self;
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@ at before "'outer: loop"
    proof { lemma_begin(*current_message, iter_stack@); assert(message@ =~= Seq::<u8>::empty()); }
//@ loopattr 0 #[verifier::loop_isolation(false)]
//@ loopattr 1 #[verifier::loop_isolation(false)]
//@ loop 0 loop
    invariant
        *self == c0, los.len() == iter_stack@.len(), state_ok(*current_message, iter@, lo, last_offset, current_boundary@, iter_stack@, los, message@, total),
    decreases steps(*current_message, iter@, lo, last_offset, current_boundary@, iter_stack@, los),
//@ at loop 0 start
    let ghost round = steps(*current_message, iter@, lo, last_offset, current_boundary@, iter_stack@, los);
//@ loop 1 while
    invariant
        steps(*current_message, iter@, lo, last_offset, current_boundary@, iter_stack@, los) <= round,
        *self == c0, los.len() == iter_stack@.len(), state_ok(*current_message, iter@, lo, last_offset, current_boundary@, iter_stack@, los, message@, total),
    decreases steps(*current_message, iter@, lo, last_offset, current_boundary@, iter_stack@, los),
//@ at loop 1 start
    let ghost start = message@; let ghost was = iter.before(); let ghost st = iter_stack@; let ghost l0 = last_offset; let ghost b0 = current_boundary@; let ghost old_los = los; let ghost mm = *current_message; let ghost n0 = steps(mm, was, lo, l0, b0, st, los);
    proof { lemma_head(mm, was, lo, l0, b0, st, los, start, total); assert(part.headers@.take(0) =~= Seq::<Header>::empty()); assert(part.headers@.take(part.headers@.len() as int) =~= part.headers@); }
//@ at before "let mut ct_pos"
    proof { assert(message@ =~= start + lead_bytes(mm, *part, l0, b0, attached(st))); }
    let ghost m0 = message@;
//@ loop 2 for
    invariant
        *self == c0, message@ == m0 + head_bytes(*current_message, part.headers@.take(it.index() as int)), head_ok(*current_message, part.headers@),
        ct_pos == usize::MAX && type_at(part.headers@.take(it.index() as int)) == -1 || ct_pos < part.headers@.len() && ct_pos == type_at(part.headers@.take(it.index() as int)),
//@ at loop 2 start
    let header = &part.headers[header_pos]; let ghost i = it.index() as int; let ghost m1 = message@; proof { assert(part.headers@.take(i + 1).drop_last() =~= part.headers@.take(i)); }
    let ghost header0 = *header;
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@ at loop 2 end
    proof { assert(message@ =~= m1 + field_bytes(*current_message, header0)); assert(message@ =~= m0 + head_bytes(*current_message, part.headers@.take(i + 1))); }
//@ at before "if part.offset_body != 0 {"
    let ghost m2 = message@; 
    proof { assert(message@ =~= start + front_bytes(mm, *part, l0, b0, attached(st))); }
//@ at before "continue 'outer" #0
    proof { assert(iter_stack@.drop_last() =~= st); lemma_enter(mm, was, lo, l0, b0, st, old_los, start, total, iter_stack@); los = los.push(lo); lo = was[0] + 1; }
//@ at before "continue 'outer" #1
    proof { assert(iter_stack@.drop_last() =~= st); lemma_enter_message(mm, was, lo, l0, b0, st, old_los, start, total, iter_stack@); los = los.push(lo); lo = 0; }
//@ at before "continue 'outer" #2
    proof { assert(iter_stack@.drop_last() =~= st); assert(current_boundary@ =~= boundary_of(part.headers@)); lemma_enter_made(mm, was, lo, l0, b0, st, old_los, start, total, iter_stack@); los = los.push(lo); lo = was[0] + 1; }
//@ at loop 1 end
    proof { assert(message@ =~= m2 + leaf_bytes(mm, *part)); lemma_leaf(mm, was, lo, l0, b0, st, old_los, start, total); }
//@ at before "if let Some((prev_item"
    let ghost st2 = iter_stack@; let ghost los2 = los; let ghost m3 = message@; let ghost mc = *current_message; let ghost l2 = last_offset; let ghost b2 = current_boundary@;
    proof { if iter.before().len() > 0 { lemma_head(mc, iter.before(), lo, l2, b2, st2, los2, m3, total); } assert(iter@ =~= seq![]); if st2.len() > 0 { lemma_leave(mc, lo, l2, b2, st2, los2, m3, total); } else { lemma_done(mc, l2, b2, lo, st2, los2, m3, total); } }
//@ at after "iter = prev_iter;"
    proof { lo = los.last(); los = los.drop_last(); assert(st2.drop_last() =~= iter_stack@); assert(message@ =~= m3 + leave_bytes(st2.last(), mc, l2, b2)); }
//@end
//@fn src/runtime/actions/action_mime.rs Context::build_message_id
//@ ret r
//@ spec
    requires writable(old(self).message), old(self).last_message_id < MEM,
    ensures !old(self).has_changes ==> r is None && *final(self) == *old(self),
        old(self).has_changes ==> r is Some && r->0->message@ == message_bytes(old(self).message) && r->0->message_id == old(self).last_message_id + 1
            && *final(self) == (Context { has_changes: false, main_message_id: r->0->message_id, last_message_id: r->0->message_id, ..*old(self) }),
//@end
}
