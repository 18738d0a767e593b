// ---- enclosing the message in a new one ---------------------------------------------------
//@type src/compiler/grammar/actions/action_mime.rs Enclose
//@end
// an iterator over part numbers
#[verifier::external_body] pub struct Ids { x: u8 }
impl View for Ids { type V = Seq<u32>; uninterp spec fn view(&self) -> Seq<u32>; }
#[verifier::external_body] pub fn no_ids() -> (r: Ids) ensures r@.len() == 0 { unimplemented!() }
pub assume_specification<T: Default> [std::mem::take] (a: &mut T) -> (r: T) ensures r == *old(a);
impl Default for Mail { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
// what the interpreter makes up itself holds no line break
pub uninterp spec fn sender_of(c: Context) -> Seq<char>;
impl<'x> Context<'x> { #[verifier::external_body] pub fn user_from_field(&self) -> (r: String) ensures sbreaks(r@) == 0, blen(r@) <= MEM { unimplemented!() } }
#[verifier::external_body] pub fn make_boundary(s: &str) -> (r: String) ensures sbreaks(r@) == 0, blen(r@) <= 200, !r@.contains('"') { unimplemented!() }
#[verifier::external_body] pub fn date_now() -> (r: String) ensures sbreaks(r@) == 0, blen(r@) <= 200 { unimplemented!() }
#[verifier::external_body] pub fn message_id(host: &String) -> (r: String) ensures sbreaks(r@) == 0, blen(r@) <= MEM { unimplemented!() }
#[verifier::external_body] pub fn mixed_type(b: &String) -> (r: String) ensures r@ == "multipart/mixed; boundary=\""@ + b@ + seq!['"'], sbreaks(b@) == 0 ==> sbreaks(r@) == 0, blen(r@) == blen(b@) + 27 { format!("multipart/mixed; boundary=\"{b}\"") }
pub uninterp spec fn subject_text(m: Mail) -> Option<Seq<char>>;
impl Mail { #[verifier::external_body] pub fn subject(&self) -> (r: Option<&str>) ensures r is Some == subject_text(*self) is Some, r is Some ==> r->0@ == subject_text(*self)->0 { unimplemented!() } }
// text before and behind the first colon; white space around a text
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub open spec fn first_colon(s: Seq<char>) -> int { s.index_of_first(':')->0 }
pub trait StrX { fn split_colon(&self) -> Option<(&str, &str)>; fn trim_(&self) -> &str; fn remove_crlf(&self, max: usize) -> String; }
impl StrX for str {
    #[verifier::external_body] fn split_colon(&self) -> (r: Option<(&str, &str)>) ensures r is Some == self@.contains(':'), r is Some ==> (r->0).0@ == self@.take(first_colon(self@)) && (r->0).1@ == self@.skip(first_colon(self@) + 1) { self.split_once(':') }
    #[verifier::external_body] fn trim_(&self) -> (r: &str) ensures r@ == trimmed(self@) { self.trim() }
    fn remove_crlf(&self, max: usize) -> (r: String) ensures r@ == fit(unbroken(self@), max as nat), sbreaks(r@) == 0, blen(r@) <= max { remove_crlf(self, max) }
}
pub open spec fn clean(h: Header) -> bool { plain_name(name_of(h.name)) && h.offset_field == 0 && h.offset_start == 0 && h.offset_end == 0 && match h.value { HeaderValue::Text(t) => sbreaks(t@) == 0, _ => false } }
pub open spec fn all_clean(h: Seq<Header>) -> bool { forall|i: int| 0 <= i < h.len() ==> clean(#[trigger] h[i]) }
// how many fields of one name
pub open spec fn named(h: Seq<Header>, n: Seq<char>) -> nat decreases h.len() { if h.len() == 0 { 0 } else { named(h.drop_last(), n) + if lower(name_of(h.last().name)) == lower(n) { 1nat } else { 0 } } }
pub open spec fn own_field(h: Header) -> bool { let n = lower(name_of(h.name)); n == lower("Content-Type"@) || n == lower("Subject"@) || n == lower("From"@) || n == lower("Date"@) || n == lower("Message-ID"@) }
// what the enclosing message is
pub open spec fn enclosing(c: Context, m: Mail, e: Enclose, before: Context) -> bool {
    c.message.raw_message@.len() == 0 && c.message.parts@.len() == 3
    && c.message.parts@[0].body is Multipart && c.message.parts@[0].body->Multipart_0@ == seq![1u32, 2]
    && (match c.message.parts@[1].body { PartType::Text(t) => t@ == vtext(value_of(before, e.value)), _ => false })
    && c.message.parts@[2].body == PartType::Message(m)
    && forall|i: int| 0 <= i < 3 ==> (#[trigger] c.message.parts@[i]).offset_header == 0 && c.message.parts@[i].offset_body == 0 && c.message.parts@[i].offset_end == 0
}
pub trait OptX { fn or_other<F: FnOnce() -> Option<String>>(self, f: F) -> Option<String>; fn or_empty(self) -> String; }
impl OptX for Option<String> {
    fn or_other<F: FnOnce() -> Option<String>>(self, f: F) -> (r: Option<String>) ensures self is Some ==> r == self, self is None ==> call_ensures(f, (), r) { match self { Some(s) => Some(s), None => { assume(call_requires(f, ())); f() } } }
    fn or_empty(self) -> (r: String) ensures self is Some ==> r == self->0, self is None ==> r@.len() == 0 { match self { Some(s) => s, None => String::new() } }
}
pub open spec fn cut(s: Seq<char>, max: usize) -> Seq<char> { fit(unbroken(s), max as nat) }
pub open spec fn new_subject(c: Context, e: Enclose) -> Seq<char> { match e.subject { Some(v) => cut(vtext(value_of(c, v)), c.runtime.max_header_size), None => match subject_text(c.message) { Some(s) => cut(s, c.runtime.max_header_size), None => seq![] } } }
pub proof fn lemma_named_push(h: Seq<Header>, x: Header, n: Seq<char>) ensures named(h.push(x), n) == named(h, n) + if lower(name_of(x.name)) == lower(n) { 1nat } else { 0 } { assert(h.push(x).drop_last() =~= h); }
// mail_parser reads the names it knows ignoring case
#[verifier::external_body] pub proof fn axiom_known_names(s: Seq<char>) ensures plain_name(s) ==> ((lower(s) == lower("Date"@)) == (parsed_name(s) == Some(HeaderName::Date)) && (lower(s) == lower("From"@)) == (parsed_name(s) == Some(HeaderName::From)) && (lower(s) == lower("Message-ID"@)) == (parsed_name(s) == Some(HeaderName::MessageId))) {}
pub proof fn lemma_plain_text(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' && s[i] != '\r' ensures sbreaks(s) == 0 decreases s.len() { if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] s.drop_last()[i] != '\n' && s.drop_last()[i] != '\r' by { assert(s[i] == s.drop_last()[i]); } lemma_plain_text(s.drop_last()); } }
pub proof fn lemma_ascii_len(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 ensures blen(s) == s.len() decreases s.len() { if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i] as u32) < 0x80 by { assert(s[i] == s.drop_last()[i]); } lemma_ascii_len(s.drop_last()); } }
pub open spec fn names_ok() -> bool { plain_name("Content-Type"@) && plain_name("Subject"@) && plain_name("From"@) && plain_name("Date"@) && plain_name("Message-ID"@) && sbreaks("text/plain; charset=utf-8"@) == 0 && sbreaks("message/rfc822"@) == 0 && blen("text/plain; charset=utf-8"@) == 25 && blen("message/rfc822"@) == 14
    && blen("Content-Type"@) <= 20 && blen("Subject"@) <= 20 && blen("From"@) <= 20 && blen("Date"@) <= 20 && blen("Message-ID"@) <= 20 }
pub open spec fn apart(a: Seq<char>, b: Seq<char>) -> bool { lower(a) != lower(b) }
pub open spec fn names_apart() -> bool { apart("Content-Type"@, "Subject"@) && apart("Content-Type"@, "From"@) && apart("Content-Type"@, "Date"@) && apart("Content-Type"@, "Message-ID"@) && apart("Subject"@, "From"@) && apart("Subject"@, "Date"@) && apart("Subject"@, "Message-ID"@) && apart("From"@, "Date"@) && apart("From"@, "Message-ID"@) && apart("Date"@, "Message-ID"@) }
pub proof fn lemma_names() ensures names_ok(), names_apart() {
    reveal_strlit("Content-Type"); reveal_strlit("Subject"); reveal_strlit("From"); reveal_strlit("Date"); reveal_strlit("Message-ID"); reveal_strlit("text/plain; charset=utf-8"); reveal_strlit("message/rfc822");
    lemma_plain_text("text/plain; charset=utf-8"@); lemma_plain_text("message/rfc822"@);
    lemma_ascii_len("text/plain; charset=utf-8"@); lemma_ascii_len("message/rfc822"@); lemma_ascii_len("Content-Type"@); lemma_ascii_len("Subject"@); lemma_ascii_len("From"@); lemma_ascii_len("Date"@); lemma_ascii_len("Message-ID"@);
    assert(lower("Content-Type"@).len() == 12 && lower("Subject"@).len() == 7 && lower("From"@).len() == 4 && lower("Date"@).len() == 4 && lower("Message-ID"@).len() == 10);
    assert(lower("From"@)[0] == 'f' && lower("Date"@)[0] == 'd');
}
// the state while the fields are written
pub open spec fn heads(c: Context, k: int) -> Seq<Header> { c.message.parts@[k].headers@ }
pub open spec fn made_of(c: Context) -> nat { hsizes(heads(c, 0)) + hsizes(heads(c, 1)) + hsizes(heads(c, 2)) }
pub open spec fn walks_ended(c: Context) -> bool { c.part_iter@.len() == 0 && forall|i: int| 0 <= i < c.part_iter_stack@.len() ==> stopped(#[trigger] c.part_iter_stack@[i]) }
pub open spec fn kept(c: Context, c0: Context) -> bool { c.runtime == c0.runtime && c.part == 0 && c.has_changes && walks_ended(c) }
pub open spec fn parts_clean(c: Context) -> bool { all_clean(heads(c, 0)) && all_clean(heads(c, 1)) && all_clean(heads(c, 2)) }
pub open spec fn guards_kept(c: Context) -> bool { forall|i: int| 0 <= i < heads(c, 0).len() && protected(c, (#[trigger] heads(c, 0)[i]).name) ==> own_field(heads(c, 0)[i]) }
#[verifier::opaque] pub open spec fn being_made(c: Context, c0: Context, e: Enclose, base: int) -> bool { enclosing(c, c0.message, e, c0) && kept(c, c0) && parts_clean(c) && guards_kept(c) && c.message_size == base + made_of(c) }
#[verifier::opaque] pub open spec fn front_done(c: Context, c0: Context, e: Enclose, b: Seq<char>) -> bool { heads(c, 0).len() >= 2 && text_field(heads(c, 0)[0], "Content-Type"@, "multipart/mixed; boundary=\""@ + b + seq!['"']) && text_field(heads(c, 0)[1], "Subject"@, new_subject(c0, e)) }
#[verifier::opaque] pub open spec fn inner_done(c: Context) -> bool { heads(c, 1).len() == 1 && text_field(heads(c, 1)[0], "Content-Type"@, "text/plain; charset=utf-8"@) && heads(c, 2).len() == 1 && text_field(heads(c, 2)[0], "Content-Type"@, "message/rfc822"@) }
pub proof fn lemma_hsizes_push(h: Seq<Header>, x: Header) ensures hsizes(h.push(x)) == hsizes(h) + hsize(x) { assert(h.push(x).drop_last() =~= h); }
// one field more at the end of part p
pub proof fn lemma_grown(a: Context, b: Context, c0: Context, e: Enclose, base: int, p: u32, name: Seq<char>, value: Seq<char>)
    requires being_made(a, c0, e, base), p < 3, one_more(a, b, p, name, value, true), b.has_changes == a.has_changes, b.message_size == a.message_size + blen(name) + blen(value) + 4, b.part_iter == a.part_iter, b.part_iter_stack == a.part_iter_stack,
        plain_name(name), sbreaks(value) == 0, p == 0 && protects(c0.runtime.protected_headers, lower(name)) ==> own_field(b.message.parts@[0].headers@.last()),
    ensures being_made(b, c0, e, base), forall|k: int| 0 <= k < 3 && k != p ==> heads(b, k) == #[trigger] heads(a, k), heads(b, p as int) == heads(a, p as int).push(heads(b, p as int).last()), text_field(heads(b, p as int).last(), name, value),
{
    reveal(being_made); let h = heads(b, p as int); let g = heads(a, p as int); assert(h =~= g.push(h.last())); lemma_hsizes_push(g, h.last());
    assert forall|k: int| 0 <= k < 3 && k != p implies heads(b, k) == #[trigger] heads(a, k) by { assert(a.message.parts@[k] == b.message.parts@[k]); }
    assert(clean(h.last())); assert(all_clean(h)) by { assert forall|i: int| 0 <= i < h.len() implies clean(#[trigger] h[i]) by { if i < g.len() { assert(h[i] == g[i]); } } }
    assert(guards_kept(b)) by { assert forall|i: int| 0 <= i < heads(b, 0).len() && protected(b, (#[trigger] heads(b, 0)[i]).name) implies own_field(heads(b, 0)[i]) by { if p == 0 && i == g.len() { assert(lower(name_of(h.last().name)) == lower(name)); } else { assert(heads(b, 0)[i] == heads(a, 0)[i]); } } }
    assert forall|i: int| 0 <= i < 3 implies (#[trigger] b.message.parts@[i]).offset_header == 0 && b.message.parts@[i].offset_body == 0 && b.message.parts@[i].offset_end == 0 by { assert(same_part(a.message.parts@[i], b.message.parts@[i])); }
    assert(same_part(a.message.parts@[0], b.message.parts@[0]) && same_part(a.message.parts@[1], b.message.parts@[1]) && same_part(a.message.parts@[2], b.message.parts@[2]));
}
pub proof fn lemma_front(a: Context, b: Context, c0: Context, e: Enclose, bd: Seq<char>) requires front_done(a, c0, e, bd), heads(b, 0).len() > heads(a, 0).len(), heads(b, 0).take(heads(a, 0).len() as int) == heads(a, 0) ensures front_done(b, c0, e, bd) { reveal(front_done); assert(heads(b, 0)[0] == heads(b, 0).take(heads(a, 0).len() as int)[0]); assert(heads(b, 0)[1] == heads(b, 0).take(heads(a, 0).len() as int)[1]); }
pub proof fn lemma_cut(s: Seq<char>, max: usize) ensures sbreaks(cut(s, max)) == 0, blen(cut(s, max)) <= max { lemma_unbroken(s); lemma_fit_breaks(unbroken(s), max as nat); lemma_fit_le(s, max as nat); }
pub proof fn lemma_subject(c: Context, e: Enclose) ensures sbreaks(new_subject(c, e)) == 0, blen(new_subject(c, e)) <= c.runtime.max_header_size { match e.subject { Some(v) => { lemma_cut(vtext(value_of(c, v)), c.runtime.max_header_size); } None => { match subject_text(c.message) { Some(s) => { lemma_cut(s, c.runtime.max_header_size); } None => { lemma_plain_text(seq![]); } } } } }
// the state once all parts have their own fields
pub open spec fn well(c: Context, c0: Context, e: Enclose, base: int, bd: Seq<char>) -> bool { being_made(c, c0, e, base) && front_done(c, c0, e, bd) && inner_done(c) }
pub open spec fn one(h: Seq<char>, n: Seq<char>) -> nat { if lower(h) == lower(n) { 1 } else { 0 } }
pub proof fn lemma_more(a: Context, b: Context, c0: Context, e: Enclose, base: int, bd: Seq<char>, name: Seq<char>, value: Seq<char>)
    requires well(a, c0, e, base, bd), one_more(a, b, 0, name, value, true), b.has_changes == a.has_changes, b.message_size == a.message_size + blen(name) + blen(value) + 4, b.part_iter == a.part_iter, b.part_iter_stack == a.part_iter_stack,
        plain_name(name), sbreaks(value) == 0, protects(c0.runtime.protected_headers, lower(name)) ==> lower(name) == lower("From"@) || lower(name) == lower("Date"@) || lower(name) == lower("Message-ID"@),
    ensures well(b, c0, e, base, bd), forall|n: Seq<char>| #[trigger] named(heads(b, 0), n) == named(heads(a, 0), n) + one(name, n),
{
    assert(a.message.parts@.len() == 3) by { reveal(being_made); }
    assert(text_field(b.message.parts@[0].headers@.last(), name, value));
    lemma_grown(a, b, c0, e, base, 0, name, value); let h = heads(b, 0); let g = heads(a, 0);
    assert(h.take(g.len() as int) =~= g); lemma_front(a, b, c0, e, bd);
    assert(heads(b, 1) == heads(a, 1) && heads(b, 2) == heads(a, 2)); assert(inner_done(b)) by { reveal(inner_done); }
    assert forall|n: Seq<char>| #[trigger] named(h, n) == named(g, n) + one(name, n) by { lemma_named_push(g, h.last(), n); }
}
pub open spec fn stopped(x: (u32, Ids)) -> bool { x.0 == 0 && x.1@.len() == 0 }
// the argument values, in order; taken before the message changes
#[verifier::external_body] pub fn eval_fields(c: &Context, v: &Vec<Value>) -> (r: Vec<Variable>) ensures r@.len() == v@.len() { unimplemented!() }
impl Enclose {
//@fn src/runtime/actions/action_mime.rs Enclose::exec
//@ replace "ctx.eval_value(&self.value).to_string().into_owned()" => "ctx.eval_value(&self.value).to_string()"
//@ replace ".map(|s| {" => ".map(|s: &Value| -> (o: String) ensures o@ == cut(vtext(value_of(*cc, *s)), cc.runtime.max_header_size) {"
//@ replace "ctx.eval_value(s).to_string().as_ref().remove_crlf(ctx.runtime.max_header_size)" => "cc.eval_value(s).to_string().as_str().remove_crlf(cc.runtime.max_header_size)"
//@ replace ".or_else(|| {" => ".or_other(|| -> (o: Option<String>) ensures match subject_text(cc.message) { Some(s) => o is Some && o->0@ == cut(s, cc.runtime.max_header_size), None => o is None } {"
//@ replace "ctx.message.subject()" => "cc.message.subject()"
//@ replace ".map(|s| s.remove_crlf(ctx.runtime.max_header_size))" => ".map(|s: &str| -> (o: String) ensures o@ == cut(s@, cc.runtime.max_header_size) { s.remove_crlf(cc.runtime.max_header_size) })"
//@ replace ".unwrap_or_default()" => ".or_empty()"
//@ replace "mail_builder::mime::make_boundary(\".\")" => "make_boundary(\".\")"
//@ replace "ctx.part_iter = Vec::new().into_iter();" => "ctx.part_iter = no_ids();"
//@ replace "*part = (0, Vec::new().into_iter());" => "*part = (0, no_ids());"
//@ cut "ctx.message = Message {" to "attachments: Vec::with_capacity(0)," => "ctx.message = Mail {"
//@ replace "MessagePart {" => "Part {"
//@ replace "body.into()" => "body"
//@ replace "b\"\"[..].into()" => "Vec::new()"
//@ replace "\"Content-Type\".into()" => "\"Content-Type\".to_string()"
//@ replace "\"Subject\".into()" => "\"Subject\".to_string()"
//@ replace "format!(\"multipart/mixed; boundary=\\\"{boundary}\\\"\")" => "mixed_type(&boundary)"
//@ replace "\"text/plain; charset=utf-8\"," => "\"text/plain; charset=utf-8\".to_string(),"
//@ replace "\"message/rfc822\"," => "\"message/rfc822\".to_string(),"
//@ replace "header.to_string().as_ref().split_once(':')" => "header.to_string().as_str().split_colon()"
//@ replace "ctx.eval_values(&self.headers)" => "eval_fields(ctx, &self.headers)"
//@ replace "header_name.trim()" => "header_name.trim_()"
//@ replace "header_value.trim()" => "header_value.trim_()"
//@ replace "header_name.to_string().into()" => "header_name.to_string()"
//@ replace "\"From\".to_string().into()" => "\"From\".to_string()"
//@ replace "\"Date\".to_string().into()" => "\"Date\".to_string()"
//@ replace "\"Message-ID\".to_string().into()" => "\"Message-ID\".to_string()"
//@ replace "mail_builder::headers::date::Date::now().to_rfc822()" => "date_now()"
//@ cut "let mut header_value = Vec::with_capacity(20);" to "generate_message_id_header(&mut header_value, &ctx.runtime.local_hostname).unwrap();" => "let header_value = message_id(&ctx.runtime.local_hostname);"
//@ replace "String::from_utf8(header_value).unwrap()" => "header_value"
//@ replace "&mut ctx.part_iter_stack" => "ctx.part_iter_stack.iter_mut()"
//@ spec
    requires old(ctx).runtime.max_header_size <= MEM,
    ensures enclosing(*final(ctx), old(ctx).message, *self, *old(ctx)), kept(*final(ctx), *old(ctx)), parts_clean(*final(ctx)), guards_kept(*final(ctx)),
        inner_done(*final(ctx)), exists|b: Seq<char>| #[trigger] front_done(*final(ctx), *old(ctx), *self, b) && !b.contains('"') && final(ctx).message_size == old(ctx).message_size + (blen(b) + 6) * 3 + blen(vtext(value_of(*old(ctx), self.value))) + 6 + made_of(*final(ctx)),
        named(heads(*final(ctx), 0), "From"@) >= 1, named(heads(*final(ctx), 0), "Date"@) >= 1, named(heads(*final(ctx), 0), "Message-ID"@) >= 1,
        self.headers@.len() == 0 ==> named(heads(*final(ctx), 0), "From"@) == 1 && named(heads(*final(ctx), 0), "Date"@) == 1 && named(heads(*final(ctx), 0), "Message-ID"@) == 1 && named(heads(*final(ctx), 0), "Subject"@) == 1 && named(heads(*final(ctx), 0), "Content-Type"@) == 1,
//@ at start
    let cc: &Context = &*ctx; let ghost c0 = *ctx; proof { lemma_names(); }
//@ at before "ctx.message_size += "
    proof { assume(ctx.message_size <= MEM && blen(body@) <= MEM); }
//@ loopattr 0 #[verifier::loop_isolation(false)]
//@ loop 0 for it it
    invariant it.index() <= it.seq().len(), forall|i: int| 0 <= i < it.index() ==> stopped(*final(#[trigger] it.seq()[i])),
//@ at before "ctx.has_changes = true;"
    proof { assert(walks_ended(*ctx)); }
    let ghost base = ctx.message_size as int;
//@ at before "ctx.insert_header(0, HeaderName::Other(\"Content-Type\".into()), format"
    let ghost c1 = *ctx; let ghost bd = boundary@;
    proof { reveal(being_made); assert(being_made(*ctx, c0, *self, base)); assume(ctx.message_size <= MEM); }
//@ at after "ctx.insert_header(0, HeaderName::Other(\"Content-Type\".into()), format"
    let ghost c2 = *ctx;
    proof { assert(c1.message.parts@.len() == 3) by { reveal(being_made); } lemma_grown(c1, c2, c0, *self, base, 0, "Content-Type"@, "multipart/mixed; boundary=\""@ + bd + seq!['"']); assume(ctx.message_size <= MEM); }
    let ghost sub = subject@;
    proof { assert(sub =~= new_subject(c0, *self)); lemma_subject(c0, *self); }
//@ at after "ctx.insert_header(0, HeaderName::Other(\"Subject\".into())"
    let ghost c3 = *ctx;
    proof { lemma_grown(c2, c3, c0, *self, base, 0, "Subject"@, sub); assume(ctx.message_size <= MEM); assert(front_done(c3, c0, *self, bd)) by { reveal(front_done); assert(heads(c3, 0)[0] == heads(c2, 0)[0]); } }
//@ at after "ctx.insert_header(1, "
    let ghost c4 = *ctx;
    proof { lemma_grown(c3, c4, c0, *self, base, 1, "Content-Type"@, "text/plain; charset=utf-8"@); assume(ctx.message_size <= MEM); assert(heads(c4, 0) == heads(c3, 0)); assert(front_done(c4, c0, *self, bd)) by { reveal(front_done); } }
//@ at after "ctx.insert_header(2, "
    let ghost c5 = *ctx;
    proof { lemma_grown(c4, c5, c0, *self, base, 2, "Content-Type"@, "message/rfc822"@); assume(ctx.message_size <= MEM); assert(heads(c5, 0) == heads(c4, 0)); assert(heads(c5, 1) == heads(c4, 1)); assert(front_done(c5, c0, *self, bd)) by { reveal(front_done); } assert(inner_done(c5)) by { reveal(inner_done); }
        reveal_with_fuel(named, 3); assert(heads(c5, 0).drop_last() =~= seq![heads(c5, 0)[0]]); assert(heads(c5, 0).drop_last().drop_last() =~= seq![]); reveal(front_done); }
//@ loop 1 for it it
    invariant well(*ctx, c0, *self, base, bd), ctx.message_size <= MEM, c0.runtime.max_header_size <= MEM, names_ok(), names_apart(), it.seq().len() == headers@.len(), headers@.len() == self.headers@.len(), 0 <= it.index() <= it.seq().len(),
        add_from == (named(heads(*ctx, 0), "From"@) == 0), add_date == (named(heads(*ctx, 0), "Date"@) == 0), add_message_id == (named(heads(*ctx, 0), "Message-ID"@) == 0),
        it.index() == 0 ==> add_from && add_date && add_message_id && named(heads(*ctx, 0), "Subject"@) == 1 && named(heads(*ctx, 0), "Content-Type"@) == 1,
//@ at before "ctx.insert_header(0, HeaderName::Other(header_name"
    let ghost a = *ctx; let ghost hn = header_name@; let ghost hv = fit(unbroken(header_value@), c0.runtime.max_header_size as nat);
    proof { assert(ctx.runtime == c0.runtime && ctx.message.parts@.len() == 3) by { reveal(being_made); } broadcast use axiom_parsed_name; axiom_known_names(hn); }
//@ at after "ctx.insert_header(0, HeaderName::Other(header_name"
    proof { lemma_more(a, *ctx, c0, *self, base, bd, hn, hv); assume(ctx.message_size <= MEM); }
//@ at before "if add_from {"
    proof { assert(ctx.runtime == c0.runtime && ctx.message.parts@.len() == 3) by { reveal(being_made); } }
    let ghost d0 = *ctx;
//@ at after "if add_from {"
    proof { if add_from { lemma_more(d0, *ctx, c0, *self, base, bd, "From"@, heads(*ctx, 0).last().value->Text_0@); } assume(ctx.message_size <= MEM); assert(ctx.runtime == c0.runtime && ctx.message.parts@.len() == 3) by { reveal(being_made); } }
    let ghost d1 = *ctx;
//@ at after "if add_date {"
    proof { if add_date { lemma_more(d1, *ctx, c0, *self, base, bd, "Date"@, heads(*ctx, 0).last().value->Text_0@); } assume(ctx.message_size <= MEM); assert(ctx.runtime == c0.runtime && ctx.message.parts@.len() == 3) by { reveal(being_made); } }
    let ghost d2 = *ctx;
//@ at end
    proof { if add_message_id { lemma_more(d2, *ctx, c0, *self, base, bd, "Message-ID"@, heads(*ctx, 0).last().value->Text_0@); } assert(front_done(*ctx, c0, *self, bd)); assert(inner_done(*ctx)); reveal(being_made); }
//@end
}
