// ---- the notification -------------------------------------------------------------------
//@type src/compiler/grammar/actions/action_notify.rs Notify
//@end
// matches!(&header.name, HeaderName::Other(name) if name is Auto-Submitted) and its text is not "no"
pub open spec fn auto_submitted(h: Header) -> bool { h.name is Other && lower(h.name->Other_0@) == lower("Auto-Submitted"@) && !(text_of(h.value) is Some && lower(text_of(h.value)->0) == lower("no"@)) }
pub fn is_auto_submitted(h: &Header) -> (r: bool) ensures r == auto_submitted(*h) {
    match &h.name { HeaderName::Other(name) => if same_ci(name.as_str(), "Auto-Submitted") { match h.value.as_text() { Some(v) => !same_ci(v, "no"), None => true } } else { false }, _ => false } }
pub uninterp spec fn infix_ci(a: Seq<char>, b: Seq<char>) -> bool;
#[verifier::external_body] pub fn contains_ci(a: &String, b: &String) -> (r: bool) ensures r == infix_ci(a@, b@) { unimplemented!() }
impl MailtoMessage { pub fn lists<'a>(&'a self) -> (r: Vec<(&'static str, &'a Vec<String>)>) ensures r@.len() == 2, r@[0].0@ == "To: "@, r@[1].0@ == "Cc: "@, *r@[0].1 == self.to, *r@[1].1 == self.cc
{ let mut v = Vec::new(); v.push(("To: ", &self.to)); v.push(("Cc: ", &self.cc)); v } }
#[verifier::external_body] pub fn has_char(s: &String, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }
// a header field this action writes itself
pub open spec fn own_ci(n: Seq<char>) -> bool { lower(n) == lower("Auto-Submitted"@) || lower(n) == lower("Importance"@) || lower(n) == lower("X-Priority"@) || lower(n) == lower("X-Sieve"@) }
#[verifier::external_body] pub fn own_field(n: &String) -> (r: bool) ensures r == own_ci(n@) { unimplemented!() }
impl HeaderName { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == name_of(*self) { unimplemented!() } }
pub open spec fn has_date_field(h: Seq<(HeaderName, String)>) -> bool { exists|i: int| 0 <= i < h.len() && (#[trigger] h[i]).0 is Date }
pub open spec fn has_id_field(h: Seq<(HeaderName, String)>) -> bool { exists|i: int| 0 <= i < h.len() && (#[trigger] h[i]).0 is MessageId }
// which fields of the URI are copied: the first Date and Message-ID and all that the action does not write itself
pub open spec fn copied(prev: Seq<(HeaderName, String)>, n: HeaderName) -> bool { match n {
    HeaderName::Subject | HeaderName::From | HeaderName::ContentType => false, HeaderName::Date => !has_date_field(prev), HeaderName::MessageId => !has_id_field(prev), HeaderName::Other(x) => !own_ci(x@), _ => true } }
pub open spec fn copies(h: Seq<(HeaderName, String)>) -> nat decreases h.len() { if h.len() == 0 { 0 } else { copies(h.drop_last()) + if copied(h.drop_last(), h.last().0) { 1nat } else { 0 } } }
pub open spec fn field_if(b: bool) -> nat { if b { 1 } else { 0 } }
// the lines of the header block up to and including Subject
pub open spec fn field_count(m: MailtoMessage) -> nat { 4 + field_if(m.to@.len() > 0) + field_if(m.cc@.len() > 0) + copies(m.headers@) + field_if(!has_date_field(m.headers@)) + field_if(!has_id_field(m.headers@)) }
// subject.chars().filter(|c| !['\r', '\n'].contains(c)).enumerate()
#[verifier::external_body] pub fn unbroken_chars(a: &str) -> (r: Chained) ensures r.v@ == unbroken(a@), r.i == 0 { unimplemented!() }
#[verifier::external_body] pub fn char_utf8(c: char) -> (r: Vec<u8>) ensures r@ == vstd::utf8::encode_utf8(seq![c]) { unimplemented!() }
#[verifier::external_body] pub fn importance_texts(ctx: &Context, i: &Option<Value>) -> (r: (&'static str, &'static str)) ensures sbreaks(r.0@) == 0, sbreaks(r.1@) == 0 { unimplemented!() }
#[verifier::external_body] pub fn importance_of(ctx: &Context, i: &Option<Value>) -> Importance { unimplemented!() }
// the addresses of a list, without display names
pub uninterp spec fn bare_address(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn group_of(to: Vec<String>, cc: Vec<String>, bcc: Vec<String>) -> (r: Vec<String>) ensures r@.map_values(|s: String| s@) == (to@ + cc@ + bcc@).map_values(|s: String| bare_address(s@)) { unimplemented!() }
impl Mail { pub uninterp spec fn subject_of(self) -> Option<Seq<char>>; #[verifier::external_body] pub fn subject(&self) -> (r: Option<&str>) { unimplemented!() } }
#[verifier::external_body] pub fn text_or_empty<'a>(o: Option<&'a str>) -> (r: &'a str) { unimplemented!() }
impl<'x> Context<'x> { #[verifier::external_body] pub fn eval_values_owned(&self, v: &Vec<Value>) -> Vec<String> { unimplemented!() } }
#[verifier::external_body] pub fn notify_text(ctx: &Context, m: &Option<Value>) -> String { unimplemented!() }
pub open spec fn mails(q: Seq<Event>) -> nat decreases q.len() { if q.len() == 0 { 0 } else { mails(q.drop_last()) + if q.last() is SendMessage || q.last() is Notify { 1nat } else { 0 } } }
pub broadcast proof fn lemma_mails_push(q: Seq<Event>, e: Event) ensures #[trigger] mails(q.push(e)) == mails(q) + (if e is SendMessage || e is Notify { 1nat } else { 0 }) { assert(q.push(e).drop_last() =~= q); }
pub proof fn lemma_fields() ensures sbreaks("To: "@) == 0, sbreaks("Cc: "@) == 0 { reveal_strlit("To: "); reveal_strlit("Cc: "); lemma_no_breaks("To: "@); lemma_no_breaks("Cc: "@); }
pub broadcast proof fn lemma_sbreaks_one(c: char) ensures #[trigger] sbreaks(seq![c]) == sbrk(c) { assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(sbreaks(Seq::<char>::empty()) == 0); assert(seq![c].last() == c); }
pub proof fn lemma_char_of(s: Seq<char>, i: int) requires sbreaks(s) == 0, 0 <= i < s.len() ensures sbrk(s[i]) == 0 decreases s.len() { if i < s.len() - 1 { lemma_char_of(s.drop_last(), i); } }
pub open spec fn not_auto(h: Seq<Header>) -> bool { forall|i: int| 0 <= i < h.len() ==> !auto_submitted(#[trigger] h[i]) }
impl Notify {
//@fn src/runtime/actions/action_notify.rs Notify::exec
//@ loops 5
//@ bytes breaks
//@ replace "matches!(&header.name, HeaderName::Other(name) if name.eq_ignore_ascii_case(\"Auto-Submitted\")) && header.value.as_text().is_none_or(|v| !v.eq_ignore_ascii_case(\"no\"))" => "is_auto_submitted(header)"
//@ replace "ctx.eval_value(&self.method).to_string().into_owned()" => "ctx.eval_value(&self.method).to_string()"
//@ replace "ctx.eval_value(from).to_string().into_owned()" => "ctx.eval_value(from).to_string()"
//@ replace "from.to_ascii_lowercase().contains(&ctx.user_address.to_ascii_lowercase())" => "contains_ci(&from, &ctx.user_address)"
//@ replace "self.message.as_ref().map(|m| ctx.eval_value(m).to_string().into_owned());" => "value_texts(ctx, &self.message);"
//@ replace "params.to.iter().chain(params.cc.iter()).map(|a| a.len() + 4).sum::<usize>() + params.headers.iter().map(|(h, v)| h.len() + v.len() + 4).sum::<usize>() + params.body.as_ref().map_or(0, |b| b.len()) + notify_message.as_ref().map_or(0, |b| b.len()) + from.len() + 200" => "capacity_hint()"
//@ replace "from.as_str().remove_crlf(usize::MAX)" => "remove_crlf(from.as_str(), usize::MAX)"
//@ replace "[(\"To: \", &params.to), (\"Cc: \", &params.cc)]" => "params.lists()"
//@ replace "(header, addresses)" => "list"
//@ replace "(pos, address)" => "pos"
//@ replace "addresses.iter().enumerate()" => "0..addresses.len()"
//@ replace "address.contains('<')" => "has_char(address, '<')"
//@ replace "for (header, value) in &params.headers" => "let mut k3: usize = 0; while k3 < params.headers.len()"
//@ replace "has_subject = value.into()" => "has_subject = Some(value)"
//@ replace "[\"Auto-Submitted\", \"Importance\", \"X-Priority\", \"X-Sieve\"].iter().any(|n| n.eq_ignore_ascii_case(name))" => "own_field(name)"
//@ replace "value.as_str().remove_crlf(usize::MAX)" => "remove_crlf(value.as_str(), usize::MAX)"
//@ replace "Date::now().to_rfc822()" => "date_now()"
//@ replace "generate_message_id_header(&mut message, &ctx.runtime.local_hostname).unwrap()" => "push_message_id(&mut message, &ctx.runtime.local_hostname)"
//@ replace "self.importance.as_ref().map_or((\"Normal\", \"3 (Normal)\"), |i| { match ctx.eval_value(i).to_string().as_ref() { \"1\" => (\"High\", \"1 (High)\"), \"3\" => (\"Low\", \"5 (Low)\"), _ => (\"Normal\", \"3 (Normal)\"), } })" => "importance_texts(ctx, &self.importance)"
//@ replace "subject.as_ref()" => "subject.as_str()"
//@ replace "ctx.message.subject().unwrap_or_default()" => "text_or_empty(ctx.message.subject())"
//@ replace "subject.chars().filter(|c| !['\\r', '\\n'].contains(c)).enumerate()" => "unbroken_chars(subject)"
//@ replace "let mut buf = [0; 4];" => ";"
//@ replace "char.encode_utf8(&mut buf).as_bytes()" => "char_utf8(char).as_slice()"
//@ replace "'…'.encode_utf8(&mut buf).as_bytes()" => "char_utf8('…').as_slice()"
//@ replace "params.to.into_iter().chain(params.cc).chain(params.bcc).map(|addr| { if let Some((addr, _)) = addr.rsplit_once('<').and_then(|(_, addr)| addr.rsplit_once('>')) { addr.to_string() } else { addr } }).collect()" => "group_of(params.to, params.cc, params.bcc)"
//@ replace "crate::compiler::grammar::actions::action_redirect::Notify::Never" => "SendNotify::Never"
//@ replace "self.from.as_ref().map(|f| ctx.eval_value(f).to_string().into_owned())" => "value_texts(ctx, &self.from)"
//@ replace "self.importance.as_ref().map_or(Importance::Normal, |i| { match ctx.eval_value(i).to_string().as_ref() { \"1\" => Importance::High, \"3\" => Importance::Low, _ => Importance::Normal, } })" => "importance_of(ctx, &self.importance)"
//@ replace "self.message.as_ref().map(|m| ctx.eval_value(m).to_string().into_owned()).or_else(|| ctx.message.subject().map(|s| s.to_string())).unwrap_or_default()" => "notify_text(ctx, &self.message)"
//@ replace "ctx.eval_value(&fcc.mailbox).to_string().into_owned()" => "ctx.eval_value(&fcc.mailbox).to_string()"
//@ replace "fcc.mailbox_id.as_ref().map(|m| ctx.eval_value(m).to_string().into_owned())" => "value_texts(ctx, &fcc.mailbox_id)"
//@ replace "fcc.special_use.as_ref().map(|s| ctx.eval_value(s).to_string().into_owned())" => "value_texts(ctx, &fcc.special_use)"
//@ replace "message.extend_from_slice(" => "push_bytes(&mut message, "
//@ spec
    requires parsed(old(ctx).message), old(ctx).num_out_messages < usize::MAX, old(ctx).last_message_id < usize::MAX, sbreaks(old(ctx).runtime.local_hostname@) == 0,
    ensures
        // nothing but the queue and the counters changes; at most one mail leaves and it is counted
        *final(ctx) == (Context { num_out_messages: final(ctx).num_out_messages, last_message_id: final(ctx).last_message_id, queued_events: final(ctx).queued_events, ..*old(ctx) }),
        *final(ctx) == *old(ctx) || final(ctx).num_out_messages == old(ctx).num_out_messages + mails(final(ctx).queued_events.remaining()),
        final(ctx).num_out_messages <= old(ctx).num_out_messages + 1,
        old(ctx).num_out_messages >= old(ctx).runtime.max_out_messages || !not_auto(old(ctx).message.parts@[0].headers@) ==> *final(ctx) == *old(ctx),
        old(ctx).num_out_messages <= old(ctx).runtime.max_out_messages ==> final(ctx).num_out_messages <= final(ctx).runtime.max_out_messages,
//@ at start
    let ghost ctx0 = *ctx;
    let ghost h = ctx.message.parts@[0].headers@;
    broadcast use axiom_utf8_breaks; broadcast use lemma_breaks_push; broadcast use lemma_sbreaks_one; broadcast use lemma_mails_push;
    proof { axiom_char_eq(); lemma_fields(); }
//@ loop 0 for it it
    invariant *ctx == ctx0, h == ctx0.message.parts@[0].headers@, it.seq().len() == h.len(), 0 <= it.index() <= h.len(), forall|i: int| 0 <= i < h.len() ==> *#[trigger] it.seq()[i] == h[i], forall|i: int| 0 <= i < it.index() ==> !auto_submitted(#[trigger] h[i]),
//@ at loop 0 start
    proof { assert(*header == h[it.index() as int]); }
//@ loop 1 for it it
    invariant *ctx == ctx0, clean(params), it.seq().len() == 2, 0 <= it.index() <= 2, it.seq()[0].0@ == "To: "@, it.seq()[1].0@ == "Cc: "@, *it.seq()[0].1 == params.to, *it.seq()[1].1 == params.cc, sbreaks("To: "@) == 0, sbreaks("Cc: "@) == 0,
        breaks(message@) == 2 * (1 + field_if(it.index() > 0 && params.to@.len() > 0) + field_if(it.index() > 1 && params.cc@.len() > 0)),
//@ at loop 1 start
    let header = list.0; let addresses = list.1;
    let ghost b1 = breaks(message@);
    broadcast use axiom_utf8_breaks; broadcast use lemma_breaks_push;
//@ loop 2 for it it2
    invariant clean(params), *addresses == params.to || *addresses == params.cc, breaks(message@) == b1,
//@ at loop 2 start
    let address = &addresses[pos];
    broadcast use axiom_utf8_breaks; broadcast use lemma_breaks_push;
//@ loop 3 for
    invariant *ctx == ctx0, clean(params), 0 <= k3 <= params.headers@.len(),
        has_date == has_date_field(params.headers@.take(k3 as int)), has_message_id == has_id_field(params.headers@.take(k3 as int)),
        breaks(message@) == 2 * (1 + field_if(params.to@.len() > 0) + field_if(params.cc@.len() > 0) + copies(params.headers@.take(k3 as int))),
    decreases params.headers@.len() - k3,
//@ at loop 3 start
    let nv = &params.headers[k3]; k3 = k3 + 1;
    let header = &nv.0; let value = &nv.1;
    let ghost i0 = k3 - 1;
    broadcast use axiom_utf8_breaks; broadcast use lemma_breaks_push;
    proof { lemma_copies(params.headers@, i0); }
//@ at after loop 3
    proof { assert(params.headers@.take(params.headers@.len() as int) =~= params.headers@); }
//@ loop 4 while
    invariant_except_break iter.i <= iter.v@.len(),
    invariant sbreaks(iter.v@) == 0, breaks(message@) == b4, iter.i <= iter.v@.len(),
    decreases iter.v@.len() - iter.i,
//@ at loop 4 start
    broadcast use axiom_utf8_breaks; broadcast use lemma_sbreaks_one;
    proof { lemma_char_of(iter.v@, pos as int); }
//@ at before loop 4
    let ghost b4 = breaks(message@);
    proof { lemma_unbroken(subject@); }
//@ at before "message.extend_from_slice(b\"Auto-Submitted: auto-notified\\r\\n\")"
    // every field written so far is one line
    proof { assert(breaks(message@) == 2 * field_count(params)); }
//@end
}
pub proof fn lemma_copies(h: Seq<(HeaderName, String)>, i: int) requires 0 <= i < h.len() ensures copies(h.take(i + 1)) == copies(h.take(i)) + field_if(copied(h.take(i), h[i].0)),
    has_date_field(h.take(i + 1)) == (has_date_field(h.take(i)) || h[i].0 is Date), has_id_field(h.take(i + 1)) == (has_id_field(h.take(i)) || h[i].0 is MessageId)
{ assert(h.take(i + 1).drop_last() =~= h.take(i)); 
  assert forall|k: int| 0 <= k < i implies (#[trigger] h.take(i)[k]) == h.take(i + 1)[k] by {}
  assert(h.take(i + 1)[i] == h[i]);
  if has_date_field(h.take(i + 1)) { let k = choose|k: int| 0 <= k < i + 1 && (#[trigger] h.take(i + 1)[k]).0 is Date; if k < i { assert(h.take(i)[k].0 is Date); } }
  if has_id_field(h.take(i + 1)) { let k = choose|k: int| 0 <= k < i + 1 && (#[trigger] h.take(i + 1)[k]).0 is MessageId; if k < i { assert(h.take(i)[k].0 is MessageId); } }
  if has_date_field(h.take(i)) { let k = choose|k: int| 0 <= k < i && (#[trigger] h.take(i)[k]).0 is Date; assert(h.take(i + 1)[k].0 is Date); }
  if has_id_field(h.take(i)) { let k = choose|k: int| 0 <= k < i && (#[trigger] h.take(i)[k]).0 is MessageId; assert(h.take(i + 1)[k].0 is MessageId); }
}
