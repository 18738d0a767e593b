// ---- the vacation reply -----------------------------------------------------------------
//@type src/compiler/grammar/actions/action_vacation.rs Vacation
//@end
// a text as value ("..".into())
#[verifier::external_body] pub fn text_value(s: &str) -> (r: Variable) ensures is_text(r, s@) { unimplemented!() }
#[verifier::external_body] pub fn string_value(s: String) -> (r: Variable) ensures is_text(r, s@) { unimplemented!() }
#[verifier::external_body] pub fn raw_field<'a>(m: &'a Vec<u8>, h: &Header) -> (r: &'a [u8]) requires h.offset_start <= h.offset_end <= m@.len() ensures r@ == m@.subrange(h.offset_start as int, h.offset_end as int) { unimplemented!() }
#[verifier::external_body] pub fn ends_nl(s: &[u8]) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == 10) { unimplemented!() }
pub uninterp spec fn contains_address(v: HeaderValue, a: Seq<char>) -> bool;
#[verifier::external_body] pub fn address_contains(v: &HeaderValue, a: &String) -> (r: bool) ensures r == contains_address(*v, a@) { unimplemented!() }
#[verifier::external_body] pub fn env_to(e: &Vec<(Envelope, Variable)>) -> Option<&Variable> { unimplemented!() }
// the parser's promise about header offsets
pub open spec fn parsed(m: Mail) -> bool { m.parts@.len() > 0 && forall|i: int| 0 <= i < m.parts@[0].headers@.len() ==> (#[trigger] m.parts@[0].headers@[i]).offset_start <= m.parts@[0].headers@[i].offset_end && m.parts@[0].headers@[i].offset_end <= m.raw_message@.len() }
// the sender: the first envelope From that is not empty
pub open spec fn empty_value2(v: Variable) -> bool { v is String && str_of(v).len() == 0 }
pub open spec fn sender(e: Seq<(Envelope, Variable)>) -> Seq<char> decreases e.len() { if e.len() == 0 { seq![] } else if e[0].0 is From && !empty_value2(e[0].1) { vtext(e[0].1) } else { sender(e.skip(1)) } }
pub open spec fn tail(r: Seq<u8>) -> nat { breaks(r) + if r.len() > 0 && r.last() == 10 { 0nat } else { 2 } }
pub proof fn lemma_literals() ensures sbreaks("From: "@) == 0, sbreaks("To: "@) == 0, sbreaks("Subject: "@) == 0, sbreaks("Auto-Submitted: "@) == 0
{ reveal_strlit("From: "); reveal_strlit("To: "); reveal_strlit("Subject: "); reveal_strlit("Auto-Submitted: "); reveal_with_fuel(sbreaks, 20);
  lemma_no_breaks("From: "@); lemma_no_breaks("To: "@); lemma_no_breaks("Subject: "@); lemma_no_breaks("Auto-Submitted: "@); }
impl Vacation {
//@fn src/runtime/actions/action_vacation.rs Vacation::exec
//@ loops 3
//@ bytes breaks
//@ replace "Cow::from(\"\")" => "String::new()"
//@ replace "(name, value)" => "nv"
//@ replace "name == &Envelope::From" => "*name == Envelope::From"
//@ replace "\"\".into()" => "text_value(\"\")"
//@ replace "ctx.runtime.vacation_subject_prefix.chars().chain(subject.chars()).enumerate()" => "chained(&ctx.runtime.vacation_subject_prefix, subject)"
//@ replace "vacation_subject_.into()" => "string_value(vacation_subject_)"
//@ replace "(&ctx.message.raw_message[header.offset_start as usize..header.offset_end as usize]).into()" => "Some(raw_field(&ctx.message.raw_message, header))"
//@ replace "matches!(&header.value, HeaderValue::Address(address) if address.contains(vacation_to.as_ref()))" => "address_contains(&header.value, &vacation_to)"
//@ replace "ctx.user_from_field().into()" => "string_value(ctx.user_from_field())"
//@ replace "ctx.envelope.iter().find_map(|(n, v)| if n == &Envelope::To { Some(v) } else { None })" => "env_to(&ctx.envelope)"
//@ replace "addr.to_string().into()" => "string_value(addr.to_string())"
//@ replace "ctx.runtime.vacation_default_subject.as_ref().into()" => "text_value(&ctx.runtime.vacation_default_subject)"
//@ replace "vacation_body.len() + vacation_from.len() + vacation_to_full.as_ref().map_or(vacation_to.len(), |t| t.len()) + vacation_subject.len() + message_id.as_ref().map_or(0, |m| m.len() * 2) + references.as_ref().map_or(0, |m| m.len()) + 160" => "capacity_hint()"
//@ replace "vacation_from.to_string().as_ref()" => "vacation_from.to_string().as_str()"
//@ replace "vacation_to.to_string().as_ref()" => "vacation_to.as_str()"
//@ replace "vacation_subject.to_string().as_ref()" => "vacation_subject.to_string().as_str()"
//@ replace "vacation_to_full.ends_with(b\"\\n\")" => "ends_nl(vacation_to_full)"
//@ replace "references.ends_with(b\"\\n\")" => "ends_nl(references)"
//@ replace "message_id.map(|id| id.remove_crlf(usize::MAX))" => "unbroken_opt(message_id)"
//@ replace "Date::now().to_rfc822()" => "date_now()"
//@ replace "generate_message_id_header(&mut message, &ctx.runtime.local_hostname).unwrap()" => "push_message_id(&mut message, &ctx.runtime.local_hostname)"
//@ replace "message.extend_from_slice(" => "push_bytes(&mut message, "
//@ replace "Recipient::Address(vacation_to.to_string())" => "Recipient::Address(vacation_to)"
//@ replace "ctx.eval_value(&fcc.mailbox).to_string().into_owned()" => "ctx.eval_value(&fcc.mailbox).to_string()"
//@ replace "fcc.mailbox_id.as_ref().map(|m| ctx.eval_value(m).to_string().into_owned())" => "value_texts(ctx, &fcc.mailbox_id)"
//@ replace "fcc.special_use.as_ref().map(|s| ctx.eval_value(s).to_string().into_owned())" => "value_texts(ctx, &fcc.special_use)"
//@ replace "Notify::Never" => "SendNotify::Never"
//@ spec
    requires parsed(old(ctx).message), old(ctx).num_out_messages < usize::MAX, old(ctx).last_message_id < usize::MAX, sbreaks(old(ctx).runtime.local_hostname@) == 0,
    ensures
        // exactly one mail leaves, to the envelope sender, and it is counted
        *final(ctx) == (Context { num_out_messages: (old(ctx).num_out_messages + 1) as usize, last_message_id: (old(ctx).last_message_id + 1) as usize, queued_events: final(ctx).queued_events, ..*old(ctx) }),
        final(ctx).queued_events.remaining().len() == (if self.fcc is Some { 3nat } else { 2 }),
        created(final(ctx).queued_events.remaining()[0], final(ctx).last_message_id),
        match final(ctx).queued_events.remaining()[1] { Event::SendMessage { recipient, message_id, notify, by_time, .. } => message_id == final(ctx).last_message_id && notify is Never && by_time is None && (match recipient { Recipient::Address(a) => a@ == sender(old(ctx).envelope@), _ => false }), _ => false },
        self.fcc is Some ==> final(ctx).queued_events.remaining()[2] is FileInto,
//@ at start
    let ghost ctx0 = *ctx;
    let ghost e = ctx.envelope@;
    let ghost h = ctx.message.parts@[0].headers@;
    broadcast use axiom_utf8_breaks;
    proof { axiom_char_eq(); lemma_literals(); assert(e.skip(0) =~= e); }
//@ loop 0 for it it
    invariant_except_break *ctx == ctx0, e == ctx0.envelope@, it.seq().len() == e.len(), 0 <= it.index() <= e.len(), forall|i: int| 0 <= i < e.len() ==> *#[trigger] it.seq()[i] == e[i],
        vacation_to@ == Seq::<char>::empty(), sender(e) == sender(e.skip(it.index() as int)),
    ensures vacation_to@ == sender(e), *ctx == ctx0,
//@ at loop 0 start
    let name = &nv.0; let value = &nv.1;
    let ghost i0 = it.index() as int;
    proof { assert(*nv == e[i0]); assert(e.skip(i0)[0] == e[i0]); assert(e.skip(i0).skip(1) =~= e.skip(i0 + 1)); }
//@ loop 1 for it it
    invariant *ctx == ctx0, h == ctx0.message.parts@[0].headers@, parsed(ctx0.message), it.seq().len() == h.len(), 0 <= it.index() <= h.len(), forall|i: int| 0 <= i < h.len() ==> *#[trigger] it.seq()[i] == h[i],
//@ at loop 1 start
    proof { assert(*header == h[it.index() as int]); }
//@ loop 2 while
    invariant_except_break iter.i <= iter.v@.len(), vacation_subject_@.len() == iter.i, iter.i <= MAX_SUBJECT_LEN, vacation_subject_@ == iter.v@.take(iter.i as int),
    invariant *ctx == ctx0,
    ensures iter.i <= iter.v@.len(), vacation_subject_@.len() <= MAX_SUBJECT_LEN, vacation_subject_@ == iter.v@.take(vacation_subject_@.len() as int),
    decreases iter.v@.len() - iter.i,
//@ at loop 2 end
    proof { assert(iter.v@.take(iter.i as int).drop_last() =~= iter.v@.take(iter.i - 1)); assert(vacation_subject_@ =~= iter.v@.take(iter.i as int)); }
//@ at before "vacation_subject = vacation_subject_.into()"
    proof { assert(vacation_subject_@.len() <= MAX_SUBJECT_LEN + 1); } // the subject made from the incoming one is limited
//@ at before "if let Some(message_id) = message_id"
    // From, To, Subject: one line each (To: the sender field of the incoming message as it stands there)
    proof { assert(breaks(message@) == 4 + (match vacation_to_full { Some(t) => tail(t@), None => 2 })); }
//@ at before "write_header(&mut message, \"Auto-Submitted: \", \"auto-replied\")"
    // In-Reply-To and References if the message has an id, Date and Message-ID
    proof { assert(breaks(message@) == 8 + (match vacation_to_full { Some(t) => tail(t@), None => 2 }) + (match message_id { Some(_) => 2 + (match references { Some(r) => tail(r@), None => 2 }), None => 0 })); }
//@end
}
