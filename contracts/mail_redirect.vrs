pub open spec fn may_redirect(r: Redirect, c: Context, a: Seq<char>) -> bool {
    c.num_redirects < c.runtime.max_redirects && c.num_out_messages < c.runtime.max_out_messages
    && received(c.message.parts@[0].headers@) < c.runtime.max_received_headers && (r.list || lower(a) != lower(c.user_address@))
}
pub open spec fn sent_to(e: Event, list: bool, a: Seq<char>) -> bool { match e { Event::SendMessage { recipient, .. } => (match recipient { Recipient::Address(x) => !list && x@ == a, Recipient::List(x) => list && x@ == a, _ => false }), _ => false } }
pub open spec fn with_options(e: Event, r: Redirect, c: Context) -> bool { match e { Event::SendMessage { notify, return_of_content, by_time, .. } => notify == r.notify && return_of_content == r.return_of_content
    && (match r.by_time { ByTime::Relative { rlimit, mode, trace } => by_time == (ByTime::<i64>::Relative { rlimit, mode, trace }), ByTime::Absolute { alimit, mode, trace } => by_time == (ByTime::<i64>::Absolute { alimit: rfc3339(vtext(value_of(c, alimit))), mode, trace }), ByTime::None => by_time is None }), _ => false } }
// what one redirect does; a is the usable recipient of its argument, if there is one
#[verifier::prophetic]
pub open spec fn redirected(r: Redirect, o: Context, f: Context, a: Option<Seq<char>>) -> bool {
    if a is Some && may_redirect(r, o, a->0) {
        f.num_redirects == o.num_redirects + 1 && f.num_out_messages == o.num_out_messages + 1 && !f.has_changes
        && f.final_event == (if !r.copy && o.final_event is Some && o.final_event->0 is Keep { None } else { o.final_event })
        && f.queued_events.remaining().len() == (if o.has_changes { 2nat } else { 1 })
        && (o.has_changes ==> f.queued_events.remaining()[0] is CreatedMessage)
        && sent_to(f.queued_events.remaining().last(), r.list, a->0) && f.queued_events.remaining().last()->SendMessage_message_id == f.main_message_id
        && with_options(f.queued_events.remaining().last(), r, o)
        && f.runtime == o.runtime && f.message == o.message && f.envelope == o.envelope && f.user_address == o.user_address
    } else { f == o }
}
impl Redirect {
//@fn src/runtime/actions/action_redirect.rs Redirect::exec
//@ loops 0
//@ sig "ctx: &mut Context" => "ctx: &mut Context, ga: &mut Ghost<Option<Seq<char>>>"
//@ replace "sanitize_address(ctx.eval_value(&self.address).to_string().as_ref())" => "sanitize_address(ctx.eval_value(&self.address).to_string().as_str())"
//@ replace "ctx.message.parts[0].headers.iter().filter(|h| matches!(&h.name, HeaderName::Received)).count()" => "received_count(&ctx.message.parts[0].headers)"
//@ replace "address.eq_ignore_ascii_case(ctx.user_address.as_ref())" => "same_ci(address.as_str(), ctx.user_address.as_str())"
//@ replace "DateTime::parse_rfc3339(ctx.eval_value(alimit).to_string().as_ref(),).and_then(|d| { if d.is_valid() { d.to_timestamp().into() } else { None } }).unwrap_or(0)" => "rfc3339_time(&ctx.eval_value(alimit).to_string())"
//@ spec
    requires old(ctx).message.parts@.len() > 0,
    ensures
        redirected(*self, *old(ctx), *final(ctx), final(ga)@),
        final(ga)@ is Some ==> plain(final(ga)@->0) && sub(final(ga)@->0, vtext(value_of(*old(ctx), self.address))),
        bare(vtext(value_of(*old(ctx), self.address))) ==> final(ga)@ == Some(vtext(value_of(*old(ctx), self.address))),
        // limits hold in every state
        old(ctx).num_redirects <= old(ctx).runtime.max_redirects ==> final(ctx).num_redirects <= final(ctx).runtime.max_redirects,
        old(ctx).num_out_messages <= old(ctx).runtime.max_out_messages ==> final(ctx).num_out_messages <= final(ctx).runtime.max_out_messages,
//@ at start
    let ghost ctx0 = *ctx;
    *ga = Ghost(None);
//@ at before "if ctx.num_redirects < ctx.runtime.max_redirects"
    *ga = Ghost(Some(address@));
//@end
}
