// ---- C04: what becomes of the pending final event -----------------------------------
pub open spec fn flags_of(e: Event) -> Seq<String> { match e { Event::Keep { flags, .. } => flags@, _ => seq![] } }
pub open spec fn keep_id(e: Event) -> usize { match e { Event::Keep { message_id, .. } => message_id, _ => 0 } }
// k delivers the pending keep e: a keep of the message as it stands, with its own flags if it has any, else with those the script has set
pub open spec fn keeps(e: Event, own: Seq<Seq<char>>, k: Event, id: usize) -> bool { k is Keep && keep_id(k) == id && texts(flags_of(k)) =~= (if flags_of(e).len() > 0 { texts(flags_of(e)) } else { own }) }
// after an error: the pending event is the last one queued for the host
#[verifier::prophetic]
pub open spec fn closed(e: Option<Event>, own: Seq<Seq<char>>, id: usize, q: IntoIter<Event>, q0: IntoIter<Event>) -> bool {
    match e { None => true,
        Some(e) => if e is Keep { 1 <= q.remaining().len() <= 2 && keeps(e, own, q.remaining().last(), id) && (q.remaining().len() == 2 ==> q.remaining()[0] is CreatedMessage) } else { q.remaining().len() == 1 && q.remaining()[0] == e } }
}
// end of the run: the pending event is returned, or (after the changed message) queued as the only event; after an error it is the last queued
#[verifier::prophetic]
pub open spec fn delivered(e: Option<Event>, own: Seq<Seq<char>>, id: usize, r: Option<Result<Event, RuntimeError>>, q: IntoIter<Event>) -> bool {
    match e {
        None => r is None || r->0 is Err,
        Some(e) => if r is Some && r->0 is Err { q.remaining().len() >= 1 && (if e is Keep { keeps(e, own, q.remaining().last(), id) } else { q.remaining().len() == 1 && q.remaining()[0] == e }) }
            else { r is Some && r->0 is Ok && (if e is Keep { keeps(e, own, r->0->Ok_0, id) || (r->0->Ok_0 is CreatedMessage && q.remaining().len() == 1 && keeps(e, own, q.remaining()[0], id)) } else { r->0->Ok_0 == e }) },
    }
}
pub open spec fn started(o: Context, i: Input) -> bool { o.script_stack@.len() > 0 || (match i { Input::Script { name, script } => script.num_match_vars <= MAX_MATCH_VARIABLES && script.num_vars <= MAX_LOCAL_VARIABLES, _ => false }) }
pub fn value_texts(ctx: &Context, o: &Option<Value>) -> (r: Option<String>) { match o { Some(v) => Some(ctx.eval_value(v).to_string()), None => None } }
impl FileInto {
// fileinto cancels the pending keep unless :copy is given or the keep was set with its own flags
//@fn src/runtime/actions/action_fileinto.rs FileInto::exec
//@ replace "ctx.eval_value(&self.folder).to_string().into_owned()" => "ctx.eval_value(&self.folder).to_string()"
//@ replace "self.mailbox_id.as_ref().map(|mi| ctx.eval_value(mi).to_string().into_owned())" => "value_texts(ctx, &self.mailbox_id)"
//@ replace "self.special_use.as_ref().map(|su| ctx.eval_value(su).to_string().into_owned())" => "value_texts(ctx, &self.special_use)"
//@ spec
    ensures quiet(Context { final_event: final(ctx).final_event, ..*old(ctx) }, *final(ctx)),
        final(ctx).final_event == (if self.copy || (is_keep(old(ctx).final_event) && flags_of(old(ctx).final_event->0).len() > 0) { old(ctx).final_event } else { None }),
        1 <= final(ctx).queued_events.remaining().len() <= 2, final(ctx).queued_events.remaining().last() is FileInto,
        (final(ctx).queued_events.remaining().len() == 2) == old(ctx).has_changes, old(ctx).has_changes ==> final(ctx).queued_events.remaining()[0] is CreatedMessage,
        match final(ctx).queued_events.remaining().last() { Event::FileInto { folder, create, message_id, flags, .. } => folder@ == vtext(value_of(*old(ctx), self.folder)) && create == self.create && (self.flags@.len() == 0 ==> texts(flags@) == set_flags(old(ctx).vars_global)) && message_id == final(ctx).main_message_id, _ => false },
//@end
}
