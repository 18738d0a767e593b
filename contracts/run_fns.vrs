//?!C04 impl FileInto { #[verifier::external_body] pub fn exec(&self, ctx: &mut Context) ensures quiet(Context { final_event: final(ctx).final_event, ..*old(ctx) }, *final(ctx)), keep_cancel(old(ctx).final_event, final(ctx).final_event) { unimplemented!() } }
//?!C02 impl Include { #[verifier::external_body] pub fn exec(&self, ctx: &Context) -> (r: IncludeResult) ensures (r is Cached ==> script_ok(*r->Cached_0)), (r is Error ==> r->Error_0 is TooManyIncludes) { unimplemented!() } }
pub open spec fn left(c: Context) -> int { if c.num_instructions > c.runtime.cpu_limit { 0 } else { c.runtime.cpu_limit + 1 - c.num_instructions } }
// never more instructions than the limit (a run that is continued after the limit error is stopped at its first instruction)
pub open spec fn counted(o: Context, c: Context) -> bool { o.num_instructions <= c.num_instructions && (c.num_instructions <= o.runtime.cpu_limit || c.num_instructions == o.num_instructions) }
impl<'x> Context<'x> {
//@fn src/runtime/context.rs Context::finish_loop
//@ spec
    ensures final(self).script_stack@.len() == 0, final(self).final_event is None, final(self).num_instructions == old(self).num_instructions, final(self).runtime == old(self).runtime, final(self).pos == old(self).pos, final(self).vars_global == old(self).vars_global,
//?C04         closed(old(self).final_event, set_flags(old(self).vars_global), final(self).main_message_id, final(self).queued_events, old(self).queued_events),
//?C04         is_keep(old(self).final_event) ==> !final(self).has_changes && (final(self).queued_events.remaining().len() == 2) == old(self).has_changes,
//@end
//@fn src/runtime/context.rs Context::run
//@ ret r
//@ loops 5
//?C04 //@ sig "input: Input" => "input: Input, fe: &mut Ghost<Option<Event>>"
//@ replace "self.queued_events.next().map(Ok)" => "ok_of(self.queued_events.next())"
//@ replace? "message_id: self.main_message_id, } .into()" => "message_id: self.main_message_id, } .some()"
//@ replace? "Event::Discard.into()" => "Event::Discard.some()"
//@ replace "self.message.raw_message.len()" => "self.message.raw_len()"
//@ replace "vec![Variable::default(); num_vars as usize]" => "blank_vars(num_vars as usize)"
//@ replace "vec![Variable::default(); num_match_vars as usize]" => "blank_vars(num_match_vars as usize)"
//@ replace "vec![Variable::default(); script.num_vars as usize]" => "blank_vars(script.num_vars as usize)"
//@ replace "vec![Variable::default(); script.num_match_vars as usize]" => "blank_vars(script.num_match_vars as usize)"
//@ replace "current_script.instructions.get(self.pos..)?.iter()" => "instrs_from(&current_script.instructions, self.pos)?"
//@ replace "current_script.instructions.iter()" => "instrs_from(&current_script.instructions, 0)?"
//@ replace "self.vars_local.get_mut(clear.local_vars_idx as usize..(clear.local_vars_idx + clear.local_vars_num) as usize,)" => "slots_mut(&mut self.vars_local, clear.local_vars_idx as usize, clear.local_vars_idx as usize + clear.local_vars_num as usize)"
//@ replace "self.eval_value(&reject.reason).to_string().into_owned()" => "self.eval_value(&reject.reason).to_string()"
//@ replace "self.eval_value(&err.message).to_string().into_owned()" => "self.eval_value(&err.message).to_string()"
//@ spec
    requires old(self).num_instructions < usize::MAX, old(self).runtime.cpu_limit < usize::MAX, stack_ok(old(self).script_stack@, old(self).pos),
        input is Script ==> script_ok(*input->script),
//?C04         old(fe)@ == old(self).final_event,
    ensures stack_ok(final(self).script_stack@, final(self).pos), final(self).runtime == old(self).runtime,
//?C01         final(self).num_instructions <= (if old(self).num_instructions > old(self).runtime.cpu_limit { old(self).num_instructions + 1 } else { old(self).runtime.cpu_limit + 1 }),
//?C02     final(self).script_stack@.len() <= max_depth(*old(self)),
//?C04     old(self).queued_events.remaining().len() > 0 ==> r is Some && r->0 is Ok && final(self).final_event == old(self).final_event && final(self).queued_events.remaining() == old(self).queued_events.remaining().skip(1),
//?C04     old(self).queued_events.remaining().len() == 0 && !started(*old(self), input) ==> r is None && final(self).final_event == old(self).final_event,
//?C04     old(self).queued_events.remaining().len() == 0 && started(*old(self), input) ==> (if final(self).script_stack@.len() > 0 { r is Some && r->0 is Ok && final(self).final_event == final(fe)@ } else { final(self).final_event is None && delivered(final(fe)@, set_flags(final(self).vars_global), final(self).main_message_id, r, final(self).queued_events) && (is_keep(final(fe)@) ==> !final(self).has_changes) }),
//?C27     r is Some && r->0 is Err ==> (match r->0->Err_0 { RuntimeError::CapabilityNotAllowed(c) => !old(self).runtime.allowed_capabilities@.contains(c), RuntimeError::CapabilityNotSupported(n) => !old(self).runtime.allowed_capabilities@.contains(Capability::Other(n)), _ => true }),
//@ at start
    broadcast use {lemma_push, lemma_pop, lemma_frames_empty};
//@ loop 0 loop
    invariant_except_break self.script_stack@.len() > 0, stack_ok(self.script_stack@, self.pos), current_script == self.script_stack@.last().script, iter.s == current_script.instructions, iter.i == self.pos,
    invariant self.runtime == old(self).runtime, counted(*old(self), *self), old(self).runtime.cpu_limit < usize::MAX, old(self).num_instructions < usize::MAX,
//?C04         fe@ == self.final_event, old(self).queued_events.remaining().len() == 0, started(*old(self), input),
//?C02         self.script_stack@.len() <= max_depth(*old(self)), old(self).queued_events.remaining().len() == 0,
    ensures self.script_stack@.len() == 0,
    decreases left(*self), self.script_stack@.len(),
//@ at loop 0 start
    broadcast use {lemma_push, lemma_pop, lemma_frames_empty};
    let ghost left0 = left(*self);
    let ghost depth0 = self.script_stack@.len();
//@ loop 1 while
    invariant self.script_stack@.len() > 0, stack_ok(self.script_stack@, self.pos), current_script == self.script_stack@.last().script, iter.s == current_script.instructions, iter.i == self.pos,
        self.runtime == old(self).runtime, counted(*old(self), *self), old(self).runtime.cpu_limit < usize::MAX, old(self).num_instructions < usize::MAX,
        left(*self) < left0 || (left(*self) == left0 && self.script_stack@.len() == depth0),
//?C04         fe@ == self.final_event, old(self).queued_events.remaining().len() == 0, started(*old(self), input),
//?C02         self.script_stack@.len() <= max_depth(*old(self)), old(self).queued_events.remaining().len() == 0,
    decreases left(*self),
//@ at loop 1 start
    broadcast use {lemma_push, lemma_pop, lemma_frames_empty};
    proof { broadcast use axiom_vec_len_bound; assert(current_script.instructions@.len() <= isize::MAX); lemma_jump(self.script_stack@, self.pos as int); }
//@ loop 2 for it it
//?C30c     invariant it.seq().len() == m0.len(), forall|i: int| 0 <= i < m0.len() ==> *#[trigger] it.seq()[i] == m0[i], 0 <= it.index() <= m0.len(), forall|i: int| 0 <= i < it.index() ==> is_clear(*final(#[trigger] it.seq()[i])),
//?C30c //@ at before loop 2
//?C30c     let ghost m0 = local_vars@;
//@ at after loop 1
    let ghost st1 = self.script_stack@;
    proof { if st1.len() > 0 { lemma_pop(st1); assert(st1.drop_last() =~= st1.take(st1.len() - 1)); } }
//@ at before loop 3
    let ghost c3 = *self;
//@ loop 3 for it it
    invariant quiet(c3, *self),
//?C31r         self.part_iter_stack@ =~= c3.part_iter_stack@.take(self.part_iter_stack@.len() as int), self.part_iter_stack@.len() + it.index() == c3.part_iter_stack@.len(), it.index() <= *num_pops, it.seq().len() == *num_pops,
//?C31r         popped(c3, *self),
//?C31r //@ at after loop 3
//?C31r     // leaving loops goes back to the part and the rest of the loop that was going on outside of them
//?C31r     proof { let (n, l) = (*num_pops as int, c3.part_iter_stack@.len() as int); assert(self.part_iter_stack@ =~= c3.part_iter_stack@.take(if n <= l { l - n } else { 0 })); assert(popped(c3, *self)); }
//?C31r //@ at before "if let Some(next_part) = self.part_iter.next()"
//?C31r     let ghost f0 = *self;
//?C31r //@ at after "if let Some(next_part) = self.part_iter.next()"
//?C31r     // the next part of the walk
//?C31r     proof { assert(stepped(f0, *self)); }
//?C31r //@ at after "self.pos = fep.jz_pos"
//?C31r     // after the last part the loop ends and the part outside of it is the current one again
//?C31r     proof { assert(f0.part_iter.remaining().len() == 0); assert((self.part, self.part_iter) == f0.part_iter_stack@.last() && self.part_iter_stack@ =~= f0.part_iter_stack@.drop_last() && self.pos == fep.jz_pos); }
//?C31r //@ at before "let part_iter = self.find_nested_parts_ids"
//?C31r     let ghost f1 = *self;
//?C31r //@ at after "self.part_iter_stack.push((self.part, std::mem::replace(&mut self.part_iter, part_iter)));"
//?C31r     // a new loop walks the parts below the current one (the outermost one the whole message) and remembers where it was
//?C31r     proof { assert(self.part_iter.remaining() == nested_parts(f1.message, f1.part, f1.part_iter_stack@.len() == 0)); assert(self.part_iter_stack@ =~= f1.part_iter_stack@.push((f1.part, f1.part_iter))); assert(self.part == f1.part); }
//?C30c //@ at before "if clear.local_vars_num > 0"
//?C30c     let ghost v0 = self.vars_local@;
//?C30c //@ at before "if clear.match_vars != 0"
//?C30c     // leaving a block empties its variables and no others
//?C30c     proof { let (a, n) = (clear.local_vars_idx as int, clear.local_vars_num as int); assert(emptied(v0, self.vars_local@, a, n)); }
//@ at before loop 4
    let ghost c4 = *self;
//@ loop 4 for it it
    invariant *self == c4,
//?C27         it.seq().len() == capabilities@.len(), forall|j: int| 0 <= j < capabilities@.len() ==> *it.seq()[j] == #[trigger] capabilities@[j], forall|j: int| 0 <= j < it.index() ==> self.runtime.allowed_capabilities@.contains(#[trigger] capabilities@[j]),
//?C27 //@ at after loop 4
//?C27     // only an allowed declaration is passed
//?C27     proof { assert forall|c: Capability| capabilities@.contains(c) implies self.runtime.allowed_capabilities@.contains(c) by { let j = choose|j: int| 0 <= j < capabilities@.len() && capabilities@[j] == c; } }
//?C04 //@ at after "self.final_event = Event::Keep"
//?C04     proof { assert(is_keep(self.final_event)); }
//?C04     *fe = Ghost(self.final_event);
//?C04 //@ at after "fi.exec(self)"
//?C04     *fe = Ghost(self.final_event);
//?C04 //@ at after "redirect.exec(self)"
//?C04     *fe = Ghost(self.final_event);
//?C04 //@ at after "self.final_event = Event::Discard"
//?C04     *fe = Ghost(self.final_event);
//?C04 //@ at after "self.final_event = None"
//?C04     *fe = Ghost(self.final_event);
//@ loopattr 2 #[verifier::loop_isolation(false)]
//@ loopattr 3 #[verifier::loop_isolation(false)]
//@ loopattr 4 #[verifier::loop_isolation(false)]
//@end
}
//?C31r pub open spec fn popped(o: Context, f: Context) -> bool { let l = f.part_iter_stack@.len(); if l == o.part_iter_stack@.len() { f.part == o.part && f.part_iter == o.part_iter } else { l < o.part_iter_stack@.len() && (f.part, f.part_iter) == o.part_iter_stack@[l as int] } }
//?C31r #[verifier::prophetic] pub open spec fn stepped(o: Context, f: Context) -> bool { let r = o.part_iter.remaining(); if r.len() > 0 { f.part == r[0] && f.part_iter.remaining() =~= r.skip(1) && f.part_iter_stack@ == o.part_iter_stack@ } else { o.part_iter_stack@.len() == 0 && f.part == 0 } }
