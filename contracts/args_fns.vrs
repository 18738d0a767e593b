//@type src/compiler/grammar/actions/action_fileinto.rs FileInto
//@end
//@type src/compiler/grammar/actions/action_include.rs Location
//@end
//@type src/compiler/grammar/actions/action_include.rs Include
//@end
//@type src/compiler/grammar/actions/action_mime.rs Enclose
//@end
//@type src/compiler/grammar/actions/action_mime.rs Replace
//@end
//@type src/compiler/grammar/actions/action_redirect.rs NotifyItem
//@end
//@type src/compiler/grammar/actions/action_redirect.rs Notify
//@ rename DsnNotify
//@end
//@type src/compiler/grammar/actions/action_redirect.rs Ret
//@end
//@type src/compiler/grammar/actions/action_redirect.rs ByMode
//@end
//@type src/compiler/grammar/actions/action_redirect.rs ByTime
//@end
//@type src/compiler/grammar/actions/action_redirect.rs Redirect
//@ replace "notify: Notify" => "notify: DsnNotify"
//@end
//@type src/compiler/grammar/actions/action_notify.rs Notify
//@end
//@type src/lib.rs FileCarbonCopy
//@end
//@type src/compiler/grammar/actions/action_vacation.rs Period
//@end
//@type src/compiler/grammar/actions/action_vacation.rs TestVacation
//@end
//@type src/compiler/grammar/actions/action_vacation.rs Vacation
//@end
//@type src/compiler/grammar/test.rs Test
//@ keep Vacation
//@end
//@type src/compiler/grammar/instruction.rs Instruction
//@ keep FileInto Include Enclose Replace Notify Vacation Test Jz Redirect
//@end
pub open spec fn other_tag() -> bool { true }
pub open spec fn fileinto_slot(w: Word) -> int { match w { Word::Copy => 1, Word::Create => 2, Word::Flags => 3, Word::MailboxId => 4, Word::SpecialUse => 5, _ => 0 } }
pub open spec fn fileinto_slots() -> spec_fn(Word) -> int { |w: Word| fileinto_slot(w) }
pub open spec fn is_fileinto(f: FileInto, h: Seq<Arg>, v: Value) -> bool { f.folder == v && f.copy == mark(h, Word::Copy) && f.create == mark(h, Word::Create) && f.flags@ == many(h, Word::Flags) && f.mailbox_id == one(h, Word::MailboxId) && f.special_use == one(h, Word::SpecialUse) }
impl<'x> CompilerState<'x> {
//@fn src/compiler/grammar/actions/action_fileinto.rs CompilerState::parse_fileinto
//@ ret r
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ replace? "Capability::Copy.into()" => "Some(Capability::Copy)"
//@ replace? "Capability::Mailbox.into()" => "Some(Capability::Mailbox)"
//@ replace? "Capability::Imap4Flags.into()" => "Some(Capability::Imap4Flags)"
//@ replace? "Capability::MailboxId.into()" => "Some(Capability::MailboxId)"
//@ replace? "Capability::SpecialUse.into()" => "Some(Capability::SpecialUse)"
//@ replace? "Capability::VacationSeconds.into()" => "Some(Capability::VacationSeconds)"
//@ replace? "Capability::Fcc.into()" => "Some(Capability::Fcc)"
//@ replace? "Capability::ExtLists.into()" => "Some(Capability::ExtLists)"
//@ replace? "Capability::RedirectDeliverBy.into()" => "Some(Capability::RedirectDeliverBy)"
//@ replace? "Capability::RedirectDsn.into()" => "Some(Capability::RedirectDsn)"
//@ replace? "self.parse_string()?.into()" => "Some(self.parse_string()?)"
//@ spec
    ensures r is Ok ==> exists|h: Seq<Arg>, v: Value| #[trigger] reads(ahead(old(self).tokens), h, v, ahead(final(self).tokens)) && at_most_once(h, fileinto_slots()) && final(self).instructions@.len() == old(self).instructions@.len() + 1 && match final(self).instructions@.last() { Instruction::FileInto(f) => is_fileinto(f, h, v), _ => false },
//@ at start
    let ghost s0 = *self; let ghost a0 = ahead(self.tokens); let ghost mut h: Seq<Arg> = seq![]; let ghost slot = fileinto_slots(); proof { lemma_none(a0, slot, self.param_check@); }
//@ loopattr 0 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0 loop
    invariant_except_break so_far(a0, h, ahead(self.tokens), slot, self.param_check@),
    invariant self.instructions@.len() == s0.instructions@.len(), copy == mark(h, Word::Copy), create == mark(h, Word::Create), flags@ == many(h, Word::Flags), mailbox_id == one(h, Word::MailboxId), special_use == one(h, Word::SpecialUse),
    ensures reads(a0, h, folder, ahead(self.tokens)), at_most_once(h, slot),
//@ at loop 0 start
    let ghost b = ahead(self.tokens); let ghost p = self.param_check@; 
//@ at after "copy = true;"
    proof { lemma_add(a0, h, b, Arg::Mark(Word::Copy), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Mark(Word::Copy)); }
//@ at after "create = true;"
    proof { lemma_add(a0, h, b, Arg::Mark(Word::Create), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Mark(Word::Create)); }
//@ at after "flags = self.parse_strings(false)?;"
    proof { lemma_add(a0, h, b, Arg::Many(Word::Flags, flags@), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Many(Word::Flags, flags@)); }
//@ at after "mailbox_id = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::MailboxId, mailbox_id->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::MailboxId, mailbox_id->0)); }
//@ at after "special_use = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::SpecialUse, special_use->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::SpecialUse, special_use->0)); }
//@ at after "folder = self.parse_string_token(token_info)?;"
    proof { lemma_last(a0, h, b, folder, slot, self.param_check@); }
//@ at before "self.instructions.push("
    let ghost gv = folder;
//@ at after "self.instructions.push("
    proof { assert(reads(a0, h, gv, ahead(self.tokens))); assert(at_most_once(h, slot)); assert(match self.instructions@.last() { Instruction::FileInto(f) => f.folder == gv, _ => false }); assert(match self.instructions@.last() { Instruction::FileInto(f) => is_fileinto(f, h, gv), _ => false }); }
//@end
}
pub open spec fn enclose_slot(w: Word) -> int { match w { Word::Subject => 1, Word::Headers => 2, _ => 0 } }
pub open spec fn enclose_slots() -> spec_fn(Word) -> int { |w: Word| enclose_slot(w) }
pub open spec fn is_enclose(f: Enclose, h: Seq<Arg>, v: Value) -> bool { f.value == v && f.subject == one(h, Word::Subject) && f.headers@ == many(h, Word::Headers) }
impl<'x> CompilerState<'x> {
//@fn src/compiler/grammar/actions/action_mime.rs CompilerState::parse_enclose
//@ ret r
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ replace? "Capability::Copy.into()" => "Some(Capability::Copy)"
//@ replace? "Capability::Mailbox.into()" => "Some(Capability::Mailbox)"
//@ replace? "Capability::Imap4Flags.into()" => "Some(Capability::Imap4Flags)"
//@ replace? "Capability::MailboxId.into()" => "Some(Capability::MailboxId)"
//@ replace? "Capability::SpecialUse.into()" => "Some(Capability::SpecialUse)"
//@ replace? "Capability::VacationSeconds.into()" => "Some(Capability::VacationSeconds)"
//@ replace? "Capability::Fcc.into()" => "Some(Capability::Fcc)"
//@ replace? "Capability::ExtLists.into()" => "Some(Capability::ExtLists)"
//@ replace? "Capability::RedirectDeliverBy.into()" => "Some(Capability::RedirectDeliverBy)"
//@ replace? "Capability::RedirectDsn.into()" => "Some(Capability::RedirectDsn)"
//@ replace? "self.parse_string()?.into()" => "Some(self.parse_string()?)"
//@ spec
    ensures r is Ok ==> exists|h: Seq<Arg>, v: Value| #[trigger] reads(ahead(old(self).tokens), h, v, ahead(final(self).tokens)) && at_most_once(h, enclose_slots()) && final(self).instructions@.len() == old(self).instructions@.len() + 1 && match final(self).instructions@.last() { Instruction::Enclose(f) => is_enclose(f, h, v), _ => false },
//@ at start
    let ghost s0 = *self; let ghost a0 = ahead(self.tokens); let ghost mut h: Seq<Arg> = seq![]; let ghost slot = enclose_slots(); proof { lemma_none(a0, slot, self.param_check@); }
//@ loopattr 0 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0 loop
    invariant_except_break so_far(a0, h, ahead(self.tokens), slot, self.param_check@),
    invariant self.instructions@.len() == s0.instructions@.len(), subject == one(h, Word::Subject), headers@ == many(h, Word::Headers),
    ensures reads(a0, h, value, ahead(self.tokens)), at_most_once(h, slot),
//@ at loop 0 start
    let ghost b = ahead(self.tokens); let ghost p = self.param_check@; 
//@ at after "subject = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::Subject, subject->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::Subject, subject->0)); }
//@ at after "headers = self.parse_strings(false)?;"
    proof { lemma_add(a0, h, b, Arg::Many(Word::Headers, headers@), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Many(Word::Headers, headers@)); }
//@ at after "value = self.parse_string_token(token_info)?;"
    proof { lemma_last(a0, h, b, value, slot, self.param_check@); }
//@ at before "self.instructions.push("
    let ghost gv = value;
//@ at after "self.instructions.push("
    proof { assert(reads(a0, h, gv, ahead(self.tokens))); assert(at_most_once(h, slot)); assert(match self.instructions@.last() { Instruction::Enclose(f) => f.value == gv, _ => false }); assert(match self.instructions@.last() { Instruction::Enclose(f) => is_enclose(f, h, gv), _ => false }); }
//@end
}
pub open spec fn replace_slot(w: Word) -> int { match w { Word::Mime => 1, Word::Subject => 2, Word::From => 3, _ => 0 } }
pub open spec fn replace_slots() -> spec_fn(Word) -> int { |w: Word| replace_slot(w) }
pub open spec fn is_replace(f: Replace, h: Seq<Arg>, v: Value) -> bool { f.replacement == v && f.mime == mark(h, Word::Mime) && f.subject == one(h, Word::Subject) && f.from == one(h, Word::From) }
impl<'x> CompilerState<'x> {
//@fn src/compiler/grammar/actions/action_mime.rs CompilerState::parse_replace
//@ ret r
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ replace? "Capability::Copy.into()" => "Some(Capability::Copy)"
//@ replace? "Capability::Mailbox.into()" => "Some(Capability::Mailbox)"
//@ replace? "Capability::Imap4Flags.into()" => "Some(Capability::Imap4Flags)"
//@ replace? "Capability::MailboxId.into()" => "Some(Capability::MailboxId)"
//@ replace? "Capability::SpecialUse.into()" => "Some(Capability::SpecialUse)"
//@ replace? "Capability::VacationSeconds.into()" => "Some(Capability::VacationSeconds)"
//@ replace? "Capability::Fcc.into()" => "Some(Capability::Fcc)"
//@ replace? "Capability::ExtLists.into()" => "Some(Capability::ExtLists)"
//@ replace? "Capability::RedirectDeliverBy.into()" => "Some(Capability::RedirectDeliverBy)"
//@ replace? "Capability::RedirectDsn.into()" => "Some(Capability::RedirectDsn)"
//@ replace? "self.parse_string()?.into()" => "Some(self.parse_string()?)"
//@ spec
    ensures r is Ok ==> exists|h: Seq<Arg>, v: Value| #[trigger] reads(ahead(old(self).tokens), h, v, ahead(final(self).tokens)) && at_most_once(h, replace_slots()) && final(self).instructions@.len() == old(self).instructions@.len() + 1 && match final(self).instructions@.last() { Instruction::Replace(f) => is_replace(f, h, v), _ => false },
//@ at start
    let ghost s0 = *self; let ghost a0 = ahead(self.tokens); let ghost mut h: Seq<Arg> = seq![]; let ghost slot = replace_slots(); proof { lemma_none(a0, slot, self.param_check@); }
//@ loopattr 0 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0 loop
    invariant_except_break so_far(a0, h, ahead(self.tokens), slot, self.param_check@),
    invariant self.instructions@.len() == s0.instructions@.len(), mime == mark(h, Word::Mime), subject == one(h, Word::Subject), from == one(h, Word::From),
    ensures reads(a0, h, replacement, ahead(self.tokens)), at_most_once(h, slot),
//@ at loop 0 start
    let ghost b = ahead(self.tokens); let ghost p = self.param_check@; 
//@ at after "mime = true;"
    proof { lemma_add(a0, h, b, Arg::Mark(Word::Mime), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Mark(Word::Mime)); }
//@ at after "subject = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::Subject, subject->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::Subject, subject->0)); }
//@ at after "from = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::From, from->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::From, from->0)); }
//@ at after "replacement = self.parse_string_token(token_info)?;"
    proof { lemma_last(a0, h, b, replacement, slot, self.param_check@); }
//@ at before "self.instructions.push("
    let ghost gv = replacement;
//@ at after "self.instructions.push("
    proof { assert(reads(a0, h, gv, ahead(self.tokens))); assert(at_most_once(h, slot)); assert(match self.instructions@.last() { Instruction::Replace(f) => f.replacement == gv, _ => false }); assert(match self.instructions@.last() { Instruction::Replace(f) => is_replace(f, h, gv), _ => false }); }
//@end
}
pub open spec fn include_slot(w: Word) -> int { match w { Word::Once => 1, Word::Optional => 2, Word::Personal => 3, Word::Global => 3, _ => 0 } }
pub open spec fn include_slots() -> spec_fn(Word) -> int { |w: Word| include_slot(w) }
pub open spec fn is_include(f: Include, h: Seq<Arg>, v: Value) -> bool { f.value == v && f.once == mark(h, Word::Once) && f.optional == mark(h, Word::Optional) && f.location == (if mark(h, Word::Global) { Location::Global } else { Location::Personal }) }
impl<'x> CompilerState<'x> {
//@fn src/compiler/grammar/actions/action_include.rs CompilerState::parse_include
//@ ret r
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ replace? "Capability::Copy.into()" => "Some(Capability::Copy)"
//@ replace? "Capability::Mailbox.into()" => "Some(Capability::Mailbox)"
//@ replace? "Capability::Imap4Flags.into()" => "Some(Capability::Imap4Flags)"
//@ replace? "Capability::MailboxId.into()" => "Some(Capability::MailboxId)"
//@ replace? "Capability::SpecialUse.into()" => "Some(Capability::SpecialUse)"
//@ replace? "Capability::VacationSeconds.into()" => "Some(Capability::VacationSeconds)"
//@ replace? "Capability::Fcc.into()" => "Some(Capability::Fcc)"
//@ replace? "Capability::ExtLists.into()" => "Some(Capability::ExtLists)"
//@ replace? "Capability::RedirectDeliverBy.into()" => "Some(Capability::RedirectDeliverBy)"
//@ replace? "Capability::RedirectDsn.into()" => "Some(Capability::RedirectDsn)"
//@ replace? "self.parse_string()?.into()" => "Some(self.parse_string()?)"
//@ spec
    ensures r is Ok ==> exists|h: Seq<Arg>, v: Value| #[trigger] reads(ahead(old(self).tokens), h, v, ahead(final(self).tokens)) && at_most_once(h, include_slots()) && final(self).instructions@.len() == old(self).instructions@.len() + 1 && match final(self).instructions@.last() { Instruction::Include(f) => is_include(f, h, v), _ => false },
//@ at start
    let ghost s0 = *self; let ghost a0 = ahead(self.tokens); let ghost mut h: Seq<Arg> = seq![]; let ghost slot = include_slots(); proof { lemma_none(a0, slot, self.param_check@); }
//@ loopattr 0 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0 loop
    invariant_except_break so_far(a0, h, ahead(self.tokens), slot, self.param_check@),
    invariant self.instructions@.len() == s0.instructions@.len(), once == mark(h, Word::Once), optional == mark(h, Word::Optional), location == (if mark(h, Word::Global) { Location::Global } else { Location::Personal }), true,
    ensures reads(a0, h, value, ahead(self.tokens)), at_most_once(h, slot),
//@ at loop 0 start
    let ghost b = ahead(self.tokens); let ghost p = self.param_check@; 
//@ at after "once = true;"
    proof { lemma_add(a0, h, b, Arg::Mark(Word::Once), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Mark(Word::Once)); }
//@ at after "optional = true;"
    proof { lemma_add(a0, h, b, Arg::Mark(Word::Optional), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Mark(Word::Optional)); }
//@ at after "location = Location::Global;"
    proof { lemma_add(a0, h, b, Arg::Mark(Word::Global), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Mark(Word::Global)); }
//@ at after "location = Location::Personal;" #1
    proof { if mark(h, Word::Global) { lemma_seen(a0, h, b, slot, p, Word::Global); } lemma_add(a0, h, b, Arg::Mark(Word::Personal), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Mark(Word::Personal)); }
//@ at after "value = self.parse_string_token(token_info)?;"
    proof { lemma_last(a0, h, b, value, slot, self.param_check@); }
//@ at before "self.instructions.push("
    let ghost gv = value;
//@ at after "self.instructions.push("
    proof { assert(reads(a0, h, gv, ahead(self.tokens))); assert(at_most_once(h, slot)); assert(match self.instructions@.last() { Instruction::Include(f) => f.value == gv, _ => false }); assert(match self.instructions@.last() { Instruction::Include(f) => is_include(f, h, gv), _ => false }); }
//@end
}
pub open spec fn is_copy_of(f: Option<FileCarbonCopy<Value>>, h: Seq<Arg>) -> bool { match f {
    None => one(h, Word::Fcc) is None && !mark(h, Word::Create) && many(h, Word::Flags).len() == 0 && one(h, Word::SpecialUse) is None && one(h, Word::MailboxId) is None,
    Some(c) => one(h, Word::Fcc) == Some(c.mailbox) && c.create == mark(h, Word::Create) && c.flags@ == many(h, Word::Flags) && c.special_use == one(h, Word::SpecialUse) && c.mailbox_id == one(h, Word::MailboxId) } }
// what a notification must not hold (notify: the sender and the method, checked under C26)
#[verifier::external_body] pub fn bad_from(v: &Value) -> bool { unimplemented!() }
#[verifier::external_body] pub fn bad_uri(t: &TokenInfo) -> bool { unimplemented!() }
pub open spec fn notify_slot(w: Word) -> int { match w { Word::From => 1, Word::Message => 2, Word::Importance => 3, Word::Options => 4, Word::Create => 5, Word::SpecialUse => 6, Word::MailboxId => 7, Word::Fcc => 8, Word::Flags => 9, _ => 0 } }
pub open spec fn notify_slots() -> spec_fn(Word) -> int { |w: Word| notify_slot(w) }
pub open spec fn is_notify(f: Notify, h: Seq<Arg>, v: Value) -> bool { f.method == v && f.from == one(h, Word::From) && f.message == one(h, Word::Message) && f.importance == one(h, Word::Importance) && f.options@ == many(h, Word::Options) && is_copy_of(f.fcc, h) }
impl<'x> CompilerState<'x> {
//@fn src/compiler/grammar/actions/action_notify.rs CompilerState::parse_notify
//@ ret r
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ replace? "Capability::Copy.into()" => "Some(Capability::Copy)"
//@ replace? "Capability::Mailbox.into()" => "Some(Capability::Mailbox)"
//@ replace? "Capability::Imap4Flags.into()" => "Some(Capability::Imap4Flags)"
//@ replace? "Capability::MailboxId.into()" => "Some(Capability::MailboxId)"
//@ replace? "Capability::SpecialUse.into()" => "Some(Capability::SpecialUse)"
//@ replace? "Capability::VacationSeconds.into()" => "Some(Capability::VacationSeconds)"
//@ replace? "Capability::Fcc.into()" => "Some(Capability::Fcc)"
//@ replace? "Capability::ExtLists.into()" => "Some(Capability::ExtLists)"
//@ replace? "Capability::RedirectDeliverBy.into()" => "Some(Capability::RedirectDeliverBy)"
//@ replace? "Capability::RedirectDsn.into()" => "Some(Capability::RedirectDsn)"
//@ replace? "self.parse_string()?.into()" => "Some(self.parse_string()?)"
//@ replace "FileCarbonCopy { mailbox: fcc, create, flags, special_use, mailbox_id, }.into()" => "Some(FileCarbonCopy { mailbox: fcc, create, flags, special_use, mailbox_id })"
//@ replace "address.into()" => "Some(address)"
//@ cut "if let Value::Text(address) = &address {" to "return Err(token_info.custom(ErrorType::InvalidAddress)); } }" => "if bad_from(&address) { return Err(an_error()); }"
//@ cut "if let Token::StringConstant(uri)" to "return Err(token_info.custom(ErrorType::InvalidURI)); } }" => "if bad_uri(&token_info) { return Err(an_error()); }"
//@ spec
    ensures r is Ok ==> exists|h: Seq<Arg>, v: Value| #[trigger] reads(ahead(old(self).tokens), h, v, ahead(final(self).tokens)) && at_most_once(h, notify_slots()) && final(self).instructions@.len() == old(self).instructions@.len() + 1 && match final(self).instructions@.last() { Instruction::Notify(f) => is_notify(f, h, v), _ => false },
//@ at start
    let ghost s0 = *self; let ghost a0 = ahead(self.tokens); let ghost mut h: Seq<Arg> = seq![]; let ghost slot = notify_slots(); proof { lemma_none(a0, slot, self.param_check@); }
//@ loopattr 0 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0 loop
    invariant_except_break so_far(a0, h, ahead(self.tokens), slot, self.param_check@),
    invariant self.instructions@.len() == s0.instructions@.len(), from == one(h, Word::From), message == one(h, Word::Message), importance == one(h, Word::Importance), options@ == many(h, Word::Options), create == mark(h, Word::Create), flags@ == many(h, Word::Flags), special_use == one(h, Word::SpecialUse), mailbox_id == one(h, Word::MailboxId), fcc == one(h, Word::Fcc),
    ensures reads(a0, h, method, ahead(self.tokens)), at_most_once(h, slot),
//@ at loop 0 start
    let ghost b = ahead(self.tokens); let ghost p = self.param_check@; 
//@ at after "from = address.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::From, from->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::From, from->0)); }
//@ at after "message = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::Message, message->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::Message, message->0)); }
//@ at after "importance = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::Importance, importance->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::Importance, importance->0)); }
//@ at after "options = self.parse_strings(false)?;"
    proof { lemma_add(a0, h, b, Arg::Many(Word::Options, options@), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Many(Word::Options, options@)); }
//@ at after "create = true;"
    proof { lemma_add(a0, h, b, Arg::Mark(Word::Create), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Mark(Word::Create)); }
//@ at after "flags = self.parse_strings(false)?;"
    proof { lemma_add(a0, h, b, Arg::Many(Word::Flags, flags@), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Many(Word::Flags, flags@)); }
//@ at after "special_use = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::SpecialUse, special_use->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::SpecialUse, special_use->0)); }
//@ at after "mailbox_id = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::MailboxId, mailbox_id->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::MailboxId, mailbox_id->0)); }
//@ at after "fcc = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::Fcc, fcc->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::Fcc, fcc->0)); }
//@ at after "method = self.parse_string_token(token_info)?;"
    proof { lemma_last(a0, h, b, method, slot, self.param_check@); }
//@ at before "self.instructions.push("
    let ghost gv = method;
//@ at after "self.instructions.push("
    proof { assert(reads(a0, h, gv, ahead(self.tokens))); assert(at_most_once(h, slot)); assert(match self.instructions@.last() { Instruction::Notify(f) => f.method == gv, _ => false }); assert(match self.instructions@.last() { Instruction::Notify(f) => is_notify(f, h, gv), _ => false }); }
//@end
}
pub open spec fn vacation_slot(w: Word) -> int { match w { Word::Mime => 1, Word::Create => 2, Word::Days => 3, Word::Seconds => 3, Word::Subject => 4, Word::From => 5, Word::Handle => 6, Word::SpecialUse => 7, Word::MailboxId => 8, Word::Fcc => 9, Word::Flags => 10, Word::Addresses => 11, _ => 0 } }
pub open spec fn vacation_slots() -> spec_fn(Word) -> int { |w: Word| vacation_slot(w) }
pub open spec fn period_of(h: Seq<Arg>) -> Period { match count(h, Word::Days) { Some(n) => Period::Days(n as u64), None => match count(h, Word::Seconds) { Some(n) => Period::Seconds(n as u64), None => Period::Default } } }
pub open spec fn is_vacation_test(f: TestVacation, h: Seq<Arg>, v: Value) -> bool { f.reason == v && f.period == period_of(h) && f.handle == one(h, Word::Handle) && f.addresses@ == many(h, Word::Addresses) }
pub open spec fn is_vacation(f: Vacation, h: Seq<Arg>, v: Value) -> bool { f.reason == v && f.subject == one(h, Word::Subject) && f.from == one(h, Word::From) && f.mime == mark(h, Word::Mime) && is_copy_of(f.fcc, h) }
// the reply is sent when the test allows it, and skipped otherwise
pub open spec fn is_reply(a: Seq<Instruction>, n: int, h: Seq<Arg>, v: Value) -> bool { a.len() == n + 3 && (match a[n] { Instruction::Test(Test::Vacation(t)) => is_vacation_test(t, h, v), _ => false }) && a[n + 1] == Instruction::Jz((n + 3) as usize) && match a[n + 2] { Instruction::Vacation(f) => is_vacation(f, h, v), _ => false } }
impl<'x> CompilerState<'x> {
//@fn src/compiler/grammar/actions/action_vacation.rs CompilerState::parse_vacation
//@ ret r
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ replace? "Capability::Copy.into()" => "Some(Capability::Copy)"
//@ replace? "Capability::Mailbox.into()" => "Some(Capability::Mailbox)"
//@ replace? "Capability::Imap4Flags.into()" => "Some(Capability::Imap4Flags)"
//@ replace? "Capability::MailboxId.into()" => "Some(Capability::MailboxId)"
//@ replace? "Capability::SpecialUse.into()" => "Some(Capability::SpecialUse)"
//@ replace? "Capability::VacationSeconds.into()" => "Some(Capability::VacationSeconds)"
//@ replace? "Capability::Fcc.into()" => "Some(Capability::Fcc)"
//@ replace? "Capability::ExtLists.into()" => "Some(Capability::ExtLists)"
//@ replace? "Capability::RedirectDeliverBy.into()" => "Some(Capability::RedirectDeliverBy)"
//@ replace? "Capability::RedirectDsn.into()" => "Some(Capability::RedirectDsn)"
//@ replace? "self.parse_string()?.into()" => "Some(self.parse_string()?)"
//@ replace "FileCarbonCopy { mailbox: fcc, create, flags, special_use, mailbox_id, }.into()" => "Some(FileCarbonCopy { mailbox: fcc, create, flags, special_use, mailbox_id })"
//@ spec
    ensures r is Ok ==> exists|h: Seq<Arg>, v: Value| #[trigger] reads(ahead(old(self).tokens), h, v, ahead(final(self).tokens)) && at_most_once(h, vacation_slots()) && is_reply(final(self).instructions@, old(self).instructions@.len() as int, h, v),
//@ at start
    let ghost s0 = *self; let ghost a0 = ahead(self.tokens); let ghost mut h: Seq<Arg> = seq![]; let ghost slot = vacation_slots(); proof { lemma_none(a0, slot, self.param_check@); }
//@ loopattr 0 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0 loop
    invariant_except_break so_far(a0, h, ahead(self.tokens), slot, self.param_check@),
    invariant self.instructions@.len() == s0.instructions@.len(), mime == mark(h, Word::Mime), subject == one(h, Word::Subject), from == one(h, Word::From), handle == one(h, Word::Handle), addresses@ == many(h, Word::Addresses), create == mark(h, Word::Create), flags@ == many(h, Word::Flags), special_use == one(h, Word::SpecialUse), mailbox_id == one(h, Word::MailboxId), fcc == one(h, Word::Fcc), period == period_of(h),
    ensures reads(a0, h, reason, ahead(self.tokens)), at_most_once(h, slot),
//@ at loop 0 start
    let ghost b = ahead(self.tokens); let ghost p = self.param_check@; 
//@ at after "mime = true;"
    proof { lemma_add(a0, h, b, Arg::Mark(Word::Mime), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Mark(Word::Mime)); }
//@ at after "subject = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::Subject, subject->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::Subject, subject->0)); }
//@ at after "from = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::From, from->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::From, from->0)); }
//@ at after "handle = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::Handle, handle->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::Handle, handle->0)); }
//@ at after "addresses = self.parse_strings(false)?;"
    proof { lemma_add(a0, h, b, Arg::Many(Word::Addresses, addresses@), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Many(Word::Addresses, addresses@)); }
//@ at after "create = true;"
    proof { lemma_add(a0, h, b, Arg::Mark(Word::Create), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Mark(Word::Create)); }
//@ at after "flags = self.parse_strings(false)?;"
    proof { lemma_add(a0, h, b, Arg::Many(Word::Flags, flags@), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Many(Word::Flags, flags@)); }
//@ at after "special_use = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::SpecialUse, special_use->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::SpecialUse, special_use->0)); }
//@ at after "mailbox_id = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::MailboxId, mailbox_id->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::MailboxId, mailbox_id->0)); }
//@ at after "fcc = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::Fcc, fcc->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::Fcc, fcc->0)); }
//@ at after "period = Period::Days(self.tokens.expect_number(u64::MAX as usize)? as u64);" #0
    proof { if count(h, Word::Seconds) is Some { lemma_seen(a0, h, b, slot, p, Word::Seconds); } if count(h, Word::Days) is Some { lemma_seen(a0, h, b, slot, p, Word::Days); } lemma_add(a0, h, b, Arg::Count(Word::Days, period->Days_0 as usize), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Count(Word::Days, period->Days_0 as usize)); }
//@ at after "period = Period::Seconds(self.tokens.expect_number(u64::MAX as usize)? as u64);" #0
    proof { if count(h, Word::Seconds) is Some { lemma_seen(a0, h, b, slot, p, Word::Seconds); } if count(h, Word::Days) is Some { lemma_seen(a0, h, b, slot, p, Word::Days); } lemma_add(a0, h, b, Arg::Count(Word::Seconds, period->Seconds_0 as usize), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Count(Word::Seconds, period->Seconds_0 as usize)); }
//@ at after "reason = self.parse_string_token(token_info)?;"
    proof { lemma_last(a0, h, b, reason, slot, self.param_check@); }
//@ at before "self.instructions.push(Instruction::Test("
    broadcast use axiom_vec_len_bound; let ghost gv = reason; let ghost n = self.instructions@.len() as int; proof { assert(reads(a0, h, gv, ahead(self.tokens))); assert(at_most_once(h, slot)); }
//@ at after "self.instructions.push(Instruction::Vacation("
    proof { assert(is_reply(self.instructions@, n, h, gv)); assert(reads(a0, h, gv, ahead(self.tokens))); assert(at_most_once(h, vacation_slots())); assert(n == old(self).instructions@.len()); }
//@end
}
// texts compared ignoring ASCII case, split at commas, without the white space around them
pub uninterp spec fn same_word(a: Seq<char>, b: Seq<char>) -> bool;
pub uninterp spec fn comma_parts(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub trait WordX { fn is_word(&self, w: &str) -> bool; fn commas(&self) -> Vec<&str>; fn trim_(&self) -> &str; }
impl WordX for str {
    #[verifier::external_body] fn is_word(&self, w: &str) -> (r: bool) ensures r == same_word(self@, w@) { self.eq_ignore_ascii_case(w) }
    #[verifier::external_body] fn commas(&self) -> (r: Vec<&str>) ensures r@.len() == comma_parts(self@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == comma_parts(self@)[i] { self.split(',').collect() }
    #[verifier::external_body] fn trim_(&self) -> (r: &str) ensures r@ == trimmed(self@) { self.trim() }
}
pub open spec fn item_of(s: Seq<char>) -> Option<NotifyItem> { if same_word(trimmed(s), "success"@) { Some(NotifyItem::Success) } else if same_word(trimmed(s), "failure"@) { Some(NotifyItem::Failure) } else if same_word(trimmed(s), "delay"@) { Some(NotifyItem::Delay) } else { None } }
pub open spec fn items_of(l: Seq<Seq<char>>) -> Seq<NotifyItem> decreases l.len() { if l.len() == 0 { seq![] } else { match item_of(l.last()) { Some(i) => items_of(l.drop_last()).push(i), None => items_of(l.drop_last()) } } }
pub open spec fn is_dsn(n: DsnNotify, o: Option<Seq<char>>) -> bool { match o { None => n is Default, Some(s) => if same_word(s, "never"@) { n is Never } else { match n { DsnNotify::Items(l) => l@ == items_of(comma_parts(s)) && l@.len() > 0, _ => false } } } }
pub open spec fn mode_of(o: Option<Seq<char>>) -> ByMode { match o { Some(s) => if same_word(s, "notify"@) { ByMode::Notify } else { ByMode::Return }, None => ByMode::Default } }
pub open spec fn is_mode(s: Seq<char>) -> bool { same_word(s, "notify"@) || same_word(s, "return"@) }
pub open spec fn ret_of(o: Option<Seq<char>>) -> Ret { match o { Some(s) => if same_word(s, "full"@) { Ret::Full } else { Ret::Hdrs }, None => Ret::Default } }
pub open spec fn time_of(h: Seq<Arg>) -> ByTime<Value> { match one(h, Word::ByTimeAbsolute) { Some(v) => ByTime::Absolute { alimit: v, mode: mode_of(fixed(h, Word::ByMode)), trace: mark(h, Word::ByTrace) },
    None => match count(h, Word::ByTimeRelative) { Some(n) => ByTime::Relative { rlimit: n as u64, mode: mode_of(fixed(h, Word::ByMode)), trace: mark(h, Word::ByTrace) }, None => ByTime::None } } }
pub open spec fn redirect_slot(w: Word) -> int { match w { Word::Copy => 1, Word::List => 2, Word::ByTrace => 3, Word::ByMode => 4, Word::ByTimeRelative => 5, Word::ByTimeAbsolute => 5, Word::Ret => 6, Word::Notify => 7, _ => 0 } }
pub open spec fn redirect_slots() -> spec_fn(Word) -> int { |w: Word| redirect_slot(w) }
pub open spec fn is_redirect(f: Redirect, h: Seq<Arg>, v: Value) -> bool { f.address == v && f.copy == mark(h, Word::Copy) && f.list == mark(h, Word::List) && is_dsn(f.notify, fixed(h, Word::Notify)) && f.return_of_content == ret_of(fixed(h, Word::Ret)) && f.by_time == time_of(h) }
impl<'x> CompilerState<'x> {
//@fn src/compiler/grammar/actions/action_redirect.rs CompilerState::parse_redirect
//@ ret r
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ replace? "Capability::Copy.into()" => "Some(Capability::Copy)"
//@ replace? "Capability::Mailbox.into()" => "Some(Capability::Mailbox)"
//@ replace? "Capability::Imap4Flags.into()" => "Some(Capability::Imap4Flags)"
//@ replace? "Capability::MailboxId.into()" => "Some(Capability::MailboxId)"
//@ replace? "Capability::SpecialUse.into()" => "Some(Capability::SpecialUse)"
//@ replace? "Capability::VacationSeconds.into()" => "Some(Capability::VacationSeconds)"
//@ replace? "Capability::Fcc.into()" => "Some(Capability::Fcc)"
//@ replace? "Capability::ExtLists.into()" => "Some(Capability::ExtLists)"
//@ replace? "Capability::RedirectDeliverBy.into()" => "Some(Capability::RedirectDeliverBy)"
//@ replace? "Capability::RedirectDsn.into()" => "Some(Capability::RedirectDsn)"
//@ replace? "self.parse_string()?.into()" => "Some(self.parse_string()?)"
//@ replace "Notify::Default" => "DsnNotify::Default"
//@ replace "Notify::Never" => "DsnNotify::Never"
//@ replace "Notify::Items(items)" => "DsnNotify::Items(items)"
//@ replace ".eq_ignore_ascii_case(" => ".is_word("
//@ replace "notify_.split(',')" => "notify_.as_str().commas()"
//@ replace "item.trim()" => "item.trim_()"
//@ replace "(self.tokens.expect_number(u64::MAX as usize)? as u64).into()" => "Some(self.tokens.expect_number(u64::MAX as usize)? as u64)"
//@ at before "for item in"
    let ghost cp = comma_parts(notify_@);
//@ loopattr 1 #[verifier::loop_isolation(false)]
//@ loop 1 for it it
    invariant it.seq().len() == cp.len(), forall|i: int| 0 <= i < cp.len() ==> (#[trigger] it.seq()[i])@ == cp[i], 0 <= it.index() <= cp.len(), items@ == items_of(cp.take(it.index() as int)),
//@ at loop 1 start
    proof { assert(cp.take(it.index() + 1).drop_last() =~= cp.take(it.index() as int)); assert(cp.take(it.index() + 1).last() == cp[it.index() as int]); }
//@ at before "if !items.is_empty()"
    proof { assert(cp.take(cp.len() as int) =~= cp); }
//@ spec
    ensures r is Ok ==> exists|h: Seq<Arg>, v: Value| #[trigger] reads(ahead(old(self).tokens), h, v, ahead(final(self).tokens)) && at_most_once(h, redirect_slots()) && final(self).instructions@.len() == old(self).instructions@.len() + 1 && match final(self).instructions@.last() { Instruction::Redirect(f) => is_redirect(f, h, v), _ => false },
//@ at start
    let ghost s0 = *self; let ghost a0 = ahead(self.tokens); let ghost mut h: Seq<Arg> = seq![]; let ghost slot = redirect_slots(); proof { lemma_none(a0, slot, self.param_check@); }
//@ loopattr 0 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0 loop
    invariant_except_break so_far(a0, h, ahead(self.tokens), slot, self.param_check@),
    invariant self.instructions@.len() == s0.instructions@.len(), copy == mark(h, Word::Copy), list == mark(h, Word::List), by_trace == mark(h, Word::ByTrace), by_alimit == one(h, Word::ByTimeAbsolute), by_rlimit == (match count(h, Word::ByTimeRelative) { Some(n) => Some(n as u64), None => None }), by_mode == mode_of(fixed(h, Word::ByMode)), ret == ret_of(fixed(h, Word::Ret)), is_dsn(notify, fixed(h, Word::Notify)),
    ensures reads(a0, h, address, ahead(self.tokens)), at_most_once(h, slot),
//@ at loop 0 start
    let ghost b = ahead(self.tokens); let ghost p = self.param_check@; 
//@ at after "copy = true;"
    proof { lemma_add(a0, h, b, Arg::Mark(Word::Copy), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Mark(Word::Copy)); }
//@ at after "list = true;"
    proof { lemma_add(a0, h, b, Arg::Mark(Word::List), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Mark(Word::List)); }
//@ at after "by_trace = true;"
    proof { lemma_add(a0, h, b, Arg::Mark(Word::ByTrace), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Mark(Word::ByTrace)); }
//@ at after "by_alimit = self.parse_string()?.into();"
    proof { lemma_add(a0, h, b, Arg::One(Word::ByTimeAbsolute, by_alimit->0), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::One(Word::ByTimeAbsolute, by_alimit->0)); }
//@ at after "by_rlimit = (self.tokens.expect_number(u64::MAX as usize)? as u64).into();"
    proof { lemma_add(a0, h, b, Arg::Count(Word::ByTimeRelative, by_rlimit->0 as usize), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Count(Word::ByTimeRelative, by_rlimit->0 as usize)); }
//@ at after "let by_mode_ = self.tokens.expect_static_string()?;"
    proof { lemma_add(a0, h, b, Arg::Fixed(Word::ByMode, by_mode_@), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Fixed(Word::ByMode, by_mode_@)); }
//@ at after "let ret_ = self.tokens.expect_static_string()?;"
    proof { lemma_add(a0, h, b, Arg::Fixed(Word::Ret, ret_@), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Fixed(Word::Ret, ret_@)); }
//@ at after "let notify_ = self.tokens.expect_static_string()?;"
    proof { lemma_add(a0, h, b, Arg::Fixed(Word::Notify, notify_@), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Fixed(Word::Notify, notify_@)); }
//@ at after "address = self.parse_string_token(token_info)?;"
    proof { lemma_last(a0, h, b, address, slot, self.param_check@); }
//@ at before "self.instructions.push("
    let ghost gv = address;
//@ at after "self.instructions.push("
    proof { assert(reads(a0, h, gv, ahead(self.tokens))); assert(at_most_once(h, slot)); assert(match self.instructions@.last() { Instruction::Redirect(f) => f.address == gv, _ => false }); assert(match self.instructions@.last() { Instruction::Redirect(f) => is_redirect(f, h, gv), _ => false }); }
//@end
}
