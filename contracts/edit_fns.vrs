// ---- editing the header -----------------------------------------------------------------
//@type src/compiler/grammar/actions/action_editheader.rs AddHeader
//@end
//@type src/compiler/grammar/actions/action_editheader.rs DeleteHeader
//@end
// header fields removed one by one, the last of the list first
pub open spec fn dropped(h: Seq<Header>, at: Seq<int>) -> Seq<Header> decreases at.len() { if at.len() == 0 { h } else { dropped(h, at.drop_first()).remove(at.first()) } }
pub open spec fn in_this(p: u32, f: Seq<(u32, int)>) -> Seq<int> decreases f.len() { if f.len() == 0 { seq![] } else if f.last().0 == p { in_this(p, f.drop_last()).push(f.last().1) } else { in_this(p, f.drop_last()) } }
pub open spec fn same_part(a: Part, b: Part) -> bool { a.is_encoding_problem == b.is_encoding_problem && a.body == b.body && a.encoding == b.encoding && a.offset_header == b.offset_header && a.offset_body == b.offset_body && a.offset_end == b.offset_end }
// everything but the message stays; the message keeps its parts and their contents
pub open spec fn edited(a: Context, b: Context) -> bool { a.runtime == b.runtime && a.part == b.part && a.message.raw_message == b.message.raw_message && a.message.parts@.len() == b.message.parts@.len() && forall|i: int| 0 <= i < a.message.parts@.len() ==> same_part(#[trigger] a.message.parts@[i], b.message.parts@[i]) }
pub open spec fn untouched(a: Context, b: Context) -> bool { edited(a, b) && a.message.parts@ == b.message.parts@ && a.message_size == b.message_size && a.has_changes == b.has_changes }
pub open spec fn text_field(h: Header, name: Seq<char>, value: Seq<char>) -> bool { name_of(h.name) == name && h.offset_field == 0 && h.offset_start == 0 && h.offset_end == 0 && match h.value { HeaderValue::Text(t) => t@ == value, _ => false } }
// exactly one field more in part p, at its start or end
pub open spec fn one_more(a: Context, b: Context, p: u32, name: Seq<char>, value: Seq<char>, last: bool) -> bool { edited(a, b) && p < a.message.parts@.len()
    && (forall|i: int| 0 <= i < a.message.parts@.len() && i != p ==> a.message.parts@[i] == #[trigger] b.message.parts@[i])
    && b.message.parts@[p as int].headers@.len() == a.message.parts@[p as int].headers@.len() + 1
    && (if last { text_field(b.message.parts@[p as int].headers@.last(), name, value) && b.message.parts@[p as int].headers@.drop_last() == a.message.parts@[p as int].headers@ }
        else { text_field(b.message.parts@[p as int].headers@[0], name, value) && b.message.parts@[p as int].headers@.drop_first() == a.message.parts@[p as int].headers@ }) }
// the fields the host protects, in order
pub open spec fn guarded(c: Context, h: Seq<Header>) -> Seq<Header> { h.filter(|x: Header| protected(c, x.name)) }
pub open spec fn cleaned_name(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if alnum(s.last()) || s.last() == '-' { cleaned_name(s.drop_last()).push(s.last()) } else { cleaned_name(s.drop_last()) } }
// what a value stands for does not depend on whether the message has been changed yet
#[verifier::external_body] pub proof fn axiom_value_of(a: Context, b: Context, v: Value) requires a.runtime == b.runtime, a.message == b.message, a.part == b.part ensures value_of(a, v) == value_of(b, v) {}
pub proof fn lemma_unbroken_le(s: Seq<char>) ensures blen(unbroken(s)) <= blen(s) decreases s.len() { if s.len() > 0 { lemma_unbroken_le(s.drop_last()); lemma_blen_push(unbroken(s.drop_last()), s.last()); } }
pub proof fn lemma_fit_len(s: Seq<char>, max: nat) ensures blen(fit(s, max)) <= blen(s) decreases s.len() { if blen(s) > max && s.len() > 0 { lemma_fit_len(s.drop_last(), max); } }
pub proof fn lemma_fit_le(s: Seq<char>, max: nat) ensures blen(fit(unbroken(s), max)) <= blen(s) { lemma_unbroken_le(s); lemma_fit_len(unbroken(s), max); }
impl<'x> Context<'x> {
//@fn src/runtime/actions/action_editheader.rs Context::insert_header
//@ sig "header_value: impl Into<Cow<'static, str>>" => "header_value: String"
//@ sig "header_name: HeaderName<'x>" => "header_name: HeaderName"
//@ replace "let header_value = header_value.into();" => ";"
//@ spec
    requires part_id < old(self).message.parts@.len(), plain_name(name_of(header_name)), sbreaks(header_value@) == 0, old(self).message_size <= MEM, blen(header_value@) <= MEM,
    ensures one_more(*old(self), *final(self), part_id, name_of(header_name), header_value@, last), final(self).has_changes == old(self).has_changes,
        final(self).message_size == old(self).message_size + blen(name_of(header_name)) + blen(header_value@) + 4,
//?C18e         final(self).part_iter == old(self).part_iter, final(self).part_iter_stack == old(self).part_iter_stack,
//@ at start
    let ghost c0 = *self; let ghost h0 = self.message.parts@[part_id as int].headers@;
//@ at end
    proof { let h = self.message.parts@[part_id as int].headers@; if last { assert(h.drop_last() =~= h0); } else { assert(h.drop_first() =~= h0); } }
//@end
}
impl AddHeader {
//@fn src/runtime/actions/action_editheader.rs AddHeader::exec
//@ replace "HeaderName::parse(header_name)" => "HeaderName::parse(header_name.as_str())"
//@ replace "ch.is_alphanumeric()" => "is_alnum(ch)"
//@ replace "ctx.eval_value(&self.value).to_string().as_ref().remove_crlf(ctx.runtime.max_header_size)" => "remove_crlf(ctx.eval_value(&self.value).to_string().as_str(), ctx.runtime.max_header_size)"
//@ spec
    requires old(ctx).part < old(ctx).message.parts@.len(), old(ctx).message_size <= MEM, blen(vtext(value_of(*old(ctx), self.value))) <= MEM,
    ensures ({ let n = parsed_name(cleaned_name(vtext(value_of(*old(ctx), self.field_name))));
        if n is Some && !protected(*old(ctx), n->0) { let v = fit(unbroken(vtext(value_of(*old(ctx), self.value))), old(ctx).runtime.max_header_size as nat);
            one_more(*old(ctx), *final(ctx), old(ctx).part, name_of(n->0), v, self.last) && final(ctx).has_changes && plain_name(name_of(n->0)) && sbreaks(v) == 0 && blen(v) <= old(ctx).runtime.max_header_size }
        else { untouched(*old(ctx), *final(ctx)) } }),
//@ at start
    let ghost c0 = *ctx; let ghost given = vtext(value_of(c0, self.field_name)); proof { axiom_char_eq(); assert(given.take(0) =~= Seq::<char>::empty()); assert(given.take(given.len() as int) =~= given); }
    broadcast use axiom_parsed_name;
//@ loop 0 for it it
    invariant given == header_name_@, it.seq() == given, header_name@ == cleaned_name(given.take(it.index() as int)), 0 <= it.index() <= given.len(),
//@ at loop 0 start
    proof { assert(given.take(it.index() + 1).drop_last() =~= given.take(it.index() as int)); }
//@ at before "ctx.insert_header("
    proof { axiom_value_of(c0, *ctx, self.value); lemma_unbroken(vtext(value_of(c0, self.value))); lemma_fit_breaks(unbroken(vtext(value_of(c0, self.value))), c0.runtime.max_header_size as nat); lemma_fit_le(vtext(value_of(c0, self.value)), c0.runtime.max_header_size as nat); }
//@end
}
