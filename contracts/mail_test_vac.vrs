// ---- the vacation guard -----------------------------------------------------------------
pub enum RuntimeError { Any }
//@type src/runtime/tests/mod.rs TestResult
//@end
//@type src/compiler/grammar/actions/action_vacation.rs Period
//@end
//@type src/compiler/grammar/actions/action_vacation.rs TestVacation
//@end
pub uninterp spec fn addresses_of(m: Mail, h: Header) -> Seq<Seq<char>>; // the addresses of an address field
pub open spec fn has_prefix(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
pub open spec fn has_infix(s: Seq<char>, p: Seq<char>) -> bool { exists|k: int| 0 <= k && k + p.len() <= s.len() && #[trigger] s.subrange(k, k + p.len()) == p }
#[verifier::external_body] pub fn str_starts(s: &String, p: &str) -> (r: bool) ensures r == has_prefix(s@, p@) { s.starts_with(p) }
#[verifier::external_body] pub fn str_contains(s: &String, p: &str) -> (r: bool) ensures r == has_infix(s@, p@) { s.contains(p) }
#[verifier::external_body] pub fn to_lower(s: String) -> (r: String) ensures r@ == lower(s@) { s.to_ascii_lowercase() }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn has_ci(v: Seq<Seq<char>>, a: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && lower(#[trigger] v[i]) == lower(a) }
// user_addresses.iter().any(|a| a.eq_ignore_ascii_case(..))
#[verifier::external_body] pub fn any_ci(v: &Vec<String>, a: &String) -> (r: bool) ensures r == has_ci(texts(v@), a@) { unimplemented!() }
pub open spec fn names_any(m: Mail, h: Header, v: Seq<Seq<char>>) -> bool { exists|i: int| 0 <= i < addresses_of(m, h).len() && has_ci(v, #[trigger] addresses_of(m, h)[i]) }
#[verifier::external_body] pub fn header_names(ctx: &Context, h: &Header, v: &Vec<String>) -> (r: bool) ensures r == names_any(ctx.message, *h, texts(v@)) { unimplemented!() }
pub open spec fn text_is(v: HeaderValue, s: Seq<char>) -> bool { text_of(v) is Some && lower(text_of(v)->0) == lower(s) }
#[verifier::external_body] pub fn text_is_not(v: &HeaderValue, s: &str) -> (r: bool) ensures r == !text_is(*v, s@) { unimplemented!() }
#[verifier::external_body] pub fn text_equals(v: &HeaderValue, s: &str) -> (r: bool) ensures r == text_is(*v, s@) { unimplemented!() }
pub uninterp spec fn suppress_all(v: HeaderValue) -> bool;               // a comma-separated element is "all" or "oof"
#[verifier::external_body] pub fn text_suppresses(v: &HeaderValue) -> (r: bool) ensures r == suppress_all(*v) { unimplemented!() }
#[verifier::external_body] pub fn cat3(a: &str, b: &String, c: &String) -> (r: String) ensures r@ == a@ + b@ + c@ { unimplemented!() }
// the sender: the last envelope From that is not empty
pub open spec fn empty_value(v: Variable) -> bool { v is String && str_of(v).len() == 0 }
pub open spec fn env_from(e: Seq<(Envelope, Variable)>) -> Seq<char> decreases e.len() { if e.len() == 0 { seq![] } else if e.last().0 is From && !empty_value(e.last().1) { lower(vtext(e.last().1)) } else { env_from(e.drop_last()) } }
pub open spec fn env_own(e: Seq<(Envelope, Variable)>, orig: bool) -> Seq<Seq<char>> decreases e.len() { if e.len() == 0 { seq![] } else if (if orig { e.last().0 is Orcpt } else { e.last().0 is To }) && !empty_value(e.last().1) { env_own(e.drop_last(), orig).push(vtext(e.last().1)) } else { env_own(e.drop_last(), orig) } }
pub open spec fn given(c: Context, a: Seq<Value>) -> Seq<Seq<char>> decreases a.len() { if a.len() == 0 { seq![] } else if vtext(value_of(c, a.last())).len() == 0 { given(c, a.drop_last()) } else { given(c, a.drop_last()).push(vtext(value_of(c, a.last()))) } }
// the addresses the script answers for
pub open spec fn own(c: Context, t: TestVacation) -> Seq<Seq<char>> { let o = env_own(c.envelope@, c.runtime.vacation_use_orig_rcpt) + given(c, t.addresses@); if c.user_address@.len() == 0 { o } else { o.push(c.user_address@) } }
pub open spec fn machine(from: Seq<char>) -> bool { from.len() == 0 || has_prefix(from, "mailer-daemon"@) || has_prefix(from, "owner-"@) || has_infix(from, "-request@"@) }
pub open spec fn other_ci(h: Header, s: Seq<char>) -> bool { h.name is Other && lower(h.name->Other_0@) == lower(s) }
// header fields that forbid a reply: lists, automatic mail, suppression, bulk mail
pub open spec fn forbids(h: Header) -> bool {
    h.name is ListArchive || h.name is ListHelp || h.name is ListId || h.name is ListOwner || h.name is ListPost || h.name is ListSubscribe || h.name is ListUnsubscribe
    || (if other_ci(h, "Auto-Submitted"@) { !text_is(h.value, "no"@) } else if other_ci(h, "X-Auto-Response-Suppress"@) { suppress_all(h.value) } else { other_ci(h, "Precedence"@) && text_is(h.value, "bulk"@) })
}
pub open spec fn recipient_field(h: Header) -> bool { h.name is To || h.name is Cc || h.name is Bcc || h.name is ResentTo || h.name is ResentBcc || h.name is ResentCc }
pub open spec fn addressed(m: Mail, h: Seq<Header>, v: Seq<Seq<char>>) -> bool { exists|i: int| 0 <= i < h.len() && recipient_field(#[trigger] h[i]) && names_any(m, h[i], v) }
pub open spec fn forbidden(h: Seq<Header>) -> bool { exists|i: int| 0 <= i < h.len() && forbids(#[trigger] h[i]) }
pub open spec fn replies(c: Context, t: TestVacation) -> bool {
    c.num_out_messages < c.runtime.max_out_messages && !machine(env_from(c.envelope@)) && own(c, t).len() > 0 && !has_ci(own(c, t), env_from(c.envelope@))
    && !forbidden(c.message.parts@[0].headers@) && addressed(c.message, c.message.parts@[0].headers@, own(c, t)) && received(c.message.parts@[0].headers@) <= c.runtime.max_received_headers
}
pub open spec fn period(t: TestVacation, c: Context) -> int { match t.period { Period::Days(d) => if d * 86400 > u64::MAX { u64::MAX as int } else { d * 86400 }, Period::Seconds(s) => s as int, Period::Default => c.runtime.default_vacation_expiry as int } }
impl Variable { // v.to_string().is_empty() of an owned text
}
pub proof fn lemma_received(h: Seq<Header>, i: int) requires 0 <= i < h.len() ensures received(h.take(i + 1)) == received(h.take(i)) + (if h[i].name is Received { 1nat } else { 0 }), received(h.take(i)) <= i
decreases i
{ assert(h.take(i + 1).drop_last() =~= h.take(i)); if i > 0 { lemma_received(h, i - 1); } }

impl TestVacation {
//@fn src/runtime/actions/action_vacation.rs TestVacation::exec
//@ ret r
//@ replace "let mut user_addresses = Vec::new()" => "let mut user_addresses: Vec<String> = Vec::new()"
//@ replace "(name, value)" => "nv"
//@ replace "value.to_string().to_ascii_lowercase()" => "to_lower(value.to_string())"
//@ replace "ctx.eval_value(address).to_string().into_owned()" => "ctx.eval_value(address).to_string()"
//@ replace? "user_addresses.push(address.into())" => "user_addresses.push(address)"
//@ replace "user_addresses.push(ctx.user_address.as_ref().into())" => "user_addresses.push(ctx.user_address.clone())"
//@ replace "from.starts_with(\"mailer-daemon\")" => "str_starts(&from, \"mailer-daemon\")"
//@ replace "from.starts_with(\"owner-\")" => "str_starts(&from, \"owner-\")"
//@ replace "from.contains(\"-request@\")" => "str_contains(&from, \"-request@\")"
//@ replace "user_addresses.iter().any(|a| a.eq_ignore_ascii_case(&from))" => "any_ci(&user_addresses, &from)"
//@ replace "HeaderName::ResentCc if !found_rcpt => { found_rcpt = ctx.find_addresses(header, &AddressPart::All, |addr| { user_addresses.iter().any(|a| a.eq_ignore_ascii_case(addr)) }); }" => "HeaderName::ResentCc => { if !found_rcpt { found_rcpt = header_names(ctx, header, &user_addresses); } }"
//@ replace "header.value.as_text().is_none_or(|v| !v.eq_ignore_ascii_case(\"no\"))" => "text_is_not(&header.value, \"no\")"
//@ replace "header.value.as_text().is_some_and(|v| { v.to_ascii_lowercase().split(',').any(|v| [\"all\", \"oof\"].contains(&v.trim())) })" => "text_suppresses(&header.value)"
//@ replace "header.value.as_text().is_some_and(|v| v.eq_ignore_ascii_case(\"bulk\"))" => "text_equals(&header.value, \"bulk\")"
//@ replace "format!(\"_v{}{}\", from, ctx.eval_value(handle).to_string())" => "cat3(\"_v\", &from, &ctx.eval_value(handle).to_string())"
//@ replace "format!(\"_v{}{}\", from, ctx.eval_value(&self.reason).to_string())" => "cat3(\"_v\", &from, &ctx.eval_value(&self.reason).to_string())"
//@ spec
    requires old(ctx).message.parts@.len() > 0,
    ensures *final(ctx) == *old(ctx),
        replies(*old(ctx), *self) ==> (match r { TestResult::Event { event, is_not } => is_not && (match event { Event::DuplicateId { id, expiry, last } => !last && expiry == period(*self, *old(ctx))
            && id@ == "_v"@ + env_from(old(ctx).envelope@) + vtext(value_of(*old(ctx), if self.handle is Some { self.handle->0 } else { self.reason })), _ => false }), _ => false }),
        !replies(*old(ctx), *self) ==> r == TestResult::Bool(false),
//@ at start
    let ghost ctx0 = *ctx;
    let ghost e = ctx.envelope@;
    let ghost h = ctx.message.parts@[0].headers@;
    proof { assert(e.take(e.len() as int) =~= e); assert(h.take(h.len() as int) =~= h); assert(self.addresses@.take(self.addresses@.len() as int) =~= self.addresses@); }
//@ loop 0 for it it
    invariant *ctx == ctx0, e == ctx0.envelope@, it.seq().len() == e.len(), 0 <= it.index() <= e.len(), forall|i: int| 0 <= i < e.len() ==> *#[trigger] it.seq()[i] == e[i],
        from@ == env_from(e.take(it.index() as int)), texts(user_addresses@) =~= env_own(e.take(it.index() as int), ctx0.runtime.vacation_use_orig_rcpt),
//@ at loop 0 start
    let name = &nv.0; let value = &nv.1;
    let ghost i0 = it.index() as int;
    proof { assert(e.take(i0 + 1).drop_last() =~= e.take(i0)); assert(e.take(i0 + 1).last() == e[i0]); assert(*nv == e[i0]); }
//@ loop 1 for it it
    invariant *ctx == ctx0, e == ctx0.envelope@, it.seq().len() == self.addresses@.len(), 0 <= it.index() <= self.addresses@.len(), forall|i: int| 0 <= i < self.addresses@.len() ==> *#[trigger] it.seq()[i] == self.addresses@[i],
        texts(user_addresses@) =~= env_own(e, ctx0.runtime.vacation_use_orig_rcpt) + given(ctx0, self.addresses@.take(it.index() as int)),
//@ at loop 1 start
    let ghost i0 = it.index() as int; let ghost u0 = user_addresses@; let ghost t0 = vtext(value_of(ctx0, *address));
    proof { assert(self.addresses@.take(i0 + 1).drop_last() =~= self.addresses@.take(i0)); assert(self.addresses@.take(i0 + 1).last() == self.addresses@[i0]); assert(*address == self.addresses@[i0]); }
//@ at loop 1 end
    proof { assert(given(ctx0, self.addresses@.take(i0 + 1)) =~= (if t0.len() == 0 { given(ctx0, self.addresses@.take(i0)) } else { given(ctx0, self.addresses@.take(i0)).push(t0) })); assert(texts(user_addresses@) =~= (if t0.len() == 0 { texts(u0) } else { texts(u0).push(t0) })); }
//@ at before "if from.is_empty()"
    proof { assert(texts(user_addresses@) =~= own(ctx0, *self)); assert(texts(user_addresses@).len() == user_addresses@.len()); axiom_vec_len_bound(ctx.message.parts@[0].headers); }
//@ loop 2 for it it
    invariant *ctx == ctx0, h == ctx0.message.parts@[0].headers@, ctx0.message.parts@.len() > 0, it.seq().len() == h.len(), 0 <= it.index() <= h.len(), forall|i: int| 0 <= i < h.len() ==> *#[trigger] it.seq()[i] == h[i],
        texts(user_addresses@) == own(ctx0, *self), h.len() <= isize::MAX,
        found_rcpt == addressed(ctx0.message, h.take(it.index() as int), own(ctx0, *self)), received_count == received(h.take(it.index() as int)),
        !forbidden(h.take(it.index() as int)),
//@ at loop 2 start
    let ghost i0 = it.index() as int;
    proof { lemma_received(h, i0); assert(*header == h[i0]); lemma_step(ctx0.message, h, i0, own(ctx0, *self)); if forbids(h[i0]) { assert(forbidden(h)); } }
//@end
}
pub proof fn lemma_step(m: Mail, h: Seq<Header>, i: int, v: Seq<Seq<char>>) requires 0 <= i < h.len()
    ensures addressed(m, h.take(i + 1), v) == (addressed(m, h.take(i), v) || (recipient_field(h[i]) && names_any(m, h[i], v))), forbidden(h.take(i + 1)) == (forbidden(h.take(i)) || forbids(h[i]))
{
    let a = h.take(i); let b = h.take(i + 1);
    if addressed(m, a, v) { let k = choose|k: int| 0 <= k < a.len() && recipient_field(#[trigger] a[k]) && names_any(m, a[k], v); assert(b[k] == a[k]); }
    if addressed(m, b, v) { let k = choose|k: int| 0 <= k < b.len() && recipient_field(#[trigger] b[k]) && names_any(m, b[k], v); if k < i { assert(a[k] == b[k]); } }
    if recipient_field(h[i]) && names_any(m, h[i], v) { assert(b[i] == h[i]); }
    if forbidden(a) { let k = choose|k: int| 0 <= k < a.len() && forbids(#[trigger] a[k]); assert(b[k] == a[k]); }
    if forbidden(b) { let k = choose|k: int| 0 <= k < b.len() && forbids(#[trigger] b[k]); if k < i { assert(a[k] == b[k]); } }
    if forbids(h[i]) { assert(b[i] == h[i]); }
}
