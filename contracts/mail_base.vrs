// ---- the state the mail actions use ---------------------------------------------------
#[verifier::external_body] pub struct Value { x: u8 }
//@type src/lib.rs Envelope
//@ attr #[derive(PartialEq, Eq, Clone, Copy, Structural)]
//@end
//@type src/compiler/grammar/actions/action_redirect.rs NotifyItem
//@end
//@type src/compiler/grammar/actions/action_redirect.rs Notify
//@ rename SendNotify
//@end
//@type src/compiler/grammar/actions/action_redirect.rs Ret
//@end
//@type src/compiler/grammar/actions/action_redirect.rs ByMode
//@end
//@type src/compiler/grammar/actions/action_redirect.rs ByTime
//@end
//@type src/compiler/grammar/actions/action_redirect.rs Redirect
//@ replace "Notify" => "SendNotify"
//@end
//@type src/lib.rs Recipient
//@end
//@type src/lib.rs Importance
//@ attr #[derive(PartialEq, Eq, Clone, Copy, Structural)]
//@end
//@type src/lib.rs FileCarbonCopy
//@end
//@type src/lib.rs Event
//@ keep Keep Discard FileInto SendMessage Notify CreatedMessage DuplicateId
//@ replace "notify: Notify," => "notify: SendNotify,"
//@end
impl SendNotify { #[verifier::external_body] pub fn clone(&self) -> (r: SendNotify) ensures r == *self { unimplemented!() } }
impl Ret { #[verifier::external_body] pub fn clone(&self) -> (r: Ret) ensures r == *self { unimplemented!() } }
impl ByMode { #[verifier::external_body] pub fn clone(&self) -> (r: ByMode) ensures r == *self { unimplemented!() } }
// ---- mail_parser: header fields of a parsed message (mirror of the dependency's types) ----
#[verifier::external_body] pub struct AddressList { x: u8 }
pub enum HeaderName { Subject, From, To, Cc, Date, Bcc, ReplyTo, Sender, Comments, InReplyTo, Keywords, Received, MessageId, References, ReturnPath, MimeVersion, ContentDescription, ContentId, ContentLanguage, ContentLocation, ContentTransferEncoding, ContentType, ContentDisposition, ResentTo, ResentFrom, ResentBcc, ResentCc, ResentSender, ResentDate, ResentMessageId, ListArchive, ListHelp, ListId, ListOwner, ListPost, ListSubscribe, ListUnsubscribe, DkimSignature, ArcAuthenticationResults, ArcMessageSignature, ArcSeal, Other(String) }
pub enum HeaderValue { Address(AddressList), Text(String), Unparsed }
pub struct Header { pub name: HeaderName, pub value: HeaderValue, pub offset_field: u32, pub offset_start: u32, pub offset_end: u32 }
pub struct Part { pub headers: Vec<Header> }
pub struct Mail { pub parts: Vec<Part>, pub raw_message: Vec<u8> }
//@type src/lib.rs Runtime
//@ keep max_redirects max_out_messages max_received_headers vacation_use_orig_rcpt default_vacation_expiry vacation_default_subject vacation_subject_prefix local_hostname
//@ replace "Cow<'static, str>" => "String"
//@end
//@type src/lib.rs Context
//@ keep runtime user_address message envelope queued_events final_event last_message_id main_message_id has_changes num_redirects num_out_messages
//@ replace "Cow<'x, str>" => "String"
//@ replace "Message<'x>" => "Mail"
//@end
pub open spec fn lower_ascii(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32) + 32) as u8 as char } else { c } }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower_ascii(c)) }
pub assume_specification[ <str>::eq_ignore_ascii_case ](a: &str, b: &str) -> (r: bool) ensures r == (lower(a@) == lower(b@));
#[verifier::external_body] pub fn same_ci(a: &str, b: &str) -> (r: bool) ensures r == (lower(a@) == lower(b@)) { a.eq_ignore_ascii_case(b) }
// the text or value of an argument: a function of the message, the envelope and the variables (the actions here write none of them)
pub uninterp spec fn value_in(m: Mail, e: Vec<(Envelope, Variable)>, v: Value) -> Variable;
pub open spec fn value_of(c: Context, v: Value) -> Variable { value_in(c.message, c.envelope, v) }
impl<'x> Context<'x> {
    #[verifier::external_body] pub fn eval_value(&self, v: &Value) -> (r: Variable) ensures r == value_of(*self, *v) { unimplemented!() }
    #[verifier::external_body] pub fn build_message_id(&mut self) -> (r: Option<Event>) ensures
        *final(self) == (Context { has_changes: false, main_message_id: final(self).main_message_id, last_message_id: final(self).last_message_id, ..*old(self) }),
        old(self).has_changes == r is Some, r is Some ==> r->0 is CreatedMessage, r is None ==> *final(self) == *old(self) { unimplemented!() }
}
pub open spec fn received(h: Seq<Header>) -> nat decreases h.len() { if h.len() == 0 { 0 } else { received(h.drop_last()) + if h.last().name is Received { 1nat } else { 0 } } }
// headers.iter().filter(|h| h.name is Received).count()
#[verifier::external_body] pub fn received_count(h: &Vec<Header>) -> (r: usize) ensures r == received(h@) { unimplemented!() }
pub uninterp spec fn rfc3339(s: Seq<char>) -> i64;
#[verifier::external_body] pub fn rfc3339_time(s: &String) -> (r: i64) ensures r == rfc3339(s@) { unimplemented!() }
pub uninterp spec fn text_of(v: HeaderValue) -> Option<Seq<char>>;       // HeaderValue::as_text
impl HeaderValue { #[verifier::external_body] pub fn as_text(&self) -> (r: Option<&str>) ensures r is Some == text_of(*self) is Some, r is Some ==> r->0@ == text_of(*self)->0 { unimplemented!() } }
