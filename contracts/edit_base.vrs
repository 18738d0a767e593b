// ---- a parsed message that a script edits (mirror of mail_parser's types) ------------------
global size_of usize == 8;
#[verifier::external_body] pub struct Value { x: u8 }
#[verifier::external_body] pub struct Body { x: u8 }

#[verifier::external_body] pub struct NameSet { x: u8 }
#[verifier::external_body] pub struct Comparator { x: u8 }
#[verifier::external_body] pub struct MatchType { x: u8 }
pub enum HeaderName { Subject, From, To, Cc, Date, Bcc, Received, MessageId, ContentType, Known(u8), Other(String) }
pub enum HeaderValue { Text(String), Parsed(Body) }
pub struct Header { pub name: HeaderName, pub value: HeaderValue, pub offset_field: u32, pub offset_start: u32, pub offset_end: u32 }
#[derive(PartialEq, Eq, Structural)] pub enum Encoding { None, QuotedPrintable, Base64 }
pub struct Part { pub headers: Vec<Header>, pub is_encoding_problem: bool, pub body: PartType, pub encoding: Encoding, pub offset_header: u32, pub offset_body: u32, pub offset_end: u32 }
pub enum PartType { Text(String), Multipart(Vec<u32>), Message(Mail), Data(Body) }
pub struct Mail { pub parts: Vec<Part>, pub raw_message: Vec<u8> }
//@type src/lib.rs Runtime
//@ keep protected_headers max_header_size local_hostname
//@ replace "Vec<HeaderName<'static>>" => "NameSet"
//@ replace "Cow<'static, str>" => "String"
//@end
//@type src/lib.rs Context
//?!C18e //@ keep runtime message message_size part has_changes last_message_id main_message_id
//?C18e //@ keep runtime message message_size part part_iter part_iter_stack has_changes
//?C18e //@ replace "IntoIter<u32>" => "Ids"
//@ replace "Message<'x>" => "Mail"
//@end
// a field name as it is written
pub uninterp spec fn known_name(n: u8) -> Seq<char>;
pub open spec fn name_of(n: HeaderName) -> Seq<char> { match n { HeaderName::Subject => "Subject"@, HeaderName::From => "From"@, HeaderName::To => "To"@, HeaderName::Cc => "Cc"@, HeaderName::Date => "Date"@, HeaderName::Bcc => "Bcc"@, HeaderName::Received => "Received"@, HeaderName::MessageId => "Message-ID"@, HeaderName::ContentType => "Content-Type"@, HeaderName::Known(k) => known_name(k), HeaderName::Other(s) => s@ } }
pub open spec fn lower_ascii(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32) + 32) as u8 as char } else { c } }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower_ascii(c)) }
// field names are compared ignoring case
pub open spec fn same_field(a: HeaderName, b: HeaderName) -> bool { lower(name_of(a)) == lower(name_of(b)) }
#[verifier::external_body] pub fn same_name(a: &HeaderName, b: &HeaderName) -> (r: bool) ensures r == same_field(*a, *b) { unimplemented!() }
pub open spec fn name_char(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '-' || c == '_' }
pub open spec fn plain_name(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> name_char(#[trigger] s[i]) }
pub uninterp spec fn parsed_name(s: Seq<char>) -> Option<HeaderName>;
#[verifier::external_body] pub broadcast proof fn axiom_parsed_name(s: Seq<char>) ensures #![trigger parsed_name(s)] (parsed_name(s) is Some) == plain_name(s), parsed_name(s) is Some ==> plain_name(name_of(parsed_name(s)->0)) && lower(name_of(parsed_name(s)->0)) == lower(s) {}
impl HeaderName { #[verifier::external_body] pub fn parse(s: &str) -> (r: Option<HeaderName>) ensures r == parsed_name(s@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == blen(name_of(*self)), r <= MEM { unimplemented!() } }
// host configuration: the names scripts may not touch
pub uninterp spec fn protects(s: NameSet, n: Seq<char>) -> bool; // n in lower case
impl NameSet { #[verifier::external_body] pub fn contains(&self, n: &HeaderName) -> (r: bool) ensures r == protects(*self, lower(name_of(*n))) { unimplemented!() } }
pub open spec fn protected(c: Context, n: HeaderName) -> bool { protects(c.runtime.protected_headers, lower(name_of(n))) }
pub uninterp spec fn value_of(c: Context, v: Value) -> Variable;
pub const MEM: usize = usize::MAX / 64; // texts, messages and their parts are smaller than this (an address space holds no more)
impl<'x> Context<'x> { #[verifier::external_body] pub fn eval_value(&self, v: &Value) -> (r: Variable) ensures r == value_of(*self, *v) { unimplemented!() } }
pub uninterp spec fn alnum(c: char) -> bool; // char::is_alphanumeric
#[verifier::external_body] pub fn is_alnum(c: char) -> (r: bool) ensures r == alnum(c), name_char(c) && c != '-' && c != '_' ==> r { unimplemented!() }
// sizes of the header fields: what message_size counts
pub open spec fn hsize(h: Header) -> nat { if h.offset_end != 0 { if h.offset_end >= h.offset_field { (h.offset_end - h.offset_field) as nat } else { 0 } } else { match h.value { HeaderValue::Text(t) => blen(name_of(h.name)) + blen(t@) + 4, _ => 0 } } }
pub open spec fn hsizes(h: Seq<Header>) -> nat decreases h.len() { if h.len() == 0 { 0 } else { hsizes(h.drop_last()) + hsize(h.last()) } }
pub open spec fn psizes(p: Seq<Part>) -> nat decreases p.len() { if p.len() == 0 { 0 } else { psizes(p.drop_last()) + hsizes(p.last().headers@) } }
