use vstd::prelude::*;
use std::sync::Arc;
use std::cmp::Ordering;
use vstd::std_specs::iter::IteratorSpec;
verus! {
global size_of usize == 8;
//@include std.vrs
//@include text.vrs
//@include variable.vrs
pub assume_specification[ i32::unsigned_abs ](x: i32) -> (r: u32) ensures r == if x < 0 { -(x as int) } else { x as int };
impl Variable { #[verifier::external_body] pub fn default() -> (r: Variable) ensures is_text(r, Seq::<char>::empty()) { unimplemented!() } }
impl<'a> From<&'a str> for Variable { #[verifier::external_body] fn from(s: &'a str) -> (r: Variable) ensures is_text(r, s@) { unimplemented!() } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for Variable { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(s: &'a str) -> Self; }
impl From<i64> for Variable { #[verifier::external_body] fn from(n: i64) -> (r: Variable) ensures r == Variable::Integer(n) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<i64> for Variable { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(s: i64) -> Self; }
impl From<bool> for Variable { #[verifier::external_body] fn from(n: bool) -> (r: Variable) ensures r == Variable::Integer(if n { 1i64 } else { 0 }) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<bool> for Variable { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(s: bool) -> Self; }
// ---- the message as mail_parser presents it ------------------------------------------------------
pub enum HeaderName { MessageId, ResentMessageId, Other(String), Known(u8) }
pub struct Addr { pub name: Option<String>, pub address: Option<String> }
#[verifier::external_body] pub struct AddressList { x: u8 }
#[verifier::external_body] pub struct DateTime { x: u8 }
pub struct Attribute { pub name: String, pub value: String }
pub struct ContentType { pub c_type: String, pub c_subtype: Option<String>, pub attributes: Option<Vec<Attribute>> }
pub enum Host { Name(String), IpAddr(Ip) }
#[verifier::external_body] pub struct Ip { x: u8 }
#[verifier::external_body] pub struct Protocol { x: u8 }
#[verifier::external_body] pub struct TlsVer { x: u8 }
pub struct Received { pub from: Option<Host>, pub from_ip: Option<Ip>, pub from_iprev: Option<String>, pub by: Option<Host>, pub for_: Option<String>, pub with: Option<Protocol>, pub tls_version: Option<TlsVer>, pub tls_cipher: Option<String>, pub id: Option<String>, pub ident: Option<String>, pub helo: Option<Host>, pub via: Option<String>, pub date: Option<DateTime> }
pub enum HeaderValue { Address(AddressList), Text(String), TextList(Vec<String>), DateTime(DateTime), ContentType(ContentType), Received(Received), Empty }
pub struct Header { pub name: HeaderName, pub value: HeaderValue, pub offset_field: u32, pub offset_start: u32, pub offset_end: u32 }
pub enum PartType { Text(String), Html(String), Binary(Vec<u8>), InlineBinary(Vec<u8>), Message(Ip), Multipart(Vec<u32>) }
pub struct Part { pub headers: Vec<Header>, pub body: PartType, pub offset_body: u32, pub offset_end: u32 }
impl Part { pub fn raw_body_offset(&self) -> (r: u32) ensures r == self.offset_body { self.offset_body } pub fn raw_end_offset(&self) -> (r: u32) ensures r == self.offset_end { self.offset_end } }
pub struct Mail { pub parts: Vec<Part>, pub raw: Vec<u8>, pub text_body: Vec<u32>, pub html_body: Vec<u32> }
impl Mail {
    pub fn part(&self, id: u32) -> (r: Option<&Part>) ensures match r { Some(p) => id < self.parts@.len() && *p == self.parts@[id as int], None => id >= self.parts@.len() } { if (id as usize) < self.parts.len() { Some(&self.parts[id as usize]) } else { None } }
    pub fn raw_message(&self) -> (r: &[u8]) ensures r@ == self.raw@ { self.raw.as_slice() }
}
// all addresses of a field, those of groups included, in their order
pub uninterp spec fn flat(l: AddressList) -> Seq<Addr>;
pub uninterp spec fn name_text(n: HeaderName) -> Seq<char>;
pub open spec fn lower_ci(s: Seq<char>) -> Seq<char> { lower_of(s) }
pub uninterp spec fn lower_of(s: Seq<char>) -> Seq<char>;
pub open spec fn same_field(a: HeaderName, b: HeaderName) -> bool { lower_of(name_text(a)) == lower_of(name_text(b)) }
pub open spec fn named_by(names: Seq<HeaderName>, n: HeaderName) -> bool { exists|i: int| 0 <= i < names.len() && same_field(#[trigger] names[i], n) }
#[verifier::external_body] pub fn name_in(names: &Vec<HeaderName>, n: &HeaderName) -> (r: bool) ensures r == named_by(names@, *n) { unimplemented!() } // <[HeaderName]>::contains
impl HeaderName { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == name_text(*self) { unimplemented!() } }
// what mail_parser reads in the bytes of a field
pub uninterp spec fn read_addresses(b: Seq<u8>) -> Option<AddressList>;
pub uninterp spec fn read_date(b: Seq<u8>) -> Option<DateTime>;
pub uninterp spec fn read_ids(b: Seq<u8>) -> HeaderValue;
pub uninterp spec fn read_text(b: Seq<u8>) -> HeaderValue;
#[verifier::external_body] pub fn addresses_in(b: &[u8]) -> (r: HeaderValue) ensures match r { HeaderValue::Address(a) => read_addresses(b@) == Some(a), _ => read_addresses(b@) is None } { unimplemented!() }
#[verifier::external_body] pub fn date_in(b: &[u8]) -> (r: HeaderValue) ensures match r { HeaderValue::DateTime(d) => read_date(b@) == Some(d), _ => read_date(b@) is None } { unimplemented!() }
#[verifier::external_body] pub fn ids_in(b: &[u8]) -> (r: HeaderValue) ensures r == read_ids(b@) { unimplemented!() }
#[verifier::external_body] pub fn text_in(b: &[u8]) -> (r: HeaderValue) ensures r == read_text(b@) { unimplemented!() }
pub uninterp spec fn timestamp(d: DateTime) -> i64;
pub uninterp spec fn rfc822(d: DateTime) -> Seq<char>;
impl DateTime {
    #[verifier::external_body] pub fn to_timestamp(&self) -> (r: i64) ensures r == timestamp(*self) { unimplemented!() }
    #[verifier::external_body] pub fn to_rfc822(&self) -> (r: String) ensures r@ == rfc822(*self) { unimplemented!() }
}
pub uninterp spec fn ip_text(i: Ip) -> Seq<char>;
pub uninterp spec fn protocol_text(p: Protocol) -> Seq<char>;
pub uninterp spec fn tls_text(p: TlsVer) -> Seq<char>;
pub open spec fn host_text(h: Host) -> Seq<char> { match h { Host::Name(n) => n@, Host::IpAddr(i) => ip_text(i) } }
impl Ip { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == ip_text(*self) { unimplemented!() } }
impl Host { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == host_text(*self) { unimplemented!() } }
impl Protocol { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == protocol_text(*self) { unimplemented!() } }
impl TlsVer { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == tls_text(*self) { unimplemented!() } }
pub open spec fn oref<T>(o: Option<T>) -> Option<T> { o }
pub fn whole<'a, T>(o: &'a Option<T>) -> (r: Option<&'a T>) ensures match r { Some(x) => *o == Some(*x), None => *o is None } { match o { Some(x) => Some(x), None => None } }
pub fn chars_of<'a>(o: &'a Option<String>) -> (r: Option<&'a str>) ensures match r { Some(x) => *o is Some && x@ == (*o)->0@, None => *o is None } { match o { Some(x) => Some(x.as_str()), None => None } }
impl Received { // plain accessors of mail_parser
    pub fn from(&self) -> (r: Option<&Host>) ensures match r { Some(x) => self.from == Some(*x), None => self.from is None } { whole(&self.from) }
    pub fn helo(&self) -> (r: Option<&Host>) ensures match r { Some(x) => self.helo == Some(*x), None => self.helo is None } { whole(&self.helo) }
    pub fn by(&self) -> (r: Option<&Host>) ensures match r { Some(x) => self.by == Some(*x), None => self.by is None } { whole(&self.by) }
    pub fn from_ip(&self) -> (r: Option<&Ip>) ensures match r { Some(x) => self.from_ip == Some(*x), None => self.from_ip is None } { whole(&self.from_ip) }
    pub fn with(&self) -> (r: Option<&Protocol>) ensures match r { Some(x) => self.with == Some(*x), None => self.with is None } { whole(&self.with) }
    pub fn tls_version(&self) -> (r: Option<&TlsVer>) ensures match r { Some(x) => self.tls_version == Some(*x), None => self.tls_version is None } { whole(&self.tls_version) }
    pub fn date(&self) -> (r: Option<&DateTime>) ensures match r { Some(x) => self.date == Some(*x), None => self.date is None } { whole(&self.date) }
    pub fn from_iprev(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.from_iprev is Some && x@ == self.from_iprev->0@, None => self.from_iprev is None } { chars_of(&self.from_iprev) }
    pub fn for_(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.for_ is Some && x@ == self.for_->0@, None => self.for_ is None } { chars_of(&self.for_) }
    pub fn tls_cipher(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.tls_cipher is Some && x@ == self.tls_cipher->0@, None => self.tls_cipher is None } { chars_of(&self.tls_cipher) }
    pub fn id(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.id is Some && x@ == self.id->0@, None => self.id is None } { chars_of(&self.id) }
    pub fn ident(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.ident is Some && x@ == self.ident->0@, None => self.ident is None } { chars_of(&self.ident) }
    pub fn via(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.via is Some && x@ == self.via->0@, None => self.via is None } { chars_of(&self.via) }
}
// ---- the variable ---------------------------------------------------------------------------------
//@type src/compiler/grammar/mod.rs AddressPart
//@end
//@type src/compiler/mod.rs HeaderPart
//@end
//@type src/compiler/mod.rs ContentTypePart
//@end
//@type src/compiler/mod.rs ReceivedPart
//@end
//@type src/compiler/mod.rs ReceivedHostname
//@end
#[verifier::external_body] pub struct Runtime { x: u8 }
//@type src/lib.rs Envelope
//@end
//@type src/compiler/mod.rs MessagePart
//@end
//@type src/compiler/mod.rs VariableType
//@end
//@type src/compiler/mod.rs HeaderVariable
//@ replace "HeaderName<'static>" => "HeaderName"
//@end
//@type src/lib.rs Context
//@ keep runtime part message
//@ replace "Message<'x>" => "Mail"
//@end

// ---- what a header variable means ------------------------------------------------------------------
pub enum Piece { Text(Seq<char>), Number(i64) }
pub open spec fn nothing() -> Piece { Piece::Text(Seq::empty()) }
pub open spec fn shows(v: Variable, p: Piece) -> bool { match p { Piece::Text(s) => is_text(v, s), Piece::Number(n) => v == Variable::Integer(n) } }
pub open spec fn shown_all(v: Seq<Variable>, p: Seq<Piece>) -> bool { v.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> shows(#[trigger] v[i], p[i]) }
// r is o followed by the pieces
pub open spec fn extended(o: Seq<Variable>, r: Seq<Variable>, p: Seq<Piece>) -> bool { r.len() == o.len() + p.len() && r.take(o.len() as int) =~= o && shown_all(r.skip(o.len() as int), p) }
pub open spec fn text_or_nothing(o: Option<Seq<char>>) -> Piece { match o { Some(s) => Piece::Text(s), None => nothing() } }
// the place in a list of n that index means: from the top for a positive index, from the bottom for a negative one
pub open spec fn place(n: nat, index: int) -> Option<int> { if index > 0 && index <= n { Some(index - 1) } else if index < 0 && n + index >= 0 { Some(n + index) } else { None } }
pub open spec fn select(l: Seq<Piece>, index: int) -> Seq<Piece> { if index == 0 { l } else { match place(l.len(), index) { Some(i) => seq![l[i]], None => seq![nothing()] } } }
pub open spec fn addr_text(a: Addr) -> Seq<char> { match a.name { Some(n) => match a.address { Some(x) => n@ + " <"@ + x@ + ">"@, None => n@ }, None => match a.address { Some(x) => "<"@ + x@ + ">"@, None => seq![] } } }
// mail_parser::parsers::fields::address::parse_address_*
pub uninterp spec fn local_of(s: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn domain_of(s: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn user_of(s: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn detail_of(s: Seq<char>) -> Option<Seq<char>>;
pub open spec fn seen(r: Option<&str>, o: Option<Seq<char>>) -> bool { match r { Some(t) => o == Some(t@), None => o is None } }
#[verifier::external_body] pub fn parse_address_local_part(s: &str) -> (r: Option<&str>) ensures seen(r, local_of(s@)) { unimplemented!() }
#[verifier::external_body] pub fn parse_address_domain(s: &str) -> (r: Option<&str>) ensures seen(r, domain_of(s@)) { unimplemented!() }
#[verifier::external_body] pub fn parse_address_user_part(s: &str) -> (r: Option<&str>) ensures seen(r, user_of(s@)) { unimplemented!() }
#[verifier::external_body] pub fn parse_address_detail_part(s: &str) -> (r: Option<&str>) ensures seen(r, detail_of(s@)) { unimplemented!() }
pub open spec fn view_of(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn address_part(p: AddressPart, a: Addr) -> Option<Seq<char>> { match p {
    AddressPart::Name => view_of(a.name), AddressPart::All => view_of(a.address),
    _ => match a.address { None => None, Some(e) => if e@.len() == 0 { Some(e@) } else { match p { AddressPart::LocalPart => local_of(e@), AddressPart::Domain => domain_of(e@), AddressPart::User => user_of(e@), _ => detail_of(e@) } } } } }
pub open spec fn named_host(n: ReceivedHostname, h: Host) -> Option<Seq<char>> { match n { ReceivedHostname::Any => Some(host_text(h)), ReceivedHostname::Name => match h { Host::Name(x) => Some(x@), _ => None }, ReceivedHostname::Ip => match h { Host::IpAddr(i) => Some(ip_text(i)), _ => None } } }
pub open spec fn opt_text(o: Option<Seq<char>>) -> Option<Piece> { match o { Some(s) => Some(Piece::Text(s)), None => None } }
pub open spec fn received_part(p: ReceivedPart, r: Received) -> Option<Piece> { match p {
    ReceivedPart::From(n) => match r.from { Some(h) => opt_text(named_host(n, h)), None => match r.helo { Some(h) => opt_text(named_host(n, h)), None => None } },
    ReceivedPart::FromIp => match r.from_ip { Some(i) => Some(Piece::Text(ip_text(i))), None => None }, ReceivedPart::FromIpRev => opt_text(view_of(r.from_iprev)),
    ReceivedPart::By(n) => match r.by { Some(h) => opt_text(named_host(n, h)), None => None }, ReceivedPart::For => opt_text(view_of(r.for_)),
    ReceivedPart::With => match r.with { Some(x) => Some(Piece::Text(protocol_text(x))), None => None }, ReceivedPart::TlsVersion => match r.tls_version { Some(x) => Some(Piece::Text(tls_text(x))), None => None },
    ReceivedPart::TlsCipher => opt_text(view_of(r.tls_cipher)), ReceivedPart::Id => opt_text(view_of(r.id)), ReceivedPart::Ident => opt_text(view_of(r.ident)), ReceivedPart::Via => opt_text(view_of(r.via)),
    ReceivedPart::Date => match r.date { Some(d) => Some(Piece::Number(timestamp(d))), None => None }, ReceivedPart::DateRaw => match r.date { Some(d) => Some(Piece::Text(rfc822(d))), None => None } } }
pub open spec fn or_nothing(o: Option<Piece>) -> Piece { match o { Some(p) => p, None => nothing() } }
pub open spec fn bytes_from(raw: Seq<u8>, a: int, b: int) -> Option<Seq<u8>> { if a <= b && b <= raw.len() { Some(raw.subrange(a, b)) } else { None } }
pub open spec fn field_value(f: Header, raw: Seq<u8>) -> Option<Seq<u8>> { bytes_from(raw, f.offset_start as int, f.offset_end as int) }
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
// white space of any kind and length is one blank, none at the end of the text
pub open spec fn blank(b: u8) -> bool { b == 32 || b == 9 || b == 10 || b == 12 || b == 13 }
pub open spec fn squeezed(b: Seq<u8>) -> Seq<u8> decreases b.len() { if b.len() == 0 { seq![] } else if blank(b.last()) { squeezed(b.drop_last()) } else if b.len() > 1 && blank(b[b.len() - 2]) { squeezed(b.drop_last()).push(32).push(b.last()) } else { squeezed(b.drop_last()).push(b.last()) } }
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn same_ascii(a: Seq<char>, b: Seq<char>) -> bool;
pub open spec fn attribute(l: Seq<Attribute>, n: Seq<char>) -> Option<Seq<char>> decreases l.len() { if l.len() == 0 { None } else if same_ascii(l[0].name@, n) { Some(l[0].value@) } else { attribute(l.skip(1), n) } }
pub open spec fn texts(l: Seq<String>) -> Seq<Piece> { Seq::new(l.len(), |i: int| Piece::Text(l[i]@)) }
pub open spec fn shown_addresses(l: Seq<Addr>) -> Seq<Piece> { Seq::new(l.len(), |i: int| Piece::Text(addr_text(l[i]))) }
pub open spec fn address_parts(l: Seq<Addr>, p: AddressPart) -> Seq<Piece> { Seq::new(l.len(), |i: int| text_or_nothing(address_part(p, l[i]))) }
pub open spec fn ids(v: HeaderValue) -> Seq<Piece> { match v { HeaderValue::Text(t) => seq![Piece::Text(t@)], HeaderValue::TextList(l) => texts(l@), _ => seq![nothing()] } }
// the asked part of one field
pub open spec fn part_of(h: HeaderVariable, f: Header, raw: Seq<u8>) -> Seq<Piece> { match h.part {
    HeaderPart::Text => match f.value {
        HeaderValue::Text(t) => if -1 <= h.index_part <= 1 { seq![Piece::Text(t@)] } else { seq![nothing()] },
        HeaderValue::TextList(l) => select(texts(l@), h.index_part as int),
        HeaderValue::ContentType(c) => seq![Piece::Text(match c.c_subtype { Some(s) => c.c_type@ + "/"@ + s@, None => c.c_type@ })],
        HeaderValue::Address(l) => select(shown_addresses(flat(l)), h.index_part as int),
        HeaderValue::DateTime(_) => seq![match field_value(f, raw) { Some(b) => match utf8(b) { Some(t) => Piece::Text(trimmed(t)), None => nothing() }, None => nothing() }],
        _ => seq![nothing()] },
    HeaderPart::Address(p) => match f.value {
        HeaderValue::Address(l) => select(address_parts(flat(l), p), h.index_part as int),
        HeaderValue::Text(_) => match field_value(f, raw) { Some(b) => match read_addresses(b) { Some(l) => select(address_parts(flat(l), p), h.index_part as int), None => seq![nothing()] }, None => seq![nothing()] },
        _ => seq![nothing()] },
    HeaderPart::Date => seq![match f.value { HeaderValue::DateTime(d) => Piece::Number(timestamp(d)), _ => match field_value(f, raw) { Some(b) => match read_date(b) { Some(d) => Piece::Number(timestamp(d)), None => nothing() }, None => nothing() } }],
    HeaderPart::Id => match f.name { HeaderName::MessageId | HeaderName::ResentMessageId => ids(f.value), HeaderName::Other(_) => ids(read_ids(match field_value(f, raw) { Some(b) => b, None => seq![] })), _ => seq![nothing()] },
    HeaderPart::Raw => seq![match field_value(f, raw) { Some(b) => Piece::Text(lossy(squeezed(b))), None => nothing() }],
    HeaderPart::RawName => seq![match bytes_from(raw, f.offset_field as int, if f.offset_start >= 1 { f.offset_start - 1 } else { 0 }) { Some(b) => match utf8(b) { Some(t) => Piece::Text(t), None => nothing() }, None => nothing() }],
    HeaderPart::Exists => seq![Piece::Number(1)],
    HeaderPart::ContentType(p) => seq![match f.value { HeaderValue::ContentType(c) => match p { ContentTypePart::Type => Piece::Text(c.c_type@), ContentTypePart::Subtype => text_or_nothing(view_of(c.c_subtype)),
        ContentTypePart::Attribute(n) => match c.attributes { Some(l) => text_or_nothing(attribute(l@, n@)), None => nothing() } }, _ => nothing() }],
    HeaderPart::Received(p) => seq![match f.value { HeaderValue::Received(r) => or_nothing(received_part(p, r)), _ => nothing() }],
} }
// the fields with one of the names, in the order of the message
pub open spec fn matching(l: Seq<Header>, names: Seq<HeaderName>) -> Seq<Header> decreases l.len() { if l.len() == 0 { seq![] } else if named_by(names, l.last().name) { matching(l.drop_last(), names).push(l.last()) } else { matching(l.drop_last(), names) } }
pub open spec fn parts_of(h: HeaderVariable, l: Seq<Header>, raw: Seq<u8>) -> Seq<Piece> decreases l.len() { if l.len() == 0 { seq![] } else { parts_of(h, l.drop_last(), raw) + part_of(h, l.last(), raw) } }
// the whole header: every field with its name
pub open spec fn labelled(f: Header, t: Seq<char>) -> Piece { Piece::Text(name_text(f.name) + ": "@ + t) }
pub open spec fn whole_field(h: HeaderVariable, f: Header, raw: Seq<u8>) -> Seq<Piece> { match h.part {
    HeaderPart::Raw => match bytes_from(raw, f.offset_field as int, f.offset_end as int) { Some(b) => seq![Piece::Text(lossy(squeezed(b)))], None => seq![] },
    HeaderPart::Text => match f.value { HeaderValue::Text(t) => seq![labelled(f, t@)], _ => match read_text(match field_value(f, raw) { Some(b) => b, None => seq![] }) { HeaderValue::Text(t) => seq![labelled(f, t@)], _ => seq![] } },
    _ => part_of(h, f, raw) } }
pub open spec fn whole_fields(h: HeaderVariable, l: Seq<Header>, raw: Seq<u8>) -> Seq<Piece> decreases l.len() { if l.len() == 0 { seq![] } else { whole_fields(h, l.drop_last(), raw) + whole_field(h, l.last(), raw) } }
pub open spec fn asked(h: HeaderVariable, l: Seq<Header>, raw: Seq<u8>) -> Seq<Piece> {
    if h.name@.len() == 0 { whole_fields(h, l, raw) } else { let m = matching(l, h.name@); if h.index_hdr == 0 { parts_of(h, m, raw) } else { match place(m.len(), h.index_hdr as int) { Some(i) => part_of(h, m[i], raw), None => seq![] } } } }
// one piece for one place, a list where several are asked for
pub open spec fn answers(h: HeaderVariable, p: Seq<Piece>, r: Option<Variable>) -> bool {
    if p.len() == 0 { r is None } else if p.len() == 1 && h.index_hdr != 0 && h.index_part != 0 { r is Some && shows(r->0, p[0]) } else { r is Some && r->0 is Array && shown_all((*r->0->Array_0)@, p) } }
// ---- stand-ins for the iterators and closures the code uses ------------------------------------------
pub trait ItemsX<'a, T> { fn nth(&mut self, n: usize) -> Option<&'a T>; fn rev(self) -> Vec<&'a T>; }
impl<'a, T> ItemsX<'a, T> for Vec<&'a T> {
    #[verifier::external_body] fn nth(&mut self, n: usize) -> (r: Option<&'a T>) ensures match r { Some(x) => n < old(self)@.len() && *x == *old(self)@[n as int], None => n >= old(self)@.len() } { unimplemented!() }
    #[verifier::external_body] fn rev(self) -> (r: Vec<&'a T>) ensures r@ == self@.reverse() { unimplemented!() }
}
#[verifier::external_body] pub fn items<T>(l: &Vec<T>) -> (r: Vec<&T>) ensures r@.len() == l@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == l@[i] { unimplemented!() }
impl AddressList { #[verifier::external_body] pub fn iter(&self) -> (r: Vec<&Addr>) ensures r@.len() == flat(*self).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == flat(*self)[i] { unimplemented!() } }
pub fn fields_named<'a>(l: &'a Vec<Header>, names: &Vec<HeaderName>) -> (r: Vec<&'a Header>)
    ensures r@.len() == matching(l@, names@).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == matching(l@, names@)[i],
{
    let mut r: Vec<&'a Header> = Vec::new(); let mut i: usize = 0;
    while i < l.len() invariant 0 <= i <= l@.len(), r@.len() == matching(l@.take(i as int), names@).len(), forall|j: int| 0 <= j < r@.len() ==> *(#[trigger] r@[j]) == matching(l@.take(i as int), names@)[j], decreases l.len() - i, {
        proof { assert(l@.take(i + 1).drop_last() =~= l@.take(i as int)); assert(l@.take(i + 1).last() == l@[i as int]); }
        if name_in(names, &l[i].name) { r.push(&l[i]); }
        i = i + 1;
    }
    proof { assert(l@.take(l@.len() as int) =~= l@); }
    r
}
pub fn order(n: i32) -> (r: Ordering) ensures r == (if n > 0 { Ordering::Greater } else if n < 0 { Ordering::Less } else { Ordering::Equal }) { if n > 0 { Ordering::Greater } else if n < 0 { Ordering::Less } else { Ordering::Equal } }
pub fn between<'a>(raw: &'a [u8], a: usize, b: usize) -> (r: Option<&'a [u8]>) ensures match r { Some(x) => bytes_from(raw@, a as int, b as int) == Some(x@), None => bytes_from(raw@, a as int, b as int) is None } { if a <= b && b <= raw.len() { Some(vstd::slice::slice_subrange(raw, a, b)) } else { None } }
pub open spec fn got(r: Option<Variable>, p: Option<Piece>) -> bool { match r { Some(v) => p is Some && shows(v, p->0), None => p is None } }
pub fn or_default(v: Option<Variable>) -> (r: Variable) ensures match v { Some(x) => r == x, None => is_text(r, Seq::empty()) } { match v { Some(x) => x, None => Variable::default() } }
pub trait ShownX { fn shown(self) -> Option<Variable>; }
impl<'a> ShownX for Option<&'a String> { fn shown(self) -> (r: Option<Variable>) ensures match self { Some(t) => got(r, Some(Piece::Text(t@))), None => r is None } { match self { Some(t) => Some(Variable::from(t.as_str())), None => None } } }
impl<'a> ShownX for Option<&'a str> { fn shown(self) -> (r: Option<Variable>) ensures match self { Some(t) => got(r, Some(Piece::Text(t@))), None => r is None } { match self { Some(t) => Some(Variable::from(t)), None => None } } }
impl<'a> ShownX for Option<&'a Addr> { fn shown(self) -> (r: Option<Variable>) ensures match self { Some(a) => got(r, Some(Piece::Text(addr_text(*a)))), None => r is None } { match self { Some(a) => Some(a.to_text()), None => None } } }
pub trait AddrX { fn piece(self, p: &AddressPart) -> Option<Variable>; }
impl<'a> AddrX for Option<&'a Addr> { fn piece(self, p: &AddressPart) -> (r: Option<Variable>) ensures match self { Some(a) => got(r, opt_text(address_part(*p, *a))), None => r is None } { match self { Some(a) => p.eval_strict(a).shown(), None => None } } }
pub trait BytesX { fn trimmed_text(self) -> Option<Variable>; fn name_text(self) -> Option<Variable>; fn addresses(self) -> Option<AddressList>; fn date(self) -> Option<Variable>; fn squeezed_text(self) -> Option<Variable>; }
#[verifier::external_body] pub fn utf8_text(b: &[u8]) -> (r: Option<&str>) ensures seen(r, utf8(b@)) { unimplemented!() } // std::str::from_utf8
#[verifier::external_body] pub fn trim_text(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { unimplemented!() } // str::trim
impl<'a> BytesX for Option<&'a [u8]> {
    fn trimmed_text(self) -> (r: Option<Variable>) ensures got(r, match self { Some(b) => match utf8(b@) { Some(t) => Some(Piece::Text(trimmed(t))), None => None }, None => None }) { match self { Some(b) => match utf8_text(b) { Some(t) => Some(Variable::from(trim_text(t))), None => None }, None => None } }
    fn name_text(self) -> (r: Option<Variable>) ensures got(r, match self { Some(b) => match utf8(b@) { Some(t) => Some(Piece::Text(t)), None => Some(nothing()) }, None => None }) { match self { Some(b) => match utf8_text(b) { Some(t) => Some(Variable::from(t)), None => Some(Variable::default()) }, None => None } }
    fn addresses(self) -> (r: Option<AddressList>) ensures r == (match self { Some(b) => read_addresses(b@), None => None }) { match self { Some(b) => match addresses_in(b) { HeaderValue::Address(a) => Some(a), _ => None }, None => None } }
    fn date(self) -> (r: Option<Variable>) ensures got(r, match self { Some(b) => match read_date(b@) { Some(d) => Some(Piece::Number(timestamp(d))), None => None }, None => None }) { match self { Some(b) => match date_in(b) { HeaderValue::DateTime(dt) => Some(Variable::from(dt.to_timestamp())), _ => None }, None => None } }
    fn squeezed_text(self) -> (r: Option<Variable>) ensures got(r, match self { Some(b) => Some(Piece::Text(lossy(squeezed(b@)))), None => None }) { match self { Some(b) => Some(Variable::from(sanitize_raw_header(b))), None => None } }
}
#[verifier::external_body] pub fn slashed(a: &String, b: &String) -> (r: String) ensures r@ == a@ + "/"@ + b@ { unimplemented!() } // format!("{}/{}")
#[verifier::external_body] pub fn angled(a: &String) -> (r: String) ensures r@ == "<"@ + a@ + ">"@ { unimplemented!() } // format!("<{address}>")
#[verifier::external_body] pub fn named_angled(n: &String, a: &String) -> (r: String) ensures r@ == n@ + " <"@ + a@ + ">"@ { unimplemented!() } // format!("{name} <{address}>")
#[verifier::external_body] pub fn label(n: &HeaderName, t: &String) -> (r: String) ensures r@ == name_text(*n) + ": "@ + t@ { unimplemented!() } // format!("{}: {}")
#[verifier::external_body] pub fn same_text_ci(a: &String, b: &String) -> (r: bool) ensures r == same_ascii(a@, b@) { unimplemented!() } // eq_ignore_ascii_case
#[verifier::external_body] pub fn lossy_string(v: Vec<u8>) -> (r: String) ensures r@ == lossy(v@) { unimplemented!() } // IntoString for Vec<u8>
pub fn attribute_of(l: &Option<Vec<Attribute>>, n: &String) -> (r: Option<Variable>) ensures got(r, match l { Some(a) => opt_text(attribute(a@, n@)), None => None }) {
    match l { None => None, Some(a) => {
        let mut i: usize = 0; proof { assert(a@.skip(0) =~= a@); }
        #[verifier::loop_isolation(false)] while i < a.len() invariant 0 <= i <= a@.len(), attribute(a@, n@) == attribute(a@.skip(i as int), n@), decreases a.len() - i, { proof { assert(a@.skip(i as int).skip(1) =~= a@.skip(i + 1)); } if same_text_ci(&a[i].name, n) { return Some(Variable::from(a[i].value.as_str())); } i = i + 1; }
        None } }
}
pub open spec fn extends_upto(o: Seq<Variable>, r: Seq<Variable>, p: Seq<Piece>, i: int) -> bool { extended(o, r, p.take(i)) }
pub proof fn lemma_extend(o: Seq<Variable>, r: Seq<Variable>, p: Seq<Piece>, i: int, v: Variable) requires 0 <= i < p.len(), extends_upto(o, r, p, i), shows(v, p[i]) ensures extends_upto(o, r.push(v), p, i + 1)
{
    let q = p.take(i + 1); let n = r.push(v).skip(o.len() as int);
    assert forall|j: int| 0 <= j < q.len() implies shows(#[trigger] n[j], q[j]) by { if j < i { assert(n[j] == r.skip(o.len() as int)[j]); assert(q[j] == p.take(i)[j]); } }
    assert(r.push(v).take(o.len() as int) =~= r.take(o.len() as int));
}
pub proof fn lemma_one(o: Seq<Variable>, v: Variable, p: Piece) requires shows(v, p) ensures extended(o, o.push(v), seq![p]) { assert(o.push(v).take(o.len() as int) =~= o); assert(o.push(v).skip(o.len() as int) =~= seq![v]); }
pub proof fn lemma_two(o: Seq<Variable>, m: Seq<Variable>, r: Seq<Variable>, p: Seq<Piece>, q: Seq<Piece>) requires extended(o, m, p), extended(m, r, q) ensures extended(o, r, p + q)
{
    assert(r.take(o.len() as int) =~= r.take(m.len() as int).take(o.len() as int)); assert(m.take(o.len() as int) =~= o);
    let n = r.skip(o.len() as int);
    assert forall|j: int| 0 <= j < (p + q).len() implies shows(#[trigger] n[j], (p + q)[j]) by { if j < p.len() { assert(n[j] == r.take(m.len() as int)[o.len() + j]); assert(n[j] == m.skip(o.len() as int)[j]); } else { assert(n[j] == r.skip(m.len() as int)[j - p.len()]); } }
}
impl Addr {
//@fn src/runtime/eval.rs <AddrToText for Addr>::to_text
//@ ret r
//@ sig "<'z: 'x>" => ""
//@ sig "&'z self" => "&self"
//@ replace "Variable::String(format!(\"{name} <{address}>\").into())" => "Variable::from(named_angled(name, address))"
//@ replace "Variable::String(name.to_string().into())" => "Variable::from(name.as_str())"
//@ replace "Variable::String(format!(\"<{address}>\").into())" => "Variable::from(angled(address))"
//@ spec
    ensures is_text(r, addr_text(*self)),
//@end
}
impl AddressPart {
//@fn src/runtime/tests/test_address.rs AddressPart::eval_strict
//@ ret r
//@ sig "<'x>" => "<'x>"
//@ sig "&'x Addr<'x>" => "&'x Addr"
//@ replace "addr.address.as_deref()" => "chars_of(&addr.address)"
//@ replace "addr.name.as_deref()" => "chars_of(&addr.name)"
//@ spec
    ensures seen(r, address_part(*self, *addr)),
//@end
}
impl ReceivedHostname {
//@fn src/runtime/eval.rs ReceivedHostname::to_variable
//@ ret r
//@ sig "<'x>" => ""
//@ sig "&'x Host<'x>" => "&Host"
//@ replace "Variable::from(name.as_ref()).into()" => "Some(Variable::from(name.as_str()))"
//@ replace "Variable::from(ip.to_string()).into()" => "Some(Variable::from(ip.to_string()))"
//@ replace "Variable::from(host.to_string()).into()" => "Some(Variable::from(host.to_string()))"
//@ spec
    ensures got(r, opt_text(named_host(*self, *host))),
//@end
}
impl ReceivedPart {
//@fn src/runtime/eval.rs ReceivedPart::eval
//@ ret r
//@ sig "<'x>" => ""
//@ sig "&'x Received<'x>" => "&Received"
//@ replace? ".or_else(|| rcvd.helo())" => ".or_host(rcvd.helo())"
//@ replace? ".or_else(|| rcvd.from())" => ".or_host(rcvd.from())"
//@ replace? ".and_then(|v| from.to_variable(v))" => ".seen_as(from)"
//@ replace "rcvd.from_ip().map(|ip| Variable::from(ip.to_string()))" => "match rcvd.from_ip() { Some(ip) => Some(Variable::from(ip.to_string())), None => None }"
//@ replace? ".and_then(|v: &Host<'_>| by.to_variable(v))" => ".seen_as(by)"
//@ replace "map(Variable::from)" => "shown()"
//@ replace "map(|v| Variable::from(v.as_str()))" => "name_of()"
//@ replace "rcvd.date().map(|d| Variable::from(d.to_timestamp()))" => "match rcvd.date() { Some(d) => Some(Variable::from(d.to_timestamp())), None => None }"
//@ replace "rcvd.date().map(|d| Variable::from(d.to_rfc822()))" => "match rcvd.date() { Some(d) => Some(Variable::from(d.to_rfc822())), None => None }"
//@ spec
    ensures got(r, received_part(*self, *rcvd)),
//@end
}
pub trait HostX: Sized { fn or_host(self, other: Self) -> Self; fn seen_as(self, n: &ReceivedHostname) -> Option<Variable>; }
impl<'a> HostX for Option<&'a Host> {
    fn or_host(self, other: Option<&'a Host>) -> (r: Option<&'a Host>) ensures r == (if self is Some { self } else { other }) { match self { Some(h) => Some(h), None => other } }
    fn seen_as(self, n: &ReceivedHostname) -> (r: Option<Variable>) ensures match self { Some(h) => got(r, opt_text(named_host(*n, *h))), None => r is None } { match self { Some(h) => n.to_variable(h), None => None } }
}
pub trait NamedX { fn name_of(self) -> Option<Variable>; }
impl<'a> NamedX for Option<&'a Protocol> { fn name_of(self) -> (r: Option<Variable>) ensures match self { Some(x) => got(r, Some(Piece::Text(protocol_text(*x)))), None => r is None } { match self { Some(v) => Some(Variable::from(v.as_str())), None => None } } }
impl<'a> NamedX for Option<&'a TlsVer> { fn name_of(self) -> (r: Option<Variable>) ensures match self { Some(x) => got(r, Some(Piece::Text(tls_text(*x)))), None => r is None } { match self { Some(v) => Some(Variable::from(v.as_str())), None => None } } }
//@fn src/runtime/eval.rs sanitize_raw_header
//@ ret r

//@ replace "result.into_string()" => "lossy_string(result)"
//@ replace "for &ch in" => "for ch in"
//@ replace "if ch.is_ascii_whitespace()" => "let ch = *ch; if is_blank(ch)"
//@ loop 0 for it it
    invariant it.seq().len() == bytes@.len(), forall|i: int| 0 <= i < bytes@.len() ==> *(#[trigger] it.seq()[i]) == bytes@[i], 0 <= it.index() <= bytes@.len(), result@ =~= squeezed(bytes@.take(it.index() as int)), last_is_space == (it.index() > 0 && blank(bytes@[it.index() - 1])),
//@ at loop 0 start
    proof { let i = it.index() as int; let t = bytes@.take(i + 1); assert(t.drop_last() =~= bytes@.take(i)); assert(t.last() == bytes@[i]); if i > 0 { assert(t[t.len() - 2] == bytes@[i - 1]); } }
//@ spec
    ensures r@ == lossy(squeezed(bytes@)),
//@ at before "result.into_string()"
    proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
//@end
pub fn is_blank(b: u8) -> (r: bool) ensures r == blank(b) { b == 32 || b == 9 || b == 10 || b == 12 || b == 13 }
pub open spec fn single(i: i32) -> bool { -1 <= i <= 1 }
impl HeaderVariable {
//@fn src/runtime/eval.rs HeaderVariable::include_single_part
//@ ret r
//@ spec
    ensures r == single(self.index_part),
//@ at start
    proof { let s = [-1i32, 0, 1]; assert(s@[0] == -1 && s@[1] == 0 && s@[2] == 1); assert forall|k: i32| single(k) implies exists|i: int| 0 <= i < 3 && #[trigger] s@[i] == k by { assert(s@[k + 1] == k); } }
//@end
//@fn src/runtime/eval.rs HeaderVariable::eval_part
//@ attr #[verifier::spinoff_prover]
//@ sig "<'x>" => ""
//@ sig "&'x Header<'x>" => "&Header"
//@ sig "&'x [u8]" => "&[u8]"
//@ replace "self.index_part.cmp(&0)" => "order(self.index_part)"
//@ replace "Variable::from(v.as_ref())" => "Variable::from(v.as_str())"
//@ replace "list.get((self.index_part - 1) as usize).map(|v| Variable::from(v.as_ref()))" => "list.get((self.index_part - 1) as usize).shown()"
//@ replace "list.iter().rev().nth((self.index_part.unsigned_abs() - 1) as usize).map(|v| Variable::from(v.as_ref()))" => "items(list).rev().nth((self.index_part.unsigned_abs() - 1) as usize).shown()"
//@ replace "result.push(Variable::from(item.as_ref()))" => "result.push(Variable::from(item.as_str()))"
//@ replace "HeaderValue::ContentType(ct) => if let" => "HeaderValue::ContentType(ct) => Some(if let"
//@ replace "Variable::from(format!(\"{}/{}\", ct.c_type, st))" => "Variable::from(slashed(&ct.c_type, st))"
//@ replace "Variable::from(ct.c_type.as_ref()) } .into()," => "Variable::from(ct.c_type.as_str()) }),"
//@ replace "map(|a| a.to_text())" => "shown()"
//@ replace "raw.get(header.offset_start as usize..header.offset_end as usize)" => "between(raw, header.offset_start as usize, header.offset_end as usize)"
//@ replace "and_then(|bytes| std::str::from_utf8(bytes).ok()).map(|s| s.trim()).map(Variable::from)" => "trimmed_text()"
//@ replace "and_then(|a| part.eval_strict(a)).map(Variable::from)" => "piece(part)"
//@ replace "and_then(|a| part.eval_strict(a)).map(|s| Variable::String(s.to_string().into()))" => "piece(part)"
//@ replace "result.push( part.eval_strict(item).map(Variable::from).unwrap_or_default(), )" => "result.push(or_default(part.eval_strict(item).shown()))"
//@ replace "result.push( part.eval_strict(item).map(|s| Variable::String(s.to_string().into())).unwrap_or_default(), )" => "result.push(or_default(part.eval_strict(item).shown()))"
//@ replace "and_then(|bytes| match MessageStream::new(bytes).parse_address() { HeaderValue::Address(addr) => addr.into(), _ => None, })" => "addresses()"
//@ replace "Variable::from(dt.to_timestamp()).into() } else" => "Some(Variable::from(dt.to_timestamp())) } else"
//@ replace "and_then(|bytes| match MessageStream::new(bytes).parse_date() { HeaderValue::DateTime(dt) => Variable::from(dt.to_timestamp()).into(), _ => None, })" => "date()"
//@ replace "Variable::from(id.as_ref()).into()" => "Some(Variable::from(id.as_str()))"
//@ replace "result.push(Variable::from(id.as_ref()))" => "result.push(Variable::from(id.as_str()))"
//@ replace "MessageStream::new( raw.get(header.offset_start as usize..header.offset_end as usize).unwrap_or(b\"\"), ) .parse_id()" => "ids_in(or_no_bytes(between(raw, header.offset_start as usize, header.offset_end as usize)))"
//@ replace "Variable::from(id).into()" => "Some(Variable::from(id))"
//@ replace "map(sanitize_raw_header).map(Variable::from)" => "squeezed_text()"
//@ replace "raw.get( header.offset_field as usize..(header.offset_start as usize).saturating_sub(1), )" => "between(raw, header.offset_field as usize, (header.offset_start as usize).saturating_sub(1))"
//@ replace "map(|bytes| std::str::from_utf8(bytes).unwrap_or_default()).map(Variable::from)" => "name_text()"
//@ replace "Variable::from(true).into()" => "Some(Variable::from(true))"
//@ replace "Variable::from(ct.c_type.as_ref()).into()" => "Some(Variable::from(ct.c_type.as_str()))"
//@ replace "ct.c_subtype.as_ref().map(|s| Variable::from(s.as_ref()))" => "ct.c_subtype.as_ref().shown()"
//@ cut "ct.attributes.as_ref().and_then(" to "} }) })" => "attribute_of(&ct.attributes, attr)"
//@ replace "var.unwrap_or_default()" => "or_default(var)"
//@ spec
    ensures extended(old(result)@, final(result)@, part_of(*self, *header, raw@)),
//@ at start
    let ghost old_result = result@;
//@ loopattr 0 #[verifier::loop_isolation(false)]
//@ loop 0 for it it
    invariant it.seq().len() == list@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == list@[i], 0 <= it.index() <= list@.len(), extends_upto(old_result, result@, texts(list@), it.index() as int),
//@ at loop 0 start
    let ghost r0 = result@; let ghost i0 = it.index() as int;
//@ at loop 0 end
    proof { lemma_extend(old_result, r0, texts(list@), i0, result@.last()); assert(result@ =~= r0.push(result@.last())); }
//@ at after loop 0
    proof { assert(texts(list@).take(texts(list@).len() as int) =~= texts(list@)); }
//@ loopattr 1 #[verifier::loop_isolation(false)]
//@ loop 1 for it it
    invariant it.seq().len() == flat(header.value->Address_0).len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == flat(header.value->Address_0)[i], 0 <= it.index() <= flat(header.value->Address_0).len(), extends_upto(old_result, result@, shown_addresses(flat(header.value->Address_0)), it.index() as int),
//@ at loop 1 start
    let ghost r0 = result@; let ghost i0 = it.index() as int;
//@ at loop 1 end
    proof { lemma_extend(old_result, r0, shown_addresses(flat(header.value->Address_0)), i0, result@.last()); assert(result@ =~= r0.push(result@.last())); }
//@ at after loop 1
    proof { assert(shown_addresses(flat(header.value->Address_0)).take(shown_addresses(flat(header.value->Address_0)).len() as int) =~= shown_addresses(flat(header.value->Address_0))); }
//@ loopattr 2 #[verifier::loop_isolation(false)]
//@ loop 2 for it it
    invariant it.seq().len() == flat(header.value->Address_0).len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == flat(header.value->Address_0)[i], 0 <= it.index() <= flat(header.value->Address_0).len(), extends_upto(old_result, result@, address_parts(flat(header.value->Address_0), *part), it.index() as int),
//@ at loop 2 start
    let ghost r0 = result@; let ghost i0 = it.index() as int;
//@ at loop 2 end
    proof { lemma_extend(old_result, r0, address_parts(flat(header.value->Address_0), *part), i0, result@.last()); assert(result@ =~= r0.push(result@.last())); }
//@ at after loop 2
    proof { assert(address_parts(flat(header.value->Address_0), *part).take(address_parts(flat(header.value->Address_0), *part).len() as int) =~= address_parts(flat(header.value->Address_0), *part)); }
//@ loopattr 3 #[verifier::loop_isolation(false)]
//@ loop 3 for it it
    invariant it.seq().len() == flat(addr).len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == flat(addr)[i], 0 <= it.index() <= flat(addr).len(), extends_upto(old_result, result@, address_parts(flat(addr), *part), it.index() as int),
//@ at loop 3 start
    let ghost r0 = result@; let ghost i0 = it.index() as int;
//@ at loop 3 end
    proof { lemma_extend(old_result, r0, address_parts(flat(addr), *part), i0, result@.last()); assert(result@ =~= r0.push(result@.last())); }
//@ at after loop 3
    proof { assert(address_parts(flat(addr), *part).take(address_parts(flat(addr), *part).len() as int) =~= address_parts(flat(addr), *part)); }
//@ loopattr 4 #[verifier::loop_isolation(false)]
//@ loop 4 for it it
    invariant it.seq().len() == ids@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == ids@[i], 0 <= it.index() <= ids@.len(), extends_upto(old_result, result@, texts(ids@), it.index() as int),
//@ at loop 4 start
    let ghost r0 = result@; let ghost i0 = it.index() as int;
//@ at loop 4 end
    proof { lemma_extend(old_result, r0, texts(ids@), i0, result@.last()); assert(result@ =~= r0.push(result@.last())); }
//@ at after loop 4
    proof { assert(texts(ids@).take(texts(ids@).len() as int) =~= texts(ids@)); }
//@ at before loop 5
    let ghost all = ids@;
//@ loopattr 5 #[verifier::loop_isolation(false)]
//@ loop 5 for it it
    invariant it.seq().len() == all.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]) == all[i], 0 <= it.index() <= all.len(), extends_upto(old_result, result@, texts(all), it.index() as int),
//@ at loop 5 start
    let ghost r0 = result@; let ghost i0 = it.index() as int;
//@ at loop 5 end
    proof { lemma_extend(old_result, r0, texts(all), i0, result@.last()); assert(result@ =~= r0.push(result@.last())); }
//@ at after loop 5
    proof { assert(texts(all).take(texts(all).len() as int) =~= texts(all)); }
//@ at before "result.push(var.unwrap_or_default())"
    proof { assert forall|v: Variable, p: Piece| shows(v, p) implies #[trigger] extended(old_result, old_result.push(v), seq![p]) by { lemma_one(old_result, v, p); } }
//@end
}
#[verifier::external_body] pub fn or_no_bytes(o: Option<&[u8]>) -> (r: &[u8]) ensures match o { Some(b) => r@ == b@, None => r@ == Seq::<u8>::empty() } { unimplemented!() } // unwrap_or(b"")
pub proof fn lemma_parts_step(h: HeaderVariable, l: Seq<Header>, raw: Seq<u8>, i: int) requires 0 <= i < l.len()
    ensures parts_of(h, l.take(i + 1), raw) == parts_of(h, l.take(i), raw) + part_of(h, l[i], raw), whole_fields(h, l.take(i + 1), raw) == whole_fields(h, l.take(i), raw) + whole_field(h, l[i], raw)
{ assert(l.take(i + 1).drop_last() =~= l.take(i)); }
// the fields looked at first to last give every piece in the order of the message
impl<'x> Context<'x> {
//@fn src/runtime/eval.rs Context::eval_header
//@ ret r
//@ attr #[verifier::spinoff_prover]
//@ sig "<'z: 'x>" => ""
//@ sig "&'z self" => "&self"
//@ replace "part.headers.iter().filter(|h| header.name.contains(&h.name))" => "fields_named(&part.headers, &header.name)"
//@ replace "header.index_hdr.cmp(&0)" => "order(header.index_hdr)"
//@ replace "let mut result = Vec::new();" => "let mut result: Vec<Variable> = Vec::new();"
//@ replace "raw.get(h.offset_field as usize..h.offset_end as usize).map(sanitize_raw_header)" => "between(raw, h.offset_field as usize, h.offset_end as usize)"
//@ replace "result.push(Variable::from(var))" => "result.push(Variable::from(sanitize_raw_header(var)))"
//@ replace "format!(\"{}: {}\", h.name.as_str(), text)" => "label(&h.name, text)"
//@ replace "else if let HeaderValue::Text(text) = MessageStream::new( raw.get(h.offset_start as usize..h.offset_end as usize).unwrap_or(b\"\"), ) .parse_unstructured() { result.push(Variable::from(format!(\"{}: {}\", h.name.as_str(), text)))" => "else if let HeaderValue::Text(text) = text_in(or_no_bytes(between(raw, h.offset_start as usize, h.offset_end as usize))) { result.push(Variable::from(label(&h.name, &text)))"
//@ replace "Some(Variable::Array(result.into()))" => "Some(Variable::Array(Arc::new(result)))"
//@ spec
    ensures if self.part < self.message.parts@.len() { answers(*header, asked(*header, self.message.parts@[self.part as int].headers@, self.message.raw@), r) } else { r is None },
//@ at after "let mut result = Vec::new();"
    let ghost none = result@;
//@ at after "let raw = self.message.raw_message();"
    let ghost all = part.headers@; let ghost m = matching(all, header.name@); proof { assert(m.take(0) =~= Seq::<Header>::empty()); assert(all.take(0) =~= Seq::<Header>::empty()); }
//@ loopattr 0 #[verifier::loop_isolation(false)]
//@ loop 0 for it it
    invariant it.seq().len() == m.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == m[i], 0 <= it.index() <= m.len(), extended(none, result@, parts_of(*header, m.take(it.index() as int), raw@)),
//@ at loop 0 start
    let ghost r0 = result@; let ghost i0 = it.index() as int; proof { lemma_parts_step(*header, m, raw@, i0); }
//@ at loop 0 end
    proof { lemma_two(none, r0, result@, parts_of(*header, m.take(i0), raw@), part_of(*header, m[i0], raw@)); }
//@ at after loop 0
    proof { assert(m.take(m.len() as int) =~= m); }
//@ loopattr 1 #[verifier::loop_isolation(false)]
//@ loop 1 for it it
    invariant it.seq().len() == all.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == all[i], 0 <= it.index() <= all.len(), extended(none, result@, whole_fields(*header, all.take(it.index() as int), raw@)),
//@ at loop 1 start
    let ghost r0 = result@; let ghost i0 = it.index() as int; proof { lemma_parts_step(*header, all, raw@, i0); assert forall|v: Variable, p: Piece| shows(v, p) implies #[trigger] extended(r0, r0.push(v), seq![p]) by { lemma_one(r0, v, p); } assert(extended(r0, r0, Seq::<Piece>::empty())); }
//@ at loop 1 end
    proof { lemma_two(none, r0, result@, whole_fields(*header, all.take(i0), raw@), whole_field(*header, all[i0], raw@)); }
//@ at after loop 1
    proof { assert(all.take(all.len() as int) =~= all); }
//@ at before "match result.len() {"
    proof { let p = asked(*header, all, raw@); assert(extended(none, result@, p)); assert(result@.skip(0) =~= result@); }
//@end
}
// ---- the body of the message and of the current part ---------------------------------------------------
pub uninterp spec fn html_text(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn text_html(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn html_to_text(s: &str) -> (r: String) ensures r@ == html_text(s@) { unimplemented!() }
#[verifier::external_body] pub fn text_to_html(s: &str) -> (r: String) ensures r@ == text_html(s@) { unimplemented!() }
#[verifier::external_body] pub fn lossy_text(b: &[u8]) -> (r: String) ensures r@ == lossy(b@) { unimplemented!() } // String::from_utf8_lossy
pub fn first_id(v: &Vec<u32>) -> (r: Option<&u32>) ensures match r { Some(x) => v@.len() > 0 && *x == v@[0], None => v@.len() == 0 } { if v.len() > 0 { Some(&v[0]) } else { None } }
pub open spec fn part_at(m: Mail, i: Seq<u32>) -> Option<Part> { if i.len() > 0 && i[0] < m.parts@.len() { Some(m.parts@[i[0] as int]) } else { None } }
pub open spec fn current(c: Context) -> Option<Part> { if c.part < c.message.parts@.len() { Some(c.message.parts@[c.part as int]) } else { None } }
pub open spec fn body_text(c: Context, p: MessagePart) -> Option<Seq<char>> { match p {
    // the first text (or HTML) body; converted from the other kind only where that was asked for
    MessagePart::TextBody(convert) => match part_at(c.message, c.message.text_body@) { Some(x) => match x.body { PartType::Text(t) => Some(t@), PartType::Html(h) => if convert { Some(html_text(h@)) } else { None }, _ => None }, None => None },
    MessagePart::HtmlBody(convert) => match part_at(c.message, c.message.html_body@) { Some(x) => match x.body { PartType::Html(h) => Some(h@), PartType::Text(t) => if convert { Some(text_html(t@)) } else { None }, _ => None }, None => None },
    // the decoded contents, and the octets as received, of the part the script stands on
    MessagePart::Contents => match current(c) { Some(x) => match x.body { PartType::Text(t) => Some(t@), PartType::Html(t) => Some(t@), PartType::Binary(b) => Some(lossy(b@)), PartType::InlineBinary(b) => Some(lossy(b@)), _ => None }, None => None },
    MessagePart::Raw => match current(c) { Some(x) => match bytes_from(c.message.raw@, x.offset_body as int, x.offset_end as int) { Some(b) => Some(lossy(b)), None => None }, None => None },
} }
pub uninterp spec fn other_value(c: Context, v: VariableType) -> Option<Variable>; // the other kinds of variables: see vals.vrs
pub fn lossy_of(o: Option<&[u8]>) -> (r: Option<Variable>) ensures got(r, match o { Some(b) => Some(Piece::Text(lossy(b@))), None => None }) { match o { Some(b) => Some(Variable::from(lossy_text(b))), None => None } }
impl<'x> Context<'x> {
    #[verifier::external_body] pub fn other_variable(&self, v: &VariableType) -> (r: Option<Variable>) ensures r == other_value(*self, *v) { unimplemented!() }
//@fn src/runtime/eval.rs Context::variable
//@ ret r
//@ sig "<'y: 'x>" => ""
//@ sig "&'y self" => "&self"
//@ cut "match var {" to "VariableType::Header(header) => self.eval_header(header)," => "match var { VariableType::Local(_) | VariableType::Match(_) | VariableType::Global(_) | VariableType::Environment(_) | VariableType::Envelope(_) => self.other_variable(var), VariableType::Header(header) => self.eval_header(header),"
//@ replace "self.message.text_body.first()" => "first_id(&self.message.text_body)"
//@ replace "self.message.html_body.first()" => "first_id(&self.message.html_body)"
//@ replace "Some(text.as_ref().into())" => "Some(Variable::from(text.as_str()))"
//@ replace "Some(html.as_ref().into())" => "Some(Variable::from(html.as_str()))"
//@ replace "Some(html_to_text(html.as_ref()).into())" => "Some(Variable::from(html_to_text(html.as_str())))"
//@ replace "Some(text_to_html(text.as_ref()).into())" => "Some(Variable::from(text_to_html(text.as_str())))"
//@ replace "Variable::from(text.as_ref()).into()" => "Some(Variable::from(text.as_str()))"
//@ replace "Variable::from(String::from_utf8_lossy(bin.as_ref())).into()" => "Some(Variable::from(lossy_text(bin.as_slice())))"
//@ replace "self.message.raw_message().get(part.raw_body_offset() as usize..part.raw_end_offset() as usize).map(|v| Variable::from(String::from_utf8_lossy(v)))" => "lossy_of(between(self.message.raw_message(), part.raw_body_offset() as usize, part.raw_end_offset() as usize))"
//@ spec
    ensures match *var {
        VariableType::Header(h) => if self.part < self.message.parts@.len() { answers(h, asked(h, self.message.parts@[self.part as int].headers@, self.message.raw@), r) } else { r is None },
        VariableType::Part(p) => got(r, opt_text(body_text(*self, p))),
        v => r == other_value(*self, v),
    },
//@end
}
}
fn main() {}
