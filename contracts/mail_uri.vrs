// ---- notification URIs ------------------------------------------------------------------
pub open spec fn is_at(b: u8) -> nat { if b == 64 { 1 } else { 0 } }
pub open spec fn ats(m: Seq<u8>) -> nat decreases m.len() { if m.len() == 0 { 0 } else { ats(m.drop_last()) + is_at(m.last()) } }
pub broadcast proof fn lemma_ats_push(a: Seq<u8>, x: u8) ensures #[trigger] ats(a.push(x)) == ats(a) + is_at(x) { assert(a.push(x).drop_last() =~= a); }
// in UTF-8 the byte 64 stands for @ and occurs in no other character
pub open spec fn at_signs(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { at_signs(s.drop_last()) + if s.last() == '@' { 1nat } else { 0 } } }
#[verifier::external_body] pub broadcast proof fn axiom_utf8_at(s: Seq<char>) ensures #[trigger] ats(vstd::utf8::encode_utf8(s)) == at_signs(s) {}
pub open spec fn alnum(b: u8) -> bool { (48 <= b && b <= 57) || (65 <= b && b <= 90) || (97 <= b && b <= 122) }
pub open spec fn name_byte(b: u8) -> bool { alnum(b) || b == 45 || b == 95 }
pub open spec fn name_bytes(m: Seq<u8>) -> bool { forall|i: int| 0 <= i < m.len() ==> name_byte(#[trigger] m[i]) }
pub proof fn lemma_name_breaks(m: Seq<u8>) requires name_bytes(m) ensures breaks(m) == 0 decreases m.len() { if m.len() > 0 { assert(name_byte(m[m.len() - 1])); assert(name_bytes(m.drop_last())) by { assert forall|i: int| 0 <= i < m.drop_last().len() implies name_byte(#[trigger] m.drop_last()[i]) by { assert(name_byte(m[i])); } } lemma_name_breaks(m.drop_last()); } }
pub assume_specification[ u8::is_ascii_alphanumeric ](c: &u8) -> (r: bool) ensures r == alnum(*c);
pub assume_specification[ u8::is_ascii_whitespace ](c: &u8) -> (r: bool) ensures r == (*c == 32 || *c == 9 || *c == 10 || *c == 12 || *c == 13);
pub assume_specification[ u8::is_ascii_control ](c: &u8) -> (r: bool) ensures r == (*c < 32 || *c == 127);
pub open spec fn hexval(b: u8) -> int { if 48 <= b && b <= 57 { b - 48 } else if 65 <= b && b <= 70 { b - 55 } else if 97 <= b && b <= 102 { b - 87 } else { -1 } }
// mail_parser's table of hexadecimal digits
#[verifier::external_body] pub fn hex_map(b: u8) -> (r: i8) ensures r == hexval(b) { unimplemented!() }
pub struct Bytes<'a> { pub v: &'a [u8], pub i: usize }
pub fn bytes_of<'a>(v: &'a [u8]) -> (r: Bytes<'a>) ensures r.v == v, r.i == 0 { Bytes { v, i: 0 } }
impl<'a> Bytes<'a> { pub fn next(&mut self) -> (r: Option<&'a u8>) requires old(self).i <= old(self).v@.len()
    ensures final(self).v == old(self).v, final(self).i <= final(self).v@.len(), old(self).i < old(self).v@.len() ==> r is Some && *r->0 == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1, old(self).i >= old(self).v@.len() ==> r is None && final(self).i == old(self).i
{ if self.i < self.v.len() { let c = &self.v[self.i]; self.i = self.i + 1; Some(c) } else { None } }
pub fn next_byte(&mut self) -> (r: Option<u8>) requires old(self).i <= old(self).v@.len()
    ensures final(self).v == old(self).v, final(self).i <= final(self).v@.len(), old(self).i < old(self).v@.len() ==> r is Some && r->0 == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1, old(self).i >= old(self).v@.len() ==> r is None && final(self).i == old(self).i
{ match self.next() { Some(c) => Some(*c), None => None } } }
// String::from_utf8(std::mem::take(&mut buf)).ok()
#[verifier::external_body] pub fn take_text(b: &mut Vec<u8>) -> (r: Option<String>) ensures final(b)@ == Seq::<u8>::empty(), r is Some ==> vstd::utf8::encode_utf8(r->0@) == old(b)@ { unimplemented!() }
pub uninterp spec fn name_of(h: HeaderName) -> Seq<char>;                 // HeaderName::as_str
#[verifier::external_body] pub broadcast proof fn axiom_names(h: HeaderName) ensures h is Other ==> #[trigger] name_of(h) == h->Other_0@, h is To || h is Cc || h is Bcc ==> sbreaks(name_of(h)) == 0 {}
// HeaderName::parse: only letters, digits, - and _ make a header name
impl HeaderName { #[verifier::external_body] pub fn parse(s: String) -> (r: Option<HeaderName>) ensures r is Some ==> sbreaks(name_of(r->0)) == 0 && (r->0 is Other ==> r->0->Other_0 == s && sbreaks(s@) == 0), s@.len() == 0 ==> r is None { unimplemented!() } }
pub fn header_of(s: String) -> (r: HeaderName) ensures r == HeaderName::Other(s) { HeaderName::Other(s) }
impl HeaderName { #[verifier::external_body] pub fn clone(&self) -> (r: HeaderName) ensures r == *self { unimplemented!() } }
//@type src/runtime/actions/action_notify.rs Mailto
//@ replace "HeaderName<'static>" => "HeaderName"
//@end
//@type src/runtime/actions/action_notify.rs State
//@ replace "HeaderName<'static>" => "HeaderName"
//@end
//@type src/runtime/actions/action_notify.rs MailtoMessage
//@ replace "HeaderName<'static>" => "HeaderName"
//@end
impl MailtoMessage { pub fn default() -> (r: MailtoMessage) ensures clean(r), r.to@.len() == 0, r.cc@.len() == 0, r.bcc@.len() == 0, r.headers@.len() == 0, r.body is None { MailtoMessage { to: Vec::new(), cc: Vec::new(), bcc: Vec::new(), body: None, headers: Vec::new() } } }
// a recipient: one @, no line break
pub open spec fn one_address(s: Seq<char>) -> bool { sbreaks(s) == 0 && at_signs(s) == 1 }
pub open spec fn clean(m: MailtoMessage) -> bool {
    (forall|i: int| 0 <= i < m.to@.len() ==> one_address(#[trigger] m.to@[i]@)) && (forall|i: int| 0 <= i < m.cc@.len() ==> one_address(#[trigger] m.cc@[i]@)) && (forall|i: int| 0 <= i < m.bcc@.len() ==> one_address(#[trigger] m.bcc@[i]@))
    && (forall|i: int| 0 <= i < m.headers@.len() ==> sbreaks(name_of((#[trigger] m.headers@[i]).0)) == 0)
}
pub open spec fn count_to(m: MailtoMessage) -> nat { m.to@.len() + m.cc@.len() + m.bcc@.len() }
pub open spec fn clean_param(p: Mailto) -> bool { match p { Mailto::Header(h) => sbreaks(name_of(h)) == 0, Mailto::Body => true, Mailto::Other(s) => sbreaks(s@) == 0 } }
pub open spec fn address_field(h: HeaderName) -> bool { h is To || h is Cc || h is Bcc }
pub open spec fn fits(st: State, buf: Seq<u8>) -> bool { match st {
    State::Address((h, at)) => address_field(h) && breaks(buf) == 0 && ats(buf) == (if at { 1nat } else { 0 }),
    State::ParamName => name_bytes(buf),
    State::ParamValue(p) => clean_param(p) } }
pub open spec fn scheme_char(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '+' || c == '-' || c == '.' }
pub open spec fn letter(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn valid_scheme(s: Seq<char>) -> bool { s.len() > 0 && letter(s[0]) && forall|i: int| 0 <= i < s.len() ==> scheme_char(#[trigger] s[i]) }
pub open spec fn uri_parts(u: Seq<char>, s: Seq<char>, t: Seq<char>) -> bool { u == s + seq![':'] + t && valid_scheme(s) && t.len() > 0 }
#[verifier::external_body] pub fn split_colon(u: &str) -> (r: Option<(&str, &str)>) ensures r is Some ==> u@ == (r->0).0@ + seq![':'] + (r->0).1@ && !(r->0).0@.contains(':'), r is None ==> !u@.contains(':') { u.split_once(':') }
#[verifier::external_body] pub fn starts_alpha(s: &str) -> (r: bool) ensures r == (s@.len() > 0 && letter(s@[0])) { unimplemented!() }
#[verifier::external_body] pub fn scheme_chars(s: &str) -> (r: bool) ensures r == (forall|i: int| 0 <= i < s@.len() ==> scheme_char(#[trigger] s@[i])) { unimplemented!() }
//@fn src/runtime/actions/action_notify.rs parse_uri
//@ ret r
//@ replace "uri.split_once(':')" => "split_colon(uri)"
//@ replace "scheme.starts_with(|c: char| c.is_ascii_alphabetic())" => "starts_alpha(scheme)"
//@ replace "scheme.chars().all(|c| c.is_ascii_alphanumeric() || ['+', '-', '.'].contains(&c))" => "scheme_chars(scheme)"
//@ spec
    ensures r is Some ==> uri_parts(uri@, (r->0).0@, (r->0).1@),
        forall|s: Seq<char>, t: Seq<char>| uri_parts(uri@, s, t) ==> r is Some && (r->0).0@ == s && (r->0).1@ == t,
//@ at start
    proof { lemma_split(uri@); }
//@end
pub proof fn lemma_split(u: Seq<char>) ensures forall|s: Seq<char>, t: Seq<char>, a: Seq<char>, b: Seq<char>| u == #[trigger] (s + seq![':'] + t) && u == #[trigger] (a + seq![':'] + b) && valid_scheme(s) && !a.contains(':') ==> a == s && b == t,
    forall|s: Seq<char>, t: Seq<char>| u == #[trigger] (s + seq![':'] + t) ==> u.contains(':')
{
    assert forall|s: Seq<char>, t: Seq<char>, a: Seq<char>, b: Seq<char>| u == #[trigger] (s + seq![':'] + t) && u == #[trigger] (a + seq![':'] + b) && valid_scheme(s) && !a.contains(':') implies a == s && b == t by {
        assert(u[s.len() as int] == ':'); assert(u[a.len() as int] == ':');
        if s.len() < a.len() { assert(a[s.len() as int] == ':'); assert(a.contains(':')); }
        if a.len() < s.len() { assert(s[a.len() as int] == ':'); assert(scheme_char(s[a.len() as int])); }
        assert(a =~= u.take(a.len() as int)); assert(s =~= u.take(s.len() as int)); assert(b =~= u.skip(a.len() as int + 1)); assert(t =~= u.skip(s.len() as int + 1));
    }
    assert forall|s: Seq<char>, t: Seq<char>| u == #[trigger] (s + seq![':'] + t) implies u.contains(':') by { assert(u[s.len() as int] == ':'); }
}
#[verifier::external_body] pub fn already_there(m: &MailtoMessage, v: &String) -> (r: bool) ensures r ==> count_to(*m) > 0 { unimplemented!() }
//@fn src/runtime/actions/action_notify.rs insert_address
//@ replace "params.to.iter().chain(params.cc.iter()).chain(params.bcc.iter()).any(|v| v.eq_ignore_ascii_case(&value))" => "already_there(params, &value)"
//@ spec
    requires clean(*old(params)), one_address(value@), address_field(name),
    ensures clean(*final(params)), count_to(*final(params)) > 0, final(params).body == old(params).body, final(params).headers == old(params).headers,
//@end
//@fn src/runtime/actions/action_notify.rs parse_mailto
//@ ret r
//@ loops 1
//@ replace "let mut buf = Vec::new()" => "let mut buf: Vec<u8> = Vec::new()"
//@ replace "while let Some(&ch) = iter.next()" => "while let Some(ch) = iter.next_byte()"
//@ replace "uri_.iter()" => "bytes_of(uri_)"
//@ replace "HEX_MAP[*iter.next()? as usize]" => "hex_map(*iter.next()?)"
//@ replace "String::from_utf8(std::mem::take(&mut buf)).ok()?" => "take_text(&mut buf)?"
//@ replace "HeaderName::parse(param).map(|hdr| match hdr { HeaderName::To | HeaderName::Cc | HeaderName::Bcc => { State::Address((hdr, false)) } HeaderName::Other(param) => { if param.eq_ignore_ascii_case(\"body\") { State::ParamValue(Mailto::Body) } else { State::ParamValue(Mailto::Other(param.into_owned())) } } _ => State::ParamValue(Mailto::Header(hdr)), }).unwrap_or_else(|| State::ParamValue(Mailto::Other(String::new())))" => "match HeaderName::parse(param) { Some(hdr) => match hdr { HeaderName::To | HeaderName::Cc | HeaderName::Bcc => { State::Address((hdr, false)) } HeaderName::Other(param) => { if param.eq_ignore_ascii_case(\"body\") { State::ParamValue(Mailto::Body) } else { State::ParamValue(Mailto::Other(param)) } } _ => State::ParamValue(Mailto::Header(hdr)), }, None => State::ParamValue(Mailto::Other(String::new())) }"
//@ replace? "(header.into(), value)" => "(header_of(header), value)"
//@ replace? "HeaderName::Other(header.into())" => "HeaderName::Other(header)"
//@ spec
    ensures r is Some ==> clean(r->0) && count_to(r->0) > 0,
//@ at start
    broadcast use axiom_utf8_breaks; broadcast use axiom_utf8_at; broadcast use lemma_breaks_push; broadcast use lemma_ats_push; broadcast use axiom_names;
//@ loop 0 while
    invariant iter.i <= iter.v@.len(), clean(params), fits(state, buf@), has_addresses ==> count_to(params) > 0,
    decreases iter.v@.len() - iter.i,
//@ at loop 0 start
    broadcast use axiom_utf8_breaks; broadcast use axiom_utf8_at; broadcast use lemma_breaks_push; broadcast use lemma_ats_push; broadcast use axiom_names;
    proof { if name_bytes(buf@) { lemma_name_breaks(buf@); } }
//@ at after loop 0
    proof { if name_bytes(buf@) { lemma_name_breaks(buf@); } }
//@end
