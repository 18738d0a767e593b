use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@include std.vrs
//@literals
#[verifier::external_body] pub struct HeaderName { x: u8 }
pub uninterp spec fn field_named(s: Seq<char>) -> Option<HeaderName>; // HeaderName::parse
#[verifier::external_body] pub fn parse_name(s: String) -> (r: Option<HeaderName>) ensures r == field_named(s@) { unimplemented!() }
#[verifier::external_body] pub fn take_text(s: &mut String) -> (r: String) ensures r@ == old(s)@, final(s)@ == Seq::<char>::empty() { unimplemented!() } // std::mem::take
#[verifier::external_body] pub fn is_word(s: &str, w: &'static str) -> (r: bool) ensures r == (s@ == w@) { unimplemented!() }
#[verifier::external_body] pub fn no_text(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() } // str::is_empty
//@type src/compiler/grammar/mod.rs AddressPart
//@end
//@type src/compiler/mod.rs HeaderPart
//@end
//@type src/compiler/mod.rs ContentTypePart
//@end
//@type src/compiler/mod.rs ReceivedPart
//@end
//@type src/compiler/mod.rs ReceivedHostname
//@end
//@type src/compiler/mod.rs HeaderVariable
//@ replace "HeaderName<'static>" => "HeaderName"
//@end
//@type src/lib.rs Envelope
//@end
//@type src/compiler/mod.rs MessagePart
//@end
//@type src/compiler/mod.rs VariableType
//@end
//@type src/compiler/mod.rs ErrorType
//@ keep InvalidExpression InvalidEnvelope InvalidNamespace
//@end
// ---- the names of the parts ---------------------------------------------------------------------
pub open spec fn own_name(s: Seq<char>) -> Seq<char> { s.skip(s.index_of('.') + 1) }
pub open spec fn space(s: Seq<char>) -> Seq<char> { s.take(s.index_of('.')) }
#[verifier::external_body] pub fn split_dot<'a>(s: &'a str) -> (r: Option<(&'a str, &'a str)>) ensures (r is Some) == s@.contains('.'), r is Some ==> (r->0).0@ == space(s@) && (r->0).1@ == own_name(s@) { unimplemented!() } // split_once('.')
pub open spec fn address_named(s: Seq<char>) -> Option<AddressPart> {
    if s == "name"@ { Some(AddressPart::Name) } else if s == "addr"@ || s == "all"@ { Some(AddressPart::All) } else if s == "domain"@ || s == "addr.domain"@ { Some(AddressPart::Domain) } else if s == "local"@ || s == "addr.local"@ { Some(AddressPart::LocalPart) }
    else if s == "user"@ || s == "addr.user"@ { Some(AddressPart::User) } else if s == "detail"@ || s == "addr.detail"@ { Some(AddressPart::Detail) } else { None } }
pub open spec fn received_named(s: Seq<char>) -> Option<ReceivedPart> {
    if s == "from"@ { Some(ReceivedPart::From(ReceivedHostname::Any)) } else if s == "from.name"@ { Some(ReceivedPart::From(ReceivedHostname::Name)) } else if s == "from.ip"@ { Some(ReceivedPart::From(ReceivedHostname::Ip)) } else if s == "ip"@ { Some(ReceivedPart::FromIp) } else if s == "iprev"@ { Some(ReceivedPart::FromIpRev) }
    else if s == "by"@ { Some(ReceivedPart::By(ReceivedHostname::Any)) } else if s == "by.name"@ { Some(ReceivedPart::By(ReceivedHostname::Name)) } else if s == "by.ip"@ { Some(ReceivedPart::By(ReceivedHostname::Ip)) } else if s == "for"@ { Some(ReceivedPart::For) } else if s == "with"@ { Some(ReceivedPart::With) }
    else if s == "tls"@ { Some(ReceivedPart::TlsVersion) } else if s == "cipher"@ { Some(ReceivedPart::TlsCipher) } else if s == "id"@ { Some(ReceivedPart::Id) } else if s == "ident"@ { Some(ReceivedPart::Ident) } else if s == "date"@ { Some(ReceivedPart::Date) } else if s == "date.raw"@ { Some(ReceivedPart::DateRaw) } else { None } }
pub open spec fn main_part(s: Seq<char>) -> Seq<char> { if s.contains('.') { space(s) } else { s } }
pub open spec fn sub_part(s: Seq<char>) -> Seq<char> { if s.contains('.') { own_name(s) } else { Seq::empty() } }
pub open spec fn asks(r: Result<HeaderPart, ()>, s: Seq<char>) -> bool {
    let v = main_part(s); let w = sub_part(s);
    if v.len() == 0 || v == "text"@ { r == Ok::<HeaderPart, ()>(HeaderPart::Text) }
    else if v == "name"@ { r == Ok::<HeaderPart, ()>(HeaderPart::Address(AddressPart::Name)) }
    else if v == "addr"@ { if w.len() == 0 { r == Ok::<HeaderPart, ()>(HeaderPart::Address(AddressPart::All)) } else { match address_named(w) { Some(p) => r == Ok::<HeaderPart, ()>(HeaderPart::Address(p)), None => r is Err } } }
    else if v == "type"@ { r == Ok::<HeaderPart, ()>(HeaderPart::ContentType(ContentTypePart::Type)) }
    else if v == "subtype"@ { r == Ok::<HeaderPart, ()>(HeaderPart::ContentType(ContentTypePart::Subtype)) }
    else if v == "attr"@ && w.len() > 0 { match r { Ok(HeaderPart::ContentType(ContentTypePart::Attribute(a))) => a@ == w, _ => false } }
    else if v == "rcvd"@ { if w.len() == 0 { r == Ok::<HeaderPart, ()>(HeaderPart::Text) } else { match received_named(w) { Some(p) => r == Ok::<HeaderPart, ()>(HeaderPart::Received(p)), None => r is Err } } }
    else if v == "id"@ { r == Ok::<HeaderPart, ()>(HeaderPart::Id) } else if v == "raw"@ { r == Ok::<HeaderPart, ()>(HeaderPart::Raw) } else if v == "raw_name"@ { r == Ok::<HeaderPart, ()>(HeaderPart::RawName) }
    else if v == "date"@ { r == Ok::<HeaderPart, ()>(HeaderPart::Date) } else if v == "exists"@ { r == Ok::<HeaderPart, ()>(HeaderPart::Exists) } else { r is Err } }
impl AddressPart {
//@fn src/compiler/lexer/string.rs <TryFrom<&str> for AddressPart>::try_from
//@ ret r
//@ sig "Self::Error" => "()"
//@ replace "\"name\" =>" => "t if is_word(t, \"name\") =>"
//@ replace "\"addr\" | \"all\" =>" => "t if is_word(t, \"addr\") || is_word(t, \"all\") =>"
//@ replace "\"domain\" | \"addr.domain\" =>" => "t if is_word(t, \"domain\") || is_word(t, \"addr.domain\") =>"
//@ replace "\"local\" | \"addr.local\" =>" => "t if is_word(t, \"local\") || is_word(t, \"addr.local\") =>"
//@ replace "\"user\" | \"addr.user\" =>" => "t if is_word(t, \"user\") || is_word(t, \"addr.user\") =>"
//@ replace "\"detail\" | \"addr.detail\" =>" => "t if is_word(t, \"detail\") || is_word(t, \"addr.detail\") =>"
//@ spec
    ensures match address_named(value@) { Some(p) => r == Ok::<AddressPart, ()>(p), None => r is Err },
//@end
}
impl ReceivedPart {
//@fn src/compiler/lexer/string.rs <TryFrom<&str> for ReceivedPart>::try_from
//@ ret r
//@ sig "Self::Error" => "()"
//@ replace "\"from\" =>" => "t if is_word(t, \"from\") =>"
//@ replace "\"from.name\" =>" => "t if is_word(t, \"from.name\") =>"
//@ replace "\"from.ip\" =>" => "t if is_word(t, \"from.ip\") =>"
//@ replace "\"ip\" =>" => "t if is_word(t, \"ip\") =>"
//@ replace "\"iprev\" =>" => "t if is_word(t, \"iprev\") =>"
//@ replace "\"by\" =>" => "t if is_word(t, \"by\") =>"
//@ replace "\"by.name\" =>" => "t if is_word(t, \"by.name\") =>"
//@ replace "\"by.ip\" =>" => "t if is_word(t, \"by.ip\") =>"
//@ replace "\"for\" =>" => "t if is_word(t, \"for\") =>"
//@ replace "\"with\" =>" => "t if is_word(t, \"with\") =>"
//@ replace "\"tls\" =>" => "t if is_word(t, \"tls\") =>"
//@ replace "\"cipher\" =>" => "t if is_word(t, \"cipher\") =>"
//@ replace "\"id\" =>" => "t if is_word(t, \"id\") =>"
//@ replace "\"ident\" =>" => "t if is_word(t, \"ident\") =>"
//@ replace "\"date\" =>" => "t if is_word(t, \"date\") =>"
//@ replace "\"date.raw\" =>" => "t if is_word(t, \"date.raw\") =>"
//@ spec
    ensures match received_named(value@) { Some(p) => r == Ok::<ReceivedPart, ()>(p), None => r is Err },
//@end
}
impl HeaderPart {
//@fn src/compiler/lexer/string.rs <TryFrom<&str> for HeaderPart>::try_from
//@ ret r
//@ sig "Self::Error" => "()"
//@ replace "value.split_once('.').unwrap_or((value, \"\"))" => "(match split_dot(value) { Some(p) => p, None => (value, \"\") })"
//@ replace "!subvalue.is_empty()" => "!no_text(subvalue)"
//@ replace "\"\" | \"text\" =>" => "t if no_text(t) || is_word(t, \"text\") =>"
//@ replace "\"attr\" if" => "t if is_word(t, \"attr\") &&"
//@ replace "\"name\" =>" => "t if is_word(t, \"name\") =>"
//@ replace "\"addr\" =>" => "t if is_word(t, \"addr\") =>"
//@ replace "\"type\" =>" => "t if is_word(t, \"type\") =>"
//@ replace "\"subtype\" =>" => "t if is_word(t, \"subtype\") =>"
//@ replace "\"rcvd\" =>" => "t if is_word(t, \"rcvd\") =>"
//@ replace "\"id\" =>" => "t if is_word(t, \"id\") =>"
//@ replace "\"raw\" =>" => "t if is_word(t, \"raw\") =>"
//@ replace "\"raw_name\" =>" => "t if is_word(t, \"raw_name\") =>"
//@ replace "\"date\" =>" => "t if is_word(t, \"date\") =>"
//@ replace "\"exists\" =>" => "t if is_word(t, \"exists\") =>"
//@ at start
    proof { reveal_strlit(""); assert(""@.len() == 0); }
//@ spec
    ensures asks(r, value@),
//@end
}
// ---- the grammar: NAME[:NAME...][INDEX].PART[INDEX] --------------------------------------------------
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Where { Name, Index, Part, PartIndex }
pub struct Scan { pub names: Seq<HeaderName>, pub named: bool, pub all: bool, pub name: Seq<char>, pub index: Seq<char>, pub part: Seq<char>, pub pindex: Seq<char>, pub at: Where }
pub open spec fn start() -> Scan { Scan { names: Seq::empty(), named: false, all: false, name: Seq::empty(), index: Seq::empty(), part: Seq::empty(), pindex: Seq::empty(), at: Where::Name } }
pub open spec fn ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
pub open spec fn step(s: Scan, c: char) -> Option<Scan> { match s.at {
    Where::Name => if c == '[' { if s.index.len() == 0 { Some(Scan { at: Where::Index, named: true, ..s }) } else if s.part.len() == 0 { Some(Scan { at: Where::PartIndex, named: true, ..s }) } else { None } }
        else if c == '.' { Some(Scan { at: Where::Part, named: true, ..s }) } else if ws(c) { Some(s) }
        else if c == '*' && !s.all && s.name.len() == 0 && s.names.len() == 0 { Some(Scan { all: true, ..s }) }
        else if c == ':' && s.name.len() > 0 && !s.all { match field_named(s.name) { Some(n) => Some(Scan { names: s.names.push(n), name: Seq::empty(), ..s }), None => None } }
        else if !s.named && !s.all { Some(Scan { name: s.name.push(c), ..s }) } else { None },
    Where::Index => if c == ']' { Some(Scan { at: Where::Name, ..s }) } else if ws(c) { Some(s) } else { Some(Scan { index: s.index.push(c), ..s }) },
    Where::Part => if c == '[' { Some(Scan { at: Where::PartIndex, ..s }) } else if ws(c) { Some(s) } else { Some(Scan { part: s.part.push(c), ..s }) },
    Where::PartIndex => if c == ']' { Some(Scan { at: Where::Name, ..s }) } else if ws(c) { Some(s) } else { Some(Scan { pindex: s.pindex.push(c), ..s }) },
} }
pub open spec fn scan(s: Scan, t: Seq<char>) -> Option<Scan> decreases t.len() { if t.len() == 0 { Some(s) } else { match step(s, t[0]) { Some(u) => scan(u, t.skip(1)), None => None } } }
pub uninterp spec fn number(s: Seq<char>) -> Option<i32>; // str::parse::<i32>
#[verifier::external_body] pub fn number_in(s: &String) -> (r: Result<i32, ()>) ensures match number(s@) { Some(n) => r == Ok::<i32, ()>(n), None => r is Err } { unimplemented!() }
// nothing: the last one (all of them for *); *: all of them; 0 and 1: the first one
pub open spec fn index_of(s: Seq<char>, all: bool) -> Option<i32> { if s.len() == 0 { if all { Some(0i32) } else { Some(-1i32) } } else if s == "*"@ { Some(0i32) } else { match number(s) { Some(n) => Some(if n == 0 { 1i32 } else { n }), None => None } } }
pub open spec fn all_names(s: Scan) -> Option<Seq<HeaderName>> { if s.name.len() > 0 { match field_named(s.name) { Some(n) => Some(s.names.push(n)), None => None } } else { Some(s.names) } }
pub open spec fn is_header(r: Result<VariableType, ErrorType>, s: Option<Scan>) -> bool { match s { None => r is Err, Some(s) => match all_names(s) { None => r is Err, Some(n) =>
    match index_of(s.index, s.all) { None => r is Err, Some(i) => match index_of(s.pindex, s.all) { None => r is Err, Some(j) =>
        if n.len() == 0 && !s.all { r is Err } else { match r { Ok(VariableType::Header(v)) => asks(Ok(v.part), s.part) && v.name@ == n && v.index_hdr == i && v.index_part == j, Ok(_) => false, Err(_) => asks(Err(()), s.part) } } } } } } }
//@type src/compiler/grammar/instruction.rs CompilerState
//@ keep compiler
//@end
#[verifier::external_body] pub struct Compiler { x: u8 }
#[verifier::external_body] pub fn bad(s: &str) -> (r: ErrorType) ensures r is InvalidExpression { unimplemented!() } // ErrorType::InvalidExpression(var_name.to_string())
impl<'x> CompilerState<'x> {
//@fn src/compiler/lexer/string.rs CompilerState::parse_header_variable
//@ ret r
//@ attr #[verifier::spinoff_prover]
//@ cut "enum State {" to "PartIndex, }" => ""
//@ replace "State::Name" => "Where::Name"
//@ replace "State::Index" => "Where::Index"
//@ replace "State::Part" => "Where::Part"
//@ replace "State::PartIndex" => "Where::PartIndex"
//@ replace "let mut name = vec![];" => "let mut name: Vec<HeaderName> = Vec::new();"
//@ replace "Err(ErrorType::InvalidExpression(var_name.to_string()))" => "Err(bad(var_name))"
//@ replace "HeaderName::parse(std::mem::take(&mut hdr_name)).ok_or_else(|| { ErrorType::InvalidExpression(var_name.to_string()) })?" => "match parse_name(take_text(&mut hdr_name)) { Some(n) => n, None => return Err(bad(var_name)) }"
//@ replace "HeaderName::parse(hdr_name).ok_or_else(|| ErrorType::InvalidExpression(var_name.to_string()))?" => "match parse_name(hdr_name) { Some(n) => n, None => return Err(bad(var_name)) }"
//@ replace "HeaderPart::try_from(part.as_str()).map_err(|_| ErrorType::InvalidExpression(var_name.to_string()))?" => "match HeaderPart::try_from(part.as_str()) { Ok(p) => p, Err(_) => return Err(bad(var_name)) }"
//@ replace "\"\" =>" => "t if no_text(t) =>"
//@ replace "\"*\" =>" => "t if is_word(t, \"*\") =>"
//@ replace "hdr_index.parse().map(|v| if v == 0 { 1 } else { v }).map_err(|_| ErrorType::InvalidExpression(var_name.to_string()))?" => "match number_in(&hdr_index) { Ok(v) => if v == 0 { 1 } else { v }, Err(_) => return Err(bad(var_name)) }"
//@ replace "part_index.parse().map(|v| if v == 0 { 1 } else { v }).map_err(|_| ErrorType::InvalidExpression(var_name.to_string()))?" => "match number_in(&part_index) { Ok(v) => if v == 0 { 1 } else { v }, Err(_) => return Err(bad(var_name)) }"
//@ loop 0 for it it
    invariant it.seq() == var_name@, 0 <= it.index() <= var_name@.len(), scan(start(), var_name@) == scan(Scan { names: name@, named: has_name, all: has_wildcard, name: hdr_name@, index: hdr_index@, part: part@, pindex: part_index@, at: state }, var_name@.skip(it.index() as int)),
//@ at before loop 0
    proof { assert(var_name@.skip(0) =~= var_name@); assert(name@ =~= Seq::<HeaderName>::empty()); assert(hdr_name@ =~= Seq::<char>::empty() && hdr_index@ =~= Seq::<char>::empty() && part@ =~= Seq::<char>::empty() && part_index@ =~= Seq::<char>::empty()); }
//@ at loop 0 start
    proof { axiom_char_eq(); let t = var_name@.skip(it.index() as int); assert(t[0] == ch); assert(t.skip(1) =~= var_name@.skip(it.index() + 1)); }
//@ spec
    ensures is_header(r, scan(start(), var_name@)),
//@end
}
// ---- what is written is what is asked for --------------------------------------------------------------
pub open spec fn plain_in(at: Where, c: char) -> bool { !ws(c) && match at { Where::Name => c != '[' && c != '.' && c != ':' && c != '*', Where::Part => c != '[', _ => c != ']' } }
pub open spec fn plain(at: Where, t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> plain_in(at, #[trigger] t[i]) }
pub open spec fn with_text(s: Scan, t: Seq<char>) -> Scan { match s.at { Where::Name => Scan { name: s.name + t, ..s }, Where::Index => Scan { index: s.index + t, ..s }, Where::Part => Scan { part: s.part + t, ..s }, Where::PartIndex => Scan { pindex: s.pindex + t, ..s } } }
pub proof fn lemma_scan_add(s: Scan, a: Seq<char>, b: Seq<char>) ensures scan(s, a + b) == (match scan(s, a) { Some(u) => scan(u, b), None => None }) decreases a.len()
{ if a.len() == 0 { assert(a + b =~= b); } else { assert((a + b).skip(1) =~= a.skip(1) + b); if step(s, a[0]) is Some { lemma_scan_add(step(s, a[0])->0, a.skip(1), b); } } }
pub proof fn lemma_run(s: Scan, t: Seq<char>) requires plain(s.at, t), s.at is Name ==> !s.named && !s.all ensures scan(s, t) == Some(with_text(s, t)) decreases t.len()
{
    if t.len() == 0 { assert(s.name + t =~= s.name); assert(s.index + t =~= s.index); assert(s.part + t =~= s.part); assert(s.pindex + t =~= s.pindex); }
    else {
        assert(plain_in(s.at, t[0])); let u = with_text(s, seq![t[0]]);
        assert(s.name + seq![t[0]] =~= s.name.push(t[0])); assert(s.index + seq![t[0]] =~= s.index.push(t[0])); assert(s.part + seq![t[0]] =~= s.part.push(t[0])); assert(s.pindex + seq![t[0]] =~= s.pindex.push(t[0]));
        assert(step(s, t[0]) == Some(u));
        assert forall|i: int| 0 <= i < t.skip(1).len() implies plain_in(s.at, #[trigger] t.skip(1)[i]) by { assert(t.skip(1)[i] == t[i + 1]); }
        lemma_run(u, t.skip(1)); assert(seq![t[0]] + t.skip(1) =~= t);
        assert(u.name + t.skip(1) == s.name + t || !(s.at is Name)) by { assert((s.name + seq![t[0]]) + t.skip(1) =~= s.name + t); }
        assert(u.index + t.skip(1) == s.index + t || !(s.at is Index)) by { assert((s.index + seq![t[0]]) + t.skip(1) =~= s.index + t); }
        assert(u.part + t.skip(1) == s.part + t || !(s.at is Part)) by { assert((s.part + seq![t[0]]) + t.skip(1) =~= s.part + t); }
        assert(u.pindex + t.skip(1) == s.pindex + t || !(s.at is PartIndex)) by { assert((s.pindex + seq![t[0]]) + t.skip(1) =~= s.pindex + t); }
    }
}
pub proof fn lemma_one_char(s: Scan, c: char) ensures scan(s, seq![c]) == step(s, c) { reveal_with_fuel(scan, 2); assert(seq![c].skip(1) =~= Seq::<char>::empty()); }
pub open spec fn bracketed(i: Option<Seq<char>>) -> Seq<char> { match i { Some(t) => seq!['['] + t + seq![']'], None => Seq::empty() } }
pub proof fn lemma_bracketed(s: Scan, t: Seq<char>) requires s.at is Name, s.index.len() == 0, t.len() > 0, plain(Where::Index, t) ensures scan(s, seq!['['] + t + seq![']']) == Some(Scan { named: true, index: t, at: Where::Name, ..s })
{ lemma_one_char(s, '['); let u = Scan { at: Where::Index, named: true, ..s }; lemma_run(u, t); assert(s.index + t =~= t); let v = with_text(u, t); lemma_one_char(v, ']'); lemma_scan_add(s, seq!['['], t); lemma_scan_add(s, seq!['['] + t, seq![']']); }
pub proof fn lemma_part(s: Scan, p: Seq<char>, j: Option<Seq<char>>) requires s.at is Name, s.part.len() == 0, s.pindex.len() == 0, plain(Where::Part, p), j is Some ==> plain(Where::PartIndex, j->0)
    ensures scan(s, seq!['.'] + p + bracketed(j)) == Some(Scan { named: true, part: p, pindex: match j { Some(t) => t, None => Seq::empty() }, at: if j is Some { Where::Name } else { Where::Part }, ..s })
{
    lemma_one_char(s, '.'); let u = Scan { at: Where::Part, named: true, ..s }; lemma_run(u, p); assert(s.part + p =~= p); let v = with_text(u, p); lemma_scan_add(s, seq!['.'], p); lemma_scan_add(s, seq!['.'] + p, bracketed(j)); assert(s.pindex =~= Seq::<char>::empty());
    match j { None => { assert(scan(v, Seq::empty()) == Some(v)); }, Some(t) => { lemma_one_char(v, '['); let w = Scan { at: Where::PartIndex, ..v }; lemma_run(w, t); assert(s.pindex + t =~= t); lemma_one_char(with_text(w, t), ']'); lemma_scan_add(v, seq!['['], t); lemma_scan_add(v, seq!['['] + t, seq![']']); } }
}
// NAME[i].part[j], each bracket and the part optional
pub open spec fn written(n: Seq<char>, i: Option<Seq<char>>, p: Option<(Seq<char>, Option<Seq<char>>)>) -> Seq<char> { n + bracketed(i) + match p { Some((x, j)) => seq!['.'] + x + bracketed(j), None => Seq::empty() } }
pub open spec fn or_empty(o: Option<Seq<char>>) -> Seq<char> { match o { Some(t) => t, None => Seq::empty() } }
pub proof fn lemma_written(n: Seq<char>, i: Option<Seq<char>>, p: Option<(Seq<char>, Option<Seq<char>>)>, r: Result<VariableType, ErrorType>)
    requires n.len() > 0, plain(Where::Name, n), i is Some ==> (i->0).len() > 0 && plain(Where::Index, i->0),
        p is Some ==> plain(Where::Part, (p->0).0) && ((p->0).1 is Some ==> plain(Where::PartIndex, ((p->0).1)->0)),
        is_header(r, scan(start(), written(n, i, p))), field_named(n) is Some,
    ensures ({ let part = match p { Some((x, _)) => x, None => Seq::empty() }; let pi = match p { Some((_, j)) => or_empty(j), None => Seq::empty() };
        match index_of(or_empty(i), false) { None => r is Err, Some(a) => match index_of(pi, false) { None => r is Err, Some(b) => match r {
            Ok(VariableType::Header(v)) => v.name@ == seq![field_named(n)->0] && v.index_hdr == a && v.index_part == b && asks(Ok(v.part), part), Ok(_) => false, Err(_) => asks(Err(()), part) } } } }),
{
    lemma_run(start(), n); assert(start().name + n =~= n); let s1 = with_text(start(), n); lemma_scan_add(start(), n, bracketed(i));
    let s2 = Scan { named: i is Some, index: or_empty(i), ..s1 };
    match i { Some(t) => lemma_bracketed(s1, t), None => { assert(scan(s1, Seq::empty()) == Some(s1)); } }
    let tail = match p { Some((x, j)) => seq!['.'] + x + bracketed(j), None => Seq::empty() };
    lemma_scan_add(start(), n + bracketed(i), tail);
    match p { Some((x, j)) => lemma_part(s2, x, j), None => { assert(scan(s2, Seq::empty()) == Some(s2)); } }
    assert(s1.names.push(field_named(n)->0) =~= seq![field_named(n)->0]);
}
// ---- which variable a name stands for ----------------------------------------------------------------------
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>; // str::to_lowercase
#[verifier::external_body] pub fn lower_text(s: &str) -> (r: String) ensures r@ == lower(s@) { unimplemented!() }
pub open spec fn envelope_named(s: Seq<char>) -> Option<Envelope> {
    if s == "from"@ { Some(Envelope::From) } else if s == "to"@ { Some(Envelope::To) } else if s == "by_time_absolute"@ { Some(Envelope::ByTimeAbsolute) } else if s == "by_time_relative"@ { Some(Envelope::ByTimeRelative) } else if s == "by_mode"@ { Some(Envelope::ByMode) }
    else if s == "by_trace"@ { Some(Envelope::ByTrace) } else if s == "notify"@ { Some(Envelope::Notify) } else if s == "orcpt"@ { Some(Envelope::Orcpt) } else if s == "ret"@ { Some(Envelope::Ret) } else if s == "envid"@ { Some(Envelope::Envid) } else { None } }
pub open spec fn body_named(s: Seq<char>) -> Option<MessagePart> { if s == "text"@ { Some(MessagePart::TextBody(false)) } else if s == "html"@ { Some(MessagePart::HtmlBody(false)) } else if s == "to_text"@ { Some(MessagePart::TextBody(true)) } else if s == "to_html"@ { Some(MessagePart::HtmlBody(true)) } else { None } }
pub open spec fn part_named(s: Seq<char>) -> Option<MessagePart> { if s == "text"@ { Some(MessagePart::Contents) } else if s == "raw"@ { Some(MessagePart::Raw) } else { None } }
pub type Var = Result<Option<VariableType>, ErrorType>;
pub open spec fn own(st: CompilerState<'_>, n: Seq<char>, r: Var) -> bool { if st.declared_global(n) { match r { Ok(Some(VariableType::Global(g))) => g@ == lower(n), _ => false } } else { match st.local(n) { Some(i) => r == Ok::<Option<VariableType>, ErrorType>(Some(VariableType::Local(i))), None => r == Ok::<Option<VariableType>, ErrorType>(None) } } }
pub open spec fn denotes(st: CompilerState<'_>, name: Seq<char>, r: Var) -> bool {
    let l = lower(name);
    if !l.contains('.') { own(st, name, r) } else { let s = space(l); let n = own_name(l);
        if n.len() == 0 { r is Err }
        else if s == "global"@ || s == "t"@ { match r { Ok(Some(VariableType::Global(g))) => g@ == n, _ => false } }
        else if s == "env"@ { match r { Ok(Some(VariableType::Environment(g))) => g@ == n, _ => false } }
        else if s == "envelope"@ { match envelope_named(n) { Some(e) => r == Ok::<Option<VariableType>, ErrorType>(Some(VariableType::Envelope(e))), None => r is Err } }
        else if s == "header"@ { is_header(match r { Ok(Some(v)) => Ok(v), Ok(None) => Ok(VariableType::Local(0)), Err(e) => Err(e) }, scan(start(), n)) }
        else if s == "body"@ { match body_named(n) { Some(p) => r == Ok::<Option<VariableType>, ErrorType>(Some(VariableType::Part(p))), None => r is Err } }
        else if s == "part"@ { match part_named(n) { Some(p) => r == Ok::<Option<VariableType>, ErrorType>(Some(VariableType::Part(p))), None => r is Err } }
        else { r is Err } } }
impl<'x> CompilerState<'x> {
    pub uninterp spec fn declared_global(&self, n: Seq<char>) -> bool;
    pub uninterp spec fn local(&self, n: Seq<char>) -> Option<usize>;
    #[verifier::external_body] pub fn is_var_global(&self, n: &str) -> (r: bool) ensures r == self.declared_global(n@) { unimplemented!() }
    #[verifier::external_body] pub fn get_local_var(&self, n: &str) -> (r: Option<usize>) ensures r == self.local(n@) { unimplemented!() }
//@fn src/compiler/lexer/string.rs CompilerState::parse_variable
//@ ret r
//@ replace "Some((\"global\" | \"t\", var_name)) if !var_name.is_empty()" => "Some((t, var_name)) if (is_word(t, \"global\") || is_word(t, \"t\")) && !no_text(var_name)"
//@ replace "Some((\"env\", var_name)) if !var_name.is_empty()" => "Some((t, var_name)) if is_word(t, \"env\") && !no_text(var_name)"
//@ replace "Some((\"envelope\", var_name)) if !var_name.is_empty()" => "Some((t, var_name)) if is_word(t, \"envelope\") && !no_text(var_name)"
//@ replace "Some((\"header\", var_name)) if !var_name.is_empty()" => "Some((t, var_name)) if is_word(t, \"header\") && !no_text(var_name)"
//@ replace "Some((\"body\", var_name)) if !var_name.is_empty()" => "Some((t, var_name)) if is_word(t, \"body\") && !no_text(var_name)"
//@ replace "Some((\"part\", var_name)) if !var_name.is_empty()" => "Some((t, var_name)) if is_word(t, \"part\") && !no_text(var_name)"
//@ replace "match var_name.to_lowercase().split_once('.')" => "match split_dot(lower_text(var_name).as_str())"
//@ replace "VariableType::Global(var_name.to_lowercase())" => "VariableType::Global(lower_text(var_name))"
//@ replace "\"from\" =>" => "t if is_word(t, \"from\") =>"
//@ replace "\"to\" =>" => "t if is_word(t, \"to\") =>"
//@ replace "\"by_time_absolute\" =>" => "t if is_word(t, \"by_time_absolute\") =>"
//@ replace "\"by_time_relative\" =>" => "t if is_word(t, \"by_time_relative\") =>"
//@ replace "\"by_mode\" =>" => "t if is_word(t, \"by_mode\") =>"
//@ replace "\"by_trace\" =>" => "t if is_word(t, \"by_trace\") =>"
//@ replace "\"notify\" =>" => "t if is_word(t, \"notify\") =>"
//@ replace "\"orcpt\" =>" => "t if is_word(t, \"orcpt\") =>"
//@ replace "\"ret\" =>" => "t if is_word(t, \"ret\") =>"
//@ replace "\"envid\" =>" => "t if is_word(t, \"envid\") =>"
//@ replace "\"text\" =>" => "t if is_word(t, \"text\") =>"
//@ replace "\"html\" =>" => "t if is_word(t, \"html\") =>"
//@ replace "\"to_text\" =>" => "t if is_word(t, \"to_text\") =>"
//@ replace "\"to_html\" =>" => "t if is_word(t, \"to_html\") =>"
//@ replace "\"raw\" =>" => "t if is_word(t, \"raw\") =>"
//@ spec
    ensures if maybe_namespace { denotes(*self, var_name@, r) } else { own(*self, var_name@, r) },
//@end
}
}
fn main() {}
