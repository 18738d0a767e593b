use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@type src/compiler/mod.rs Number
//@end
//@type src/lib.rs Envelope
//@end
//@type src/compiler/mod.rs VariableType
//@ drop Header
//@ drop Part
//@end
//@type src/compiler/grammar/expr/mod.rs BinaryOperator
//@ attr #[derive(Clone, Copy)]
//@end
//@type src/compiler/grammar/expr/mod.rs UnaryOperator
//@ attr #[derive(Clone, Copy)]
//@end
//@type src/compiler/grammar/expr/mod.rs Token
//@end
// ---- the bytes of the expression not yet read -------------------------------------------------
#[verifier::external_body] pub struct Bytes { x: usize }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Bytes {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<u8>) ensures (r is Some) == (old(self)@.len() > 0), r is Some ==> r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1), r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn peek(&mut self) -> (r: Option<u8>) ensures final(self)@ == old(self)@, (r is Some) == (old(self)@.len() > 0), r is Some ==> r->0 == old(self)@[0] { unimplemented!() }
}
// variables and functions by name (parse_expr_fnc_or_var)
#[verifier::external_body] pub struct Names { x: usize }
pub uninterp spec fn named(n: Names, b: Seq<u8>, dotted: bool) -> Option<Token>;
#[verifier::external_body] pub struct Name { x: usize }
impl View for Name { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub open spec fn true_() -> Seq<u8> { seq![b't', b'r', b'u', b'e'] }
pub open spec fn false_() -> Seq<u8> { seq![b'f', b'a', b'l', b's', b'e'] }
impl Name {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_true(&self) -> (r: bool) ensures r == (self@ == true_()) { unimplemented!() }
    #[verifier::external_body] pub fn is_false(&self) -> (r: bool) ensures r == (self@ == false_()) { unimplemented!() }
    // str::parse
    #[verifier::external_body] pub fn as_float(&self) -> (r: Result<Token, String>) ensures (r is Ok) == (float_of(self@) is Some), r is Ok ==> r->Ok_0 == Token::Number(Number::Float(float_of(self@)->0)) { unimplemented!() }
    #[verifier::external_body] pub fn as_integer(&self) -> (r: Result<Token, String>) ensures (r is Ok) == (integer_of(self@) is Some), r is Ok ==> r->Ok_0 == Token::Number(Number::Integer(integer_of(self@)->0)) { unimplemented!() }
}
impl Names { #[verifier::external_body] pub fn call(&self, b: &Name, dotted: bool) -> (r: Result<Token, String>) ensures (r is Ok) == (named(*self, b@, dotted) is Some), r is Ok ==> r->Ok_0 == named(*self, b@, dotted)->0 { unimplemented!() } }
pub uninterp spec fn float_of(b: Seq<u8>) -> Option<f64>;
pub uninterp spec fn integer_of(b: Seq<u8>) -> Option<i64>;
#[verifier::external_body] pub fn take_name(b: &mut Vec<u8>) -> (r: Name) ensures r@ == old(b)@, final(b)@ == Seq::<u8>::empty() { unimplemented!() }
pub fn four_or_five(n: usize) -> (r: bool) ensures r == (n == 4 || n == 5) { n == 4 || n == 5 }
#[verifier::external_body] pub fn message() -> (r: String) { unimplemented!() } // to_string, format!
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<String>;
#[verifier::external_body] pub fn text_from(b: Vec<u8>) -> (r: Result<String, String>) ensures (r is Ok) == (utf8(b@) is Some), r is Ok ==> r->Ok_0 == utf8(b@)->0 { unimplemented!() }
pub open spec fn header_prefix() -> Seq<u8> { seq![b'h', b'e', b'a', b'd', b'e', b'r', b'.'] }
pub open spec fn heads(b: Seq<u8>) -> bool { b.len() >= 7 && b.take(7) == header_prefix() }
#[verifier::external_body] pub fn is_header(b: &Vec<u8>) -> (r: bool) ensures r == heads(b@) { matches!(b.get(0..7), Some(b"header.")) }
#[verifier::external_body] pub fn has_byte(b: &Vec<u8>, c: u8) -> (r: bool) ensures r == b@.contains(c) { b.contains(&c) }
pub fn ends_with(b: &Vec<u8>, c: u8) -> (r: bool) ensures r == (b@.len() > 0 && b@.last() == c) { b.len() > 0 && b[b.len() - 1] == c }
//@type src/compiler/grammar/expr/tokenizer.rs Tokenizer
//@ replace "<'x, F> where F: Fn(&str, bool) -> Result<Token, String>," => ""
//@ replace "Peekable<Enumerate<Iter<'x, u8>>>" => "Bytes"
//@ replace "token_map: F" => "token_map: Names"
//@end
// ---- the tokens of an expression: a lexical grammar -------------------------------------------
pub struct Lex { pub rest: Seq<u8>, pub buf: Seq<u8>, pub depth: int, pub num: bool, pub dot: bool, pub alpha: bool, pub start: bool, pub eof: bool }
pub open spec fn lex_of(t: Tokenizer) -> Lex { Lex { rest: t.iter@, buf: t.buf@, depth: t.depth as int, num: t.has_number, dot: t.has_dot, alpha: t.has_alpha, start: t.is_start, eof: t.is_eof } }
pub open spec fn letter(c: u8) -> bool { b'A' <= c <= b'Z' || b'a' <= c <= b'z' || c == b'_' }
pub open spec fn digit(c: u8) -> bool { b'0' <= c <= b'9' }
// names hold letters, digits and dots; brackets, signs, colons and stars where a header variable or an index may have them
pub open spec fn in_word(c: u8, b: Seq<u8>) -> bool { letter(c) || digit(c) || c == b'.' || (c == b'[' && heads(b)) || (c == b'-' && ((b.len() > 0 && b.last() == b'[') || heads(b))) || (c == b':' && b.contains(b'.')) || (c == b']' && b.contains(b'[')) || (c == b'*' && b.len() > 0 && (b.last() == b'[' || b.last() == b'.')) }
// a number, true, false, or the name of a variable or function
pub open spec fn word(n: Names, s: Lex) -> Option<Token> {
    if s.num && !s.alpha { if s.dot { match float_of(s.buf) { Some(f) => Some(Token::Number(Number::Float(f))), None => None } } else { match integer_of(s.buf) { Some(i) => Some(Token::Number(Number::Integer(i))), None => None } } }
    else if s.buf == true_() && !s.num && !s.dot { Some(Token::Number(Number::Integer(1))) } else if s.buf == false_() && !s.num && !s.dot { Some(Token::Number(Number::Integer(0))) } else { named(n, s.buf, s.dot) } }
pub open spec fn cleared(s: Lex) -> Lex { Lex { buf: seq![], num: false, dot: false, alpha: false, ..s } }
pub open spec fn escape(c: u8) -> u8 { if c == b'n' { 10 } else if c == b'r' { 13 } else if c == b't' { 9 } else { c } }
pub open spec fn text_in(s: Seq<u8>, stop: u8, last: u8, b: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> decreases s.len() {
    if s.len() == 0 { None } else if last != 92 { if s[0] == stop { Some((b, s.skip(1))) } else { text_in(s.skip(1), stop, s[0], b.push(s[0])) } } else { text_in(s.skip(1), stop, s[0], b.push(escape(s[0]))) } }
pub enum Symbol { Bad, Space, Sign(Token, Seq<u8>, int) }
pub open spec fn begins(r: Seq<u8>, c: u8) -> bool { r.len() > 0 && r[0] == c }
pub open spec fn pair(r: Seq<u8>, c: u8, two: Token, one: Token, d: int) -> Symbol { if begins(r, c) { Symbol::Sign(two, r.skip(1), d) } else { Symbol::Sign(one, r, d) } }
pub open spec fn binary(o: BinaryOperator) -> Token { Token::BinaryOperator(o) }
pub open spec fn symbol(c: u8, r: Seq<u8>, d: int, start: bool) -> Symbol {
    if c == b'&' { pair(r, b'&', binary(BinaryOperator::And), binary(BinaryOperator::And), d) } else if c == b'|' { pair(r, b'|', binary(BinaryOperator::Or), binary(BinaryOperator::Or), d) }
    else if c == b'!' { pair(r, b'=', binary(BinaryOperator::Ne), Token::UnaryOperator(UnaryOperator::Not), d) } else if c == b'^' { Symbol::Sign(binary(BinaryOperator::Xor), r, d) }
    else if c == b'(' { Symbol::Sign(Token::OpenParen, r, d + 1) } else if c == b')' { if d == 0 { Symbol::Bad } else { Symbol::Sign(Token::CloseParen, r, d - 1) } }
    else if c == b'+' { Symbol::Sign(binary(BinaryOperator::Add), r, d) } else if c == b'*' { Symbol::Sign(binary(BinaryOperator::Multiply), r, d) } else if c == b'/' { Symbol::Sign(binary(BinaryOperator::Divide), r, d) }
    else if c == b'-' { Symbol::Sign(if start { Token::UnaryOperator(UnaryOperator::Minus) } else { binary(BinaryOperator::Subtract) }, r, d) }
    else if c == b'=' { if begins(r, b'=') { Symbol::Sign(binary(BinaryOperator::Eq), r.skip(1), d) } else if begins(r, b'>') { Symbol::Sign(binary(BinaryOperator::Ge), r.skip(1), d) } else if begins(r, b'<') { Symbol::Sign(binary(BinaryOperator::Le), r.skip(1), d) } else { Symbol::Sign(binary(BinaryOperator::Eq), r, d) } }
    else if c == b'>' { pair(r, b'=', binary(BinaryOperator::Ge), binary(BinaryOperator::Gt), d) } else if c == b'<' { pair(r, b'=', binary(BinaryOperator::Le), binary(BinaryOperator::Lt), d) }
    else if c == b',' { Symbol::Sign(Token::Comma, r, d) } else if c == b'[' { Symbol::Sign(Token::OpenBracket, r, d) } else if c == b']' { Symbol::Sign(Token::CloseBracket, r, d) }
    else if c == b' ' || c == 13 || c == 10 { Symbol::Space }
    else if c == 34 || c == 39 { match text_in(r, c, 0, seq![]) { Some((b, q)) => match utf8(b) { Some(s) => Symbol::Sign(Token::String(s), q, d), None => Symbol::Bad }, None => Symbol::Bad } }
    else { Symbol::Bad } }
// a minus behind one of these is a sign
pub open spec fn opens(t: Token) -> bool { t is OpenParen || t is OpenBracket || t is Comma || t is BinaryOperator || t is UnaryOperator }
pub enum Out { Bad, Nothing(Lex), One(Token, Lex), Two(Token, Token, Lex) }
pub open spec fn at_end(n: Names, s: Lex) -> Out { if s.depth > 0 { Out::Bad } else if s.buf.len() > 0 { match word(n, s) { Some(w) => Out::One(w, cleared(s)), None => Out::Bad } } else { Out::Nothing(s) } }
pub open spec fn ended(n: Names, s: Lex) -> (Option<Token>, Lex) { if s.buf.len() > 0 { (word(n, s), Lex { start: false, ..cleared(s) }) } else { (None, s) } }
pub open spec fn scan(n: Names, s: Lex) -> Out decreases s.rest.len() {
    if s.rest.len() == 0 { at_end(n, s) } else { let c = s.rest[0]; let s = Lex { rest: s.rest.skip(1), ..s };
        if c == b'}' { at_end(n, Lex { eof: true, ..s }) }
        else if in_word(c, s.buf) { scan(n, Lex { buf: s.buf.push(c), num: s.num || digit(c), dot: s.dot || c == b'.', alpha: s.alpha || letter(c), ..s }) }
        else { let (w, z) = ended(n, s); if s.buf.len() > 0 && w is None { Out::Bad } else { match symbol(c, z.rest, z.depth, z.start) {
            Symbol::Bad => Out::Bad,
            Symbol::Space => match w { Some(w) => Out::One(w, z), None => scan(n, z) },
            Symbol::Sign(t, r, d) => { let y = Lex { rest: r, depth: d, start: opens(t), ..z }; match w { Some(w) => Out::Two(w, t, y), None => Out::One(t, y) } } } } } } }
impl Tokenizer {
//@fn src/compiler/grammar/expr/tokenizer.rs Tokenizer::parse_buf
//@ ret r
//@ replace "std::mem::take(&mut self.buf).into_string()" => "take_name(&mut self.buf)"
//@ replace "buf.parse::<f64>().map(|f| Token::Number(Number::Float(f))).map_err(|_| format!(\"Invalid float value {}\", buf,))" => "buf.as_float()"
//@ replace "buf.parse::<i64>().map(|i| Token::Number(Number::Integer(i))).map_err(|_| format!(\"Invalid integer value {}\", buf,))" => "buf.as_integer()"
//@ replace "[4, 5].contains(&buf.len())" => "four_or_five(buf.len())"
//@ replace "buf == \"true\"" => "buf.is_true()"
//@ replace "buf == \"false\"" => "buf.is_false()"
//@ replace "(self.token_map)(&buf, has_dot)" => "self.token_map.call(&buf, has_dot)"
//@ spec
    ensures (r is Ok) == (word(old(self).token_map, lex_of(*old(self))) is Some), r is Ok ==> r->Ok_0 == word(old(self).token_map, lex_of(*old(self)))->0 && lex_of(*final(self)) == cleared(lex_of(*old(self))), final(self).token_map == old(self).token_map, final(self).next_token == old(self).next_token,
//@ at start
    proof { assert(true_().len() == 4); assert(false_().len() == 5); }
//@end
//@fn src/compiler/grammar/expr/tokenizer.rs Tokenizer::next
//@ ret r
//@ replace "while let Some((_, &ch)) = self.iter.next()" => "while let Some(ch) = self.iter.next()"
//@ replace "for (_, &ch) in self.iter.by_ref()" => "while let Some(ch) = self.iter.next()"
//@ replace "Some((_, b'&'))" => "Some(b'&')"
//@ replace "Some((_, b'|'))" => "Some(b'|')"
//@ replace "Some((_, b'='))" => "Some(b'=')"
//@ replace "Some((_, b'>'))" => "Some(b'>')"
//@ replace "Some((_, b'<'))" => "Some(b'<')"
//@ replace "matches!(self.buf.get(0..7), Some(b\"header.\"))" => "is_header(&self.buf)"
//@ replace "self.buf.last().is_some_and(|c| *c == b'[')" => "ends_with(&self.buf, b'[')"
//@ replace "self.buf.last().is_some_and(|&c| c == b'[' || c == b'.')" => "(ends_with(&self.buf, b'[') || ends_with(&self.buf, b'.'))"
//@ replace "self.buf.contains(&b'.')" => "has_byte(&self.buf, b'.')"
//@ replace "self.buf.contains(&b'[')" => "has_byte(&self.buf, b'[')"
//@ replace "self.parse_buf()?.into()" => "Some(self.parse_buf()?)"
//@ replace "String::from_utf8(buf).map_err(|_| \"Invalid UTF-8\".to_string())?" => "text_from(buf)?"
//@ replace "\"Unmatched close parenthesis\".to_string()" => "message()"
//@ replace "\"Unmatched open parenthesis\".to_string()" => "message()"
//@ replace "\"Unterminated string\".to_string()" => "message()"
//@ replace "format!(\"Invalid character {:?}\", char::from(ch),)" => "message()"
//@ replace "self.parse_buf().map(Some)" => "Ok(Some(self.parse_buf()?))"
//@ spec
    requires old(self).depth + old(self).iter@.len() <= u32::MAX,
    ensures final(self).token_map == old(self).token_map,
        old(self).next_token@.len() > 0 ==> r == Ok::<Option<Token>, String>(Some(old(self).next_token@.last())) && final(self).next_token@ == old(self).next_token@.drop_last() && lex_of(*final(self)) == lex_of(*old(self)),
        old(self).next_token@.len() == 0 && old(self).is_eof ==> r == Ok::<Option<Token>, String>(None) && lex_of(*final(self)) == lex_of(*old(self)) && final(self).next_token@.len() == 0,
        old(self).next_token@.len() == 0 && !old(self).is_eof ==> match scan(old(self).token_map, lex_of(*old(self))) {
            Out::Bad => r is Err,
            Out::Nothing(s) => r == Ok::<Option<Token>, String>(None) && lex_of(*final(self)) == s && final(self).next_token@.len() == 0,
            Out::One(t, s) => r == Ok::<Option<Token>, String>(Some(t)) && lex_of(*final(self)) == s && final(self).next_token@.len() == 0,
            Out::Two(t, u, s) => r == Ok::<Option<Token>, String>(Some(t)) && lex_of(*final(self)) == s && final(self).next_token@ == seq![u] },
//@ at start
    let ghost n = self.token_map; let ghost s0 = lex_of(*self);
//@ loopattr 0 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0 while
    invariant_except_break !self.is_eof, scan(n, lex_of(*self)) == scan(n, s0),
    invariant self.token_map == n, self.next_token@.len() == 0, self.depth + self.iter@.len() <= u32::MAX,
    ensures scan(n, s0) == at_end(n, lex_of(*self)),
    decreases self.iter@.len(),
//@ at loop 0 start
    let ghost sb = lex_of(*self);
//@ loopattr 1 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 1 for
    invariant_except_break !found_end, text_in(self.iter@, stop_ch, last_ch, buf@) == text_in(ts, stop_ch, 0, seq![]),
    invariant self.iter@.len() <= ts.len(), self.token_map == n, self.next_token@.len() == 0, lex_of(*self) == (Lex { rest: self.iter@, ..tl }),
    ensures match text_in(ts, stop_ch, 0, seq![]) { Some((b, q)) => found_end && buf@ == b && self.iter@ == q, None => !found_end },
    decreases self.iter@.len(),
//@ at before loop 1
    let ghost ts = self.iter@; let ghost tl = lex_of(*self); proof { assert(buf@ =~= seq![]); }
//@end
}
}
fn main() {}
