// ---- the text of a script, read byte by byte ----------------------------------------------
#[verifier::external_body] pub struct ByteIter<'x> { x: &'x u8 }
impl<'x> View for ByteIter<'x> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl<'x> ByteIter<'x> {
    // Iterator::next and Peekable::peek
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'x u8>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r is Some && *(r->0) == old(self)@[0] && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body] pub fn peek_copy(&mut self) -> (r: Option<u8>) ensures final(self)@ == old(self)@, (r is Some) == (old(self)@.len() > 0), r is Some ==> r->0 == old(self)@[0] { unimplemented!() }
}
//@type src/compiler/mod.rs Number
//@end
//@type src/compiler/lexer/mod.rs StringConstant
//@end
//@type src/compiler/lexer/word.rs Word
//@ attr #[derive(PartialEq, Eq, Clone, Copy, Structural)]
//@end
//@type src/compiler/lexer/mod.rs Token
//@end
//@type src/compiler/lexer/tokenizer.rs TokenInfo
//@end
//@type src/compiler/lexer/tokenizer.rs StringType
//@ attr #[derive(Clone, Copy)]
//@end
impl StringType { pub fn default() -> (r: Self) ensures !r.maybe_variable { StringType { maybe_variable: false, has_other: false, has_digits: false, has_dots: false } } } // derived
//@type src/compiler/lexer/tokenizer.rs State
//@end
//@type src/compiler/mod.rs CompileError
//@end
//@type src/compiler/mod.rs ErrorType
//@ keep InvalidCharacter UnterminatedComment UnterminatedString UnterminatedMultiline StringTooLong UnexpectedEOF
//@end
//@type src/lib.rs Compiler
//@ keep max_string_size
//@end
//@type src/compiler/lexer/tokenizer.rs Tokenizer
//@ replace "Peekable<Iter<'x, u8>>" => "ByteIter<'x>"
//@end
pub open spec fn word_byte(b: u8) -> bool { (97 <= b && b <= 122) || (48 <= b && b <= 57) || b == 95 || b == 46 || b == 36 }
pub open spec fn ascii_chars(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i] as char) }
pub open spec fn words(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> word_byte(#[trigger] s[i]) }
// std::str::from_utf8(..).unwrap() of ASCII text
#[verifier::external_body] pub fn ascii_str(s: &[u8]) -> (r: &str) requires words(s@) ensures r@ == ascii_chars(s@) { unimplemented!() }
pub uninterp spec fn keyword(s: Seq<char>) -> Option<Word>;
#[verifier::external_body] pub fn lookup_words(s: &str) -> (r: Option<Word>) ensures r == keyword(s@) { unimplemented!() }
#[verifier::external_body] pub fn tagged(s: &str) -> (r: String) ensures r@ == seq![':'] + s@ { unimplemented!() } // format!(":{s}")
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
pub open spec fn decimal(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { decimal(s.drop_last()) * 10 + (s.last() as u32 - '0' as u32) as nat } }
pub struct NotANumber { }
// str::parse::<usize> of text that starts with a digit
#[verifier::external_body] pub fn parse_usize(s: &str) -> (r: Result<usize, NotANumber>) requires s@.len() > 0, digit(s@[0]) ensures (r is Ok) == (digits(s@) && decimal(s@) <= usize::MAX), r is Ok ==> r->Ok_0 == decimal(s@) { unimplemented!() }
#[verifier::external_body] pub fn is_text(s: &[u8]) -> (r: bool) requires words(s@) ensures r == (s@ == seq![116u8, 101, 120, 116]) { unimplemented!() } // eq_ignore_ascii_case(b"text")
pub fn cut(v: &Vec<u8>, n: usize) -> (r: &[u8]) requires n <= v@.len() ensures r@ == v@.take(n as int) { vstd::slice::slice_subrange(v.as_slice(), 0, n) }
// the value of a number literal (lower case): None when it is malformed
pub open spec fn unit(c: char) -> nat { if c == 'k' { 1024 } else if c == 'm' { 1048576 } else if c == 'g' { 1073741824 } else { 1 } }
pub open spec fn literal(s: Seq<char>) -> Option<nat> {
    let d = if unit(s.last()) > 1 { s.drop_last() } else { s };
    if d.len() > 0 && digits(d) && decimal(d) <= usize::MAX { Some(if decimal(d) * unit(s.last()) <= usize::MAX { decimal(d) * unit(s.last()) } else { usize::MAX as nat }) } else { None }
}

#[verifier::external_body] pub fn copy_bytes(v: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == v@ { unimplemented!() } // to_vec
pub uninterp spec fn lossy(s: Seq<u8>) -> Seq<char>; // String::from_utf8_lossy
#[verifier::external_body] pub fn lossy_string(v: Vec<u8>) -> (r: String) ensures r@ == lossy(v@) { unimplemented!() }
pub uninterp spec fn int_text(n: i64) -> Seq<char>; // i64::to_string
pub uninterp spec fn float_text(n: f64) -> Seq<char>;
pub open spec fn text_of(c: StringConstant) -> Seq<char> { match c { StringConstant::String(s) => s@, StringConstant::Number(Number::Integer(n)) => int_text(n), StringConstant::Number(Number::Float(n)) => float_text(n) } }
// text.parse().ok().and_then(|n| (n.to_string() == text).then_some(n))
#[verifier::external_body] pub fn exact_int(s: &String) -> (r: Option<i64>) ensures r is Some ==> int_text(r->0) == s@ { unimplemented!() }
#[verifier::external_body] pub fn exact_float(s: &String) -> (r: Option<f64>) ensures r is Some ==> float_text(r->0) == s@ { unimplemented!() }
pub assume_specification[ u8::to_ascii_lowercase ](b: &u8) -> (r: u8) ensures r == (if 65 <= *b && *b <= 90 { (*b + 32) as u8 } else { *b });
pub assume_specification[ u8::is_ascii_alphabetic ](b: &u8) -> (r: bool) ensures r == alpha(*b);
