// ---- string literals: encoded characters and variable references -----------------------------
#[verifier::external_body] pub struct VariableType { x: u8 }
//@type src/compiler/mod.rs Number
//@end
#[verifier::external_body] pub struct Regex { x: u8 }
pub enum Value { Text(String), Number(Number), Variable(VariableType), Regex(Regex), List(Vec<Value>) } // Text holds an Arc<String>
//@type src/compiler/mod.rs ErrorType
//@ keep InvalidNamespace InvalidEnvelope InvalidUnicodeSequence InvalidNumber InvalidMatchVariable
//@end
//@type src/compiler/lexer/string.rs State
//@end
//@type src/lib.rs Compiler
//@ keep max_match_variables
//@end
//@type src/compiler/grammar/instruction.rs CompilerState
//@ keep compiler vars_match_max
//@end
//@const src/lib.rs MAX_MATCH_VARIABLES
pub uninterp spec fn lossy(s: Seq<u8>) -> Seq<char>; // String::from_utf8_lossy
pub trait Shown: Sized { spec fn shown(self) -> Seq<char>; fn text_is(self, v: &str) -> (r: bool) ensures r == (self.shown() == v@); } // n.to_string() == v
impl Shown for i64 { uninterp spec fn shown(self) -> Seq<char>; #[verifier::external_body] fn text_is(self, v: &str) -> (r: bool) { unimplemented!() } }
impl Shown for f64 { uninterp spec fn shown(self) -> Seq<char>; #[verifier::external_body] fn text_is(self, v: &str) -> (r: bool) { unimplemented!() } }
pub open spec fn shows(v: Value, t: Seq<char>) -> bool { match v { Value::Text(s) => s@ == t, Value::Number(Number::Integer(n)) => n.shown() == t, Value::Number(Number::Float(n)) => n.shown() == t, _ => false } }
#[verifier::external_body] pub fn float_of<'a>(buf: &'a [u8]) -> (r: Option<(&'a str, f64)>) ensures r is Some ==> (r->0).0@ == lossy(buf@) { unimplemented!() }
#[verifier::external_body] pub fn int_of<'a>(buf: &'a [u8]) -> (r: Option<(&'a str, i64)>) ensures r is Some ==> (r->0).0@ == lossy(buf@) { unimplemented!() }
#[verifier::external_body] pub fn lossy_text(buf: &[u8]) -> (r: String) ensures r@ == lossy(buf@) { unimplemented!() }
#[verifier::external_body] pub fn no_text() -> (r: String) ensures r@ == lossy(Seq::<u8>::empty()) { unimplemented!() }
pub open spec fn name_byte(b: u8) -> bool { (97 <= b && b <= 122) || (65 <= b && b <= 90) || (48 <= b && b <= 57) || b == 95 || b == 91 || b == 93 || b == 42 || b == 45 || b == 46 || b == 58 }
pub open spec fn hex_byte(b: u8) -> bool { (97 <= b && b <= 102) || (65 <= b && b <= 70) || (48 <= b && b <= 57) }
pub open spec fn dec_byte(b: u8) -> bool { 48 <= b && b <= 57 }
pub open spec fn names(s: Seq<u8>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> name_byte(#[trigger] s[i]) }
pub open spec fn hexes(s: Seq<u8>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> hex_byte(#[trigger] s[i]) }
pub open spec fn decs(s: Seq<u8>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> dec_byte(#[trigger] s[i]) }
// the text has no ${
pub open spec fn no_ref(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() - 1 ==> !(#[trigger] b[i] == 36 && b[i + 1] == 123) }
pub open spec fn chars_of(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i] as char) }
// std::str::from_utf8(..).unwrap() of a name or of hexadecimal digits
#[verifier::external_body] pub fn ascii_str<'a>(s: &'a [u8]) -> (r: &'a str) requires s@.len() > 0, forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]) < 128 ensures r@ == chars_of(s@) { unimplemented!() }
pub fn part<'a>(s: &'a [u8], a: usize, b: usize) -> (r: &'a [u8]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { vstd::slice::slice_subrange(s, a, b) }
pub fn get_part<'a>(s: &'a [u8], a: usize, b: usize) -> (r: Option<&'a [u8]>) ensures (r is Some) == (a <= b <= s@.len()), r is Some ==> r->0@ == s@.subrange(a as int, b as int) { if a <= b && b <= s.len() { Some(vstd::slice::slice_subrange(s, a, b)) } else { None } }
#[verifier::external_body] pub fn same_word(s: &[u8], w: &str) -> (r: bool) { unimplemented!() } // eq_ignore_ascii_case
#[verifier::external_body] pub fn hex_u8(s: &str) -> (r: Result<u8, ()>) { unimplemented!() }
#[verifier::external_body] pub fn hex_u32(s: &str) -> (r: Result<u32, ()>) { unimplemented!() }
pub open spec fn scalar(n: u32) -> bool { n < 0xd800 || (0xe000 <= n && n < 0x110000) }
// char::from_u32(n).ok_or(..) and its UTF-8 form
#[verifier::external_body] pub fn code_point(n: u32) -> (r: Result<Vec<u8>, ErrorType>) ensures (r is Ok) == scalar(n), r is Ok ==> 1 <= r->Ok_0@.len() <= 4 && r->Ok_0@ == vstd::utf8::encode_utf8(seq![n as char]) { unimplemented!() }
#[verifier::external_body] pub fn parse_num(s: &str) -> (r: Result<usize, ErrorType>) requires s@.len() > 0, forall|i: int| 0 <= i < s@.len() ==> '0' <= #[trigger] s@[i] <= '9' ensures r is Err ==> r->Err_0 is InvalidNumber { unimplemented!() }
pub fn least(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
impl<'x> CompilerState<'x> {
    #[verifier::external_body] pub fn parse_variable(&self, n: &str, ns: bool) -> (r: Result<Option<VariableType>, ErrorType>) requires n@.len() > 0, forall|i: int| 0 <= i < n@.len() ==> name_byte(#[trigger] n@[i] as u8) { unimplemented!() }
    #[verifier::external_body] pub fn register_match_var(&mut self, n: usize) -> (r: bool) ensures final(self).compiler == old(self).compiler { unimplemented!() }
//@fn src/compiler/lexer/string.rs CompilerState::parse_match_variable
//@ ret r
//@ replace "var_name.parse().map_err(|_| ErrorType::InvalidNumber(var_name.to_string()))?" => "parse_num(var_name)?"
//@ replace "std::cmp::min(" => "least("
//@ replace "VariableType::Match(num)" => "match_variable(num)"
//@ spec
    requires var_name@.len() > 0, forall|i: int| 0 <= i < var_name@.len() ==> '0' <= #[trigger] var_name@[i] <= '9', old(self).vars_match_max <= usize::MAX,
    ensures final(self).compiler == old(self).compiler,
        // the number of a match variable is below both limits, or the script is refused
        r is Ok && r->Ok_0 is Some ==> exists|n: usize| r->Ok_0->0 == #[trigger] numbered(n) && n < old(self).compiler.max_match_variables && n < MAX_MATCH_VARIABLES,
        r is Err ==> !(r->Err_0 is InvalidNamespace) && !(r->Err_0 is InvalidEnvelope),
//@end
//@fn src/compiler/lexer/string.rs CompilerState::tokenize_string
//@ ret r
//@ replace "(pos, &ch)" => "pos"
//@ replace "bytes.iter().enumerate()" => "0..bytes.len()"
//@ replace "let mut is_var_error = false;" => "let ch = bytes[pos]; let mut is_var_error = false;"
//@ replace "std::str::from_utf8(&bytes[var_start_pos..pos]).unwrap()" => "ascii_str(part(bytes, var_start_pos, pos))"
//@ replace "std::str::from_utf8(&bytes[hex_start..pos]).unwrap()" => "ascii_str(part(bytes, hex_start, pos))"
//@ replace "bytes.get(var_start_pos..pos)" => "get_part(bytes, var_start_pos, pos)"
//@ replace "enc.eq_ignore_ascii_case(b\"hex\")" => "same_word(enc, \"hex\")"
//@ replace "enc.eq_ignore_ascii_case(b\"unicode\")" => "same_word(enc, \"unicode\")"
//@ replace "u8::from_str_radix(code, 16)" => "hex_u8(code)"
//@ replace "u32::from_str_radix(code, 16)" => "hex_u32(code)"
//@ replace "let mut buf = [0; 4];" => ";"
//@ replace "char::from_u32(ch).ok_or(ErrorType::InvalidUnicodeSequence(ch))?.encode_utf8(&mut buf).as_bytes()" => "code_point(ch)?.as_slice()"
//@ replace "&bytes[var_start_pos - 2..pos + 1]" => "part(bytes, var_start_pos - 2, pos + 1)"
//@ replace "&bytes[var_start_pos - 2..bytes.len()]" => "part(bytes, var_start_pos - 2, bytes.len())"
//@ replace "Value::Text(String::new().into())" => "Value::Text(no_text())"
//@ spec
    ensures no_ref(bytes@) ==> r is Ok && shows(r->Ok_0, lossy(bytes@)), final(self).compiler == old(self).compiler,
    decreases (if parse_decoded { 1int } else { 0int }), 1int,
//@ at before loop 0
    let ghost mut flushed: int = 0; let ghost mut plain: bool = true; let ghost mut before: Seq<u8> = Seq::empty();
    proof { assert(bytes@.subrange(0, 0) =~= Seq::<u8>::empty()); axiom_char_eq(); assert(bytes.len() <= usize::MAX); }
//@ loop 0 for it it
    invariant 0 <= flushed <= bytes@.len(), self.compiler == old(self).compiler, bytes@.len() <= usize::MAX,
        it.index() > 0 ==> last_ch == bytes@[it.index() - 1], it.index() == 0 ==> last_ch == 0 && decode_buf@.len() == 0 && flushed == 0,
        it.index() > 0 && state is None && last_ch == 36 ==> decode_buf@.len() > 0 && decode_buf@.last() == 36 && flushed < it.index(),
        state is None ==> flushed <= it.index() && hex_start == usize::MAX && (plain ==> decode_buf@ == bytes@.subrange(flushed, it.index() as int)),
        !(state is None) ==> 2 <= var_start_pos <= it.index() && flushed <= var_start_pos - 2 && bytes@[var_start_pos - 2] == 36 && bytes@[var_start_pos - 1] == 123,
        state is Variable ==> decode_buf@ == before && hex_start == usize::MAX && names(bytes@, var_start_pos as int, it.index() as int) && (var_is_number ==> decs(bytes@, var_start_pos as int, it.index() as int)) && (plain ==> decode_buf@ == bytes@.subrange(flushed, var_start_pos - 2)),
        state is Encoded ==> state->initial_buf_size <= decode_buf@.len() && decode_buf@.take(state->initial_buf_size as int) == before && (hex_start != usize::MAX ==> var_start_pos <= hex_start < it.index() && hexes(bytes@, hex_start as int, it.index() as int)) && (plain ==> decode_buf@.take(state->initial_buf_size as int) == bytes@.subrange(flushed, var_start_pos - 2)),
        no_ref(bytes@) ==> state is None && flushed == 0 && plain && items@.len() == 0,
//@ at after "state = State::Variable;"
    proof { before = decode_buf@; }
//@ at after "decode_buf.clear();"
    proof { before = Seq::empty(); flushed = var_start_pos - 2; plain = true; assert(bytes@.subrange(flushed, flushed) =~= Seq::<u8>::empty()); }
//@ at after "state = State::None;" #1
    proof { flushed = if is_var_error { var_start_pos - 2 } else { pos + 1 }; plain = true; assert(bytes@.subrange(flushed, flushed) =~= Seq::<u8>::empty()); }
//@ at after "state = State::None;" #2
    proof { plain = false; }
//@ at before "decode_buf.extend_from_slice(&bytes[var_start_pos - 2..pos + 1])"
    proof { if state is Encoded { let n = state->initial_buf_size as int; assert(decode_buf@.take(n) =~= decode_buf@); } assert(plain ==> decode_buf@ == bytes@.subrange(flushed, var_start_pos - 2)); }
//@ at after "decode_buf.extend_from_slice(&bytes[var_start_pos - 2..pos + 1]);"
    // a reference that is not well formed stays as it is written, after exactly the text before it
    proof { assert(decode_buf@ =~= before + bytes@.subrange(var_start_pos - 2, pos + 1)); if plain { assert(decode_buf@ =~= bytes@.subrange(flushed, pos + 1)); } }
//@ at before "last_ch = ch;"
    proof { if state is None && plain { assert(decode_buf@ =~= bytes@.subrange(flushed, pos + 1)); } }
//@ at after "decode_buf.extend_from_slice(&bytes[var_start_pos - 2..bytes.len()]);" #0
    proof { assert(decode_buf@ =~= before + bytes@.subrange(var_start_pos - 2, bytes@.len() as int)); }
//@ at after "decode_buf.extend_from_slice(&bytes[var_start_pos - 2..bytes.len()]);" #1
    proof { assert(decode_buf@ =~= before + bytes@.subrange(var_start_pos - 2, bytes@.len() as int)); }
//@ at after loop 0
    proof { assert(bytes@.subrange(0, bytes@.len() as int) =~= bytes@); if no_ref(bytes@) && decode_buf@.len() == 0 { assert(bytes@ =~= Seq::<u8>::empty()); } }
//@end
//@fn src/compiler/lexer/string.rs CompilerState::add_value
//@ ret r
//@ replace "std::str::from_utf8(buf).ok().and_then(|v| (v, v.parse::<f64>().ok()?).into())" => "float_of(buf)"
//@ replace "std::str::from_utf8(buf).ok().and_then(|v| (v, v.parse::<i64>().ok()?).into())" => "int_of(buf)"
//@ replace "n.to_string() == v" => "n.text_is(v)"
//@ replace "buf.to_vec().into_string().into()" => "lossy_text(buf)"
//@ replace "items.extend(new_items)" => "append_values(items, new_items)"
//@ spec
    ensures final(self).compiler == old(self).compiler, no_ref(buf@) ==> r is Ok && final(items)@.len() == old(items)@.len() + 1 && shows(final(items)@.last(), lossy(buf@)),
        !parse_decoded ==> r is Ok && final(items)@.len() == old(items)@.len() + 1 && shows(final(items)@.last(), lossy(buf@)) && final(items)@.drop_last() == old(items)@,
    decreases (if parse_decoded { 1int } else { 0int }), 0int,
//@end
}
pub uninterp spec fn numbered(n: usize) -> VariableType;
#[verifier::external_body] pub fn match_variable(n: usize) -> (r: VariableType) ensures r == numbered(n) { unimplemented!() }
#[verifier::external_body] pub fn append_values(a: &mut Vec<Value>, b: Vec<Value>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
