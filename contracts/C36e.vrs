use vstd::prelude::*;
verus! {
//@include std.vrs
//@type src/compiler/grammar/actions/action_keep.rs Keep
//@end
//@type src/compiler/grammar/actions/action_editheader.rs AddHeader
//@end
//@type src/compiler/grammar/actions/action_editheader.rs DeleteHeader
//@end
//@type src/compiler/grammar/actions/action_flags.rs Action
//@end
//@type src/compiler/grammar/actions/action_flags.rs EditFlags
//@end
//@type src/compiler/grammar/mod.rs RelationalMatch
//@ attr #[derive(Clone, Copy)]
//@end
//@type src/compiler/grammar/mod.rs MatchType
//@ attr #[derive(Clone, Copy)]
//@end
#[verifier::external_body] pub struct VariableType { x: u8 }
//@type src/compiler/grammar/instruction.rs Instruction
//@ keep Keep AddHeader DeleteHeader EditFlags Convert
//@end
//@type src/compiler/grammar/actions/action_convert.rs Convert
//@end
//@type src/compiler/grammar/test.rs Test
//@ keep Convert
//@end
//@include args_base.vrs
// the text of the literal is the name of a header field; literals with variables are read later
pub uninterp spec fn plain(v: Value) -> Option<Seq<u8>>;
pub uninterp spec fn header_name(s: Seq<u8>) -> bool;
pub uninterp spec fn long(v: Value) -> bool;
pub open spec fn may_name(v: Value) -> bool { plain(v) is Some ==> header_name(plain(v)->0) }
pub struct HeaderText { pub b: Vec<u8> }
#[verifier::external_body] pub fn text_in(v: &Value) -> (r: Option<HeaderText>) ensures (r is Some) == (plain(*v) is Some), r is Some ==> r->0.b@ == plain(*v)->0 { unimplemented!() }
pub struct HeaderName { x: u8 }
impl HeaderText { #[verifier::external_body] pub fn as_name(&self) -> (r: Option<HeaderName>) ensures (r is Some) == header_name(self.b@) { unimplemented!() } }
#[verifier::external_body] pub fn is_long(v: &Value, c: &Compiler) -> (r: bool) ensures r == long(*v) { unimplemented!() }
#[verifier::external_body] pub fn kind_header_name() -> ErrorType { unimplemented!() }
#[verifier::external_body] pub fn kind_long_header() -> ErrorType { unimplemented!() }
#[verifier::external_body] pub fn kind_invalid() -> ErrorType { unimplemented!() }
// lookup_relational: "gt", "ge", "lt", "le", "eq", "ne"
pub uninterp spec fn relation(v: Value) -> Option<RelationalMatch>;
#[verifier::external_body] pub fn relation_of(s: &StringConstant) -> (r: Option<RelationalMatch>) ensures r == relation(constant(*s)) { unimplemented!() }
pub uninterp spec fn comparator_of(s: Seq<char>) -> Comparator;
#[verifier::external_body] pub fn comparator_named(s: String) -> (r: Comparator) ensures r == comparator_of(s@) { unimplemented!() }
#[verifier::external_body] pub fn ascii_casemap() -> (r: Comparator) ensures r == default_comparator() { unimplemented!() }
pub uninterp spec fn default_comparator() -> Comparator;
// the lexer may fail on the next token
pub uninterp spec fn failing(t: Tokenizer<'_>) -> bool;
impl<'x> Tokenizer<'x> {
    #[verifier::external_body] pub fn peek_token(&mut self) -> (r: Option<Result<&Token, CompileError>>) ensures ahead(*final(self)) == ahead(*old(self)), failing(*final(self)) == failing(*old(self)), r is Some && r->0 is Ok ==> !failing(*final(self)) && ahead(*old(self)).len() > 0 && *(r->0->Ok_0) == ahead(*old(self))[0], r is None ==> ahead(*old(self)).len() == 0, r is Some && r->0 is Err ==> failing(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn next_known(&mut self) -> (r: TokenInfo) requires !failing(*old(self)), ahead(*old(self)).len() > 0 ensures took(*old(self), *final(self), r.token) { unimplemented!() }
}
pub open spec fn one_more(a: Seq<Instruction>, b: Seq<Instruction>) -> bool { b.len() == a.len() + 1 }
// ---- keep ["flags"] ---------------------------------------------------------------------------
pub open spec fn keep_reads(a: Seq<Token>, k: Keep, b: Seq<Token>) -> bool { if a.len() > 0 && a[0] == Token::Tag(Word::Flags) { strings_of(a.skip(1), k.flags@, b) && k.flags@.len() > 0 } else { k.flags@.len() == 0 && a == b } }
// ---- addheader [":last"] name value: the tag may stand before either text ----------------------
pub open spec fn is_last(t: Token) -> bool { t == Token::Tag(Word::Last) }
pub open spec fn addheader_reads(a: Seq<Token>, x: AddHeader, b: Seq<Token>) -> bool {
    if x.last { a.len() >= 3 && b == a.skip(3) && text_of(a[2], x.value) && ((is_last(a[0]) && text_of(a[1], x.field_name)) || (text_of(a[0], x.field_name) && is_last(a[1]))) }
    else { a.len() >= 2 && b == a.skip(2) && text_of(a[0], x.field_name) && text_of(a[1], x.value) } }
pub proof fn lemma_skip(a: Seq<Token>, k: int) requires 0 <= k < a.len() ensures a.skip(k)[0] == a[k], a.skip(k).skip(1) == a.skip(k + 1), a.skip(k).len() == a.len() - k { assert(a.skip(k).skip(1) =~= a.skip(k + 1)); }
// ---- the match types ----------------------------------------------------------------------------
pub open spec fn matches_by(w: Word, m: MatchType, a: Seq<Token>, b: Seq<Token>) -> bool { match w {
    Word::Is => m is Is && a == b, Word::Contains => m is Contains && a == b, Word::Matches => m == MatchType::Matches(0) && a == b, Word::Regex => m == MatchType::Regex(0) && a == b, Word::List => m is List && a == b,
    _ => a.len() > 0 && b == a.skip(1) && a[0] is StringConstant && match relation(constant(a[0]->StringConstant_0)) { Some(x) => m == (if w == Word::Value { MatchType::Value(x) } else { MatchType::Count(x) }), None => false } } }
// ---- setflag [variable] flags ------------------------------------------------------------------
pub uninterp spec fn names_variable(t: Token, v: VariableType) -> bool;
pub open spec fn flags_read(a: Seq<Token>, x: EditFlags, b: Seq<Token>) -> bool { x.flags@.len() > 0 && match x.name {
    Some(v) => a.len() > 1 && a[0] is StringConstant && starts_text(a.skip(1)) && names_variable(a[0], v) && strings_of(a.skip(1), x.flags@, b),
    None => strings_of(a, x.flags@, b) && (a[0] is BracketOpen || (a.len() > 1 && a[1] is Semicolon)) } }
#[verifier::external_body] pub fn not_reached() -> (r: Action) requires false { unreachable!() }
// ---- deleteheader -------------------------------------------------------------------------------
pub open spec fn delete_slot(w: Word) -> int { match w { Word::Is | Word::Contains | Word::Matches | Word::Value | Word::Count | Word::Regex => 1, Word::Comparator => 2, Word::Index => 3, Word::Last => 4, Word::Mime => 5, Word::AnyChild => 6, _ => 0 } }
pub open spec fn delete_slots() -> spec_fn(Word) -> int { |w: Word| delete_slot(w) }
pub open spec fn kind_by(x: Arg, before: MatchType) -> MatchType { match x {
    Arg::Mark(w) => match w { Word::Is => MatchType::Is, Word::Contains => MatchType::Contains, Word::Matches => MatchType::Matches(0), Word::Regex => MatchType::Regex(0), _ => before },
    Arg::One(w, v) => match w { Word::Value => MatchType::Value(relation(v)->0), Word::Count => MatchType::Count(relation(v)->0), _ => before }, _ => before } }
pub open spec fn kind_of(h: Seq<Arg>) -> MatchType decreases h.len() { if h.len() == 0 { MatchType::Is } else { kind_by(h.last(), kind_of(h.drop_last())) } }
pub proof fn lemma_kind(h: Seq<Arg>) ensures forall|x: Arg| kind_of(#[trigger] h.push(x)) == kind_by(x, kind_of(h)) { assert forall|x: Arg| kind_of(#[trigger] h.push(x)) == kind_by(x, kind_of(h)) by { assert(h.push(x).drop_last() =~= h); } }
pub open spec fn match_arg(w: Word, a: Seq<Token>) -> Arg { if w == Word::Value || w == Word::Count { Arg::One(w, constant(a[1]->StringConstant_0)) } else { Arg::Mark(w) } }
pub open spec fn index_of(h: Seq<Arg>) -> Option<i32> { match count(h, Word::Index) { Some(n) => Some(if mark(h, Word::Last) { (-(n as i32)) as i32 } else { n as i32 }), None => None } }
pub uninterp spec fn prepared(m: MatchType, a: Seq<Value>, b: Seq<Value>) -> bool;
pub open spec fn starts_text(a: Seq<Token>) -> bool { a.len() > 0 && (a[0] is StringConstant || a[0] is StringVariable || a[0] is BracketOpen) }
pub open spec fn keys_of(a: Seq<Token>, m: MatchType, v: Seq<Value>, b: Seq<Token>) -> bool { if starts_text(a) { exists|k: Seq<Value>| #[trigger] strings_of(a, k, b) && prepared(m, k, v) } else { v.len() == 0 && a == b } }
pub open spec fn deletes(d: DeleteHeader, h: Seq<Arg>, v: Value) -> bool { d.index == index_of(h) && d.match_type == kind_of(h) && d.field_name == v && may_name(v) && d.mime_anychild == mark(h, Word::AnyChild) && (d.mime_anychild ==> mark(h, Word::Mime))
    && d.comparator == (match fixed(h, Word::Comparator) { Some(s) => comparator_of(s), None => default_comparator() }) }
#[verifier::external_body] pub fn negated(i: Option<i32>) -> (r: Option<i32>) requires i is Some ==> i->0 >= 0 ensures r == (match i { Some(n) => Some((-n) as i32), None => None }) { unimplemented!() }
impl<'x> CompilerState<'x> {
    #[verifier::external_body] pub fn parse_variable_name(&mut self, t: TokenInfo, l: bool) -> (r: Result<VariableType, CompileError>) ensures r is Ok ==> calm(*old(self), *final(self)) && final(self).tokens == old(self).tokens && names_variable(t.token, r->Ok_0) { unimplemented!() }
    // compiles regular expressions and puts globs in order
    #[verifier::external_body] pub fn validate_match(&mut self, m: &MatchType, k: &mut Vec<Value>) -> (r: Result<(), CompileError>) ensures *final(self) == *old(self), r is Ok ==> prepared(*m, old(k)@, final(k)@) { unimplemented!() }
//@fn src/compiler/grammar/mod.rs CompilerState::parse_comparator
//@ ret r
//@ replace "if let Some(comparator) = lookup_comparator(&comparator) { comparator } else { Comparator::Other(comparator) }" => "comparator_named(comparator)"
//@ spec
    ensures r is Ok ==> calm(*old(self), *final(self)) && ahead(old(self).tokens).len() > 0 && ahead(final(self).tokens) == ahead(old(self).tokens).skip(1) && exists|s: Seq<char>| #[trigger] fixed_text(ahead(old(self).tokens)[0], s) && r->Ok_0 == comparator_of(s),
//@end
//@fn src/compiler/grammar/actions/action_editheader.rs CompilerState::parse_deleteheader
//@ ret r
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ replace? "Capability::Relational.into()" => "Some(Capability::Relational)"
//@ replace? "Capability::Regex.into()" => "Some(Capability::Regex)"
//@ replace? "Capability::ExtLists.into()" => "Some(Capability::ExtLists)"
//@ replace? "Capability::Mime.into()" => "Some(Capability::Mime)"
//@ replace "Comparator::AsciiCaseMap" => "ascii_casemap()"
//@ replace "index = (self.tokens" => "index = Some(self.tokens"
//@ replace "as i32).into();" => "as i32);"
//@ replace "self.block.match_test_pos.pop();" => ";"
//@ replace "if let Value::Text(header_name) = &field_name" => "if let Some(header_text) = text_in(&field_name)"
//@ replace "HeaderName::parse(header_name.as_ref())" => "header_text.as_name()"
//@ replace "ErrorType::InvalidHeaderName" => "kind_header_name()"
//@ replace "index.map(|i| -i)" => "negated(index)"
//@ replace "self.tokens.peek().map(|r| r.map(|t| &t.token))" => "self.tokens.peek_token()"
//@ spec
    ensures r is Ok ==> exists|h: Seq<Arg>, v: Value, m: Seq<Token>| #[trigger] reads(ahead(old(self).tokens), h, v, m) && at_most_once(h, delete_slots()) && one_more(old(self).instructions@, final(self).instructions@) && match final(self).instructions@.last() { Instruction::DeleteHeader(d) => deletes(d, h, v) && (keys_of(m, d.match_type, d.value_patterns@, ahead(final(self).tokens)) || (d.value_patterns@.len() == 0 && ahead(final(self).tokens) == m)), _ => false },
//@ at start
    let ghost s0 = *self; let ghost a0 = ahead(self.tokens); let ghost mut h: Seq<Arg> = seq![]; let ghost slot = delete_slots(); proof { lemma_none(a0, slot, self.param_check@); }
//@ loopattr 0 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0 loop
    invariant_except_break so_far(a0, h, ahead(self.tokens), slot, self.param_check@),
    invariant self.instructions@.len() == s0.instructions@.len(), match_type == kind_of(h), index == (match count(h, Word::Index) { Some(n) => Some(n as i32), None => None }), index is Some ==> 0 <= index->0 <= 0xffff, index_last == mark(h, Word::Last), mime == mark(h, Word::Mime), mime_anychild == mark(h, Word::AnyChild), comparator == (match fixed(h, Word::Comparator) { Some(s) => comparator_of(s), None => default_comparator() }),
    ensures reads(a0, h, field_name, ahead(self.tokens)), at_most_once(h, slot), may_name(field_name),
//@ at loop 0 start
    let ghost b = ahead(self.tokens); let ghost p = self.param_check@; proof { lemma_kind(h); }
//@ at after "match_type = self.parse_match_type(word)?;"
    proof { let x = match_arg(word, b); lemma_add(a0, h, b, x, ahead(self.tokens), slot, p, self.param_check@); h = h.push(x); }
//@ at after "comparator = self.parse_comparator()?;"
    proof { let s = choose|s: Seq<char>| #[trigger] fixed_text(b[1], s) && comparator == comparator_of(s); let x = Arg::Fixed(Word::Comparator, s); lemma_add(a0, h, b, x, ahead(self.tokens), slot, p, self.param_check@); h = h.push(x); }
//@ at after "index = ("
    proof { let x = Arg::Count(Word::Index, index->0 as usize); lemma_add(a0, h, b, x, ahead(self.tokens), slot, p, self.param_check@); h = h.push(x); }
//@ at after "index_last = true;"
    proof { lemma_add(a0, h, b, Arg::Mark(Word::Last), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Mark(Word::Last)); }
//@ at after "mime = true;"
    proof { lemma_add(a0, h, b, Arg::Mark(Word::Mime), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Mark(Word::Mime)); }
//@ at after "mime_anychild = true;"
    proof { lemma_add(a0, h, b, Arg::Mark(Word::AnyChild), ahead(self.tokens), slot, p, self.param_check@); h = h.push(Arg::Mark(Word::AnyChild)); }
//@ at after "field_name = self.parse_string_token(token_info)?;"
    proof { lemma_last(a0, h, b, field_name, slot, self.param_check@); }
//@ at before "let cmd ="
    let ghost gv = field_name; let ghost gm = ahead(self.tokens); let ghost gk = match_type;
//@ at after "let mut key_list = self.parse_strings(false)?;"
    let ghost k0 = key_list@;
//@ at after "self.validate_match(&match_type, &mut key_list)?;"
    proof { assert(strings_of(gm, k0, ahead(self.tokens)) && prepared(gk, k0, key_list@)); assert(keys_of(gm, gk, key_list@, ahead(self.tokens))); }
//@ at after "self.instructions.push("
    proof { assert(reads(a0, h, gv, gm)); assert(at_most_once(h, slot)); assert(match self.instructions@.last() { Instruction::DeleteHeader(d) => deletes(d, h, gv), _ => false }); }
//@end
//@fn src/compiler/grammar/mod.rs CompilerState::parse_match_type
//@ ret r
//@ replace? "self.block.match_test_pos.push(self.instructions.len());" => ";"
//@ replace "lookup_relational(text.to_string().as_ref())" => "relation_of(text)"
//@ spec
    ensures r is Ok ==> matches_by(word, r->Ok_0, ahead(old(self).tokens), ahead(final(self).tokens)) && calm(*old(self), *final(self)),
//@end
//@fn src/compiler/grammar/mod.rs CompilerState::parse_strings_token
//@ ret r
//@ replace "Value::from(s)" => "value_of(s)"
//@ replace? ".map(|s| vec![s]).map_err(|error_type| CompileError {line_num: token_info.line_num, line_pos: token_info.line_pos, error_type, })" => ".alone()"
//@ spec
    ensures r is Ok ==> calm(*old(self), *final(self)), r is Ok ==> forall|a: Seq<Token>| a.len() > 0 && a[0] == token_info.token && #[trigger] a.skip(1) == ahead(old(self).tokens) ==> strings_of(a, r->Ok_0@, ahead(final(self).tokens)) && r->Ok_0@.len() > 0,
//@end
//@fn src/compiler/grammar/actions/action_flags.rs CompilerState::parse_flag_action
//@ ret r
//@ replace "self.tokens.peek().map(|r| r.map(|t| &t.token))" => "self.tokens.peek_token()"
//@ replace "ErrorType::InvalidArguments" => "kind_invalid()"
//@ replace "_ => unreachable!()," => "_ => not_reached(),"
//@ replace "self.parse_variable_name(token_info, false)?.into()" => "Some(self.parse_variable_name(token_info, false)?)"
//@ spec
    requires word == Word::SetFlag || word == Word::AddFlag || word == Word::RemoveFlag,
    ensures r is Ok ==> one_more(old(self).instructions@, final(self).instructions@) && match final(self).instructions@.last() { Instruction::EditFlags(x) => flags_read(ahead(old(self).tokens), x, ahead(final(self).tokens)) && x.action == (if word == Word::SetFlag { Action::Set } else if word == Word::AddFlag { Action::Add } else { Action::Remove }), _ => false },
//@end
//@fn src/compiler/grammar/actions/action_keep.rs CompilerState::parse_keep
//@ ret r
//@ replace "self.tokens.peek().map(|r| r.map(|t| &t.token))" => "self.tokens.peek_token()"
//@ replace "self.tokens.next().unwrap().unwrap()" => "self.tokens.next_known()"
//@ replace? "Capability::Imap4Flags.into()" => "Some(Capability::Imap4Flags)"
//@ spec
    ensures r is Ok ==> one_more(old(self).instructions@, final(self).instructions@) && match final(self).instructions@.last() { Instruction::Keep(k) => keep_reads(ahead(old(self).tokens), k, ahead(final(self).tokens)) || (failing(old(self).tokens) && k.flags@.len() == 0), _ => false },
//@end
//@fn src/compiler/grammar/actions/action_editheader.rs CompilerState::parse_addheader
//@ ret r
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ replace "if let Value::Text(header_name) = &string" => "if let Some(header_text) = text_in(&string)"
//@ replace "HeaderName::parse(header_name.as_ref())" => "header_text.as_name()"
//@ replace "matches!(&string, Value::Text(value) if value.len() > self.compiler.max_header_size)" => "is_long(&string, self.tokens.compiler)"
//@ replace "ErrorType::InvalidHeaderName" => "kind_header_name()"
//@ replace "ErrorType::HeaderTooLong" => "kind_long_header()"
//@ replace "field_name = string.into();" => "field_name = Some(string);"
//@ spec
    requires !old(self).param_check@[0],
    ensures r is Ok ==> one_more(old(self).instructions@, final(self).instructions@) && match final(self).instructions@.last() { Instruction::AddHeader(x) => addheader_reads(ahead(old(self).tokens), x, ahead(final(self).tokens)) && may_name(x.field_name) && !long(x.value), _ => false },
//@ at start
    let ghost s0 = *self; let ghost a = ahead(self.tokens); let ghost mut k = 0int; proof { assert(a.skip(0) =~= a); }
//@ loopattr 0 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0 loop
    invariant_except_break ahead(self.tokens) == a.skip(k), k == (if last { 1int } else { 0 }) + (if field_name is Some { 1int } else { 0 }), 0 <= k <= a.len(), self.param_check@[0] == last,
        last && field_name is None ==> is_last(a[0]), !last && field_name is Some ==> text_of(a[0], field_name->0), last && field_name is Some ==> (is_last(a[0]) && text_of(a[1], field_name->0)) || (text_of(a[0], field_name->0) && is_last(a[1])), field_name is Some ==> may_name(field_name->0),
    invariant self.instructions@.len() == s0.instructions@.len(), 
    ensures field_name is Some, may_name(field_name->0), !long(value), addheader_reads(a, AddHeader { last: last, field_name: field_name->0, value: value }, ahead(self.tokens)),
//@ at loop 0 start
    proof { if k < a.len() { lemma_skip(a, k); } }
//@ at after "last = true;"
    proof { k = k + 1; }
//@ at after "field_name = string.into();"
    proof { k = k + 1; }
//@end
}
// ---- convert "from" "to" ["parameters"], action and test ------------------------------------------
pub open spec fn convert_reads(a: Seq<Token>, x: Convert, b: Seq<Token>) -> bool { exists|f: Value, m: Seq<Token>, t: Value, n: Seq<Token>, p: Seq<Value>| #[trigger] string_of(a, f, m) && #[trigger] string_of(m, t, n) && #[trigger] strings_of(n, p, b) && x.from_media_type == f && x.to_media_type == t && x.transcoding_params@ == p && p.len() > 0 && !x.is_not }
impl<'x> CompilerState<'x> {
//@fn src/compiler/grammar/actions/action_convert.rs CompilerState::parse_test_convert
//@ ret r
//@ spec
    ensures r is Ok ==> calm(*old(self), *final(self)) && match r->Ok_0 { Test::Convert(x) => convert_reads(ahead(old(self).tokens), x, ahead(final(self).tokens)), _ => false },
//@end
//@fn src/compiler/grammar/actions/action_convert.rs CompilerState::parse_convert
//@ ret r
//@ spec
    ensures r is Ok ==> one_more(old(self).instructions@, final(self).instructions@) && match final(self).instructions@.last() { Instruction::Convert(x) => convert_reads(ahead(old(self).tokens), x, ahead(final(self).tokens)), _ => false },
//@end
}
}
fn main() {}
