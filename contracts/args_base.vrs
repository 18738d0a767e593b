// ---- the arguments of commands: tokens, and the commands read from them ----------------------
#[verifier::external_body] pub struct Number { x: u8 }
#[verifier::external_body] pub struct Comparator { x: u8 }
//@type src/compiler/lexer/mod.rs StringConstant
//@end
//@type src/compiler/lexer/word.rs Word
//@ attr #[derive(PartialEq, Eq, Clone, Copy, Structural)]
//@end
//@type src/compiler/lexer/mod.rs Token
//@end
//@type src/compiler/lexer/tokenizer.rs TokenInfo
//@end
#[verifier::external_body] pub struct ErrorType { x: u8 }
pub struct CompileError { pub line_num: usize, pub line_pos: usize, pub error_type: ErrorType }
#[verifier::external_body] pub fn kind_duplicate() -> ErrorType { unimplemented!() }
#[verifier::external_body] pub fn kind_undeclared(c: Capability) -> ErrorType { unimplemented!() }
#[verifier::external_body] pub fn an_error() -> CompileError { unimplemented!() }
//@type src/compiler/grammar/mod.rs Capability
//@end
#[verifier::external_body] pub struct Value { x: u8 }
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// From<StringConstant> for Value, and the text of a literal with variables in it
pub uninterp spec fn constant(s: StringConstant) -> Value;
pub uninterp spec fn tokenized(s: Seq<u8>, v: Value) -> bool;
#[verifier::external_body] pub fn value_of(s: StringConstant) -> (r: Value) ensures r == constant(s) { unimplemented!() }
pub struct Compiler { pub x: u8 }
pub struct Tokenizer<'x> { pub compiler: &'x Compiler }
// the tokens not yet read
pub uninterp spec fn ahead(t: Tokenizer<'_>) -> Seq<Token>;
pub open spec fn took(a: Tokenizer<'_>, b: Tokenizer<'_>, t: Token) -> bool { ahead(a).len() > 0 && t == ahead(a)[0] && ahead(b) == ahead(a).skip(1) }
impl<'x> Tokenizer<'x> {
    #[verifier::external_body] pub fn unwrap_next(&mut self) -> (r: Result<TokenInfo, CompileError>) ensures r is Ok ==> took(*old(self), *final(self), r->Ok_0.token) { unimplemented!() }
    #[verifier::external_body] pub fn expect_number(&mut self, max: usize) -> (r: Result<usize, CompileError>) ensures r is Ok ==> took(*old(self), *final(self), Token::Number(r->Ok_0)) && r->Ok_0 <= max { unimplemented!() }
    #[verifier::external_body] pub fn expect_static_string(&mut self) -> (r: Result<String, CompileError>) ensures r is Ok ==> ahead(*old(self)).len() > 0 && fixed_text(ahead(*old(self))[0], r->Ok_0@) && ahead(*final(self)) == ahead(*old(self)).skip(1) { unimplemented!() }
}
pub uninterp spec fn fixed_text(t: Token, s: Seq<char>) -> bool;
impl TokenInfo { #[verifier::external_body] pub fn custom(self, e: ErrorType) -> CompileError { unimplemented!() } #[verifier::external_body] pub fn expected(self, s: &str) -> CompileError { unimplemented!() } #[verifier::external_body] pub fn missing_tag(self, s: &str) -> CompileError { unimplemented!() } }
//@const src/compiler/grammar/instruction.rs MAX_PARAMS
//@type src/compiler/grammar/instruction.rs CompilerState
//@ keep tokens instructions param_check
//@end
#[verifier::external_body] pub fn slot_mut(a: &mut [bool; MAX_PARAMS], i: usize) -> (r: Option<&mut bool>)
    ensures (r is Some) == (i < MAX_PARAMS), r is Some ==> *(r->0) == old(a)@[i as int] && final(a)@ == old(a)@.update(i as int, *final(r->0)), r is None ==> final(a)@ == old(a)@ { unimplemented!() }
// ---- what the tokens say ----------------------------------------------------------------------
pub open spec fn text_of(t: Token, v: Value) -> bool { match t { Token::StringConstant(s) => v == constant(s), Token::StringVariable(s) => tokenized(s@, v), _ => false } }
// the rest of a list: texts up to the closing bracket
pub open spec fn list_of(a: Seq<Token>, v: Seq<Value>, b: Seq<Token>) -> bool decreases a.len() {
    if a.len() == 0 { false } else if a[0] is BracketClose { v.len() == 0 && b == a.skip(1) } else if a[0] is Comma { list_of(a.skip(1), v, b) } else { v.len() > 0 && text_of(a[0], v[0]) && list_of(a.skip(1), v.skip(1), b) } }
pub open spec fn string_of(a: Seq<Token>, v: Value, b: Seq<Token>) -> bool { a.len() > 0 && if a[0] is BracketOpen { list_of(a.skip(1), seq![v], b) } else { text_of(a[0], v) && b == a.skip(1) } }
pub open spec fn strings_of(a: Seq<Token>, v: Seq<Value>, b: Seq<Token>) -> bool { a.len() > 0 && if a[0] is BracketOpen { list_of(a.skip(1), v, b) } else { v.len() == 1 && text_of(a[0], v[0]) && b == a.skip(1) } }
// one tagged argument
pub enum Arg { Mark(Word), One(Word, Value), Many(Word, Seq<Value>), Count(Word, usize), Fixed(Word, Seq<char>) }
pub open spec fn word_of(x: Arg) -> Word { match x { Arg::Mark(w) => w, Arg::One(w, _) => w, Arg::Many(w, _) => w, Arg::Count(w, _) => w, Arg::Fixed(w, _) => w } }
pub open spec fn tagged(a: Seq<Token>, x: Arg, b: Seq<Token>) -> bool { a.len() > 0 && a[0] == Token::Tag(word_of(x)) && match x {
    Arg::Mark(_) => b == a.skip(1), Arg::One(_, v) => string_of(a.skip(1), v, b), Arg::Many(_, v) => strings_of(a.skip(1), v, b),
    Arg::Count(_, n) => a.len() > 1 && a[1] == Token::Number(n) && b == a.skip(1).skip(1), Arg::Fixed(_, s) => a.len() > 1 && fixed_text(a[1], s) && b == a.skip(1).skip(1) } }
// tagged arguments one after the other
pub open spec fn tags_of(a: Seq<Token>, h: Seq<Arg>, b: Seq<Token>) -> bool decreases h.len() { if h.len() == 0 { a == b } else { exists|m: Seq<Token>| #[trigger] here(m) && tags_of(a, h.drop_last(), m) && tagged(m, h.last(), b) } }
pub open spec fn here(m: Seq<Token>) -> bool { true }
// the tagged arguments and the text behind them
pub open spec fn reads(a: Seq<Token>, h: Seq<Arg>, v: Value, b: Seq<Token>) -> bool { exists|m: Seq<Token>| #[trigger] tags_of(a, h, m) && m.len() > 0 && text_of(m[0], v) && b == m.skip(1) }
// what is given for a tag
pub open spec fn mark(h: Seq<Arg>, w: Word) -> bool decreases h.len() { h.len() > 0 && (h.last() == Arg::Mark(w) || mark(h.drop_last(), w)) }
pub open spec fn one(h: Seq<Arg>, w: Word) -> Option<Value> decreases h.len() { if h.len() == 0 { None } else { match h.last() { Arg::One(x, v) => if x == w { Some(v) } else { one(h.drop_last(), w) }, _ => one(h.drop_last(), w) } } }
pub open spec fn many(h: Seq<Arg>, w: Word) -> Seq<Value> decreases h.len() { if h.len() == 0 { seq![] } else { match h.last() { Arg::Many(x, v) => if x == w { v } else { many(h.drop_last(), w) }, _ => many(h.drop_last(), w) } } }
pub open spec fn count(h: Seq<Arg>, w: Word) -> Option<usize> decreases h.len() { if h.len() == 0 { None } else { match h.last() { Arg::Count(x, v) => if x == w { Some(v) } else { count(h.drop_last(), w) }, _ => count(h.drop_last(), w) } } }
pub open spec fn fixed(h: Seq<Arg>, w: Word) -> Option<Seq<char>> decreases h.len() { if h.len() == 0 { None } else { match h.last() { Arg::Fixed(x, v) => if x == w { Some(v) } else { fixed(h.drop_last(), w) }, _ => fixed(h.drop_last(), w) } } }
// every tag at most once, tags that exclude each other share a number
pub open spec fn used(h: Seq<Arg>, slot: spec_fn(Word) -> int, p: Seq<bool>) -> bool { forall|i: int| 0 <= i < h.len() ==> 0 < slot(word_of(#[trigger] h[i])) <= MAX_PARAMS && p[slot(word_of(h[i])) - 1] }
pub open spec fn at_most_once(h: Seq<Arg>, slot: spec_fn(Word) -> int) -> bool { forall|i: int, j: int| 0 <= i < j < h.len() ==> slot(word_of(#[trigger] h[i])) != slot(word_of(#[trigger] h[j])) }
#[verifier::opaque] pub open spec fn so_far(a: Seq<Token>, h: Seq<Arg>, b: Seq<Token>, slot: spec_fn(Word) -> int, p: Seq<bool>) -> bool { tags_of(a, h, b) && used(h, slot, p) && at_most_once(h, slot) && p.len() == MAX_PARAMS }
pub proof fn lemma_none(a: Seq<Token>, slot: spec_fn(Word) -> int, p: Seq<bool>) requires p.len() == MAX_PARAMS ensures so_far(a, seq![], a, slot, p), forall|w: Word| !#[trigger] mark(seq![], w), forall|w: Word| #[trigger] one(seq![], w) is None, forall|w: Word| #[trigger] many(seq![], w) == Seq::<Value>::empty(), forall|w: Word| #[trigger] count(seq![], w) is None, forall|w: Word| #[trigger] fixed(seq![], w) is None { reveal(so_far); }
pub proof fn lemma_add(a: Seq<Token>, h: Seq<Arg>, b: Seq<Token>, x: Arg, c: Seq<Token>, slot: spec_fn(Word) -> int, p: Seq<bool>, q: Seq<bool>)
    requires so_far(a, h, b, slot, p), tagged(b, x, c), 0 < slot(word_of(x)) <= MAX_PARAMS, !p[slot(word_of(x)) - 1], q == p.update(slot(word_of(x)) - 1, true),
    ensures so_far(a, h.push(x), c, slot, q), forall|w: Word| #[trigger] mark(h.push(x), w) == (mark(h, w) || x == Arg::Mark(w)),
        forall|w: Word| #[trigger] one(h.push(x), w) == (match x { Arg::One(y, v) => if y == w { Some(v) } else { one(h, w) }, _ => one(h, w) }),
        forall|w: Word| #[trigger] many(h.push(x), w) == (match x { Arg::Many(y, v) => if y == w { v } else { many(h, w) }, _ => many(h, w) }),
        forall|w: Word| #[trigger] count(h.push(x), w) == (match x { Arg::Count(y, v) => if y == w { Some(v) } else { count(h, w) }, _ => count(h, w) }),
        forall|w: Word| #[trigger] fixed(h.push(x), w) == (match x { Arg::Fixed(y, v) => if y == w { Some(v) } else { fixed(h, w) }, _ => fixed(h, w) }),
{
    reveal(so_far); let g = h.push(x); assert(g.drop_last() =~= h); assert(g.last() == x); assert(tags_of(a, g.drop_last(), b) && tagged(b, g.last(), c)); assert(here(b)); assert(tags_of(a, g, c));
    assert(used(g, slot, q)) by { assert forall|i: int| 0 <= i < g.len() implies 0 < slot(word_of(#[trigger] g[i])) <= MAX_PARAMS && q[slot(word_of(g[i])) - 1] by { if i < h.len() { assert(g[i] == h[i]); } } }
    assert(at_most_once(g, slot)) by { assert forall|i: int, j: int| 0 <= i < j < g.len() implies slot(word_of(#[trigger] g[i])) != slot(word_of(#[trigger] g[j])) by { assert(g[i] == h[i]); if j < h.len() { assert(g[j] == h[j]); } } }
}
pub proof fn lemma_last(a: Seq<Token>, h: Seq<Arg>, b: Seq<Token>, v: Value, slot: spec_fn(Word) -> int, p: Seq<bool>) requires so_far(a, h, b, slot, p), b.len() > 0, text_of(b[0], v) ensures reads(a, h, v, b.skip(1)), at_most_once(h, slot) { reveal(so_far); }
// a tag that has been read is marked as read
pub proof fn lemma_seen(a: Seq<Token>, h: Seq<Arg>, b: Seq<Token>, slot: spec_fn(Word) -> int, p: Seq<bool>, w: Word) requires so_far(a, h, b, slot, p), mark(h, w) || count(h, w) is Some || one(h, w) is Some || fixed(h, w) is Some ensures p[slot(w) - 1] { reveal(so_far); lemma_found(h, w); }
pub proof fn lemma_found(h: Seq<Arg>, w: Word) requires mark(h, w) || count(h, w) is Some || one(h, w) is Some || fixed(h, w) is Some ensures exists|i: int| 0 <= i < h.len() && word_of(#[trigger] h[i]) == w decreases h.len() {
    if word_of(h.last()) == w { assert(h[h.len() - 1] == h.last()); } else { lemma_found(h.drop_last(), w); let i = choose|i: int| 0 <= i < h.drop_last().len() && word_of(#[trigger] h.drop_last()[i]) == w; assert(h[i] == h.drop_last()[i]); }
}
// one instruction more; those before may only be marked as setting match variables
pub open spec fn added(a: Seq<Instruction>, b: Seq<Instruction>, n: int) -> bool { b.len() == a.len() + n }
pub proof fn lemma_list_add(a: Seq<Token>, v: Seq<Value>, b: Seq<Token>, c: Seq<Token>) requires listing(a, v, b), b.len() > 0, b[0] is BracketClose, c == b.skip(1) ensures list_of(a, v, c) decreases v.len(), a.len() { lemma_listing(a, v, b); lemma_whole(a, v, b, c); }
// the same list, seen from its start
pub open spec fn listing(a: Seq<Token>, v: Seq<Value>, b: Seq<Token>) -> bool { exists|n: int| #[trigger] read_n(a, n, v, b) }
pub open spec fn read_n(a: Seq<Token>, n: int, v: Seq<Value>, b: Seq<Token>) -> bool decreases n { if n <= 0 { n == 0 && v.len() == 0 && a == b } else { a.len() > 0 && !(a[0] is BracketClose) && if a[0] is Comma { read_n(a.skip(1), n - 1, v, b) } else { v.len() > 0 && text_of(a[0], v[0]) && read_n(a.skip(1), n - 1, v.skip(1), b) } } }
pub proof fn lemma_listing(a: Seq<Token>, v: Seq<Value>, b: Seq<Token>) {}
pub proof fn lemma_whole(a: Seq<Token>, v: Seq<Value>, b: Seq<Token>, c: Seq<Token>) requires listing(a, v, b), b.len() > 0, b[0] is BracketClose, c == b.skip(1) ensures list_of(a, v, c) { let n = choose|n: int| read_n(a, n, v, b); lemma_whole_n(a, n, v, b, c); }
pub proof fn lemma_whole_n(a: Seq<Token>, n: int, v: Seq<Value>, b: Seq<Token>, c: Seq<Token>) requires read_n(a, n, v, b), b.len() > 0, b[0] is BracketClose, c == b.skip(1) ensures list_of(a, v, c) decreases n { if n > 0 { if a[0] is Comma { lemma_whole_n(a.skip(1), n - 1, v, b, c); } else { lemma_whole_n(a.skip(1), n - 1, v.skip(1), b, c); } } }
// one token more at the end
pub proof fn lemma_longer(a: Seq<Token>, n: int, v: Seq<Value>, b: Seq<Token>, x: Option<Value>) requires read_n(a, n, v, b), b.len() > 0, !(b[0] is BracketClose), match x { Some(y) => !(b[0] is Comma) && text_of(b[0], y), None => b[0] is Comma }
    ensures read_n(a, n + 1, match x { Some(y) => v.push(y), None => v }, b.skip(1)) decreases n
{
    reveal_with_fuel(read_n, 3); let w = match x { Some(y) => v.push(y), None => v };
    if n > 0 { if a[0] is Comma { lemma_longer(a.skip(1), n - 1, v, b, x); } else { lemma_longer(a.skip(1), n - 1, v.skip(1), b, x); match x { Some(y) => { assert(v.push(y).skip(1) =~= v.skip(1).push(y)); } None => {} } assert(w[0] == v[0]); } }
    else { match x { Some(y) => { assert(w.skip(1) =~= v); } None => {} } }
}
pub proof fn lemma_one_more(a: Seq<Token>, v: Seq<Value>, b: Seq<Token>, x: Option<Value>) requires listing(a, v, b), b.len() > 0, !(b[0] is BracketClose), match x { Some(y) => !(b[0] is Comma) && text_of(b[0], y), None => b[0] is Comma } ensures listing(a, match x { Some(y) => v.push(y), None => v }, b.skip(1)) { let n = choose|n: int| read_n(a, n, v, b); lemma_longer(a, n, v, b, x); }
pub proof fn lemma_no_list(a: Seq<Token>) ensures listing(a, seq![], a) { assert(read_n(a, 0, seq![], a)); }
pub open spec fn calm(a: CompilerState<'_>, b: CompilerState<'_>) -> bool { b.param_check == a.param_check && b.instructions@.len() == a.instructions@.len() }
impl<'x> CompilerState<'x> {
    #[verifier::external_body] pub fn has_capability(&self, c: &Capability) -> bool { unimplemented!() }
    // reads the variables of a text (may mark earlier tests)
    #[verifier::external_body] pub fn tokenize_string(&mut self, s: &Vec<u8>, p: bool) -> (r: Result<Value, ErrorType>) ensures calm(*old(self), *final(self)), final(self).tokens == old(self).tokens, r is Ok ==> tokenized(s@, r->Ok_0) { unimplemented!() }
//@fn src/compiler/grammar/mod.rs CompilerState::validate_argument
//@ ret r
//@ replace "self.param_check.get_mut(arg_num - 1)" => "slot_mut(&mut self.param_check, arg_num - 1)"
//@ replace "ErrorType::DuplicatedParameter" => "kind_duplicate()"
//@ replace "ErrorType::UndeclaredCapability(capability)" => "kind_undeclared(capability)"
//@ spec
    ensures final(self).tokens == old(self).tokens, final(self).instructions == old(self).instructions,
        r is Ok && 0 < arg_num <= MAX_PARAMS ==> !old(self).param_check@[arg_num - 1] && final(self).param_check@ == old(self).param_check@.update(arg_num - 1, true),
        r is Ok && arg_num == 0 ==> final(self).param_check == old(self).param_check,
//@end
//@fn src/compiler/grammar/mod.rs CompilerState::parse_string_token
//@ ret r
//@ replace "Value::from(s)" => "value_of(s)"
//@ replace? ".map_err(|error_type| CompileError {line_num: token_info.line_num, line_pos: token_info.line_pos, error_type, })" => ".blamed()"
//@ spec
    ensures calm(*old(self), *final(self)), final(self).tokens == old(self).tokens, r is Ok ==> text_of(token_info.token, r->Ok_0),
//@end
//@fn src/compiler/grammar/mod.rs CompilerState::parse_string_list
//@ ret r
//@ replace "Value::from(s)" => "value_of(s)"
//@ replace? ".map_err(|error_type| { CompileError {line_num: token_info.line_num, line_pos: token_info.line_pos, error_type, } })" => ".blamed()"
//@ spec
    ensures r is Ok ==> calm(*old(self), *final(self)), r is Ok ==> list_of(ahead(old(self).tokens), r->Ok_0@, ahead(final(self).tokens)) && (allow_empty || r->Ok_0@.len() > 0),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ at start
    let ghost a = ahead(self.tokens); proof { lemma_no_list(a); } let ghost s0 = *self;
//@ loop 0 loop
    invariant_except_break listing(a, strings@, ahead(self.tokens)),
    invariant calm(s0, *self), a == ahead(s0.tokens), s0 == *old(self),
    ensures list_of(a, strings@, ahead(self.tokens)), allow_empty || strings@.len() > 0,
//@ at loop 0 start
    let ghost b = ahead(self.tokens); let ghost v0 = strings@; proof { if b.len() > 0 && b[0] is BracketClose { lemma_whole(a, v0, b, b.skip(1)); } else if b.len() > 0 && b[0] is Comma { lemma_one_more(a, v0, b, None); } }
//@ at loop 0 end
    proof { if strings@.len() > v0.len() { lemma_one_more(a, v0, b, Some(strings@.last())); assert(strings@ =~= v0.push(strings@.last())); } }
//@end
//@fn src/compiler/grammar/mod.rs CompilerState::parse_string
//@ ret r
//@ replace "Value::from(s)" => "value_of(s)"
//@ at before "match items.pop()"
    proof { if items@.len() == 1 { assert(seq![items@[0]] =~= items@); } }
//@ replace? ".map_err(|error_type| CompileError {line_num: next_token.line_num, line_pos: next_token.line_pos, error_type, })" => ".blamed()"
//@ spec
    ensures r is Ok ==> calm(*old(self), *final(self)), r is Ok ==> string_of(ahead(old(self).tokens), r->Ok_0, ahead(final(self).tokens)),
//@end
//@fn src/compiler/grammar/mod.rs CompilerState::parse_strings
//@ ret r
//@ replace "Value::from(s)" => "value_of(s)"
//@ replace? ".map(|s| vec![s]).map_err(|error_type| CompileError {line_num: token_info.line_num, line_pos: token_info.line_pos, error_type, })" => ".alone()"
//@ spec
    ensures r is Ok ==> calm(*old(self), *final(self)), r is Ok ==> strings_of(ahead(old(self).tokens), r->Ok_0@, ahead(final(self).tokens)) && (allow_empty || r->Ok_0@.len() > 0),
//@end
}
pub trait BlamedX { fn blamed(self) -> Result<Value, CompileError>; fn alone(self) -> Result<Vec<Value>, CompileError>; }
impl BlamedX for Result<Value, ErrorType> {
    fn blamed(self) -> (r: Result<Value, CompileError>) ensures r is Ok == self is Ok, r is Ok ==> r->Ok_0 == self->Ok_0 { match self { Ok(v) => Ok(v), Err(_) => Err(an_error()) } }
    fn alone(self) -> (r: Result<Vec<Value>, CompileError>) ensures r is Ok == self is Ok, r is Ok ==> r->Ok_0@ == seq![self->Ok_0] { match self { Ok(v) => { let mut l = Vec::new(); l.push(v); proof { assert(l@ =~= seq![v]); } Ok(l) } Err(_) => Err(an_error()) } }
}
