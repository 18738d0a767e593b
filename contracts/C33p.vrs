use vstd::prelude::*;
verus! {
//@include std.vrs
#[verifier::external_body] pub struct VariableType { x: u8 }
//@type src/compiler/grammar/actions/action_set.rs Modifier
//@end
//@type src/compiler/grammar/actions/action_set.rs Set
//@end
//@type src/compiler/grammar/actions/action_mime.rs ExtractText
//@end
//@type src/compiler/grammar/instruction.rs Instruction
//@ keep Set ExtractText
//@end
//@include args_base.vrs
// ---- set and extracttext: the modifiers written, in order of precedence -----------------------
pub open spec fn is_modifier(w: Word) -> bool { w == Word::Lower || w == Word::Upper || w == Word::LowerFirst || w == Word::UpperFirst || w == Word::QuoteWildcard || w == Word::QuoteRegex || w == Word::EncodeUrl || w == Word::Length }
pub open spec fn modifier(w: Word) -> Modifier { match w { Word::Lower => Modifier::Lower, Word::Upper => Modifier::Upper, Word::LowerFirst => Modifier::LowerFirst, Word::UpperFirst => Modifier::UpperFirst, Word::QuoteWildcard => Modifier::QuoteWildcard, Word::QuoteRegex => Modifier::QuoteRegex, Word::EncodeUrl => Modifier::EncodeUrl, _ => Modifier::Length } }
// RFC 5229, section 4.1: 40 case, 30 first letter, 20 quoting, 15 URL, 10 length; :replace stands with those of 40
pub open spec fn precedence(m: Modifier) -> int { match m { Modifier::Lower | Modifier::Upper | Modifier::Replace { .. } => 40, Modifier::LowerFirst | Modifier::UpperFirst => 30, Modifier::QuoteWildcard | Modifier::QuoteRegex => 20, Modifier::EncodeUrl => 15, Modifier::Length => 10 } }
pub uninterp spec fn rank(m: Modifier) -> usize;
pub enum Part { Mod(Word), Swap(Value, Value), Local, First(usize), Name(VariableType) }
pub uninterp spec fn registers(s: Seq<u8>, local: bool, v: VariableType) -> bool;
pub uninterp spec fn utf8_text(s: StringConstant) -> Seq<u8>;
pub open spec fn names_variable(t: Token, local: bool, v: VariableType) -> bool { match t { Token::StringConstant(s) => registers(utf8_text(s), local, v), _ => false } }
pub open spec fn one_part(a: Seq<Token>, x: Part, local: bool, b: Seq<Token>) -> bool { a.len() > 0 && match x {
    Part::Mod(w) => is_modifier(w) && a[0] == Token::Tag(w) && b == a.skip(1),
    Part::Swap(f, r) => a[0] == Token::Tag(Word::Replace) && a.len() > 2 && text_of(a[1], f) && text_of(a[2], r) && b == a.skip(1).skip(1).skip(1),
    Part::Local => a[0] == Token::Tag(Word::Local) && b == a.skip(1),
    Part::First(n) => a[0] == Token::Tag(Word::First) && a.len() > 1 && a[1] == Token::Number(n) && b == a.skip(1).skip(1),
    Part::Name(v) => names_variable(a[0], local, v) && b == a.skip(1) } }
pub open spec fn is_local_in(h: Seq<Part>) -> bool decreases h.len() { h.len() > 0 && (h.last() is Local || is_local_in(h.drop_last())) }
pub open spec fn parts(a: Seq<Token>, h: Seq<Part>, b: Seq<Token>) -> bool decreases h.len() { if h.len() == 0 { a == b } else { exists|m: Seq<Token>| #[trigger] here(m) && parts(a, h.drop_last(), m) && one_part(m, h.last(), is_local_in(h.drop_last()), b) } }
// every modifier once, every replacement
pub open spec fn modifiers_of(h: Seq<Part>) -> Seq<Modifier> decreases h.len() { if h.len() == 0 { seq![] } else { let m = modifiers_of(h.drop_last()); match h.last() { Part::Mod(w) => if m.contains(modifier(w)) { m } else { m.push(modifier(w)) }, Part::Swap(f, r) => m.push(Modifier::Replace { find: f, replace: r }), _ => m } } }
pub open spec fn first_of(h: Seq<Part>) -> Option<usize> decreases h.len() { if h.len() == 0 { None } else { match h.last() { Part::First(n) => Some(n), _ => first_of(h.drop_last()) } } }
pub open spec fn name_of(h: Seq<Part>) -> Option<VariableType> decreases h.len() { if h.len() == 0 { None } else { match h.last() { Part::Name(v) => Some(v), _ => name_of(h.drop_last()) } } }
// at most one name, at most one :first
pub open spec fn once(h: Seq<Part>) -> bool decreases h.len() { h.len() == 0 || (once(h.drop_last()) && (h.last() is Name ==> name_of(h.drop_last()) is None) && (h.last() is First ==> first_of(h.drop_last()) is None)) }
pub proof fn lemma_part(a: Seq<Token>, h: Seq<Part>, b: Seq<Token>, x: Part, c: Seq<Token>) requires parts(a, h, b), one_part(b, x, is_local_in(h), c), once(h), x is Name ==> name_of(h) is None, x is First ==> first_of(h) is None
    ensures parts(a, h.push(x), c), once(h.push(x)), is_local_in(h.push(x)) == (x is Local || is_local_in(h)),
        modifiers_of(h.push(x)) == (match x { Part::Mod(w) => if modifiers_of(h).contains(modifier(w)) { modifiers_of(h) } else { modifiers_of(h).push(modifier(w)) }, Part::Swap(f, r) => modifiers_of(h).push(Modifier::Replace { find: f, replace: r }), _ => modifiers_of(h) }),
        first_of(h.push(x)) == (match x { Part::First(n) => Some(n), _ => first_of(h) }), name_of(h.push(x)) == (match x { Part::Name(v) => Some(v), _ => name_of(h) }),
{ let g = h.push(x); assert(g.drop_last() =~= h); assert(g.last() == x); assert(here(b)); assert(parts(a, g.drop_last(), b) && one_part(b, g.last(), is_local_in(g.drop_last()), c)); }
#[verifier::external_body] pub fn has_modifier(l: &Vec<Modifier>, m: &Modifier) -> (r: bool) ensures r == l@.contains(*m) { unimplemented!() }
pub open spec fn falling(s: Seq<Modifier>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> rank(#[trigger] s[i]) >= rank(#[trigger] s[j]) }
// sort_unstable_by_key with Reverse(order())
#[verifier::external_body] pub fn sort_by_rank(l: &mut Vec<Modifier>) requires true ensures final(l)@.to_multiset() == old(l)@.to_multiset(), falling(final(l)@) { unimplemented!() }
// order() gives the rank, and ranks agree with the precedence
pub open spec fn by_precedence(s: Seq<Modifier>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> precedence(#[trigger] s[i]) >= precedence(#[trigger] s[j]) }
pub open spec fn ranked(m: Modifier, n: usize) -> bool { 10 * (precedence(m) / 10) <= n < 10 * (precedence(m) / 10) + 10 && (precedence(m) == 15 ==> n >= 15) && (precedence(m) == 10 ==> n < 15) }
impl Modifier {
//@fn src/compiler/grammar/actions/action_set.rs Modifier::order
//@ ret r
//@ spec
    ensures ranked(*self, r),
//@end
//@fn src/compiler/grammar/actions/action_set.rs <From<Word> for Modifier>::from
//@ ret r
//@ sig "Self" => "Modifier"
//@ replace "unreachable!()" => "not_reached()"
//@ spec
    requires is_modifier(word),
    ensures r == modifier(word),
//@end
}
#[verifier::external_body] pub fn not_reached() -> (r: Modifier) requires false { unimplemented!() }
// the rank is what order() returns
#[verifier::external_body] pub broadcast proof fn axiom_rank(m: Modifier) ensures ranked(m, #[trigger] rank(m)) {}
pub proof fn lemma_sorted(s: Seq<Modifier>) requires falling(s) ensures by_precedence(s) { broadcast use axiom_rank; assert forall|i: int, j: int| 0 <= i < j < s.len() implies precedence(#[trigger] s[i]) >= precedence(#[trigger] s[j]) by { assert(rank(s[i]) >= rank(s[j])); } }
pub open spec fn same_modifiers(a: Seq<Modifier>, b: Seq<Modifier>) -> bool { a.to_multiset() == b.to_multiset() && by_precedence(a) }
pub open spec fn set_reads(a: Seq<Token>, x: Set, b: Seq<Token>) -> bool { exists|h: Seq<Part>, m: Seq<Token>| #[trigger] parts(a, h, m) && once(h) && m.len() > 0 && text_of(m[0], x.value) && b == m.skip(1) && name_of(h) == Some(x.name) && same_modifiers(x.modifiers@, modifiers_of(h)) }
pub open spec fn extract_reads(a: Seq<Token>, x: ExtractText, b: Seq<Token>) -> bool { exists|h: Seq<Part>, m: Seq<Token>| #[trigger] parts(a, h, m) && once(h) && m.len() > 0 && names_variable(m[0], is_local_in(h), x.name) && b == m.skip(1) && x.first == first_of(h) && same_modifiers(x.modifiers@, modifiers_of(h)) }
#[verifier::external_body] pub fn name_text(s: StringConstant) -> (r: Vec<u8>) ensures r@ == utf8_text(s) { unimplemented!() }
#[verifier::external_body] pub fn kind_constant() -> ErrorType { unimplemented!() }
pub trait BlamedV { fn blamed_name(self) -> Result<VariableType, CompileError>; }
impl BlamedV for Result<VariableType, ErrorType> { fn blamed_name(self) -> (r: Result<VariableType, CompileError>) ensures r is Ok == self is Ok, r is Ok ==> r->Ok_0 == self->Ok_0 { match self { Ok(v) => Ok(v), Err(_) => Err(an_error()) } } }
impl<'x> CompilerState<'x> {
    #[verifier::external_body] pub fn register_variable(&mut self, s: Vec<u8>, local: bool) -> (r: Result<VariableType, ErrorType>) ensures calm(*old(self), *final(self)), final(self).tokens == old(self).tokens, r is Ok ==> registers(s@, local, r->Ok_0) { unimplemented!() }
//@fn src/compiler/grammar/actions/action_set.rs CompilerState::parse_variable_name
//@ ret r
//@ replace "value.into_string()" => "name_text(value)"
//@ replace ".map_err(|error_type| CompileError {line_num: token_info.line_num, line_pos: token_info.line_pos, error_type, })" => ".blamed_name()"
//@ replace "ErrorType::ExpectedConstantString" => "kind_constant()"
//@ spec
    ensures calm(*old(self), *final(self)), final(self).tokens == old(self).tokens, r is Ok ==> names_variable(token_info.token, register_as_local, r->Ok_0),
//@end
//@fn src/compiler/grammar/actions/action_set.rs CompilerState::parse_set
//@ ret r
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ replace? "Capability::Regex.into()" => "Some(Capability::Regex)"
//@ replace? "Capability::Enotify.into()" => "Some(Capability::Enotify)"
//@ replace "word.into()" => "Modifier::from(word)"
//@ replace "modifiers.contains(&modifier)" => "has_modifier(&modifiers, &modifier)"
//@ replace "name = self.parse_variable_name(token_info, is_local)?.into();" => "name = Some(self.parse_variable_name(token_info, is_local)?);"
//@ replace "modifiers.sort_unstable_by_key(|m| std::cmp::Reverse(m.order()));" => "sort_by_rank(&mut modifiers);"
//@ spec
    ensures r is Ok ==> final(self).instructions@.len() == old(self).instructions@.len() + 1 && match final(self).instructions@.last() { Instruction::Set(x) => set_reads(ahead(old(self).tokens), x, ahead(final(self).tokens)), _ => false },
//@ at start
    let ghost s0 = *self; let ghost a = ahead(self.tokens); let ghost mut h: Seq<Part> = seq![]; let ghost mut gm: Seq<Token> = seq![];
//@ loopattr 0 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0 loop
    invariant_except_break parts(a, h, ahead(self.tokens)),
    invariant once(h), self.instructions@.len() == s0.instructions@.len(), modifiers@ == modifiers_of(h), name == name_of(h), is_local == is_local_in(h),
    ensures parts(a, h, gm), gm.len() > 0, text_of(gm[0], value), ahead(self.tokens) == gm.skip(1), name is Some,
//@ at loop 0 start
    let ghost b = ahead(self.tokens);
//@ at after "if !modifiers.contains(&modifier) { modifiers.push(modifier); }"
    proof { lemma_part(a, h, b, Part::Mod(word), ahead(self.tokens)); h = h.push(Part::Mod(word)); }
//@ at after "modifiers.push(Modifier::Replace"
    proof { let m = modifiers@.last(); let x = Part::Swap(m->find, m->replace); lemma_part(a, h, b, x, ahead(self.tokens)); h = h.push(x); }
//@ at after "is_local = true;"
    proof { lemma_part(a, h, b, Part::Local, ahead(self.tokens)); h = h.push(Part::Local); }
//@ at after "name = self.parse_variable_name(token_info, is_local)?.into();"
    proof { let x = Part::Name(name->0); lemma_part(a, h, b, x, ahead(self.tokens)); h = h.push(x); }
//@ at after "value = self.parse_string_token(token_info)?;"
    proof { gm = b; }
//@ at after "modifiers.sort_unstable_by_key"
    proof { lemma_sorted(modifiers@); }
    let ghost gmods = modifiers@;
//@ at after "self.instructions.push("
    proof { let x = self.instructions@.last()->Set_0; assert(parts(a, h, gm)); assert(same_modifiers(x.modifiers@, modifiers_of(h))); assert(set_reads(a, x, ahead(self.tokens))); }
//@end
//@fn src/compiler/grammar/actions/action_mime.rs CompilerState::parse_extracttext
//@ ret r
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ replace "word.into()" => "Modifier::from(word)"
//@ replace "modifiers.contains(&modifier)" => "has_modifier(&modifiers, &modifier)"
//@ replace "first = self.tokens.expect_number(usize::MAX)?.into();" => "first = Some(self.tokens.expect_number(usize::MAX)?);"
//@ replace "modifiers.sort_unstable_by_key(|m| std::cmp::Reverse(m.order()));" => "sort_by_rank(&mut modifiers);"
//@ spec
    requires !old(self).param_check@[0],
    ensures r is Ok ==> final(self).instructions@.len() == old(self).instructions@.len() + 1 && match final(self).instructions@.last() { Instruction::ExtractText(x) => extract_reads(ahead(old(self).tokens), x, ahead(final(self).tokens)), _ => false },
//@ at start
    let ghost s0 = *self; let ghost a = ahead(self.tokens); let ghost mut h: Seq<Part> = seq![]; let ghost mut gm: Seq<Token> = seq![];
//@ loopattr 0 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0 loop
    invariant_except_break parts(a, h, ahead(self.tokens)),
    invariant once(h), self.instructions@.len() == s0.instructions@.len(), modifiers@ == modifiers_of(h), first == first_of(h), is_local == is_local_in(h), first is Some ==> self.param_check@[0],
    ensures parts(a, h, gm), gm.len() > 0, names_variable(gm[0], is_local, name), ahead(self.tokens) == gm.skip(1),
//@ at loop 0 start
    let ghost b = ahead(self.tokens);
//@ at after "if !modifiers.contains(&modifier) { modifiers.push(modifier); }"
    proof { lemma_part(a, h, b, Part::Mod(word), ahead(self.tokens)); h = h.push(Part::Mod(word)); }
//@ at after "modifiers.push(Modifier::Replace"
    proof { let m = modifiers@.last(); let x = Part::Swap(m->find, m->replace); lemma_part(a, h, b, x, ahead(self.tokens)); h = h.push(x); }
//@ at after "is_local = true;"
    proof { lemma_part(a, h, b, Part::Local, ahead(self.tokens)); h = h.push(Part::Local); }
//@ at after "first = self.tokens.expect_number(usize::MAX)?.into();"
    proof { let x = Part::First(first->0); lemma_part(a, h, b, x, ahead(self.tokens)); h = h.push(x); }
//@ at after "name = self.parse_variable_name(token_info, is_local)?;"
    proof { gm = b; }
//@ at after "modifiers.sort_unstable_by_key"
    proof { lemma_sorted(modifiers@); }
//@ at after "self.instructions.push"
    proof { let x = self.instructions@.last()->ExtractText_0; assert(parts(a, h, gm)); assert(same_modifiers(x.modifiers@, modifiers_of(h))); assert(extract_reads(a, x, ahead(self.tokens))); }
//@end
}
}
fn main() {}
