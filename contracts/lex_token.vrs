// ---- the lexical grammar (RFC 5228 section 8.1 with the extensions of this compiler) ----------
pub enum Kind { None, Bracket, Hash, Quoted(bool), Multi(bool) } // the flag: the literal read so far holds ${ or %{
pub struct Core { pub kind: Kind, pub buf: Seq<u8>, pub tag: bool, pub last: u8, pub rest: Seq<u8> }
pub open spec fn kind_of(s: State) -> Kind { match s { State::None => Kind::None, State::BracketComment => Kind::Bracket, State::HashComment => Kind::Hash, State::QuotedString(t) => Kind::Quoted(t.maybe_variable), State::MultiLine(t) => Kind::Multi(t.maybe_variable) } }
pub open spec fn core(t: Tokenizer<'_>) -> Core { Core { kind: kind_of(t.state), buf: t.buf@, tag: t.token_is_tag, last: t.last_ch, rest: t.iter@ } }
pub enum Lexeme { Word(Seq<u8>, bool), Symbol(Token), Text(Seq<u8>, bool) }
pub enum Lexed { End, Refused, Found(Lexeme, Option<Token>, Core) } // a lexeme, a symbol read along with it, and what is left
pub open spec fn upper_byte(b: u8) -> bool { 65 <= b && b <= 90 }
pub open spec fn symbol(b: u8) -> Option<Token> {
    if b == 123 { Some(Token::CurlyOpen) } else if b == 125 { Some(Token::CurlyClose) } else if b == 59 { Some(Token::Semicolon) } else if b == 44 { Some(Token::Comma) }
    else if b == 91 { Some(Token::BracketOpen) } else if b == 93 { Some(Token::BracketClose) } else if b == 40 { Some(Token::ParenthesisOpen) } else if b == 41 { Some(Token::ParenthesisClose) } else { None }
}
// the text after the next line break
pub open spec fn after_line(s: Seq<u8>) -> Option<Seq<u8>> decreases s.len() { if s.len() == 0 { None } else if s[0] == 10 { Some(s.skip(1)) } else { after_line(s.skip(1)) } }
// the escapes of a quoted string
pub open spec fn escaped(ch: u8, last: u8) -> u8 { if last == 92 && ch == 110 { 10 } else if last == 92 && ch == 114 { 13 } else if last == 92 && ch == 116 { 9 } else { ch } }
pub open spec fn opens(ch: u8, last: u8) -> bool { ch == 123 && (last == 36 || last == 37) }
pub open spec fn sym(c: Core, t: Token) -> Lexed { if c.buf.len() > 0 { Lexed::Found(Lexeme::Word(c.buf, c.tag), Some(t), Core { buf: Seq::empty(), tag: false, ..c }) } else { Lexed::Found(Lexeme::Symbol(t), None, Core { buf: Seq::empty(), ..c }) } }
pub open spec fn is_text_word(b: Seq<u8>) -> bool { b == seq![116u8, 101, 120, 116] }
// what a quote, a comment or white space leads to
pub open spec fn separated(c: Core) -> Option<Core> {
    let ch = c.rest[0]; let r = c.rest.skip(1); let d = Core { rest: r, last: ch, buf: Seq::empty(), ..c };
    if ch == 34 { Some(Core { kind: Kind::Quoted(false), ..d }) }
    else if ch == 47 && r.len() > 0 && r[0] == 42 { Some(Core { kind: Kind::Bracket, last: 0, rest: r.skip(1), ..d }) }
    else if ch == 35 { Some(Core { kind: Kind::Hash, ..d }) }
    else if ch == 10 || ch == 32 || ch == 9 || ch == 13 { Some(d) }
    else { None }
}
pub enum Step { Done(Lexed), More(Core) }
pub open spec fn step(c: Core) -> Step {
    // at the end of the script: the word read last is reported, an unfinished string or comment is refused
    if c.rest.len() == 0 { Step::Done(if c.kind is None && c.buf.len() > 0 { Lexed::Found(Lexeme::Word(c.buf, c.tag), None, Core { buf: Seq::empty(), tag: false, ..c }) } else if c.kind is None || c.kind is Hash { Lexed::End } else { Lexed::Refused }) }
    else {
        let ch = c.rest[0]; let r = c.rest.skip(1); let d = Core { rest: r, last: ch, ..c };
        match c.kind {
            // a word ends where something else begins; comments and white space only separate
            Kind::None => if word_byte(ch) { Step::More(Core { buf: c.buf.push(ch), ..d }) }
                else if upper_byte(ch) { Step::More(Core { buf: c.buf.push((ch + 32) as u8), ..d }) }
                else if ch == 58 { if c.buf.len() == 0 && r.len() > 0 && alpha(r[0]) { Step::More(Core { tag: true, ..d }) }
                    else if is_text_word(c.buf) { match after_line(r) { Some(t) => Step::More(Core { kind: Kind::Multi(false), buf: Seq::empty(), tag: false, last: 10, rest: t }), None => Step::Done(Lexed::Refused) } }
                    else { Step::Done(sym(d, Token::Colon)) } }
                else if symbol(ch) is Some { Step::Done(sym(d, symbol(ch)->0)) }
                // a word that has been read is reported before what follows it is
                else { match separated(c) { None => Step::Done(Lexed::Refused), Some(e) => if c.buf.len() > 0 { Step::Done(Lexed::Found(Lexeme::Word(c.buf, c.tag), None, Core { tag: false, ..e })) } else { Step::More(e) } } },
            // up to the next */
            Kind::Bracket => Step::More(if ch == 47 && c.last == 42 { Core { kind: Kind::None, ..d } } else { d }),
            // up to the end of the line
            Kind::Hash => Step::More(if ch == 10 { Core { kind: Kind::None, ..d } } else { d }),
            Kind::Quoted(m) => if ch == 34 && c.last != 92 { Step::Done(Lexed::Found(Lexeme::Text(c.buf, m), None, Core { kind: Kind::None, buf: Seq::empty(), ..d })) }
                else if ch == 92 { if c.last == 92 { Step::More(Core { buf: c.buf.push(ch), last: 0, ..d }) } else { Step::More(d) } }
                else { Step::More(Core { kind: Kind::Quoted(m || opens(ch, c.last)), buf: c.buf.push(escaped(ch, c.last)), ..d }) },
            Kind::Multi(m) => if ch == 46 && c.last == 10 {
                    if r.len() == 0 { Step::Done(Lexed::Refused) }
                    else if r[0] == 13 && r.len() > 1 && r[1] == 10 { Step::Done(Lexed::Found(Lexeme::Text(c.buf, m), None, Core { kind: Kind::None, buf: Seq::empty(), last: 10, rest: r.skip(1).skip(1), ..d })) }
                    else if r[0] == 10 { Step::Done(Lexed::Found(Lexeme::Text(c.buf, m), None, Core { kind: Kind::None, buf: Seq::empty(), last: 10, rest: r.skip(1), ..d })) }
                    else if r[0] == 46 { Step::More(Core { buf: c.buf.push(46), last: 46, rest: r.skip(1), ..d }) } // a stuffed dot
                    else { Step::More(Core { buf: c.buf.push(46).push(r[0]), last: r[0], rest: r.skip(1), ..d }) }
                } else { Step::More(Core { kind: Kind::Multi(m || opens(ch, c.last)), buf: c.buf.push(ch), ..d }) },
        }
    }
}
#[verifier::opaque] pub open spec fn lex(c: Core) -> Lexed decreases c.rest.len() {
    match step(c) { Step::Done(l) => l, Step::More(d) => if d.rest.len() < c.rest.len() { lex(d) } else { Lexed::End } }
}
pub proof fn lemma_lex(c: Core) ensures lex(c) == (match step(c) { Step::Done(l) => l, Step::More(d) => if d.rest.len() < c.rest.len() { lex(d) } else { Lexed::End } }) { reveal_with_fuel(lex, 1); }
// ---- what this means for whole literals and comments ------------------------------------------
pub open spec fn escape(x: Seq<u8>) -> Seq<u8> decreases x.len() { if x.len() == 0 { Seq::empty() } else if x[0] == 34 || x[0] == 92 { seq![92u8, x[0]] + escape(x.skip(1)) } else { seq![x[0]] + escape(x.skip(1)) } }
pub open spec fn references(x: Seq<u8>, last: u8) -> bool decreases x.len() { if x.len() == 0 { false } else { opens(x[0], last) || references(x.skip(1), if x[0] == 92 { 0 } else { x[0] }) } }
// every text can be written as a quoted string, and it is read back octet for octet
pub proof fn lemma_quoted(b: Seq<u8>, x: Seq<u8>, tail: Seq<u8>, last: u8, m: bool)
    requires last != 92,
    ensures lex(Core { kind: Kind::Quoted(m), buf: b, tag: false, last, rest: escape(x) + seq![34u8] + tail }) == Lexed::Found(Lexeme::Text(b + x, m || references(x, last)), None, Core { kind: Kind::None, buf: Seq::empty(), tag: false, last: 34, rest: tail }),
    decreases x.len(),
{
    reveal_with_fuel(lex, 2);
    let s = escape(x) + seq![34u8] + tail; let c = Core { kind: Kind::Quoted(m), buf: b, tag: false, last, rest: s };
    if x.len() == 0 { assert(s.skip(1) =~= tail); assert(b + x =~= b); }
    else {
        let y = x.skip(1); let t = escape(y) + seq![34u8] + tail;
        if x[0] == 34 || x[0] == 92 {
            assert(s.skip(1) =~= seq![x[0]] + t); assert(s.skip(1).skip(1) =~= t); let l = if x[0] == 92 { 0u8 } else { 34u8 };
            lemma_quoted(b.push(x[0]), y, tail, l, m); assert(b.push(x[0]) + y =~= b + x);
            assert(lex(c) == lex(Core { last: 92, rest: s.skip(1), ..c }));
            assert(lex(Core { last: 92, rest: s.skip(1), ..c }) == lex(Core { buf: b.push(x[0]), last: l, rest: t, ..c }));
        } else {
            assert(s.skip(1) =~= t); lemma_quoted(b.push(x[0]), y, tail, x[0], m || opens(x[0], last)); assert(b.push(x[0]) + y =~= b + x);
            assert(lex(c) == lex(Core { kind: Kind::Quoted(m || opens(x[0], last)), buf: b.push(x[0]), last: x[0], rest: t, ..c }));
        }
    }
}
pub open spec fn stuff(x: Seq<u8>, last: u8) -> Seq<u8> decreases x.len() { if x.len() == 0 { Seq::empty() } else if x[0] == 46 && last == 10 { seq![46u8, 46u8] + stuff(x.skip(1), 46) } else { seq![x[0]] + stuff(x.skip(1), x[0]) } }
pub open spec fn holds_reference(x: Seq<u8>, last: u8) -> bool decreases x.len() { if x.len() == 0 { false } else { opens(x[0], last) || holds_reference(x.skip(1), x[0]) } }
// every text that ends with a line break can be written as a multi-line string, and it is read back octet for octet
pub proof fn lemma_multi_line(b: Seq<u8>, x: Seq<u8>, tail: Seq<u8>, last: u8, m: bool, crlf: bool)
    requires if x.len() == 0 { last == 10 } else { x.last() == 10 },
    ensures lex(Core { kind: Kind::Multi(m), buf: b, tag: false, last, rest: stuff(x, last) + dot_line(crlf) + tail }) == Lexed::Found(Lexeme::Text(b + x, m || holds_reference(x, last)), None, Core { kind: Kind::None, buf: Seq::empty(), tag: false, last: 10, rest: tail }),
    decreases x.len(),
{
    reveal_with_fuel(lex, 2);
    let s = stuff(x, last) + dot_line(crlf) + tail; let c = Core { kind: Kind::Multi(m), buf: b, tag: false, last, rest: s };
    if x.len() == 0 {
        assert(b + x =~= b); let r = s.skip(1); assert(s =~= dot_line(crlf) + tail);
        if crlf { assert(r[0] == 13 && r[1] == 10); assert(r.skip(1).skip(1) =~= tail); } else { assert(r[0] == 10); assert(r.skip(1) =~= tail); }
    } else {
        let y = x.skip(1); let t = stuff(y, x[0]) + dot_line(crlf) + tail; assert(b.push(x[0]) + y =~= b + x);
        if y.len() > 0 { assert(y.last() == x.last()); }
        if x[0] == 46 && last == 10 {
            assert(s.skip(1) =~= seq![46u8] + t); assert(s.skip(1).skip(1) =~= t);
            lemma_multi_line(b.push(46), y, tail, 46, m, crlf);
            assert(lex(c) == lex(Core { buf: b.push(46), last: 46, rest: t, ..c }));
        } else {
            assert(s.skip(1) =~= t); lemma_multi_line(b.push(x[0]), y, tail, x[0], m || opens(x[0], last), crlf);
            assert(lex(c) == lex(Core { kind: Kind::Multi(m || opens(x[0], last)), buf: b.push(x[0]), last: x[0], rest: t, ..c }));
        }
    }
}
pub open spec fn dot_line(crlf: bool) -> Seq<u8> { if crlf { seq![46u8, 13, 10] } else { seq![46u8, 10] } }
// a comment reaches to the end of its line (or to the first */), whatever it holds, and leaves no trace
pub proof fn lemma_hash_comment(x: Seq<u8>, tail: Seq<u8>, last: u8)
    requires forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] != 10,
    ensures lex(Core { kind: Kind::Hash, buf: Seq::empty(), tag: false, last, rest: x + seq![10u8] + tail }) == lex(Core { kind: Kind::None, buf: Seq::empty(), tag: false, last: 10, rest: tail }),
    decreases x.len(),
{
    reveal_with_fuel(lex, 2);
    let s = x + seq![10u8] + tail;
    if x.len() == 0 { assert(s.skip(1) =~= tail); }
    else { let y = x.skip(1); assert(s.skip(1) =~= y + seq![10u8] + tail); assert forall|i: int| 0 <= i < y.len() implies #[trigger] y[i] != 10 by { assert(y[i] == x[i + 1]); } assert(s[0] == x[0]); lemma_hash_comment(y, tail, x[0]); }
}
pub open spec fn closes_at(x: Seq<u8>, last: u8, i: int) -> bool { x[i] == 47 && (if i == 0 { last } else { x[i - 1] }) == 42 }
pub proof fn lemma_bracket_comment(x: Seq<u8>, tail: Seq<u8>, last: u8)
    requires x.len() > 0, closes_at(x, last, x.len() - 1), forall|i: int| 0 <= i < x.len() - 1 ==> !#[trigger] closes_at(x, last, i),
    ensures lex(Core { kind: Kind::Bracket, buf: Seq::empty(), tag: false, last, rest: x + tail }) == lex(Core { kind: Kind::None, buf: Seq::empty(), tag: false, last: 47, rest: tail }),
    decreases x.len(),
{
    reveal_with_fuel(lex, 2);
    let s = x + tail; assert(s[0] == x[0]);
    if x.len() == 1 { assert(s.skip(1) =~= tail); }
    else {
        let y = x.skip(1); assert(s.skip(1) =~= y + tail); assert(!closes_at(x, last, 0));
        assert forall|i: int| 0 <= i < y.len() - 1 implies !#[trigger] closes_at(y, x[0], i) by { assert(!closes_at(x, last, i + 1)); }
        assert(closes_at(y, x[0], y.len() - 1)); lemma_bracket_comment(y, tail, x[0]);
    }
}
pub open spec fn word_token(t: Token, b: Seq<u8>, tag: bool) -> bool {
    let w = ascii_chars(b);
    if keyword(w) is Some { t == (if tag { Token::Tag(keyword(w)->0) } else { Token::Identifier(keyword(w)->0) }) }
    else if digit(w[0]) && literal(w) is Some { t is Number && t->Number_0 == literal(w)->0 }
    else { t is Unknown }
}
pub open spec fn text_token(t: Token, b: Seq<u8>, maybe: bool) -> bool {
    match t { Token::StringVariable(v) => maybe && v@ == b, Token::StringConstant(c) => !maybe && text_of(c) == lossy(b), _ => false }
}
// what next() reports, given what the grammar finds
pub open spec fn reports(l: Lexed, max: usize, r: Option<Result<TokenInfo, CompileError>>, fin: Tokenizer<'_>) -> bool {
    match l {
        Lexed::End => r is None,
        Lexed::Refused => r is Some && r->0 is Err,
        Lexed::Found(Lexeme::Word(b, tag), q, c) => r is Some && r->0 is Ok && word_token(r->0->Ok_0.token, b, tag) && core(fin) == c && queued(q, fin),
        Lexed::Found(Lexeme::Symbol(t), q, c) => r is Some && r->0 is Ok && r->0->Ok_0.token == t && core(fin) == c && queued(q, fin),
        Lexed::Found(Lexeme::Text(b, m), q, c) => if b.len() >= max { r is Some && r->0 is Err } else { r is Some && r->0 is Ok && text_token(r->0->Ok_0.token, b, m) && core(fin) == c && queued(q, fin) },
    }
}
pub open spec fn queued(q: Option<Token>, t: Tokenizer<'_>) -> bool { match q { None => t.next_token@.len() == 0, Some(x) => t.next_token@.len() == 1 && t.next_token@[0].token == x } }
impl<'x> Tokenizer<'x> {
    // a bare word is being read: letters in lower case, digits, _ . and $
    pub open spec fn reading(&self) -> bool { words(self.buf@) && (self.token_is_tag ==> self.buf@.len() == 0 || self.token_line_pos >= 1) }
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::reset_current_token
//@ spec
    ensures *final(self) == (Tokenizer { buf: final(self).buf, token_is_tag: false, ..*old(self) }), final(self).buf@.len() == 0, final(self).buf@ == Seq::<u8>::empty(),
//@end
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::get_current_token
//@ ret r
//@ replace "std::str::from_utf8(&self.buf).unwrap()" => "ascii_str(&self.buf)"
//@ replace "std::str::from_utf8(&self.buf[..self.buf.len() - 1]).unwrap()" => "ascii_str(cut(&self.buf, self.buf.len() - 1))"
//@ replace "self.buf.first().unwrap().is_ascii_digit()" => "{ let first = self.buf[0]; 48 <= first && first <= 57 }"
//@ replace "match self.buf.last().unwrap()" => "match self.buf[self.buf.len() - 1]"
//@ replace "if let Ok(number) = (if" => "let text = if"
//@ replace ").parse::<usize>() {" => "; if let Ok(number) = parse_usize(text) {"
//@ replace "format!(\":{word}\")" => "tagged(word)"
//@ spec
    requires old(self).reading(),
    ensures *final(self) == (Tokenizer { buf: final(self).buf, token_is_tag: final(self).token_is_tag, token_line_pos: final(self).token_line_pos, ..*old(self) }), final(self).buf@.len() == 0, final(self).reading(),
        (r is Some) == (old(self).buf@.len() > 0), r is None ==> final(self).token_is_tag == old(self).token_is_tag,
        r is Some ==> !final(self).token_is_tag,
        r is Some ==> word_token(r->0.token, old(self).buf@, old(self).token_is_tag), final(self).buf@ == Seq::<u8>::empty(),
//@ at start
    proof { axiom_char_eq(); if self.buf@.len() > 0 { let b = self.buf@; assert(word_byte(b[0]) && word_byte(b[b.len() - 1])); assert(ascii_chars(b.take(b.len() - 1)) =~= ascii_chars(b).drop_last()); assert(ascii_chars(b).last() == b[b.len() - 1] as char); assert(words(b.take(b.len() - 1))); assert(ascii_chars(b)[0] == b[0] as char); } }
//@end
    // positions never run ahead of the text read, so no counter can overflow or underflow
    pub open spec fn wf(&self) -> bool {
        &&& self.state is None ==> self.reading()
        &&& self.state is BracketComment || self.state is HashComment ==> self.buf@.len() == 0
        &&& (self.pos == usize::MAX ==> self.line_start == 0 && self.line_num == 1 && self.iter@.len() < usize::MAX - 1)
        &&& (self.pos != usize::MAX ==> self.line_start <= self.pos && self.line_num <= self.pos + 2 && self.pos + self.iter@.len() < usize::MAX - 1)
        &&& (self.token_is_tag ==> (self.state is None || self.iter@.len() == 0) && (self.state is None && self.buf@.len() == 0 ==> self.pos != usize::MAX && self.iter@.len() > 0 && alpha(self.iter@[0])))
    }
    pub open spec fn same_limits(&self, o: &Self) -> bool { self.compiler == o.compiler }
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::next_byte
//@ ret r
//@ replace "self.iter.next().map(|&ch| {" => "match self.iter.next() { None => None, Some(ch) => { let ch = *ch;"
//@ replace "(ch, last_ch) })" => "Some((ch, last_ch)) } }"
//@ spec
    requires old(self).pos == usize::MAX || old(self).pos < usize::MAX - 1 || old(self).iter@.len() == 0,
    ensures old(self).iter@.len() == 0 ==> r is None && *final(self) == (Tokenizer { iter: final(self).iter, ..*old(self) }) && final(self).iter@ == old(self).iter@,
        old(self).iter@.len() > 0 ==> r == Some((old(self).iter@[0], old(self).last_ch)) && *final(self) == (Tokenizer { iter: final(self).iter, pos: final(self).pos, last_ch: old(self).iter@[0], ..*old(self) }) && final(self).iter@ == old(self).iter@.skip(1) && old(self).iter@ == seq![old(self).iter@[0]] + final(self).iter@
            && final(self).pos == (if old(self).pos == usize::MAX { 0int } else { old(self).pos + 1 }),
//@ at start
    proof { let all = self.iter@; if all.len() > 0 { assert(all =~= seq![all[0]] + all.skip(1)); } }
//@end
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::peek_byte
//@ ret r
//@ replace "self.iter.peek().map(|ch| **ch)" => "self.iter.peek_copy()"
//@ spec
    ensures *final(self) == (Tokenizer { iter: final(self).iter, ..*old(self) }), final(self).iter@ == old(self).iter@, (r is Some) == (old(self).iter@.len() > 0), r is Some ==> r->0 == old(self).iter@[0],
//@end
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::push_byte
//@ spec
    requires old(self).pos >= old(self).line_start,
    ensures *final(self) == (Tokenizer { buf: final(self).buf, token_line_num: final(self).token_line_num, token_line_pos: final(self).token_line_pos, ..*old(self) }), final(self).buf@ == old(self).buf@.push(ch),
        old(self).buf@.len() == 0 ==> final(self).token_line_pos == old(self).pos - old(self).line_start, old(self).buf@.len() > 0 ==> final(self).token_line_pos == old(self).token_line_pos,
//@end
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::new_line
//@ spec
    requires old(self).line_num < usize::MAX,
    ensures *final(self) == (Tokenizer { line_num: (old(self).line_num + 1) as usize, line_start: old(self).pos, ..*old(self) }),
//@end
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::text_start
//@ spec
    requires old(self).pos >= old(self).line_start,
    ensures *final(self) == (Tokenizer { text_line_num: final(self).text_line_num, text_line_pos: final(self).text_line_pos, ..*old(self) }),
//@end
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::is_token_start
//@ ret r
//@ spec
    ensures r == (self.buf@.len() == 0),
//@end
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::token_bytes
//@ ret r
//@ spec
    ensures r@ == self.buf@,
//@end
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::token_is_tag
//@ spec
    ensures *final(self) == (Tokenizer { token_is_tag: true, ..*old(self) }),
//@end
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::invalid_character
//@ spec
    requires self.pos >= self.line_start,
//@end
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::get_token
//@ ret r
//@ spec
    requires old(self).reading(), old(self).pos >= old(self).line_start,
    ensures *final(self) == (Tokenizer { buf: final(self).buf, token_is_tag: final(self).token_is_tag, token_line_pos: final(self).token_line_pos, next_token: final(self).next_token, ..*old(self) }), final(self).buf@.len() == 0, final(self).reading(),
        final(self).buf@ == Seq::<u8>::empty(), old(self).buf@.len() == 0 ==> r.token == token && final(self).token_is_tag == old(self).token_is_tag && final(self).next_token@ == old(self).next_token@,
        old(self).buf@.len() > 0 ==> word_token(r.token, old(self).buf@, old(self).token_is_tag) && !final(self).token_is_tag && final(self).next_token@.len() == old(self).next_token@.len() + 1 && final(self).next_token@.last().token == token && final(self).next_token@.drop_last() == old(self).next_token@,
//@ at after "self.next_token.push(next_token);"
    proof { assert(self.next_token@.drop_last() =~= old(self).next_token@); }
//@end
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::get_string
//@ ret r
//@ replace "Token::StringVariable(self.buf.to_vec())" => "Token::StringVariable(copy_bytes(&self.buf))"
//@ replace "self.buf.to_vec().into_string()" => "lossy_string(copy_bytes(&self.buf))"
//@ replace "constant.parse::<i64>().ok().and_then(|n| { if n.to_string() == constant { Some(n) } else { None } })" => "exact_int(&constant)"
//@ replace "constant.parse::<f64>().ok().and_then(|n| { if n.to_string() == constant { Some(n) } else { None } })" => "exact_float(&constant)"
//@ spec
    ensures *final(self) == (Tokenizer { buf: final(self).buf, ..*old(self) }),
        old(self).buf@.len() >= old(self).compiler.max_string_size ==> r is Err,
        r is Ok ==> final(self).buf@.len() == 0,
        // a constant is the text itself, or a number whose text is exactly this text
        old(self).buf@.len() < old(self).compiler.max_string_size ==> r is Ok && text_token(r->Ok_0.token, old(self).buf@, str_type.maybe_variable) && final(self).buf@ == Seq::<u8>::empty(),
//@end
//@fn src/compiler/lexer/tokenizer.rs <Iterator for Tokenizer>::next
//@ ret r
//@ attr #[verifier::spinoff_prover]
//@ attr #[verifier::rlimit(200)]
//@ sig "Self::Item" => "Result<TokenInfo, CompileError>"
//@ replace "self.token_bytes().eq_ignore_ascii_case(b\"text\")" => "is_text(self.token_bytes())"
//@ replace "(&self.state).into()" => "from_state(&self.state)"
//@ replace "self.get_current_token().map(Ok)" => "match self.get_current_token() { Some(t) => Some(Ok(t)), None => None }"
//@ spec
    requires old(self).wf(),
    ensures r is Some && r->0 is Ok ==> final(self).wf(), r is None ==> final(self).pos >= final(self).line_start, final(self).compiler == old(self).compiler,
        r is Some && r->0 is Ok ==> left(*final(self)) < left(*old(self)), left(*final(self)) <= left(*old(self)),
        old(self).next_token@.len() > 0 ==> r is Some && r->0 is Ok && r->0->Ok_0 == old(self).next_token@.last() && final(self).next_token@ == old(self).next_token@.drop_last(),
        old(self).next_token@.len() == 0 ==> reports(lex(core(*old(self))), old(self).compiler.max_string_size, r, *final(self)),
//@ loopattr 1 #[verifier::loop_isolation(false)]
//@ loop 0 while
    invariant self.wf(), self.compiler == old(self).compiler, self.iter@.len() <= old(self).iter@.len(), self.next_token@ == old(self).next_token@, self.next_token@.len() == 0,
        lex(core(*self)) == lex(core(*old(self))), left(*self) <= left(*old(self)),
    ensures self.iter@.len() == 0,
    decreases self.iter@.len(),
//@ at loop 0 start
    let ghost n0 = self.iter@.len(); let ghost k0 = self.iter@;
    proof { lemma_lex(Core { kind: kind_of(self.state), buf: self.buf@, tag: self.token_is_tag, last: last_ch, rest: seq![ch] + k0 }); assert((seq![ch] + k0).skip(1) =~= k0); }
//@ loop 1 while
    invariant after_line(self.iter@) == after_line(k0), self.iter@.len() <= n0, self.pos != usize::MAX, self.line_start <= self.pos, self.line_num <= self.pos + 2, self.pos + self.iter@.len() < usize::MAX - 1, kind_of(self.state) == Kind::Multi(false), self.state is MultiLine,
        self.compiler == old(self).compiler, self.iter@.len() < old(self).iter@.len(), self.next_token@ == old(self).next_token@, self.next_token@.len() == 0,
    decreases self.iter@.len(),
//@ at loop 0 end
    proof { if self.iter@.len() == 0 { lemma_lex(core(*self)); } }
//@ at after loop 0
    proof { lemma_lex(core(*self)); }
//@end
}
pub open spec fn alpha(b: u8) -> bool { (97 <= b && b <= 122) || (65 <= b && b <= 90) }
pub open spec fn left(t: Tokenizer<'_>) -> nat { 2 * t.iter@.len() + t.next_token@.len() + if t.buf@.len() > 0 { 1nat } else { 0 } }
//@fn src/compiler/lexer/tokenizer.rs <From<&State> for ErrorType>::from
//@ rename from_state
//@ sig "Self" => "ErrorType"
//@ spec
    requires *state is BracketComment || *state is QuotedString || *state is MultiLine,
//@end
impl TokenInfo { #[verifier::external_body] pub fn expected(self, s: &str) -> CompileError { unimplemented!() } }
#[verifier::external_body] pub fn same_token(a: &Token, b: &Token) -> (r: bool) { unimplemented!() } // derived PartialEq
#[verifier::external_body] pub fn text_lower_than(n: usize) -> (r: String) { unimplemented!() } // format!
#[verifier::external_body] pub fn text_quoted(t: &Token) -> (r: String) { unimplemented!() } // format!
impl<'x> Tokenizer<'x> {
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::unwrap_next
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures r is Ok ==> final(self).wf(), final(self).compiler == old(self).compiler, left(*final(self)) <= left(*old(self)), r is Ok ==> left(*final(self)) < left(*old(self)),
        old(self).next_token@.len() > 0 ==> r is Ok && r->Ok_0 == old(self).next_token@.last(),
//@end
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::expect_token
//@ ret r
//@ replace "next_token.token == token" => "same_token(&next_token.token, &token)"
//@ replace "next_token.expected(format!(\"'{token}'\"))" => "next_token.expected(text_quoted(&token).as_str())"
//@ spec
    requires old(self).wf(),
    ensures r is Ok ==> final(self).wf(), final(self).compiler == old(self).compiler, left(*final(self)) <= left(*old(self)), r is Ok ==> left(*final(self)) < left(*old(self)),
//@end
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::expect_number
//@ ret r
//@ replace "next_token.expected(format!(\"number lower than {max_value}\"))" => "next_token.expected(text_lower_than(max_value).as_str())"
//@ spec
    requires old(self).wf(),
    ensures r is Ok ==> final(self).wf(), r is Ok ==> r->Ok_0 < max_value, r is Ok ==> left(*final(self)) < left(*old(self)),
        // the next token, when it has been read already, is a number below the limit or the script is refused
        old(self).next_token@.len() > 0 ==> match old(self).next_token@.last().token { Token::Number(n) => if n < max_value { r is Ok && r->Ok_0 == n } else { r is Err }, _ => r is Err },
//@end
//@fn src/compiler/lexer/tokenizer.rs Tokenizer::peek
//@ ret r
//@ replace "self.next_token.last().map(Ok)" => "match self.next_token.last() { Some(x) => Some(Ok(x)), None => None }"
//@ spec
    requires old(self).wf(),
    ensures final(self).compiler == old(self).compiler, left(*final(self)) <= left(*old(self)), r is Some && r->0 is Ok ==> final(self).wf() && final(self).next_token@.len() > 0 && *(r->0->Ok_0) == final(self).next_token@.last(),
//@end
}
