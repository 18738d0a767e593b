// ---- Compiler::compile ----------------------------------------------------------------------
//@type src/lib.rs Sieve
//@end
//@const src/lib.rs MAX_LOCAL_VARIABLES
#[verifier::external] impl std::fmt::Debug for CompileError { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
pub fn larger(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } } // std::cmp::max
pub fn smaller(a: usize, b: usize) -> (r: usize) ensures r == (if b < a { b } else { a }) { if b < a { b } else { a } } // std::cmp::min
pub uninterp spec fn bytes(s: Seq<char>) -> int;
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r == bytes(s@);
impl ScriptBlock { pub fn into(self) -> (r: Option<ScriptBlock>) ensures r == Some(self) { Some(self) } }
#[verifier::external_body] pub fn unexpected_command(found: String) -> (r: ErrorType) { unimplemented!() } // ErrorType::UnexpectedToken
// String::eq
#[verifier::external_body] pub fn named_by(l: &Option<String>, n: &String) -> (r: bool) ensures r == (*l is Some && l->0@ == n@) { unimplemented!() }
impl ScriptBlock {
//@fn src/compiler/grammar/instruction.rs Block::new
//@ ret r
//@ sig "Self" => "ScriptBlock"
//@ replace "Block {" => "ScriptBlock {"
//@ replace "AHashMap::new()" => "SlotMap::new()"
//@ replace "AHashSet::new()" => "CapSet::new()"
//@ spec
    ensures r.btype == btype, empty_block(r), r.require_pos == usize::MAX, r.label is None,
//@end
//@fn src/compiler/grammar/instruction.rs Block::with_label
//@ ret r
//@ sig "mut self" => "self"
//@ replace "self.label = label.into(); self" => "ScriptBlock { label: Some(label), ..self }"
//@ spec
    ensures r == (ScriptBlock { label: r.label, ..self }), r.label is Some && r.label->0@ == label@,
//@end
}
// [&block].into_iter().chain(block_stack.iter().rev()): the open blocks, innermost first, counted down
pub fn level<'a>(b: &'a ScriptBlock, s: &'a Vec<ScriptBlock>, lv: usize) -> (r: &'a ScriptBlock) requires lv <= s@.len() ensures *r == levels(s@, *b)[lv as int] { if lv == s.len() { b } else { &s[lv] } }
pub fn level_mut<'a>(b: &'a mut ScriptBlock, s: &'a mut Vec<ScriptBlock>, lv: usize) -> (r: &'a mut ScriptBlock) requires lv <= old(s)@.len() ensures *r == levels(old(s)@, *old(b))[lv as int], levels(final(s)@, *final(b)) == levels(old(s)@, *old(b)).update(lv as int, *final(r)), final(s)@.len() == old(s)@.len()
{ if lv == s.len() { proof { assert(levels(s@, *final(b)) =~= levels(s@, *b).update(lv as int, *final(b))); } b } else { let ghost s0 = s@; proof { assert forall|x: ScriptBlock| #[trigger] levels(s0.update(lv as int, x), *b) =~= levels(s0, *b).update(lv as int, x) by { } } &mut s[lv] } }
// .filter(..).count()
pub open spec fn trues(s: Seq<bool>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { trues(s.drop_last()) + (if s.last() { 1nat } else { 0nat }) } }
impl<'a> Chained<'a> {
    #[verifier::external_body] pub fn filter_count<F: Fn(&ScriptBlock) -> bool>(self, f: F) -> (r: usize)
        requires forall|b: &ScriptBlock| call_requires(f, (b,)),
        ensures exists|s: Seq<bool>| r == #[trigger] trues(s) && s.len() == self.s@.len() + 1 && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (&levels(self.s@, *self.b)[i],), #[trigger] s[i]),
    { unimplemented!() }
}
pub proof fn lemma_trues(bs: Seq<ScriptBlock>, s: Seq<bool>) requires bs.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (bs[i].btype == Word::ForEveryPart) ensures trues(s) == pops(bs, 0) decreases bs.len()
{ if bs.len() > 0 { lemma_trues(bs.drop_last(), s.drop_last()); lemma_pops_push(bs.drop_last(), bs.last(), 0); assert(bs.drop_last().push(bs.last()) =~= bs); assert(s[s.len() - 1] == (bs[bs.len() - 1].btype == Word::ForEveryPart)); } }
// peek().map(|r| r.map(|t| &t.token))
pub fn peek_token<'a>(t: &'a mut Tokenizer<'_>) -> (r: Option<Result<&'a Token, CompileError>>) ensures moved_on(*old(t), *final(t)), r is Some && r->0 is Ok ==> upcoming(*final(t)) is Some && (upcoming(*final(t))->0).token == *(r->0->Ok_0)
{ match t.peek() { Some(Ok(x)) => Some(Ok(&x.token)), Some(Err(e)) => Some(Err(e)), None => None } }
#[verifier::external_body] pub fn drain_all(v: &mut Vec<usize>) -> (r: Vec<usize>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() } // Vec::drain(..)
// the token after an if block that still has alternatives
pub open spec fn alternative(t: Option<TokenInfo>) -> bool { t is Some && (t->0.token == Token::Identifier(Word::ElsIf) || t->0.token == Token::Identifier(Word::Else)) }
impl<'x> CompilerState<'x> {
    // instructions of extensions stand only where their extension is declared
    pub open spec fn gated(&self, i: Instruction) -> bool { match i { Instruction::ForEveryPart(_) => self.allowed(Capability::ForEveryPart), Instruction::ForEveryPartPush => self.allowed(Capability::ForEveryPart), Instruction::Eval(_) => self.allowed(Capability::Expressions), Instruction::While(_) => self.allowed(Capability::While), Instruction::Invalid(_) => self.allowed(Capability::Ihave), Instruction::Return => self.allowed(Capability::Include), _ => true } }
    // self.instructions.push(i)
    pub fn emit(&mut self, i: Instruction) requires old(self).gated(i) ensures *final(self) == (CompilerState { instructions: final(self).instructions, ..*old(self) }), final(self).instructions@ == old(self).instructions@.push(i), final(self).instructions@.drop_last() == old(self).instructions@,
        kind(i) <= 3 && (jump(i) is Some ==> jump(i)->0 <= old(self).instructions@.len()) ==> final(self).emits(old(self)),
    { broadcast use axiom_vec_len_bound; proof { reveal(CompilerState::emits); } self.instructions.push(i); proof { assert(self.instructions@.drop_last() =~= old(self).instructions@); assert(self.instructions@.len() <= isize::MAX); } }
    #[verifier::external_body] pub fn block_end(&mut self) ensures final(self).emits(old(self)), final(self).block == old(self).block, final(self).block_stack == old(self).block_stack { unimplemented!() }
    #[verifier::external_body] fn map_local_vars(&mut self, last_id: usize) ensures *final(self) == (CompilerState { instructions: final(self).instructions, ..*old(self) }), final(self).instructions@.len() == old(self).instructions@.len(), forall|k: int| 0 <= k < old(self).instructions@.len() ==> same_ctl(#[trigger] old(self).instructions@[k], final(self).instructions@[k]) { unimplemented!() }
    #[verifier::external_body] pub fn is_var_local(&self, n: &str) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn register_global_var(&mut self, n: &str) requires old(self).allowed(Capability::Variables), old(self).allowed(Capability::Include) ensures final(self).emits(old(self)), final(self).tokens == old(self).tokens { unimplemented!() }
    #[verifier::external_body] pub fn expect_instruction_end(&mut self) -> (r: Result<(), CompileError>) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn ignore_instruction(&mut self) -> (r: Result<(), CompileError>) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_static_strings(&mut self) -> (r: Result<Vec<String>, CompileError>) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_keep(&mut self) -> (r: Result<(), CompileError>) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_redirect(&mut self) -> (r: Result<(), CompileError>) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_fileinto(&mut self) -> (r: Result<(), CompileError>) requires old(self).allowed(Capability::FileInto) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_replace(&mut self) -> (r: Result<(), CompileError>) requires old(self).allowed(Capability::Replace) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_enclose(&mut self) -> (r: Result<(), CompileError>) requires old(self).allowed(Capability::Enclose) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_extracttext(&mut self) -> (r: Result<(), CompileError>) requires old(self).allowed(Capability::ExtractText) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_convert(&mut self) -> (r: Result<(), CompileError>) requires old(self).allowed(Capability::Convert) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_addheader(&mut self) -> (r: Result<(), CompileError>) requires old(self).allowed(Capability::EditHeader) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_deleteheader(&mut self) -> (r: Result<(), CompileError>) requires old(self).allowed(Capability::EditHeader) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_set(&mut self) -> (r: Result<(), CompileError>) requires old(self).allowed(Capability::Variables) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_notify(&mut self) -> (r: Result<(), CompileError>) requires old(self).allowed(Capability::Enotify) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_reject(&mut self, e: bool) -> (r: Result<(), CompileError>) requires old(self).allowed(if e { Capability::Ereject } else { Capability::Reject }) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_vacation(&mut self) -> (r: Result<(), CompileError>) requires old(self).allowed(Capability::Vacation) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_error(&mut self) -> (r: Result<(), CompileError>) requires old(self).allowed(Capability::Ihave) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_flag_action(&mut self, w: Word) -> (r: Result<(), CompileError>) requires old(self).allowed(Capability::Imap4Flags) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_include(&mut self) -> (r: Result<(), CompileError>) requires old(self).allowed(Capability::Include) ensures final(self).emits(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_let(&mut self) -> (r: Result<(), CompileError>) requires old(self).allowed(Capability::Expressions) ensures final(self).emits(old(self)) { unimplemented!() }
    // a block is about to be opened: its head is the last instruction (an else block has none)
    pub open spec fn opening(&self, nb: ScriptBlock) -> bool {
        &&& self.instructions@.len() > 0 && empty_block(nb) && nb.require_pos == usize::MAX && self.calm()
        &&& self.block.if_jmps@.len() > 0 ==> nb.btype == Word::ElsIf || nb.btype == Word::Else
        &&& nb.btype == Word::ForEveryPart ==> pops(self.lv(), 0) <= self.compiler.max_nested_foreverypart
        &&& if nb.btype == Word::Else { code_good(self.instructions@, self.lv(), *self.compiler) } else { (is_if(nb.btype) || is_loop(nb.btype)) && code_good(self.instructions@.drop_last(), self.lv(), *self.compiler) && kind(self.instructions@.last()) == head_kind(nb.btype) && unset(self.instructions@.last()) }
    }
    // the state at the start of each command
    pub open spec fn ready(&self) -> bool { self.good() && (is_if(self.last_block_type) ==> self.instructions@.len() > 0) && (self.block.if_jmps@.len() > 0 ==> alternative(upcoming(self.tokens))) }
}
// an expression writes no code
pub proof fn lemma_expr(s: CompilerState<'_>, o: CompilerState<'_>) requires s.same_but_code(&o) ensures s.emits(&o) { broadcast use axiom_vec_len_bound; reveal(CompilerState::emits); assert(s.instructions@.len() <= isize::MAX); assert forall|k: int| 0 <= k < o.instructions@.len() implies same_ctl(#[trigger] o.instructions@[k], s.instructions@[k]) by { let x = s.instructions@[k]; assert(same_ctl(x, o.instructions@[k])); } }
// the test of an if block
pub proof fn lemma_test_done(o: CompilerState<'_>, s: CompilerState<'_>) requires o.good(), s.kept(&o), moved_on(o.tokens, s.tokens), s.compiler == o.compiler, tested(o.instructions@, s.instructions@), s.instructions@.len() < usize::MAX,
    ensures code_good(s.instructions@.drop_last(), s.lv(), *s.compiler), s.calm()
{
    let w = s.instructions@.drop_last(); let v = o.instructions@;
    assert forall|k: int| v.len() <= k < w.len() implies kind(#[trigger] w[k]) <= 3 && (jump(w[k]) is Some ==> (jump(w[k])->0) <= w.len()) by { assert(closed(s.instructions@, k, s.instructions@.len() - 1)); }
    assert forall|k: int| 0 <= k < v.len() implies same_ctl(#[trigger] v[k], w[k]) by { }
    assert forall|i: int| 0 <= i < o.lv().len() implies block_same(#[trigger] o.lv()[i], s.lv()[i]) by { if i < o.block_stack@.len() { assert(block_same(o.block_stack@[i], s.block_stack@[i])); } }
    lemma_grown(v, o.lv(), w, s.lv(), *o.compiler);
}
pub proof fn lemma_opened(o: CompilerState<'_>, s: CompilerState<'_>, nb: ScriptBlock) requires o.opening(nb), s.instructions == o.instructions, s.compiler == o.compiler, s.block == nb, s.block_stack@ == o.block_stack@.push(ScriptBlock { last_block_start: (o.instructions@.len() - 1) as usize, ..o.block }), o.block_stack@.len() < o.compiler.max_nested_blocks, o.instructions@.len() + 1 < usize::MAX
    ensures code_good(s.instructions@, s.lv(), *s.compiler)
{
    reveal(code_good); let v = o.instructions@; let bs = o.lv(); let b2 = ScriptBlock { last_block_start: (v.len() - 1) as usize, ..o.block };
    let h = if nb.btype == Word::Else { seq![] } else { seq![v.last()] }; let u = if nb.btype == Word::Else { v } else { v.drop_last() };
    assert(bs.last() == o.block); assert(u + h =~= v); assert(bs.drop_last() =~= o.block_stack@);
    lemma_open_block(u, bs, h, b2, nb); assert(bs.drop_last().push(b2).push(nb) =~= s.lv());
    assert forall|i: int| 0 <= i < s.lv().len() implies require_at(v, #[trigger] s.lv()[i]) by { if i < bs.len() { assert(require_at(u, bs[i])); } }
    lemma_pops_push(bs.drop_last().push(b2), nb, 0); lemma_pops(bs, bs.drop_last().push(b2), 0);
}
// a jump out of the loop at level x
pub proof fn lemma_break_out(o: CompilerState<'_>, s: CompilerState<'_>, x: int, b2: ScriptBlock) requires o.good(), 0 <= x < o.lv().len(), is_loop(o.lv()[x].btype), s.lv() == o.lv().update(x, b2), s.instructions@ == o.instructions@.push(Instruction::Jmp(usize::MAX)), s.compiler == o.compiler, b2 == (ScriptBlock { break_jmps: b2.break_jmps, ..o.lv()[x] }), b2.break_jmps@ == o.lv()[x].break_jmps@.push(o.instructions@.len() as usize), s.instructions@.len() < usize::MAX
    ensures code_good(s.instructions@, s.lv(), *s.compiler), s.block.if_jmps@ == o.block.if_jmps@
{
    reveal(code_good); let v = o.instructions@;
    lemma_break(v, o.lv(), x, b2);
    assert forall|i: int| 0 <= i < s.lv().len() implies require_at(s.instructions@, #[trigger] s.lv()[i]) by { assert(require_at(v, o.lv()[i])); assert(s.lv()[i].require_pos == o.lv()[i].require_pos); if s.lv()[i].require_pos != usize::MAX { assert(s.instructions@[s.lv()[i].require_pos as int] == v[s.lv()[i].require_pos as int]); } }
    lemma_pops(o.lv(), s.lv(), 0);
    assert(s.lv().last() == s.block); assert(o.lv().last() == o.block);
}
// the loop a continue goes to
pub proof fn lemma_while(s: CompilerState<'_>, x: int) requires s.good(), 0 < x < s.lv().len(), s.lv()[x].btype == Word::While ensures ({ let p = s.lv()[x - 1].last_block_start; p < s.instructions@.len() && s.instructions@[p as int] is While }) { reveal(code_good); reveal(flow_ok); assert(nested_at(s.instructions@, s.lv(), x)); }
pub proof fn lemma_root(s: CompilerState<'_>) requires s.good() ensures s.lv()[0].btype == Word::Not, s.require_ok() { reveal(code_good); reveal(flow_ok); assert(require_at(s.instructions@, s.lv()[s.lv().len() - 1])); }
pub proof fn lemma_few_pops(bs: Seq<ScriptBlock>, lv: int) requires 0 <= lv <= bs.len() ensures pops(bs, lv) <= bs.len() - lv decreases bs.len() - lv { if lv < bs.len() { lemma_few_pops(bs, lv + 1); } }
// the end of a block
pub open spec fn led_to(w: Seq<Instruction>, k: int, t: int) -> bool { 0 <= k < w.len() && jump(w[k]) == Some(t as usize) }
pub proof fn lemma_block_facts(s: CompilerState<'_>) requires s.good(), s.block_stack@.len() > 0
    ensures ({ let v = s.instructions@; let b = s.block; let p = s.block_stack@.last(); p.last_block_start < v.len() && (is_if(b.btype) || is_loop(b.btype) || b.btype == Word::Else) && (b.btype != Word::Else ==> kind(v[p.last_block_start as int]) == head_kind(b.btype) && unset(v[p.last_block_start as int]))
        && (forall|k: int| #[trigger] waits(b.break_jmps@, k) ==> 0 <= k < v.len() && v[k] == Instruction::Jmp(usize::MAX)) && (forall|k: int| #[trigger] waits(p.if_jmps@, k) ==> 0 <= k < v.len() && v[k] == Instruction::Jmp(usize::MAX))
        && (b.break_jmps@.len() > 0 ==> is_loop(b.btype)) && (p.if_jmps@.len() > 0 ==> b.btype == Word::ElsIf || b.btype == Word::Else) })
{ reveal(code_good); reveal(flow_ok); let v = s.instructions@; let bs = s.lv(); let t = bs.len() - 1; assert(nested_at(v, bs, t)); assert(level_ok(v, bs, t)); assert(level_ok(v, bs, t - 1)); assert(bs[t] == s.block && bs[t - 1] == s.block_stack@.last());
  assert forall|k: int| #[trigger] waits(s.block.break_jmps@, k) implies 0 <= k < v.len() && v[k] == Instruction::Jmp(usize::MAX) by { assert(has_jmp(bs[t], k)); } assert forall|k: int| #[trigger] waits(s.block_stack@.last().if_jmps@, k) implies 0 <= k < v.len() && v[k] == Instruction::Jmp(usize::MAX) by { assert(has_jmp(bs[t - 1], k)); } }
pub proof fn lemma_led_start(z: Seq<Instruction>, w: Seq<Instruction>, jm: Seq<usize>, hp: Option<usize>, t: int) requires w.len() == z.len(), z.len() <= usize::MAX, hp is Some ==> hp->0 < z.len() && kind(w[hp->0 as int]) == kind(z[hp->0 as int]) && jump(w[hp->0 as int]) == Some(t as usize), forall|k: int| 0 <= k < z.len() && hp != Some(k as usize) ==> same_ctl(#[trigger] z[k], w[k]) ensures led(z, w, jm.take(0), hp, t)
{ assert forall|k: int| 0 <= k < z.len() implies kind(#[trigger] w[k]) == kind(z[k]) && (if waits(jm.take(0), k) || hp == Some(k as usize) { jump(w[k]) == Some(t as usize) } else { jump(w[k]) == jump(z[k]) }) by { if hp == Some(k as usize) { } else { assert(same_ctl(z[k], w[k])); } } }
pub proof fn lemma_led_step(z: Seq<Instruction>, w: Seq<Instruction>, w2: Seq<Instruction>, jm: Seq<usize>, i: int, hp: Option<usize>, t: int) requires 0 <= i < jm.len(), led(z, w, jm.take(i), hp, t), jm[i] < z.len(), z[jm[i] as int] is Jmp, w2 == w.update(jm[i] as int, Instruction::Jmp(t as usize)) ensures led(z, w2, jm.take(i + 1), hp, t)
{
    let a = jm.take(i); let b = jm.take(i + 1);
    assert forall|k: int| 0 <= k < z.len() implies waits(b, k) == (waits(a, k) || k == jm[i]) by {
        if waits(b, k) { let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] == k; if j < i { assert(a[j] == k); } }
        if waits(a, k) { let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] == k; assert(b[j] == k); }
        if k == jm[i] { assert(b[i] == k); }
    }
}
pub proof fn lemma_closed(o: CompilerState<'_>, s: CompilerState<'_>, e: Seq<Instruction>, jm: Seq<usize>)
    requires o.good(), o.block_stack@.len() > 0, s.block_stack@ == o.block_stack@.drop_last(), s.compiler == o.compiler, s.instructions@.len() == o.instructions@.len() + e.len(), e.len() <= 1, s.instructions@.len() < usize::MAX,
        s.block == (ScriptBlock { if_jmps: s.block.if_jmps, ..o.block_stack@.last() }), o.block.if_jmps@.len() == 0,
        led(o.instructions@ + e, s.instructions@, jm, if o.block.btype == Word::Else { None } else { Some(o.block_stack@.last().last_block_start) }, s.instructions@.len() as int),
        is_loop(o.block.btype) ==> jm == o.block.break_jmps@ && s.block.if_jmps@ == o.block_stack@.last().if_jmps@ && e == seq![Instruction::Jmp(o.block_stack@.last().last_block_start)],
        o.block.btype == Word::Else ==> jm == o.block_stack@.last().if_jmps@ && s.block.if_jmps@.len() == 0 && e.len() == 0,
        is_if(o.block.btype) ==> (jm == o.block_stack@.last().if_jmps@ && s.block.if_jmps@.len() == 0 && e.len() == 0) || (jm.len() == 0 && s.block.if_jmps@ == o.block_stack@.last().if_jmps@.push(o.instructions@.len() as usize) && e == seq![Instruction::Jmp(usize::MAX)]),
    ensures code_good(s.instructions@, s.lv(), *s.compiler)
{
    reveal(code_good); let v = o.instructions@; let w = s.instructions@; let bs = o.lv(); let t = bs.len() - 1; let p = o.block_stack@.last();
    assert(bs[t] == o.block && bs[t - 1] == p && bs.last() == o.block); assert(bs.drop_last() =~= o.block_stack@); assert(bs.drop_last().drop_last().push(s.block) =~= s.lv());
    lemma_close_block(v, bs, e, w, jm, s.block);
    lemma_block_facts(o);
    assert forall|i: int| 0 <= i < s.lv().len() implies require_at(w, #[trigger] s.lv()[i]) by {
        assert(s.lv()[i].require_pos == bs[i].require_pos); assert(require_at(v, bs[i])); let q = bs[i].require_pos as int;
        if bs[i].require_pos != usize::MAX { let z = v + e; assert(z[q] == v[q]); assert(kind(w[q]) == kind(z[q])); assert(kind(v[q]) == -1); }
    }
    lemma_pops_push(o.block_stack@, o.block, 0); lemma_pops(o.block_stack@, s.lv(), 0);
}
impl<'x> CompilerState<'x> {
// the arm of Token::CurlyClose, cut out of Compiler::compile
//@fn src/compiler/grammar/instruction.rs Compiler::compile
//@ ret r
//@ rename close_block
//@ sig "&self, script: &[u8]" => "state0: CompilerState<'x>"
//@ sig "Result<Sieve, CompileError>" => "CompilerState<'x>"
//@ cut "if script.len() > self.max_script_size" to "Token::CurlyClose if !state.block_stack.is_empty() => {" => ""
//@ cut "} #[cfg(test)] Token::Unknown(instruction) if" to "num_match_vars: state.vars_match_max as u32, })" => "state"
//@ replace "state.tokens.peek().map(|r| r.map(|t| &t.token))" => "peek_token(&mut state.tokens)"
//@ replace "prev_block.if_jmps.drain(..)" => "drain_all(&mut prev_block.if_jmps)"
//@ spec
    requires state0.good(), state0.block_stack@.len() > 0, state0.block.if_jmps@.len() == 0,
    ensures r.ready(), r.compiler == state0.compiler, left(r.tokens) <= left(state0.tokens), r.block_stack@.len() == state0.block_stack@.len() - 1,
        // the end of a block: its head and every break lead here, a loop goes back to its head, a chain of if blocks ends where its last block ends
        state0.block.btype != Word::Else ==> led_to(r.instructions@, state0.block_stack@.last().last_block_start as int, r.instructions@.len() as int),
        forall|k: int| #[trigger] waits(state0.block.break_jmps@, k) ==> led_to(r.instructions@, k, r.instructions@.len() as int),
        is_loop(state0.block.btype) ==> r.instructions@.last() == Instruction::Jmp(state0.block_stack@.last().last_block_start),
        r.block.if_jmps@.len() == 0 ==> (forall|k: int| #[trigger] waits(state0.block_stack@.last().if_jmps@, k) ==> is_loop(state0.block.btype) || led_to(r.instructions@, k, r.instructions@.len() as int)),
        // no jump that has its target is changed
        forall|k: int| 0 <= k < state0.instructions@.len() && !unset(state0.instructions@[k]) ==> same_ctl(#[trigger] state0.instructions@[k], r.instructions@[k]),
//@ at start
    broadcast use {axiom_vec_len_bound, lemma_emits};
    let mut state = state0;
//@ at after "state.block_end();"
    let ghost sv = state;
    proof { lemma_block_facts(state0); lemma_block_facts(sv); assert(state0.instructions@.len() <= sv.instructions@.len() && forall|k: int| 0 <= k < state0.instructions@.len() ==> same_ctl(#[trigger] state0.instructions@[k], sv.instructions@[k])) by { reveal(CompilerState::emits); } }
    let ghost jm = if is_loop(sv.block.btype) { sv.block.break_jmps@ } else { sv.block_stack@.last().if_jmps@ };
    let ghost hp = if sv.block.btype == Word::Else { None } else { Some(sv.block_stack@.last().last_block_start) };
    let ghost mut e: Seq<Instruction> = seq![];
    let ghost mut jx: Seq<usize> = jm;
    proof { assert forall|j: int| 0 <= j < jm.len() implies (#[trigger] jm[j]) < sv.instructions@.len() && sv.instructions@[jm[j] as int] is Jmp by { assert(waits(jm, jm[j] as int)); } }
//@ at before "if let Instruction::ForEveryPart(fep)"
    proof { e = seq![Instruction::Jmp(prev_block.last_block_start)]; }
    let ghost z = sv.instructions@ + e;
    proof { assert(state.instructions@ =~= z); }
//@ at before "if let Instruction::While(fep)"
    proof { e = seq![Instruction::Jmp(prev_block.last_block_start)]; }
    let ghost z = sv.instructions@ + e;
    proof { assert(state.instructions@ =~= z); }
//@ at before "if let Instruction::Jz(jmp_pos)"
    proof { if next_is_block { e = seq![Instruction::Jmp(usize::MAX)]; jx = seq![]; } }
    let ghost z = sv.instructions@ + e;
    proof { assert(state.instructions@ =~= z); }
//@ at before loop 9
    let ghost z = sv.instructions@;
    proof { assert(z + e =~= z); }
//@ at before loop 7
    let ghost s7 = state;
    proof { lemma_led_start(z, state.instructions@, jm, hp, cur_pos as int); }
//@ loop 7 for it it
    invariant it.seq() == jm, led(z, state.instructions@, jm.take(it.index()), hp, cur_pos as int), forall|j: int| 0 <= j < jm.len() ==> (#[trigger] jm[j]) < z.len() && z[jm[j] as int] is Jmp,
        state == (CompilerState { instructions: state.instructions, ..s7 }),
//@ at loop 7 start
    let ghost w0 = state.instructions@;
//@ at loop 7 end
    proof { lemma_led_step(z, w0, state.instructions@, jm, it.index(), hp, cur_pos as int); }
//@ at after loop 7
    proof { assert(jm.take(jm.len() as int) =~= jm); }
//@ at before loop 8
    let ghost s7 = state;
    proof { lemma_led_start(z, state.instructions@, jm, hp, cur_pos as int); }
//@ loop 8 for it it
    invariant it.seq() == jm, led(z, state.instructions@, jm.take(it.index()), hp, cur_pos as int), forall|j: int| 0 <= j < jm.len() ==> (#[trigger] jm[j]) < z.len() && z[jm[j] as int] is Jmp,
        state == (CompilerState { instructions: state.instructions, ..s7 }),
//@ at loop 8 start
    let ghost w0 = state.instructions@;
//@ at loop 8 end
    proof { lemma_led_step(z, w0, state.instructions@, jm, it.index(), hp, cur_pos as int); }
//@ at after loop 8
    proof { assert(jm.take(jm.len() as int) =~= jm); }
//@ at before loop 9
    let ghost s7 = state;
    proof { lemma_led_start(z, state.instructions@, jm, hp, cur_pos as int); }
//@ loop 9 for it it
    invariant it.seq() == jm, led(z, state.instructions@, jm.take(it.index()), hp, cur_pos as int), forall|j: int| 0 <= j < jm.len() ==> (#[trigger] jm[j]) < z.len() && z[jm[j] as int] is Jmp,
        state == (CompilerState { instructions: state.instructions, ..s7 }),
//@ at loop 9 start
    let ghost w0 = state.instructions@;
//@ at loop 9 end
    proof { lemma_led_step(z, w0, state.instructions@, jm, it.index(), hp, cur_pos as int); }
//@ at after loop 9
    proof { assert(jm.take(jm.len() as int) =~= jm); }
//@ at before loop 10
    let ghost s7 = state;
    proof { lemma_led_start(z, state.instructions@, jm, hp, cur_pos as int); }
//@ loop 10 for it it
    invariant it.seq() == jm, led(z, state.instructions@, jm.take(it.index()), hp, cur_pos as int), forall|j: int| 0 <= j < jm.len() ==> (#[trigger] jm[j]) < z.len() && z[jm[j] as int] is Jmp,
        state == (CompilerState { instructions: state.instructions, ..s7 }),
//@ at loop 10 start
    let ghost w0 = state.instructions@;
//@ at loop 10 end
    proof { lemma_led_step(z, w0, state.instructions@, jm, it.index(), hp, cur_pos as int); }
//@ at after loop 10
    proof { assert(jm.take(jm.len() as int) =~= jm); }
//@ at before "state.block = prev_block;"
    let ghost pb = prev_block;
    proof { if jx.len() == 0 && jm.len() > 0 { lemma_led_start(sv.instructions@ + e, state.instructions@, jx, hp, state.instructions@.len() as int); assert(jx.take(0) =~= jx); } }
//@ at after "state.block = prev_block;"
    proof { lemma_closed(sv, state, e, jx); }
//@end
}
pub open spec fn broken(o: CompilerState<'_>, s: CompilerState<'_>, x: int) -> bool { 0 <= x < o.lv().len() && is_loop(o.lv()[x].btype) && s == (CompilerState { block: s.block, block_stack: s.block_stack, ..o }) && s.block_stack@.len() == o.block_stack@.len() && s.lv() == o.lv().update(x, s.lv()[x]) && s.lv()[x] == (ScriptBlock { break_jmps: s.lv()[x].break_jmps, ..o.lv()[x] }) && s.lv()[x].break_jmps@ == o.lv()[x].break_jmps@.push(o.instructions@.len() as usize) }
impl Compiler {
//@fn src/compiler/grammar/instruction.rs Compiler::compile
//@ ret r
//@ loops 12
//@ replace "Block::new(" => "ScriptBlock::new("
//@ replace "AHashSet::new()" => "NameSet::new()"
//@ replace "Token::CurlyClose if !state.block_stack.is_empty() => {" => "Token::CurlyClose => { if state.block_stack.is_empty() { return Err(token_info.expected(\"instruction\")); }"
//@ cut "state.block_end();" to "state.block = prev_block;" => "state = CompilerState::close_block(state);"
//@ cut "#[cfg(test)] Token::Unknown(instruction) if instruction.contains(\"test\")" to "Instruction::TestCmd(arguments)); } }" => ""
//@ replace "state.instructions.push(" => "state.emit("
//@ replace "if state.block_stack.iter().chain([&state.block]).filter(|b| matches!(&b.btype, Word::ForEveryPart)).count()" => "let picks = |b: &ScriptBlock| -> (o: bool) ensures o == (b.btype == Word::ForEveryPart) { matches!(&b.btype, Word::ForEveryPart) }; let loops = chained(&state.block, &state.block_stack).filter_count(picks); proof { let s = choose|s: Seq<bool>| loops == #[trigger] trues(s) && s.len() == state.block_stack@.len() + 1 && forall|i: int| 0 <= i < s.len() ==> call_ensures(picks, (&levels(state.block_stack@, state.block)[i],), #[trigger] s[i]); lemma_trues(state.lv(), s); } if loops"
//@ replace "state.tokens.peek().map(|r| r.map(|t| &t.token))" => "peek_token(&mut state.tokens)"
//@ replace "block.label.as_ref().is_some_and(|n| n.eq(&label))" => "named_by(&block.label, &label)"
//@ replace "for block in [&mut state.block].into_iter().chain(state.block_stack.iter_mut().rev())" => "let mut lv = state.block_stack.len() + 1; while lv > 0"
//@ replace "block.break_jmps.push(" => "level_mut(&mut state.block, &mut state.block_stack, lv).break_jmps.push("
//@ replace "block_found = Some(&mut state.block)" => "block_found = Some(state.block_stack.len())"
//@ replace "for block in state.block_stack.iter_mut().rev()" => "let mut lv = state.block_stack.len(); while lv > 0"
//@ replace "block_found = Some(block)" => "block_found = Some(lv)"
//@ replace "let block = block_found.ok_or_else(|| { token_info.custom(ErrorType::BreakOutsideLoop) })?;" => "let lv = match block_found { Some(lv) => lv, None => return Err(token_info.custom(ErrorType::BreakOutsideLoop)) }; let block = level(&state.block, &state.block_stack, lv);"
//@ replace "for block in [&state.block].into_iter().chain(state.block_stack.iter().rev())" => "let mut lv = state.block_stack.len() + 1; while lv > 0"
//@ replace "let while_pos = while_pos.ok_or_else(|| { token_info.custom(ErrorType::ContinueOutsideLoop) })?;" => "let while_pos = match while_pos { Some(p) => p, None => return Err(token_info.custom(ErrorType::ContinueOutsideLoop)) };"
//@ replace "ErrorType::UnexpectedToken { expected: \"command\".into(), found: instruction.to_string(), }" => "unexpected_command(instruction.to_string())"
//@ replace "ErrorType::UnexpectedToken { expected: \"command\".into(), found: instruction, }" => "unexpected_command(instruction)"
//@ replace "std::cmp::max(" => "larger("
//@ replace "std::cmp::min(" => "smaller("
//@ spec
    requires script@.len() < 0x7fff_ffff,
    ensures r is Ok ==> script@.len() <= self.max_script_size && script_ok(r->Ok_0.instructions@) && r->Ok_0.num_vars <= self.max_local_variables && r->Ok_0.num_vars <= MAX_LOCAL_VARIABLES,
//@ at start
    broadcast use {axiom_vec_len_bound, lemma_emits, lemma_declares};
//@ at before loop 0
    proof { assert(state.ready()) by { reveal(code_good); reveal(flow_ok); let bs = state.lv(); assert(bs.len() == 1); assert(bs[0] == state.block); assert(pops(bs, 1) == 0); reveal_with_fuel(pops, 2); assert forall|k: int| !has_jmp(bs[0], k) by { } assert(level_ok(state.instructions@, bs, 0)); } }
//@ loop 0 while
    invariant_except_break state.ready(),
    invariant state.compiler == self,
    ensures state.good(), state.block.if_jmps@.len() == 0,
    decreases left(state.tokens)
//@ at loop 0 start
    broadcast use {axiom_vec_len_bound, lemma_emits, lemma_declares};
//@ at after "let token_info = token_info?;"
    proof { assert(state.block.if_jmps@.len() > 0 ==> token_info.token == Token::Identifier(Word::ElsIf) || token_info.token == Token::Identifier(Word::Else)); }
//@ at loop 5 start
    broadcast use {axiom_vec_len_bound, lemma_emits};
//@ at before "state.parse_require()?;"
    proof { lemma_root(state); }
//@ at after "state.parse_test()?;" #0
    proof { lemma_test_done(s0, state); }
    let ghost s1 = state;
//@ at after "state.block.if_jmps.clear();"
    proof { assert forall|i: int| 0 <= i < s1.lv().len() implies block_same(#[trigger] s1.lv()[i], state.lv()[i]) by { assert(s1.block.if_jmps@ =~= state.block.if_jmps@); } lemma_grown(s1.instructions@.drop_last(), s1.lv(), state.instructions@.drop_last(), state.lv(), *state.compiler); }
//@ at after "state.parse_test()?;" #1
    proof { lemma_test_done(s0, state); }
//@ at after "state.reset_param_check();"
    let ghost s0 = state;
//@ at inside "Word::Break => {"
    let ghost mut sa = state;
    let ghost mut x: int = 0;
//@ at before loop 2
    let ghost sb = state;
//@ loop 2 for
    invariant_except_break !label_found, state == sb, lv <= sb.block_stack@.len() + 1, num_pops == pops(sb.lv(), lv as int),
    invariant sb.good(), sb.compiler == self, sb.allowed(Capability::ForEveryPart),
    ensures label_found ==> broken(sa, state, x) && sa.good() && sa.block.if_jmps@ == sb.block.if_jmps@ && sa.compiler == self && sa.tokens == sb.tokens && sa.last_block_type == sb.last_block_type && sa.instructions@.len() > 0,
    decreases lv
//@ at loop 2 start
    broadcast use {axiom_vec_len_bound, lemma_emits};
    proof { lemma_few_pops(state.lv(), lv as int); axiom_vec_len_bound(state.block_stack); }
    lv = lv - 1;
    let block = level(&state.block, &state.block_stack, lv);
//@ at before "block.break_jmps.push(state.instructions.len())" #0
    proof { sa = state; x = lv as int; assert(num_pops == pops(sb.lv(), x)); }
//@ at before loop 3
    proof { assert(state.lv().last() == state.block); reveal_with_fuel(pops, 2); }
//@ loop 3 for
    invariant_except_break block_found is None, pops(state.lv(), lv as int) == 0,
    invariant lv <= state.block_stack@.len(), 
    ensures block_found is Some ==> block_found == Some(lv) && lv < state.block_stack@.len() && is_loop(state.lv()[lv as int].btype) && pops(state.lv(), lv + 1) == 0,
    decreases lv
//@ at loop 3 start
    broadcast use {axiom_vec_len_bound, lemma_emits};
    lv = lv - 1;
    let block = level(&state.block, &state.block_stack, lv);
//@ at before "if matches!(block.btype, Word::ForEveryPart)"
    proof { x = lv as int; assert(pops(state.lv(), x) == (if block.btype == Word::ForEveryPart { 1nat } else { 0nat })); }
//@ at before "block.break_jmps.push(state.instructions.len())" #1
    proof { sa = state; }
//@ at after "state.instructions.push(Instruction::Jmp(usize::MAX))" #0
    proof { lemma_break_out(sa, state, x, state.lv()[x]); assert(state.good()); }
//@ loop 4 for
    invariant lv <= state.block_stack@.len() + 1, num_pops == pops(state.lv(), lv as int),
    decreases lv
//@ at loop 4 start
    proof { lemma_few_pops(state.lv(), lv as int); axiom_vec_len_bound(state.block_stack); }
    lv = lv - 1;
    let block = level(&state.block, &state.block_stack, lv);
//@ loop 5 for it it
    invariant state.good(), state.compiler == self, state.block.if_jmps@.len() == 0, state.allowed(Capability::Include), state.allowed(Capability::Variables), left(state.tokens) <= left(s0.tokens), state.last_block_type == s0.last_block_type, state.instructions@.len() >= s0.instructions@.len(),
//@ loop 6 for
    invariant_except_break while_pos is None, found_while ==> lv <= state.block_stack@.len() && state.lv()[lv as int].btype == Word::While,
        num_pops == pops(state.lv(), lv as int),
    invariant lv <= state.block_stack@.len() + 1,
    ensures while_pos is Some ==> lv < state.block_stack@.len() && state.lv()[lv + 1].btype == Word::While && while_pos == Some(state.lv()[lv as int].last_block_start) && num_pops == pops(state.lv(), lv + 1),
    decreases lv
//@ at loop 6 start
    proof { lemma_few_pops(state.lv(), lv as int); axiom_vec_len_bound(state.block_stack); }
    lv = lv - 1;
    let block = level(&state.block, &state.block_stack, lv);
//@ at after loop 6
    proof { if while_pos is Some { lemma_while(state, lv + 1); } }
//@ at before "if let Some(mut new_block) = is_new_block"
    proof { assert(state.compiler == self); assert(left(state.tokens) <= left(s0.tokens)); if is_new_block is Some { assert(state.opening(is_new_block->0)); } else { assert(state.good()); assert(state.block.if_jmps@.len() == 0); assert(is_if(state.last_block_type) ==> state.instructions@.len() > 0); } }
//@ at after "is_new_block = Block::new(Word::If).into();"
    proof { assert(state.opening(is_new_block->0)); }
//@ at after "is_new_block = Block::new(Word::ElsIf).into();"
    proof { assert(state.opening(is_new_block->0)); }
//@ at after "is_new_block = Block::new(Word::Else).into();"
    proof { assert(state.opening(is_new_block->0)); }
//@ at after "state.instructions.push(Instruction::ForEveryPart(ForEveryPart { jz_pos: usize::MAX, }))"
    proof { assert(state.opening(is_new_block->0)); }
//@ at after "state.instructions.push(Instruction::While(While { expr, jz_pos: usize::MAX, }))"
    proof { assert(state.opening(is_new_block->0)); }
//@ at after "state.instructions.push(Instruction::Jmp(while_pos))"
    proof { assert(state.good()); }
//@ at after "state.parse_require()?;"
    proof { assert(state.good()); }
//@ at after "state.parse_include()?;"
    proof { assert(state.good()); }
//@ at before "let expr = state.parse_expr()?;" #0
    let ghost se = state;
//@ at after "let expr = state.parse_expr()?;" #0
    proof { lemma_expr(state, se); }
//@ at before "let expr = state.parse_expr()?;" #1
    let ghost se = state;
//@ at after "let expr = state.parse_expr()?;" #1
    proof { lemma_expr(state, se); }
//@ at before "new_block.line_num = state.tokens.line_num;" #0
    let ghost so = state;
//@ at after "state.block = new_block;" #0
    proof { lemma_opened(so, state, state.block); }
//@ at before "let mut num_vars ="
    proof { assert(state.lv()[0] == state.block); assert(code_good(state.instructions@, state.lv(), *state.compiler)); assert(flow_ok(state.instructions@, state.lv())) by { reveal(code_good); } lemma_all_closed(state.instructions@, state.lv()); }
    let ghost v = state.instructions@;
//@ at before "if num_vars > std::cmp::min"
    proof { assert forall|k: int| 0 <= k < state.instructions@.len() implies #[trigger] settled(state.instructions@, k) by { assert(settled(v, k)); assert(same_ctl(v[k], state.instructions@[k])); if kind(v[k]) >= 4 && jump(v[k]) is Some { let q = (jump(v[k])->0) - 1; assert(same_ctl(v[q], state.instructions@[q])); } } }
//@end
}
