use vstd::prelude::*;
verus! {
//@include std.vrs
#[verifier::external_body] pub struct Instruction { x: u8 }
//@include args_base.vrs
// ---- skipping tests and commands that are not known --------------------------------------------
impl<'x> Tokenizer<'x> {
    #[verifier::external_body] pub fn peek(&mut self) -> (r: Option<Result<&TokenInfo, CompileError>>) ensures ahead(*final(self)) == ahead(*old(self)), (r is Some && r->0 is Ok) ==> ahead(*old(self)).len() > 0 && r->0->Ok_0.token == ahead(*old(self))[0], r is None ==> ahead(*old(self)).len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<TokenInfo, CompileError>>) ensures ahead(*old(self)).len() > 0 ==> ahead(*final(self)) == ahead(*old(self)).skip(1) { unimplemented!() }
}
pub open spec fn opens(t: Token) -> bool { t is ParenthesisOpen || t is BracketOpen }
pub open spec fn closes(t: Token) -> bool { t is ParenthesisClose || t is BracketClose }
// how many parentheses and lists are open after the first k tokens
pub open spec fn depth(s: Seq<Token>, k: int) -> int decreases k { if k <= 0 { 0 } else { depth(s, k - 1) + if opens(s[k - 1]) { 1int } else if closes(s[k - 1]) { -1int } else { 0int } } }
// a test ends before the block of the command, and before the comma or parenthesis of the list of tests it stands in
pub open spec fn test_ends(s: Seq<Token>, k: int) -> bool { s[k] is CurlyOpen || (depth(s, k) == 0 && (s[k] is Comma || closes(s[k]))) }
pub open spec fn test_skipped(s: Seq<Token>, k: int) -> bool { 0 <= k <= s.len() && (k < s.len() ==> test_ends(s, k)) && forall|i: int| 0 <= i < k ==> !#[trigger] test_ends(s, i) }
// blocks open after the first k tokens
pub open spec fn blocks(s: Seq<Token>, k: int) -> int decreases k { if k <= 0 { 0 } else { blocks(s, k - 1) + if s[k - 1] is CurlyOpen { 1int } else if s[k - 1] is CurlyClose { -1int } else { 0int } } }
// a command ends with its semicolon or with its block
pub open spec fn command_ends(s: Seq<Token>, k: int) -> bool { (s[k] is Semicolon && blocks(s, k) == 0) || (s[k] is CurlyClose && blocks(s, k) == 1) }
pub open spec fn command_skipped(s: Seq<Token>, k: int) -> bool { 0 < k <= s.len() && command_ends(s, k - 1) && forall|i: int| 0 <= i < k - 1 ==> #[trigger] goes_on(s, i) }
pub proof fn lemma_skip(a: Seq<Token>, k: int) requires 0 <= k < a.len() ensures a.skip(k)[0] == a[k], a.skip(k).skip(1) == a.skip(k + 1) { assert(a.skip(k).skip(1) =~= a.skip(k + 1)); }
pub open spec fn goes_on(s: Seq<Token>, i: int) -> bool { !command_ends(s, i) && (s[i] is CurlyClose ==> blocks(s, i) > 0) }
pub proof fn lemma_command(s: Seq<Token>, k: int) requires 0 < k <= s.len(), command_ends(s, k - 1), forall|i: int| 0 <= i < k - 1 ==> #[trigger] goes_on(s, i) ensures command_skipped(s, k) { }
impl<'x> CompilerState<'x> {
//@fn src/compiler/grammar/mod.rs CompilerState::ignore_test
//@ ret r
//@ spec
    requires ahead(old(self).tokens).len() <= 0x7fff_ffff,
    ensures r is Ok ==> exists|k: int| #[trigger] test_skipped(ahead(old(self).tokens), k) && ahead(final(self).tokens) == ahead(old(self).tokens).skip(k),
        *final(self) == (CompilerState { tokens: final(self).tokens, ..*old(self) }),
//@ at start
    let ghost a = ahead(self.tokens); let ghost mut k = 0int;
    proof { assert(a.skip(0) =~= a); }
//@ loopattr 0 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0 while
    invariant_except_break 0 <= k <= a.len(), ahead(self.tokens) == a.skip(k), d_count == depth(a, k), 0 <= d_count <= k, forall|i: int| 0 <= i < k ==> !#[trigger] test_ends(a, i), *self == (CompilerState { tokens: self.tokens, ..*old(self) }), a == ahead(old(self).tokens), a.len() <= 0x7fff_ffff,
    ensures test_skipped(a, k), ahead(self.tokens) == a.skip(k), *self == (CompilerState { tokens: self.tokens, ..*old(self) }),
    decreases a.len() - k,
//@ at loop 0 start
    proof { if k < a.len() { lemma_skip(a, k); } }
//@ at after "self.tokens.next();"
    proof { k = k + 1; }
//@ at after loop 0
    proof { assert(test_skipped(a, k) && ahead(self.tokens) == a.skip(k)); }
//@end
//@fn src/compiler/grammar/mod.rs CompilerState::ignore_instruction
//@ ret r
//@ spec
    requires ahead(old(self).tokens).len() <= 0x7fff_ffff,
    ensures r is Ok ==> exists|k: int| #[trigger] command_skipped(ahead(old(self).tokens), k) && ahead(final(self).tokens) == ahead(old(self).tokens).skip(k),
        *final(self) == (CompilerState { tokens: final(self).tokens, ..*old(self) }),
//@ at start
    let ghost a = ahead(self.tokens); let ghost mut k = 0int;
    proof { assert(a.skip(0) =~= a); }
//@ loopattr 0 #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0 loop
    invariant_except_break 0 <= k <= a.len(), ahead(self.tokens) == a.skip(k), curly_count == blocks(a, k), 0 <= curly_count <= k, forall|i: int| 0 <= i < k ==> #[trigger] goes_on(a, i), *self == (CompilerState { tokens: self.tokens, ..*old(self) }), a == ahead(old(self).tokens), a.len() <= 0x7fff_ffff,
    ensures command_skipped(a, k), ahead(self.tokens) == a.skip(k), *self == (CompilerState { tokens: self.tokens, ..*old(self) }),
    decreases a.len() - k,
//@ at after "let token_info = self.tokens.unwrap_next()?;"
    let ghost c0 = curly_count as int;
    proof { lemma_skip(a, k); assert forall|i: int| 0 <= i < k implies #[trigger] goes_on(a, i) by { } k = k + 1; assert(c0 == blocks(a, k - 1)); assert(token_info.token == a[k - 1]); }
//@ at before "break;" #0
    proof { assert(command_ends(a, k - 1)); assert forall|i: int| 0 <= i < k - 1 implies #[trigger] goes_on(a, i) by { } lemma_command(a, k); }
//@ at before "break;" #1
    proof { assert(command_ends(a, k - 1)); assert forall|i: int| 0 <= i < k - 1 implies #[trigger] goes_on(a, i) by { } lemma_command(a, k); }
//@ at loop 0 end
    proof { assert(!command_ends(a, k - 1)); assert(a[k - 1] is CurlyClose ==> blocks(a, k - 1) > 0);
        assert forall|i: int| 0 <= i < k implies #[trigger] goes_on(a, i) by { if i < k - 1 { assert(goes_on(a, i)); } } }
//@ at after loop 0
    proof { assert(command_skipped(a, k) && ahead(self.tokens) == a.skip(k)); }
//@end
}
//@literals
}
fn main() {}
