global size_of usize == 8;
// ---- tokens and instructions of the compiler ----------------------------------------------
#[verifier::external_body] pub struct Number { x: u8 }
//@type src/compiler/lexer/mod.rs StringConstant
//@end
//@type src/compiler/lexer/word.rs Word
//@ attr #[derive(PartialEq, Eq, Clone, Copy, Structural)]
//@end
//@type src/compiler/lexer/mod.rs Token
//@end
//@type src/compiler/lexer/tokenizer.rs TokenInfo
//@end
//@type src/compiler/mod.rs CompileError
//@end
#[verifier::external_body] pub struct Comparator { x: u8 }
#[verifier::external_body] pub struct Value { x: u8 }
//@type src/compiler/grammar/expr/mod.rs UnaryOperator
//@end
//@type src/compiler/grammar/expr/mod.rs Expression
//@ keep UnaryOperator
//@end
//@type src/compiler/grammar/mod.rs Capability
//@end
//@type src/compiler/mod.rs ErrorType
//@ keep TooManyNestedTests TooManyNestedBlocks UndeclaredCapability DuplicatedParameter ScriptTooLong TooManyNestedForEveryParts LabelAlreadyDefined LabelUndefined BreakOutsideLoop ContinueOutsideLoop TooManyIncludes VariableTooLong VariableIsLocal UnterminatedBlock TooManyVariables
//@end
//@type src/compiler/grammar/mod.rs Invalid
//@end
#[verifier::external_body] pub struct TestVacation { x: u8 }
//@type src/compiler/grammar/actions/action_convert.rs Convert
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_address.rs TestAddress
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_envelope.rs TestEnvelope
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_exists.rs TestExists
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_header.rs TestHeader
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_size.rs TestSize
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_body.rs TestBody
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_date.rs TestDate
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_date.rs TestCurrentDate
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_duplicate.rs TestDuplicate
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_string.rs TestString
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_notify.rs TestNotifyMethodCapability
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_notify.rs TestValidNotifyMethod
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_extlists.rs TestValidExtList
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_ihave.rs TestIhave
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_hasflag.rs TestHasFlag
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_mailbox.rs TestMailboxExists
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_mailbox.rs TestMetadata
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_mailbox.rs TestMetadataExists
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_mailboxid.rs TestMailboxIdExists
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_spamtest.rs TestSpamTest
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_spamtest.rs TestVirusTest
//@ keep is_not
//@end
//@type src/compiler/grammar/tests/test_specialuse.rs TestSpecialUseExists
//@ keep is_not
//@end
//@type src/compiler/grammar/test.rs Test
//@ drop TestCmd
//@end
//@type src/compiler/grammar/actions/action_mime.rs ForEveryPart
//@end
//@type src/compiler/grammar/mod.rs While
//@end
// the instructions the contracts tell apart; all others behave like one plain action
//@type src/compiler/grammar/instruction.rs Instruction
//@ keep Require Discard Stop Invalid Test Jmp Jz Jnz ForEveryPartPush ForEveryPart ForEveryPartPop Return Eval While
//@end
// ---- control flow of a compiled script: the kinds of jumps, and where they lead --------------
pub open spec fn kind(i: Instruction) -> int { match i { Instruction::Jz(_) => 1, Instruction::Jnz(_) => 2, Instruction::Jmp(_) => 3, Instruction::ForEveryPart(_) => 4, Instruction::While(_) => 5, Instruction::Require(_) => -1, _ => 0 } }
pub open spec fn jump(i: Instruction) -> Option<usize> { match i { Instruction::Jz(t) => Some(t), Instruction::Jnz(t) => Some(t), Instruction::Jmp(t) => Some(t), Instruction::ForEveryPart(f) => Some(f.jz_pos), Instruction::While(w) => Some(w.jz_pos), _ => None } }
pub open spec fn same_ctl(a: Instruction, b: Instruction) -> bool { kind(a) == kind(b) && jump(a) == jump(b) }
// HashSet<Capability>
#[verifier::external_body] pub struct CapSet { x: u8 }
impl View for CapSet { type V = Set<Capability>; uninterp spec fn view(&self) -> Set<Capability>; }
impl CapSet { #[verifier::external_body] pub fn insert(&mut self, c: Capability) -> (r: bool) ensures final(self)@ == old(self)@.insert(c) { unimplemented!() } }
#[verifier::external_body] pub struct SlotMap { x: u8 }
#[verifier::external_body] pub struct NameSet { x: u8 }
impl SlotMap { #[verifier::external_body] pub fn new() -> (r: Self) { unimplemented!() } }
impl NameSet { #[verifier::external_body] pub fn new() -> (r: Self) { unimplemented!() } }
impl CapSet { #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<Capability>::empty() { unimplemented!() } }
//@type src/compiler/grammar/instruction.rs Block
//@ replace "AHashSet<Capability>" => "CapSet"
//@ replace "AHashMap<String, usize>" => "SlotMap"
//@ rename ScriptBlock
//@end
//@type src/lib.rs Compiler
//@ keep max_nested_tests no_capability_check max_script_size max_nested_blocks max_nested_foreverypart max_includes max_variable_name_size max_local_variables
//@end
//@type src/compiler/grammar/instruction.rs CompilerState
//@ replace "AHashSet<String>" => "NameSet"
//@ replace "Block" => "ScriptBlock"
//@end
pub struct Tokenizer<'x> { pub compiler: &'x Compiler, pub line_num: usize, pub pos: usize, pub line_start: usize, pub x: u8 }
// the token that has been looked at and is read next (the contracts of lex_token.vrs: the top of next_token)
pub uninterp spec fn upcoming(t: Tokenizer<'_>) -> Option<TokenInfo>;
// the text not yet read; every token is at least one character of it
pub uninterp spec fn left(t: Tokenizer<'_>) -> nat;
pub open spec fn moved_on(a: Tokenizer<'_>, b: Tokenizer<'_>) -> bool { b.compiler == a.compiler && left(b) <= left(a) && (a.line_start <= a.pos ==> b.line_start <= b.pos) }
impl<'x> Tokenizer<'x> {
    #[verifier::external_body] pub fn new(c: &'x Compiler, script: &[u8]) -> (r: Self) ensures r.compiler == c, r.line_start <= r.pos, left(r) <= 2 * script@.len(), upcoming(r) is None { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<TokenInfo, CompileError>>) ensures moved_on(*old(self), *final(self)), r is Some && r->0 is Ok ==> left(*final(self)) < left(*old(self)), upcoming(*old(self)) is Some ==> r is Some && r->0 is Ok && r->0->Ok_0 == upcoming(*old(self))->0 { unimplemented!() }
    #[verifier::external_body] pub fn unwrap_next(&mut self) -> (r: Result<TokenInfo, CompileError>) ensures moved_on(*old(self), *final(self)), r is Ok ==> left(*final(self)) < left(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn expect_token(&mut self, t: Token) -> (r: Result<(), CompileError>) ensures moved_on(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body] pub fn peek(&mut self) -> (r: Option<Result<&TokenInfo, CompileError>>) ensures moved_on(*old(self), *final(self)), r is Some && r->0 is Ok ==> upcoming(*final(self)) == Some(*(r->0->Ok_0)) { unimplemented!() }
    #[verifier::external_body] pub fn expect_static_string(&mut self) -> (r: Result<String, CompileError>) ensures moved_on(*old(self), *final(self)) { unimplemented!() }
}
impl TokenInfo { #[verifier::external_body] pub fn custom(self, e: ErrorType) -> CompileError { unimplemented!() } #[verifier::external_body] pub fn expected(self, s: &str) -> CompileError { unimplemented!() } }
//@const src/compiler/grammar/instruction.rs MAX_PARAMS
//@type src/compiler/grammar/test.rs Block
//@ rename TestBlock
//@end
