// ---- the control flow of compiled tests ----------------------------------------------------
// where an instruction of a test may go next: Some(target) for a conditional jump
pub open spec fn target(i: Instruction) -> Option<usize> { match i { Instruction::Jz(t) => Some(t), Instruction::Jnz(t) => Some(t), _ => None } }
pub open spec fn on_true(i: Instruction) -> bool { i is Jnz }
// two instruction lists with the same control flow
pub open spec fn same_flow(a: Seq<Instruction>, b: Seq<Instruction>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> target(#[trigger] a[k]) == target(b[k]) && on_true(a[k]) == on_true(b[k]) && same_ctl(a[k], b[k]) }
pub open spec fn same_prefix(a: Seq<Instruction>, b: Seq<Instruction>, n: int) -> bool { a.len() >= n && b.len() >= n && forall|k: int| 0 <= k < n ==> target(#[trigger] a[k]) == target(b[k]) && on_true(a[k]) == on_true(b[k]) && same_ctl(a[k], b[k]) }
// a position that waits for the end of one of the open lists of tests (outermost first)
pub open spec fn waits(jmps: Seq<usize>, k: int) -> bool { exists|j: int| 0 <= j < jmps.len() && #[trigger] jmps[j] == k }
pub open spec fn pending(all: Seq<TestBlock>, k: int) -> bool { exists|s: int| 0 <= s < all.len() && waits((#[trigger] all[s]).jmps@, k) }
// every jump of a list of tests tests the same way: allof leaves on false, anyof on true
pub open spec fn block_ok(b: TestBlock, v: Seq<Instruction>, start: int) -> bool { forall|j: int| 0 <= j < b.jmps@.len() ==> start <= #[trigger] b.jmps@[j] < v.len() && target(v[b.jmps@[j] as int]) == Some(usize::MAX) && on_true(v[b.jmps@[j] as int]) == !b.is_all }
pub open spec fn before(a: TestBlock, b: TestBlock) -> bool { forall|i: int, j: int| 0 <= i < a.jmps@.len() && 0 <= j < b.jmps@.len() ==> #[trigger] a.jmps@[i] < #[trigger] b.jmps@[j] }
pub open spec fn closed(v: Seq<Instruction>, k: int, end: int) -> bool { target(v[k]) is None || k < (target(v[k])->0) <= end }
pub open spec fn code_ok(all: Seq<TestBlock>, v: Seq<Instruction>, start: int) -> bool {
    &&& 0 <= start <= v.len()
    &&& all.len() > 0 && all[0].jmps@.len() == 0
    &&& forall|s: int| 0 <= s < all.len() ==> block_ok(#[trigger] all[s], v, start)
    &&& forall|s: int, u: int| 0 <= s < u < all.len() ==> before(#[trigger] all[s], #[trigger] all[u])
    &&& forall|k: int| start <= k < v.len() ==> (#[trigger] closed(v, k, v.len() as int) || pending(all, k))
    &&& forall|k: int| start <= k < v.len() ==> kind(#[trigger] v[k]) <= 2
}
pub open spec fn same_block(a: TestBlock, b: TestBlock) -> bool { a.is_all == b.is_all && a.jmps@ == b.jmps@ }
// one more instruction: a plain one, or a jump of the innermost list
pub proof fn lemma_push(all: Seq<TestBlock>, b2: TestBlock, v: Seq<Instruction>, start: int, i: Instruction)
    requires code_ok(all, v, start), kind(i) <= 2, b2.is_all == all.last().is_all, v.len() <= usize::MAX,
        (target(i) is None && b2.jmps@ == all.last().jmps@) || (all.len() > 1 && target(i) == Some(usize::MAX) && on_true(i) == !b2.is_all && b2.jmps@ == all.last().jmps@.push(v.len() as usize)),
    ensures code_ok(all.drop_last().push(b2), v.push(i), start),
{
    let al = all.drop_last().push(b2);
    let w = v.push(i);
    assert forall|s: int| 0 <= s < al.len() implies block_ok(#[trigger] al[s], w, start) by { assert(block_ok(all[s], v, start)); if s < all.len() - 1 { assert(al[s] == all[s]); } }
    assert forall|s: int, u: int| 0 <= s < u < al.len() implies before(#[trigger] al[s], #[trigger] al[u]) by { assert(before(all[s], all[u])); assert(al[s] == all[s]); assert(block_ok(all[s], v, start)); }
    assert forall|k: int| start <= k < w.len() implies (#[trigger] closed(w, k, w.len() as int) || pending(al, k)) by {
        if k < v.len() {
            assert(closed(v, k, v.len() as int) || pending(all, k));
            if pending(all, k) {
                let s = choose|s: int| 0 <= s < all.len() && waits((#[trigger] all[s]).jmps@, k);
                let j = choose|j: int| 0 <= j < all[s].jmps@.len() && #[trigger] all[s].jmps@[j] == k;
                assert(al[s].jmps@[j] == k); assert(waits(al[s].jmps@, k));
            }
        } else if target(i) is Some {
            let s = al.len() - 1; assert(al[s].jmps@[al[s].jmps@.len() - 1] == k); assert(waits(al[s].jmps@, k));
        }
    }
}
// a new innermost list; the same list with other counters; the same control flow
pub proof fn lemma_open(all: Seq<TestBlock>, b2: TestBlock, v: Seq<Instruction>, start: int)
    requires code_ok(all, v, start), b2.jmps@.len() == 0,
    ensures code_ok(all.push(b2), v, start),
{
    let al = all.push(b2);
    assert forall|s: int| 0 <= s < al.len() implies block_ok(#[trigger] al[s], v, start) by { if s < all.len() { assert(block_ok(all[s], v, start)); } }
    assert forall|s: int, u: int| 0 <= s < u < al.len() implies before(#[trigger] al[s], #[trigger] al[u]) by { if u < all.len() { assert(before(all[s], all[u])); } }
    assert forall|k: int| start <= k < v.len() implies (#[trigger] closed(v, k, v.len() as int) || pending(al, k)) by {
        if pending(all, k) { let s = choose|s: int| 0 <= s < all.len() && waits((#[trigger] all[s]).jmps@, k); assert(waits(al[s].jmps@, k)); }
    }
}
pub proof fn lemma_last(all: Seq<TestBlock>, b2: TestBlock, v: Seq<Instruction>, w: Seq<Instruction>, start: int)
    requires code_ok(all, v, start), same_block(all.last(), b2), same_flow(v, w),
    ensures code_ok(all.drop_last().push(b2), w, start),
{
    let al = all.drop_last().push(b2);
    assert forall|s: int| 0 <= s < al.len() implies block_ok(#[trigger] al[s], w, start) by {
        assert(block_ok(all[s], v, start));
        assert forall|j: int| 0 <= j < al[s].jmps@.len() implies start <= #[trigger] al[s].jmps@[j] < w.len() && target(w[al[s].jmps@[j] as int]) == Some(usize::MAX) && on_true(w[al[s].jmps@[j] as int]) == !al[s].is_all by {
            assert(all[s].jmps@[j] == al[s].jmps@[j]); let k = al[s].jmps@[j] as int; assert(target(v[k]) == target(w[k]));
        }
    }
    assert forall|k: int| start <= k < w.len() implies kind(#[trigger] w[k]) <= 2 by { assert(same_ctl(v[k], w[k])); }
    assert forall|s: int, u: int| 0 <= s < u < al.len() implies before(#[trigger] al[s], #[trigger] al[u]) by { assert(before(all[s], all[u])); }
    assert forall|k: int| start <= k < w.len() implies (#[trigger] closed(w, k, w.len() as int) || pending(al, k)) by {
        assert(closed(v, k, v.len() as int) || pending(all, k)); assert(target(v[k]) == target(w[k]));
        if pending(all, k) { let s = choose|s: int| 0 <= s < all.len() && waits((#[trigger] all[s]).jmps@, k); assert(waits(al[s].jmps@, k)); }
    }
}
// the end of the innermost list: its jumps lead here
pub proof fn lemma_close(all: Seq<TestBlock>, v: Seq<Instruction>, w: Seq<Instruction>, start: int)
    requires code_ok(all, v, start), all.len() > 1, v.len() <= usize::MAX, patched(v, w, all.last().jmps@, v.len() as int),
    ensures code_ok(all.drop_last(), w, start),
{
    let al = all.drop_last();
    let jm = all.last().jmps@;
    assert forall|s: int| 0 <= s < al.len() implies block_ok(#[trigger] al[s], w, start) by {
        assert(block_ok(all[s], v, start)); assert(before(all[s], all.last()));
        assert forall|j: int| 0 <= j < al[s].jmps@.len() implies start <= #[trigger] al[s].jmps@[j] < w.len() && target(w[al[s].jmps@[j] as int]) == Some(usize::MAX) && on_true(w[al[s].jmps@[j] as int]) == !al[s].is_all by {
            let k = al[s].jmps@[j] as int;
            assert(all[s].jmps@[j] == k);
            if waits(jm, k) { let i = choose|i: int| 0 <= i < jm.len() && #[trigger] jm[i] == k; assert(all[s].jmps@[j] < all.last().jmps@[i]); }
        }
    }
    assert forall|s: int, u: int| 0 <= s < u < al.len() implies before(#[trigger] al[s], #[trigger] al[u]) by { assert(before(all[s], all[u])); }
    assert forall|k: int| start <= k < w.len() implies (#[trigger] closed(w, k, w.len() as int) || pending(al, k)) by {
        assert(closed(v, k, v.len() as int) || pending(all, k));
        if !waits(jm, k) && pending(all, k) {
            let s = choose|s: int| 0 <= s < all.len() && waits((#[trigger] all[s]).jmps@, k);
            assert(s < al.len()); assert(waits(al[s].jmps@, k));
        }
    }
}
// w is v with the jumps at the given positions directed to t
pub open spec fn patched(v: Seq<Instruction>, w: Seq<Instruction>, jm: Seq<usize>, t: int) -> bool {
    v.len() == w.len() && forall|k: int| 0 <= k < v.len() ==> on_true(#[trigger] w[k]) == on_true(v[k]) && (if waits(jm, k) { target(v[k]) is Some ==> target(w[k]) == Some(t as usize) } else { target(w[k]) == target(v[k]) }) && (target(w[k]) is Some) == (target(v[k]) is Some) && kind(w[k]) == kind(v[k]) && (!waits(jm, k) ==> same_ctl(v[k], w[k]))
}
// the negation flag of a test
pub open spec fn flag(t: Test) -> Option<bool> { match t { Test::Address(x) => Some(x.is_not), Test::Envelope(x) => Some(x.is_not), Test::Exists(x) => Some(x.is_not), Test::Header(x) => Some(x.is_not), Test::Size(x) => Some(x.is_not), Test::Body(x) => Some(x.is_not), Test::Convert(x) => Some(x.is_not), Test::Date(x) => Some(x.is_not), Test::CurrentDate(x) => Some(x.is_not), Test::Duplicate(x) => Some(x.is_not), Test::String(x) => Some(x.is_not), Test::Environment(x) => Some(x.is_not), Test::NotifyMethodCapability(x) => Some(x.is_not), Test::ValidNotifyMethod(x) => Some(x.is_not), Test::ValidExtList(x) => Some(x.is_not), Test::Ihave(x) => Some(x.is_not), Test::HasFlag(x) => Some(x.is_not), Test::MailboxExists(x) => Some(x.is_not), Test::Metadata(x) => Some(x.is_not), Test::MetadataExists(x) => Some(x.is_not), Test::MailboxIdExists(x) => Some(x.is_not), Test::SpamTest(x) => Some(x.is_not), Test::VirusTest(x) => Some(x.is_not), Test::SpecialUseExists(x) => Some(x.is_not), _ => None } }
// the test that is true exactly when the other one is false
pub open spec fn negation(a: Instruction, b: Instruction) -> bool { match a {
    Instruction::Test(Test::True) => b == Instruction::Test(Test::False),
    Instruction::Test(Test::False) => b == Instruction::Test(Test::True),
    Instruction::Test(Test::Invalid(_)) => b == a,
    Instruction::Test(Test::Vacation(_)) => b == a,
    Instruction::Test(t) => b is Test && flag(b->Test_0) == Some(true),
    Instruction::Eval(e) => b is Eval && b->Eval_0@ == e@.push(Expression::UnaryOperator(UnaryOperator::Not)),
    _ => a == b,
} }
pub open spec fn with_target(i: Instruction, t: usize) -> Instruction { match i { Instruction::Jz(_) => Instruction::Jz(t), Instruction::Jnz(_) => Instruction::Jnz(t), _ => i } }
pub fn target_mut(v: &mut Vec<Instruction>, i: usize) -> (r: Option<&mut usize>)
    requires i < old(v)@.len(),
    ensures (r is Some) == (target(old(v)@[i as int]) is Some), r is Some ==> *(r->0) == (target(old(v)@[i as int])->0),
        final(v)@ == (if r is Some { old(v)@.update(i as int, with_target(old(v)@[i as int], *final(r->0))) } else { old(v)@ }),
{ match &mut v[i] { Instruction::Jnz(t) => Some(t), Instruction::Jz(t) => Some(t), _ => None } }
pub proof fn lemma_patch_step(v: Seq<Instruction>, w: Seq<Instruction>, w2: Seq<Instruction>, jm: Seq<usize>, i: int, t: int)
    requires 0 <= i < jm.len(), jm[i] < v.len(), patched(v, w, jm.take(i), t),
        w2 == (if target(w[jm[i] as int]) is Some { w.update(jm[i] as int, with_target(w[jm[i] as int], t as usize)) } else { w }),
    ensures patched(v, w2, jm.take(i + 1), t),
{
    let a = jm.take(i); let b = jm.take(i + 1);
    assert forall|k: int| 0 <= k < v.len() implies waits(b, k) == (waits(a, k) || k == jm[i]) by {
        if waits(b, k) { let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] == k; if j < i { assert(a[j] == k); } }
        if waits(a, k) { let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] == k; assert(b[j] == k); }
        if k == jm[i] { assert(b[i] == k); }
    }
}
pub proof fn lemma_done(all: Seq<TestBlock>, v: Seq<Instruction>, i: Instruction, start: int)
    requires code_ok(all, v, start), all.len() == 1,
    ensures forall|k: int| start <= k < v.len() ==> #[trigger] closed(v.push(i), k, v.len() as int) && kind(v.push(i)[k]) <= 2,
{
    assert forall|k: int| start <= k < v.len() implies #[trigger] closed(v.push(i), k, v.len() as int) by { assert(closed(v, k, v.len() as int) || pending(all, k)); }
}
impl Instruction {
//@fn src/compiler/grammar/test.rs Instruction::set_not
//@ ret r
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ replace? "Test::String(op) | Test::Environment(op) => {" => "Test::String(op) => { op.is_not = true; } Test::Environment(op) => {"
//@ at start
    let mut this = self;
//@ spec
    ensures negation(self, r), target(r) == target(self), same_ctl(self, r), (r is Test) == (self is Test), (r is Eval) == (self is Eval),
//@end
}
impl Capability { #[verifier::external_body] pub fn into(self) -> (r: Option<Capability>) ensures r == Some(self) { unimplemented!() } }
impl Test { pub fn into(self) -> (r: Instruction) ensures r == Instruction::Test(self) { Instruction::Test(self) } }
impl Word { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
// more code that opens and closes nothing
pub open spec fn more(v: Seq<Instruction>, w: Seq<Instruction>) -> bool { v.len() <= w.len() < usize::MAX && (forall|k: int| 0 <= k < v.len() ==> same_ctl(#[trigger] v[k], w[k])) && forall|k: int| v.len() <= k < w.len() ==> kind(#[trigger] w[k]) <= 3 && (jump(w[k]) is Some ==> (jump(w[k])->0) <= w.len()) }
// the code of a test: it leaves only by its last instruction, on false to where that will lead
pub open spec fn tested(o: Seq<Instruction>, v: Seq<Instruction>) -> bool { v.len() > o.len() && same_prefix(o, v, o.len() as int) && v.last() == Instruction::Jz(usize::MAX) && forall|k: int| o.len() <= k < v.len() - 1 ==> #[trigger] closed(v, k, v.len() - 1) && kind(v[k]) <= 2 }
pub open spec fn block_kept(a: ScriptBlock, b: ScriptBlock) -> bool { a.btype == b.btype && a.label == b.label && a.last_block_start == b.last_block_start && a.if_jmps@ == b.if_jmps@ && a.break_jmps@ == b.break_jmps@ }
pub open spec fn block_same(a: ScriptBlock, b: ScriptBlock) -> bool { block_kept(a, b) && a.require_pos == b.require_pos }
pub open spec fn blocks_kept(a: Seq<ScriptBlock>, b: Seq<ScriptBlock>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> block_kept(#[trigger] a[i], b[i]) }
pub open spec fn blocks_same(a: Seq<ScriptBlock>, b: Seq<ScriptBlock>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> block_same(#[trigger] a[i], b[i]) }
pub assume_specification<T> [<[T]>::fill](s: &mut [T], v: T) where T: Clone;
impl<'x> CompilerState<'x> {
    #[verifier::external_body] pub fn reset_param_check(&mut self) ensures *final(self) == (CompilerState { param_check: final(self).param_check, ..*old(self) }) { unimplemented!() }
    #[verifier::external_body] pub fn ignore_test(&mut self) -> (r: Result<(), CompileError>) ensures *final(self) == (CompilerState { tokens: final(self).tokens, ..*old(self) }), moved_on(old(self).tokens, final(self).tokens) { unimplemented!() }
    // the open blocks and what the compiler knows of them stay as they are
    pub open spec fn kept(&self, o: &Self) -> bool { block_same(o.block, self.block) && blocks_same(o.block_stack@, self.block_stack@) && self.last_block_type == o.last_block_type && self.includes_num == o.includes_num && self.compiler == o.compiler && (o.few() ==> self.few()) }
    // what every command may do: add code of its own; what is open stays open
    #[verifier::opaque]
    pub open spec fn emits(&self, o: &Self) -> bool { self.kept(o) && moved_on(o.tokens, self.tokens) && more(o.instructions@, self.instructions@) && forall|c: Capability| o.allowed(c) ==> self.allowed(c) }
    #[verifier::opaque]
    pub open spec fn declares(&self, o: &Self) -> bool { block_kept(o.block, self.block) && self.block_stack == o.block_stack && self.last_block_type == o.last_block_type && self.includes_num == o.includes_num && self.compiler == o.compiler && (o.few() ==> self.few()) && moved_on(o.tokens, self.tokens) && more(o.instructions@, self.instructions@) && forall|c: Capability| o.allowed(c) ==> self.allowed(c) }
    // a script has fewer than 2^32 variables
    pub open spec fn few(&self) -> bool { self.vars_num <= u32::MAX && self.vars_num_max <= u32::MAX && self.vars_local <= u32::MAX && self.vars_match_max <= u32::MAX }
    pub open spec fn same_but_code(&self, o: &Self) -> bool { self.kept(o) && same_flow(self.instructions@, o.instructions@) && self.block_stack@.len() == o.block_stack@.len() && self.compiler == o.compiler && moved_on(o.tokens, self.tokens) && forall|c: Capability| self.allowed(c) == o.allowed(c) }
    #[verifier::external_body] pub fn parse_expr(&mut self) -> (r: Result<Vec<Expression>, CompileError>) requires old(self).allowed(Capability::Expressions) || old(self).allowed(Capability::While) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_address(&mut self) -> (r: Result<Test, CompileError>) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_envelope(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::Envelope) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_header(&mut self) -> (r: Result<Test, CompileError>) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_size(&mut self) -> (r: Result<Test, CompileError>) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_exists(&mut self) -> (r: Result<Test, CompileError>) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_body(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::Body) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_convert(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::Convert) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_date(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::Date) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_currentdate(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::Date) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_duplicate(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::Duplicate) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_string(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::Variables) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_notify_method_capability(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::Enotify) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_valid_notify_method(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::Enotify) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_environment(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::Environment) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_valid_ext_list(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::ExtLists) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_ihave(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::Ihave) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_hasflag(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::Imap4Flags) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_mailboxexists(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::Mailbox) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_metadata(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::MboxMetadata) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_metadataexists(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::MboxMetadata) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_servermetadata(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::ServerMetadata) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_servermetadataexists(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::ServerMetadata) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_mailboxidexists(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::MailboxId) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_spamtest(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::SpamTest) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_virustest(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::VirusTest) ensures final(self).same_but_code(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn parse_test_specialuseexists(&mut self) -> (r: Result<Test, CompileError>) requires old(self).allowed(Capability::SpecialUse) ensures final(self).same_but_code(old(self)) { unimplemented!() }
//@fn src/compiler/grammar/test.rs CompilerState::parse_test
//@ ret r
//@ loops 4
//@ replace "Block" => "TestBlock"
//@ replace "if let Instruction::Jnz(jmp_pos) | Instruction::Jz(jmp_pos) = &mut self.instructions[jmp_pos]" => "if let Some(jmp_pos) = target_mut(&mut self.instructions, jmp_pos)"
//@ spec
    requires left(old(self).tokens) <= u32::MAX,
    ensures final(self).compiler == old(self).compiler, final(self).kept(old(self)), moved_on(old(self).tokens, final(self).tokens), r is Ok ==> forall|c: Capability| final(self).allowed(c) == old(self).allowed(c),
        r is Ok ==> tested(old(self).instructions@, final(self).instructions@),
//@ at start
    let ghost start = self.instructions@.len() as int;
    proof { broadcast use axiom_vec_len_bound; }
//@ loop 0 loop
    invariant
        self.compiler == old(self).compiler, self.kept(old(self)), moved_on(old(self).tokens, self.tokens), forall|c: Capability| self.allowed(c) == old(self).allowed(c),
        start == old(self).instructions@.len(),
        same_prefix(old(self).instructions@, self.instructions@, start),
        code_ok(block_stack@.push(block), self.instructions@, start),
        block.p_count + left(self.tokens) <= u32::MAX, forall|s: int| 0 <= s < block_stack@.len() ==> (#[trigger] block_stack@[s]).p_count + left(self.tokens) <= u32::MAX,
    ensures
        block_stack@.len() == 0,
    decreases left(self.tokens),
//@ at loop 0 start
    broadcast use axiom_vec_len_bound;
    let ghost all0 = block_stack@.push(block);
    let ghost v0 = self.instructions@;
//@ at after "self.instructions.push(if block.is_all"
    proof { lemma_push(all0, block, v0, start, self.instructions@.last()); assert(all0.drop_last() =~= block_stack@); assert(v0.push(self.instructions@.last()) =~= self.instructions@); }
//@ at before loop 1
    let ghost v1 = self.instructions@;
    let ghost jm = block.jmps@;
    let ghost tk1 = self.tokens;
    proof { assert(all0.last().jmps@ == jm); assert(block_ok(all0.last(), v1, start)); assert(jm.take(0).len() == 0); }
//@ loop 1 for it it
    invariant it.seq() == jm, cur_pos == v1.len(), patched(v1, self.instructions@, jm.take(it.index()), cur_pos as int), self.compiler == old(self).compiler, self.tokens == tk1, self.kept(old(self)), forall|c: Capability| self.allowed(c) == old(self).allowed(c),
        forall|j: int| 0 <= j < jm.len() ==> (#[trigger] jm[j]) < v1.len(),
//@ at loop 1 start
    let ghost w1 = self.instructions@;
//@ at loop 1 end
    proof { lemma_patch_step(v1, w1, self.instructions@, jm, it.index(), cur_pos as int); }
//@ at after loop 1
    proof { assert(jm.take(jm.len() as int) =~= jm); lemma_close(all0, v1, self.instructions@, start); }
//@ at before "block_stack.push(block)"
    let ghost st1 = block_stack@;
    let ghost bk1 = block;
//@ at after "is_not = block_is_not"
    proof { lemma_last(all0, bk1, v0, self.instructions@, start); lemma_open(all0.drop_last().push(bk1), block, self.instructions@, start); assert(all0.drop_last().push(bk1) =~= block_stack@); }
//@ at after "block.p_count += 1"
    proof { lemma_last(all0, block, v0, self.instructions@, start); assert(all0.drop_last().push(block) =~= block_stack@.push(block)); }
//@ at after "block.p_count -= 1"
    proof { lemma_last(all0, block, v0, self.instructions@, start); assert(all0.drop_last().push(block) =~= block_stack@.push(block)); }
//@ at after "block = prev_block"
    proof { assert(block_stack@.push(block) =~= all0.drop_last()); }
//@ at after "self.instructions.push(if !is_not"
    proof {
        lemma_last(all0, block, v0, v3, start);
        let al = all0.drop_last().push(block); assert(al =~= block_stack@.push(block));
        lemma_push(al, block, v3, start, self.instructions@.last());
        assert(al.drop_last().push(block) =~= block_stack@.push(block)); assert(v3.push(self.instructions@.last()) =~= self.instructions@);
    }
//@ at after loop 0
    let ghost v4 = self.instructions@;
//@ at after "self.instructions.push(Instruction::Jz(usize::MAX))"
    proof { assert(v4.push(Instruction::Jz(usize::MAX)) =~= self.instructions@); lemma_done(block_stack@.push(block), v4, Instruction::Jz(usize::MAX), start); }
//@ loop 3 while
    invariant self.compiler == old(self).compiler, self.instructions@ == v3, left(self.tokens) <= left3, self.kept(old(self)), moved_on(old(self).tokens, self.tokens), forall|c: Capability| self.allowed(c) == old(self).allowed(c), same_block(b3, block), block.p_count <= b3.p_count,
    decreases block.p_count
//@ at before loop 3
    let ghost v3 = self.instructions@;
    let ghost left3 = left(self.tokens);
    let ghost b3 = block;
//@end
}
