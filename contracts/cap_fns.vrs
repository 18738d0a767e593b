// ---- declared extensions --------------------------------------------------------------------
pub open spec fn declared(b: ScriptBlock, stack: Seq<ScriptBlock>, c: Capability) -> bool { b.capabilities@.contains(c) || exists|i: int| 0 <= i < stack.len() && (#[trigger] stack[i]).capabilities@.contains(c) }
impl CapSet { #[verifier::external_body] pub fn contains(&self, c: &Capability) -> (r: bool) ensures r == self@.contains(*c) { unimplemented!() } }
impl Clone for Capability { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// [&block].into_iter().chain(block_stack.iter())
pub struct Chained<'a> { pub b: &'a ScriptBlock, pub s: &'a Vec<ScriptBlock> }
pub fn chained<'a>(b: &'a ScriptBlock, s: &'a Vec<ScriptBlock>) -> (r: Chained<'a>) ensures *r.b == *b, *r.s == *s { Chained { b, s } }
impl<'a> Chained<'a> {
    #[verifier::external_body] pub fn any<F: Fn(&ScriptBlock) -> bool>(self, f: F) -> (r: bool)
        requires forall|b: &ScriptBlock| call_requires(f, (b,)),
        ensures r ==> call_ensures(f, (self.b,), true) || exists|i: int| 0 <= i < self.s@.len() && call_ensures(f, (&#[trigger] self.s@[i],), true),
            !r ==> call_ensures(f, (self.b,), false) && forall|i: int| 0 <= i < self.s@.len() ==> call_ensures(f, (&#[trigger] self.s@[i],), false),
    { unimplemented!() }
}
#[verifier::external_body] pub fn slot_mut(a: &mut [bool; MAX_PARAMS], i: usize) -> (r: Option<&mut bool>)
    ensures (r is Some) == (i < MAX_PARAMS), r is Some ==> *(r->0) == old(a)@[i as int] && final(a)@ == old(a)@.update(i as int, *final(r->0)), r is None ==> final(a)@ == old(a)@ { unimplemented!() }
// Capability::parse of the text of a string constant
pub uninterp spec fn named(s: StringConstant) -> Capability;
#[verifier::external_body] pub fn parse_cap(s: StringConstant) -> (r: Capability) ensures r == named(s) { unimplemented!() }
pub open spec fn listed(v: Seq<Instruction>, p: int, c: Capability) -> bool { 0 <= p < v.len() && v[p] is Require && v[p]->Require_0@.contains(c) }
#[verifier::external_body] pub fn extend_caps(a: &mut Vec<Capability>, b: Vec<Capability>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
impl<'x> CompilerState<'x> {
    pub open spec fn allowed(&self, c: Capability) -> bool { declared(self.block, self.block_stack@, c) || (c != Capability::Ihave && self.compiler.no_capability_check) }
    // where this block declares its extensions
    pub open spec fn require_ok(&self) -> bool { self.block.require_pos == usize::MAX || (self.block.require_pos < self.instructions@.len() && self.instructions@[self.block.require_pos as int] is Require) }
//@fn src/compiler/grammar/mod.rs CompilerState::has_capability
//@ ret r
//@ replace "[&self.block].into_iter().chain(self.block_stack.iter())" => "chained(&self.block, &self.block_stack)"
//@ replace "|b|" => "|b: &ScriptBlock| -> (o: bool) ensures o == b.capabilities@.contains(*capability) {"
//@ replace "(capability)) ||" => "(capability) }) ||"
//@ replace? "capability != &Capability::Ihave" => "!matches!(capability, Capability::Ihave)"
//@ spec
    ensures r == self.allowed(*capability),
//@end
//@fn src/compiler/grammar/mod.rs CompilerState::validate_argument
//@ ret r
//@ at start
    broadcast use axiom_vec_len_bound;
    proof { reveal(CompilerState::emits); }
//@ replace "self.param_check.get_mut(arg_num - 1)" => "slot_mut(&mut self.param_check, arg_num - 1)"
//@ spec
    ensures *final(self) == (CompilerState { param_check: final(self).param_check, ..*old(self) }), final(self).emits(old(self)),
        r is Ok && capability is Some ==> final(self).allowed(capability->0),
        capability is Some && !old(self).allowed(capability->0) ==> r is Err,
        r is Err ==> (capability is Some && !old(self).allowed(capability->0)) || (0 < arg_num <= MAX_PARAMS && old(self).param_check@[arg_num - 1]),
        0 < arg_num <= MAX_PARAMS && old(self).param_check@[arg_num - 1] ==> r is Err,
        r is Ok && 0 < arg_num <= MAX_PARAMS ==> final(self).param_check@[arg_num - 1],
//@end
//@fn src/compiler/grammar/actions/action_require.rs CompilerState::add_capability
//@ spec
    ensures *final(self) == (CompilerState { block: final(self).block, ..*old(self) }), final(self).block == (ScriptBlock { capabilities: final(self).block.capabilities, ..old(self).block }),
        final(self).allowed(capability), capability == Capability::SpamTestPlus && !old(self).allowed(capability) ==> final(self).allowed(Capability::SpamTest),
        forall|c: Capability| #[trigger] final(self).block.capabilities@.contains(c) ==> old(self).block.capabilities@.contains(c) || final(capabilities)@.contains(c),
        forall|c: Capability| old(capabilities)@.contains(c) ==> #[trigger] final(capabilities)@.contains(c),
        forall|c: Capability| old(self).block.capabilities@.contains(c) ==> #[trigger] final(self).block.capabilities@.contains(c),
        forall|c: Capability| #[trigger] final(self).block.capabilities@.contains(c) && !old(self).block.capabilities@.contains(c) ==> c == capability || (capability == Capability::SpamTestPlus && c == Capability::SpamTest),
        final(capabilities)@.len() >= old(capabilities)@.len(),
//@ at start
    broadcast use lemma_push_contains;
//@end
//@fn src/compiler/grammar/actions/action_require.rs CompilerState::parse_require
//@ ret r
//@ loops 1
//@ replace "Capability::parse(value.to_string().as_ref())" => "parse_cap(value)"
//@ replace? "capabilties.extend(capabilities)" => "extend_caps(capabilties, capabilities)"
//@ spec
    requires old(self).require_ok(),
    ensures r is Ok ==> final(self).declares(old(self)), r is Ok ==> final(self).require_ok() && final(self).compiler == old(self).compiler && final(self).block_stack == old(self).block_stack
        && (forall|c: Capability| #[trigger] final(self).block.capabilities@.contains(c) && !old(self).block.capabilities@.contains(c) ==> listed(final(self).instructions@, final(self).block.require_pos as int, c))
        && (forall|c: Capability| listed(old(self).instructions@, old(self).block.require_pos as int, c) ==> #[trigger] listed(final(self).instructions@, final(self).block.require_pos as int, c)),
//@ loop 0 loop
    invariant *self == (CompilerState { block: self.block, tokens: self.tokens, ..*old(self) }), self.block == (ScriptBlock { capabilities: self.block.capabilities, ..old(self).block }),
        forall|c: Capability| #[trigger] self.block.capabilities@.contains(c) ==> old(self).block.capabilities@.contains(c) || capabilities@.contains(c),
        moved_on(old(self).tokens, self.tokens), forall|c: Capability| #[trigger] old(self).block.capabilities@.contains(c) ==> self.block.capabilities@.contains(c),
    decreases left(self.tokens),
//@ at before "if !capabilities.is_empty()"
    let ghost s0 = *self;
    let ghost caps = capabilities@;
    proof { reveal(CompilerState::declares); }
    broadcast use {axiom_vec_len_bound, lemma_add_contains};
    proof { assert(s0.instructions@.len() <= isize::MAX); }
//@ at before "Ok(())"
    proof {
        let p = self.block.require_pos as int; let q = s0.block.require_pos as int; let v = self.instructions@; let v0 = s0.instructions@;
        assert(v0 == old(self).instructions@);
        if caps.len() > 0 {
            assert(v[p] is Require);
            assert forall|c: Capability| caps.contains(c) implies listed(v, p, c) by { }
            assert forall|c: Capability| listed(v0, q, c) implies #[trigger] listed(v, p, c) by { }
        }
        assert forall|c: Capability| #[trigger] self.block.capabilities@.contains(c) && !old(self).block.capabilities@.contains(c) implies listed(v, p, c) by { assert(caps.contains(c)); }
    }
//@end
}
pub broadcast proof fn lemma_push_contains(s: Seq<Capability>, a: Capability, c: Capability) ensures #[trigger] s.push(a).contains(c) == (s.contains(c) || c == a) {
    if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(s.push(a)[i] == c); }
    if c == a { assert(s.push(a)[s.len() as int] == c); }
}
pub broadcast proof fn lemma_add_contains(a: Seq<Capability>, b: Seq<Capability>, c: Capability) ensures #[trigger] (a + b).contains(c) == (a.contains(c) || b.contains(c)) {
    if a.contains(c) { let i = choose|i: int| 0 <= i < a.len() && a[i] == c; assert((a + b)[i] == c); }
    if b.contains(c) { let i = choose|i: int| 0 <= i < b.len() && b[i] == c; assert((a + b)[a.len() + i] == c); }
}
