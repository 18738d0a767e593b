// ---- state of a run, as extracted; payloads of instructions that only pass through are opaque ----
global size_of usize == 8;
pub assume_specification<T> [std::mem::replace] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
#[verifier::external_body] pub struct Value { x: u8 }
#[verifier::external_body] pub struct Invalid { x: u8 }
impl Invalid { #[verifier::external_body] pub fn clone(&self) -> (r: Invalid) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Expression { x: u8 }
#[verifier::external_body] pub struct VariableType { x: u8 }
#[verifier::external_body] pub struct Test { x: u8 }
#[verifier::external_body] pub struct Redirect { x: u8 }
#[verifier::external_body] pub struct Replace { x: u8 }
#[verifier::external_body] pub struct Enclose { x: u8 }
#[verifier::external_body] pub struct ExtractText { x: u8 }
#[verifier::external_body] pub struct Convert { x: u8 }
#[verifier::external_body] pub struct AddHeader { x: u8 }
#[verifier::external_body] pub struct DeleteHeader { x: u8 }
#[verifier::external_body] pub struct Set { x: u8 }
#[verifier::external_body] pub struct Notify { x: u8 }
#[verifier::external_body] pub struct Vacation { x: u8 }
#[verifier::external_body] pub struct EditFlags { x: u8 }
#[verifier::external_body] pub struct VarMap { m: u8 }
#[verifier::external_body] pub struct ScriptMap { m: u8 }
#[verifier::external_body] pub struct TextMap { m: u8 }
#[verifier::external_body] pub struct CapSet { m: u8 }
#[verifier::external_body] pub struct Mail { m: u8 }
impl Mail { #[verifier::external_body] pub fn raw_len(&self) -> usize { unimplemented!() } }
//@type src/compiler/grammar/actions/action_fileinto.rs FileInto
//@end
//@type src/compiler/grammar/actions/action_include.rs Location
//@ attr #[derive(PartialEq, Eq, Structural)]
//@end
//@type src/compiler/grammar/actions/action_include.rs Include
//@end
//@type src/compiler/grammar/actions/action_mime.rs ForEveryPart
//@end
//@type src/compiler/grammar/mod.rs While
//@end
//@type src/compiler/grammar/mod.rs Clear
//@end
//@type src/compiler/grammar/mod.rs Capability
//@ keep Envelope FileInto Other
//@end
impl Capability { #[verifier::external_body] pub fn clone(&self) -> (r: Capability) ensures r == *self { unimplemented!() } }
//@type src/compiler/grammar/actions/action_set.rs Let
//@end
//@type src/compiler/grammar/tests/test_ihave.rs Error
//@end
//@type src/compiler/grammar/actions/action_reject.rs Reject
//@end
//@type src/compiler/grammar/actions/action_keep.rs Keep
//@end
//@type src/compiler/grammar/instruction.rs Instruction
//@end
//@type src/lib.rs Sieve
//@end
//@const src/lib.rs MAX_MATCH_VARIABLES
//@const src/lib.rs MAX_LOCAL_VARIABLES
//@type src/lib.rs Script
//@end
//@type src/lib.rs Input
//@end
//@type src/lib.rs Event
//@ keep IncludeScript Keep Discard Reject FileInto CreatedMessage
//@end
//@type src/runtime/mod.rs RuntimeError
//@end
//@type src/runtime/context.rs ScriptStack
//@end
//@type src/runtime/tests/mod.rs TestResult
//@end
//@type src/runtime/actions/action_include.rs IncludeResult
//@end
//@type src/lib.rs Runtime
//@ keep cpu_limit max_nested_includes allowed_capabilities include_scripts
//@ replace "AHashSet<Capability>" => "CapSet"
//@ replace "AHashMap<String, Arc<Sieve>>" => "TextMap"
//@end
//@type src/lib.rs Context
//@ drop user_address
//@ drop user_full_name
//@ drop current_time
//@ drop envelope
//@ drop metadata
//@ drop spam_status
//@ drop virus_status
//@ drop vars_env
//@ drop expr_pos
//@ drop num_redirects
//@ drop num_out_messages
//@ drop last_message_id
//@ replace "AHashMap<Cow<'static, str>, Variable>" => "VarMap"
//@ replace "message: Message<'x>" => "message: Mail"
//@ replace "AHashMap<Script, Arc<Sieve>>" => "ScriptMap"
//@end
impl Event { pub fn some(self) -> (r: Option<Event>) ensures r == Some(self) { Some(self) } }
// every jump of a compiled script stays inside it
pub open spec fn jump(i: Instruction) -> int { match i {
    Instruction::Jz(p) => p as int, Instruction::Jnz(p) => p as int, Instruction::Jmp(p) => p as int,
    Instruction::ForEveryPart(f) => f.jz_pos as int, Instruction::While(w) => w.jz_pos as int, _ => 0 } }
#[verifier::opaque] pub open spec fn script_ok(s: Sieve) -> bool { forall|i: int| 0 <= i < s.instructions@.len() ==> jump(#[trigger] s.instructions@[i]) <= s.instructions@.len() }
#[verifier::opaque] pub open spec fn frames_ok(st: Seq<ScriptStack>) -> bool {
    (forall|i: int| 0 <= i < st.len() ==> script_ok(*(#[trigger] st[i]).script))
    && (forall|i: int| 1 <= i < st.len() ==> (#[trigger] st[i]).prev_pos <= st[i - 1].script.instructions@.len())
}
pub open spec fn stack_ok(st: Seq<ScriptStack>, pos: usize) -> bool { frames_ok(st) && (st.len() > 0 ==> pos <= st.last().script.instructions@.len()) }
pub proof fn lemma_jump(st: Seq<ScriptStack>, i: int) requires frames_ok(st), st.len() > 0, 0 <= i < st.last().script.instructions@.len() ensures jump(st.last().script.instructions@[i]) <= st.last().script.instructions@.len()
{ reveal(frames_ok); reveal(script_ok); assert(script_ok(*st[st.len() - 1].script)); }
pub broadcast proof fn lemma_push(st: Seq<ScriptStack>, f: ScriptStack)
    requires frames_ok(st), script_ok(*f.script), st.len() > 0 ==> f.prev_pos <= st.last().script.instructions@.len() ensures #[trigger] frames_ok(st.push(f))
{ reveal(frames_ok); }
pub broadcast proof fn lemma_pop(st: Seq<ScriptStack>) requires frames_ok(st), st.len() > 0 ensures #[trigger] frames_ok(st.drop_last()), st.len() > 1 ==> st.last().prev_pos <= st.drop_last().last().script.instructions@.len()
{ reveal(frames_ok); assert(st[st.len() - 1].prev_pos <= st[st.len() - 2].script.instructions@.len() || st.len() <= 1); }
pub broadcast proof fn lemma_frames_empty(st: Seq<ScriptStack>) requires st.len() == 0 ensures #[trigger] frames_ok(st) { reveal(frames_ok); }
// what no helper of the interpreter loop touches
pub open spec fn quiet(o: Context, f: Context) -> bool {
    f.runtime == o.runtime && f.pos == o.pos && f.script_stack == o.script_stack && f.num_instructions == o.num_instructions && f.final_event == o.final_event
}
pub open spec fn is_keep(e: Option<Event>) -> bool { e is Some && e->0 is Keep }
pub open spec fn keep_cancel(o: Option<Event>, f: Option<Event>) -> bool { f == o || f is None }
impl CapSet { pub uninterp spec fn view(&self) -> ::vstd::set::Set<Capability>; #[verifier::external_body] pub fn contains(&self, c: &Capability) -> (r: bool) ensures r == self@.contains(*c) { unimplemented!() } }
pub open spec fn key(s: Script) -> (bool, Seq<char>) { match s { Script::Personal(n) => (false, n@), Script::Global(n) => (true, n@) } }
impl ScriptMap { pub uninterp spec fn view(&self) -> Map<(bool, Seq<char>), Arc<Sieve>>;
    #[verifier::external_body] pub fn get(&self, n: &Script) -> (r: Option<&Arc<Sieve>>) ensures r == (if self@.dom().contains(key(*n)) { Some(&self@[key(*n)]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, n: Script, s: Arc<Sieve>) ensures final(self)@ == old(self)@.insert(key(n), s) { unimplemented!() } }
pub struct Instrs<'a> { pub s: &'a Vec<Instruction>, pub i: usize }
pub fn instrs_from<'a>(s: &'a Vec<Instruction>, n: usize) -> (r: Option<Instrs<'a>>) ensures n <= s@.len() ==> r == Some(Instrs { s, i: n }), n > s@.len() ==> r is None { if n <= s.len() { Some(Instrs { s, i: n }) } else { None } }
impl<'a> Instrs<'a> {
    pub fn next(&mut self) -> (r: Option<&'a Instruction>)
        requires old(self).i <= old(self).s@.len()
        ensures final(self).s == old(self).s, old(self).i < old(self).s@.len() ==> r == Some(&old(self).s@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i
    { if self.i < self.s.len() { let s = self.s; let i = self.i; self.i = i + 1; Some(&s[i]) } else { None } }
}
#[verifier::external_body] pub fn blank_vars(n: usize) -> (r: Vec<Variable>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> is_clear(#[trigger] r@[i]) { unimplemented!() }
pub open spec fn is_clear(v: Variable) -> bool { v is String && str_of(v).len() == 0 }
impl Variable { #[verifier::external_body] pub fn default() -> (r: Variable) ensures is_clear(r) { unimplemented!() } #[verifier::external_body] pub fn to_bool(&self) -> bool { unimplemented!() } }
pub open spec fn emptied(o: Seq<Variable>, f: Seq<Variable>, a: int, n: int) -> bool { f.len() == o.len() && (a + n <= o.len() ==> forall|i: int| 0 <= i < o.len() ==> (if a <= i < a + n { is_clear(#[trigger] f[i]) } else { f[i] == o[i] })) }
// the slots idx .. idx+num (u32 sum, as in the code), if they exist
pub open spec fn slots(idx: u32, num: u32) -> (int, int) { (idx as int, idx + num) }
#[verifier::external_body] pub fn slots_mut(v: &mut Vec<Variable>, a: usize, b: usize) -> (r: Option<&mut [Variable]>)
    ensures match r { Some(m) => a <= b <= old(v)@.len() && m@ == old(v)@.subrange(a as int, b as int) && final(m)@.len() == m@.len() && final(v)@ == old(v)@.take(a as int) + final(m)@ + old(v)@.skip(b as int), None => !(a <= b <= old(v)@.len()) && *final(v) == *old(v) } { v.get_mut(a..b) }
// the flags the script has set (their text is proved under C22)
pub uninterp spec fn set_flags(v: VarMap) -> Seq<Seq<char>>;
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub uninterp spec fn value_of(c: Context, v: Value) -> Variable;
// helpers the loop calls; their effect on the run state is assumed (frame conditions), their own behaviour is the subject of other properties
impl<'x> Context<'x> {
    #[verifier::external_body] pub fn eval_expression(&mut self, e: &Vec<Expression>) -> (r: Result<Variable, Event>) requires old(self).pos >= 1
        ensures quiet(Context { pos: final(self).pos, ..*old(self) }, *final(self)), r is Ok ==> final(self).pos == old(self).pos, r is Err ==> final(self).pos == old(self).pos - 1 { unimplemented!() }
    #[verifier::external_body] pub fn eval_value(&self, v: &Value) -> (r: Variable) ensures r == value_of(*self, *v) { unimplemented!() }
    #[verifier::external_body] pub fn set_variable(&mut self, n: &VariableType, v: Variable) -> bool ensures quiet(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body] pub fn clear_match_variables(&mut self, p: u64) ensures quiet(*old(self), *final(self)), final(self).vars_local == old(self).vars_local { unimplemented!() }
    #[verifier::external_body] pub fn build_message_id(&mut self) -> (r: Option<Event>) ensures quiet(*old(self), *final(self)), final(self).queued_events == old(self).queued_events, r is Some ==> r->0 is CreatedMessage,
        old(self).has_changes == r is Some, !final(self).has_changes, r is None ==> final(self).main_message_id == old(self).main_message_id, final(self).vars_global == old(self).vars_global { unimplemented!() }
    #[verifier::external_body] pub fn get_global_flags(&self) -> (r: Vec<String>) ensures texts(r@) == set_flags(self.vars_global) { unimplemented!() }
    #[verifier::external_body] pub fn get_local_or_global_flags(&self, f: &Vec<Value>) -> (r: Vec<String>) ensures f@.len() == 0 ==> texts(r@) == set_flags(self.vars_global) { unimplemented!() }
//?!C31r     #[verifier::external_body] pub fn find_nested_parts_ids(&self, cur: bool) -> Vec<u32> { unimplemented!() }
//?C31r     #[verifier::external_body] pub fn find_nested_parts_ids(&self, cur: bool) -> (r: Vec<u32>) ensures r@ == nested_parts(self.message, self.part, cur) { unimplemented!() }
}
impl Test { #[verifier::external_body] pub fn exec(&self, ctx: &mut Context) -> (r: TestResult) ensures (r is Error ==> r->Error_0 is InvalidInstruction), quiet(*old(ctx), *final(ctx)) { unimplemented!() } }
impl Replace { #[verifier::external_body] pub fn exec(&self, ctx: &mut Context) ensures quiet(*old(ctx), *final(ctx)) { unimplemented!() } }
impl Enclose { #[verifier::external_body] pub fn exec(&self, ctx: &mut Context) ensures quiet(*old(ctx), *final(ctx)) { unimplemented!() } }
impl ExtractText { #[verifier::external_body] pub fn exec(&self, ctx: &mut Context) ensures quiet(*old(ctx), *final(ctx)) { unimplemented!() } }
impl Convert { #[verifier::external_body] pub fn exec(&self, ctx: &mut Context) ensures quiet(*old(ctx), *final(ctx)) { unimplemented!() } }
impl AddHeader { #[verifier::external_body] pub fn exec(&self, ctx: &mut Context) ensures quiet(*old(ctx), *final(ctx)) { unimplemented!() } }
impl DeleteHeader { #[verifier::external_body] pub fn exec(&self, ctx: &mut Context) ensures quiet(*old(ctx), *final(ctx)) { unimplemented!() } }
impl Set { #[verifier::external_body] pub fn exec(&self, ctx: &mut Context) ensures quiet(*old(ctx), *final(ctx)) { unimplemented!() } }
impl Notify { #[verifier::external_body] pub fn exec(&self, ctx: &mut Context) ensures quiet(*old(ctx), *final(ctx)) { unimplemented!() } }
impl Vacation { #[verifier::external_body] pub fn exec(&self, ctx: &mut Context) ensures quiet(*old(ctx), *final(ctx)) { unimplemented!() } }
impl EditFlags { #[verifier::external_body] pub fn exec(&self, ctx: &mut Context) ensures quiet(*old(ctx), *final(ctx)) { unimplemented!() } }
impl Redirect { #[verifier::external_body] pub fn exec(&self, ctx: &mut Context) ensures quiet(Context { final_event: final(ctx).final_event, ..*old(ctx) }, *final(ctx)), keep_cancel(old(ctx).final_event, final(ctx).final_event) { unimplemented!() } }
pub fn ok_of(e: Option<Event>) -> (r: Option<Result<Event, RuntimeError>>) ensures r == (match e { Some(e) => Some(Ok::<Event, RuntimeError>(e)), None => None }) { match e { Some(e) => Some(Ok(e)), None => None } }
