// ---- slots of a script's variables ----------------------------------------------------------
//@type src/compiler/grammar/mod.rs Clear
//@end
//@type src/compiler/grammar/instruction.rs Instruction
//@ keep Clear Stop
//@end
//@type src/compiler/grammar/instruction.rs Block
//@ rename ScriptBlock
//@ keep match_test_vars vars_local
//@ replace "AHashMap<String, usize>" => "SlotMap"
//@end
//@type src/compiler/grammar/instruction.rs CompilerState
//@ keep compiler instructions block_stack block vars_num vars_num_max vars_local vars_global
//@ replace "AHashSet<String>" => "NameSet"
//@ replace "Block" => "ScriptBlock"
//@ replace "Vec<Block>" => "Vec<ScriptBlock>"
//@end
#[verifier::external_body] pub struct Compiler { x: u8 }
#[verifier::external_body] pub struct SlotMap { m: u8 }
impl SlotMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, usize>;
    #[verifier::external_body] pub fn get(&self, n: &String) -> (r: Option<&usize>) ensures r == (if self@.dom().contains(n@) { Some(&self@[n@]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, n: &String) -> (r: bool) ensures r == self@.dom().contains(n@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, n: String, i: usize) ensures final(self)@ == old(self)@.insert(n@, i) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
}
#[verifier::external_body] pub struct NameSet { m: u8 }
impl NameSet {
    pub uninterp spec fn view(&self) -> vstd::set::Set<Seq<char>>;
    #[verifier::external_body] pub fn contains(&self, n: &String) -> (r: bool) ensures r == self@.contains(n@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, n: String) ensures final(self)@ == old(self)@.insert(n@) { unimplemented!() }
}
pub uninterp spec fn folded(s: Seq<char>) -> Seq<char>; // str::to_ascii_lowercase
#[verifier::external_body] pub fn fold_name(s: &str) -> (r: String) ensures r@ == folded(s@) { unimplemented!() }
pub type Level = Map<Seq<char>, usize>;
// the open blocks, outermost first
pub open spec fn levels_of(stack: Seq<ScriptBlock>, b: ScriptBlock) -> Seq<Level> { Seq::new(stack.len() + 1, |i: int| if i < stack.len() { stack[i].vars_local@ } else { b.vars_local@ }) }
// the innermost block that knows the name decides
pub open spec fn lookup(l: Seq<Level>, n: Seq<char>) -> Option<usize> decreases l.len() { if l.len() == 0 { None } else if l.last().dom().contains(n) { Some(l.last()[n]) } else { lookup(l.drop_last(), n) } }
// how many slots the blocks take: those of the script itself without its :local ones, then each nested block
pub open spec fn count(l: Seq<Level>, k: int, locals: int) -> int { l[k].dom().len() - (if k == 0 { locals } else { 0 }) }
pub open spec fn base(l: Seq<Level>, k: int, locals: int) -> int decreases k { if k <= 0 { 0 } else { base(l, k - 1, locals) + count(l, k - 1, locals) } }
pub open spec fn slot_ok(l: Seq<Level>, k: int, id: int, locals: int) -> bool { (base(l, k, locals) <= id < base(l, k, locals) + count(l, k, locals)) || (k == 0 && usize::MAX - locals < id <= usize::MAX) }
pub open spec fn known(l: Seq<Level>, k: int, n: Seq<char>) -> bool { 0 <= k < l.len() && l[k].dom().contains(n) }
// every open block has a range of slots of its own; no two names share a slot, no name is known twice
pub open spec fn slots_ok(l: Seq<Level>, num: int, locals: int) -> bool {
    l.len() > 0 && 0 <= locals && 0 <= num && num + locals < usize::MAX && base(l, l.len() as int, locals) == num && (forall|k: int| 0 <= k < l.len() ==> #[trigger] count(l, k, locals) >= 0)
    && (forall|k: int, n: Seq<char>| #[trigger] known(l, k, n) ==> slot_ok(l, k, l[k][n] as int, locals))
    && (forall|k: int, n: Seq<char>, j: int, m: Seq<char>| #[trigger] known(l, k, n) && #[trigger] known(l, j, m) && l[k][n] == l[j][m] ==> k == j && n == m)
    && (forall|k: int, j: int, n: Seq<char>| #[trigger] known(l, k, n) && #[trigger] known(l, j, n) ==> k == j)
}
pub proof fn lemma_lookup(l: Seq<Level>, n: Seq<char>) ensures match lookup(l, n) { Some(v) => exists|k: int| known(l, k, n) && l[k][n] == v, None => forall|k: int| !known(l, k, n) } decreases l.len()
{ if l.len() > 0 { if l.last().dom().contains(n) { assert(known(l, l.len() - 1, n)); } else { let d = l.drop_last(); lemma_lookup(d, n); match lookup(d, n) { Some(v) => { let k = choose|k: int| known(d, k, n) && d[k][n] == v; assert(known(l, k, n)); } None => { assert forall|k: int| !known(l, k, n) by { if known(l, k, n) { assert(k < l.len() - 1); assert(known(d, k, n)); } } } } } } }
pub proof fn lemma_base_same(a: Seq<Level>, b: Seq<Level>, k: int, locals: int) requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i] ensures base(a, k, locals) == base(b, k, locals) decreases k { if k > 0 { lemma_base_same(a, b, k - 1, locals); } }
pub proof fn lemma_base_mono(l: Seq<Level>, a: int, b: int, locals: int) requires 0 <= a <= b <= l.len(), forall|k: int| 0 <= k < l.len() ==> #[trigger] count(l, k, locals) >= 0 ensures base(l, a, locals) <= base(l, b, locals) decreases b - a { if a < b { lemma_base_mono(l, a, b - 1, locals); assert(count(l, b - 1, locals) >= 0); } }
// a new name gets the next slot of the innermost block
pub proof fn lemma_new_name(l: Seq<Level>, num: int, locals: int, n: Seq<char>, w: Seq<Level>) requires slots_ok(l, num, locals), num + 1 + locals < usize::MAX, lookup(l, n) is None, w == l.update(l.len() - 1, l.last().insert(n, num as usize)) ensures slots_ok(w, num + 1, locals), lookup(w, n) == Some(num as usize), forall|m: Seq<char>| m != n ==> #[trigger] lookup(w, m) == lookup(l, m)
{
    let t = l.len() - 1; lemma_lookup(l, n); assert(!known(l, t, n));
    lemma_base_same(l, w, t, locals); assert(w[t].dom() =~= l[t].dom().insert(n)); assert(count(l, t, locals) >= 0); assert(count(w, t, locals) == count(l, t, locals) + 1); assert(base(w, w.len() as int, locals) == num + 1);
    assert forall|k: int| 0 <= k < w.len() implies #[trigger] count(w, k, locals) >= 0 by { if k < t { assert(w[k] == l[k]); assert(count(l, k, locals) >= 0); } }
    assert forall|k: int, m: Seq<char>| #[trigger] known(w, k, m) implies slot_ok(w, k, w[k][m] as int, locals) by { lemma_base_same(l, w, k, locals); if k == t && m == n { } else { assert(known(l, k, m)); assert(w[k][m] == l[k][m]); assert(slot_ok(l, k, l[k][m] as int, locals)); } }
    assert forall|k: int, m: Seq<char>| known(l, k, m) implies l[k][m] != num by { lemma_base_mono(l, k + 1, l.len() as int, locals); assert(slot_ok(l, k, l[k][m] as int, locals)); }
    assert forall|k: int, a: Seq<char>, j: int, m: Seq<char>| #[trigger] known(w, k, a) && #[trigger] known(w, j, m) && w[k][a] == w[j][m] implies k == j && a == m by { if !(k == t && a == n) { assert(known(l, k, a) && w[k][a] == l[k][a]); } if !(j == t && m == n) { assert(known(l, j, m) && w[j][m] == l[j][m]); } }
    assert forall|k: int, j: int, a: Seq<char>| #[trigger] known(w, k, a) && #[trigger] known(w, j, a) implies k == j by { if a != n { assert(known(l, k, a) && known(l, j, a)); } else { if k < t { assert(known(l, k, n)); } if j < t { assert(known(l, j, n)); } } }
    assert forall|m: Seq<char>| m != n implies #[trigger] lookup(w, m) == lookup(l, m) by { assert(w.drop_last() =~= l.drop_last()); }
}
// a new :local name gets a slot of the whole script
pub proof fn lemma_new_local(l: Seq<Level>, num: int, locals: int, n: Seq<char>, w: Seq<Level>) requires slots_ok(l, num, locals), num + locals + 1 < usize::MAX, lookup(l, n) is None, l.len() > 1, w == l.update(0, l[0].insert(n, (usize::MAX - locals) as usize)) ensures slots_ok(w, num, locals + 1), lookup(w, n) == Some((usize::MAX - locals) as usize), forall|m: Seq<char>| m != n ==> #[trigger] lookup(w, m) == lookup(l, m)
{
    lemma_lookup(l, n); assert(!known(l, 0, n)); let v = (usize::MAX - locals) as usize;
    assert(w[0].dom() =~= l[0].dom().insert(n)); assert(count(l, 0, locals) >= 0); assert(count(w, 0, locals + 1) == count(l, 0, locals));
    assert forall|k: int| 0 <= k <= l.len() implies base(w, k, locals + 1) == #[trigger] base(l, k, locals) by { lemma_base_local(l, w, k, locals); }
    assert forall|k: int| 0 <= k < w.len() implies #[trigger] count(w, k, locals + 1) >= 0 by { assert(count(l, k, locals) >= 0); if k > 0 { assert(w[k] == l[k]); } }
    assert forall|k: int, m: Seq<char>| #[trigger] known(w, k, m) implies slot_ok(w, k, w[k][m] as int, locals + 1) by { assert(base(w, k, locals + 1) == base(l, k, locals)); if !(k == 0 && m == n) { assert(known(l, k, m)); assert(w[k][m] == l[k][m]); assert(slot_ok(l, k, l[k][m] as int, locals)); if k > 0 { assert(w[k] == l[k]); } } }
    assert forall|k: int, m: Seq<char>| known(l, k, m) implies l[k][m] != v by { lemma_base_mono(l, k + 1, l.len() as int, locals); assert(slot_ok(l, k, l[k][m] as int, locals)); }
    assert forall|k: int, a: Seq<char>, j: int, m: Seq<char>| #[trigger] known(w, k, a) && #[trigger] known(w, j, m) && w[k][a] == w[j][m] implies k == j && a == m by { if !(k == 0 && a == n) { assert(known(l, k, a) && w[k][a] == l[k][a]); } if !(j == 0 && m == n) { assert(known(l, j, m) && w[j][m] == l[j][m]); } }
    assert forall|k: int, j: int, a: Seq<char>| #[trigger] known(w, k, a) && #[trigger] known(w, j, a) implies k == j by { if a != n { assert(known(l, k, a) && known(l, j, a)); } else { if k > 0 { assert(known(l, k, n)); } if j > 0 { assert(known(l, j, n)); } } }
    assert forall|m: Seq<char>| #[trigger] lookup(w, m) == (if m == n { Some(v) } else { lookup(l, m) }) by { lemma_lookup_local(l, w, n, v, m); }
}
pub proof fn lemma_base_local(l: Seq<Level>, w: Seq<Level>, k: int, locals: int) requires 0 <= k <= l.len(), w.len() == l.len(), forall|i: int| 1 <= i < l.len() ==> w[i] == l[i], l.len() > 0, count(w, 0, locals + 1) == count(l, 0, locals) ensures base(w, k, locals + 1) == base(l, k, locals) decreases k { if k > 0 { lemma_base_local(l, w, k - 1, locals); if k > 1 { assert(w[k - 1] == l[k - 1]); } } }
pub proof fn lemma_lookup_local(l: Seq<Level>, w: Seq<Level>, n: Seq<char>, v: usize, m: Seq<char>) requires l.len() > 0, lookup(l, n) is None, w == l.update(0, l[0].insert(n, v)) ensures lookup(w, m) == (if m == n { Some(v) } else { lookup(l, m) }) decreases l.len()
{ if l.len() == 1 { assert(lookup(w.drop_last(), m) is None); assert(lookup(l.drop_last(), m) is None); } else { let d = l.drop_last(); assert(w.drop_last() =~= d.update(0, d[0].insert(n, v))); lemma_lookup_local(d, w.drop_last(), n, v, m); assert(w.last() == l.last()); } }
// leaving a block gives its slots back; entering one takes none
pub proof fn lemma_close(l: Seq<Level>, num: int, locals: int) requires slots_ok(l, num, locals), l.len() > 1 ensures slots_ok(l.drop_last(), num - l.last().dom().len(), locals), forall|n: Seq<char>| l.last().dom().contains(n) ==> num - l.last().dom().len() <= #[trigger] l.last()[n] < num
{
    let d = l.drop_last(); let t = l.len() - 1; lemma_base_same(l, d, t, locals); assert(count(l, t, locals) == l.last().dom().len()); lemma_base_mono(l, 0, t, locals);
    assert forall|k: int| 0 <= k < d.len() implies #[trigger] count(d, k, locals) >= 0 by { assert(count(l, k, locals) >= 0); }
    assert forall|k: int, n: Seq<char>| #[trigger] known(d, k, n) implies slot_ok(d, k, d[k][n] as int, locals) by { assert(known(l, k, n)); lemma_base_same(l, d, k, locals); assert(slot_ok(l, k, l[k][n] as int, locals)); }
    assert forall|k: int, a: Seq<char>, j: int, m: Seq<char>| #[trigger] known(d, k, a) && #[trigger] known(d, j, m) && d[k][a] == d[j][m] implies k == j && a == m by { assert(known(l, k, a) && known(l, j, m)); }
    assert forall|k: int, j: int, a: Seq<char>| #[trigger] known(d, k, a) && #[trigger] known(d, j, a) implies k == j by { assert(known(l, k, a) && known(l, j, a)); }
    assert forall|n: Seq<char>| l.last().dom().contains(n) implies num - l.last().dom().len() <= #[trigger] l.last()[n] < num by { assert(known(l, t, n)); assert(slot_ok(l, t, l[t][n] as int, locals)); }
}
pub proof fn lemma_open(l: Seq<Level>, num: int, locals: int, w: Seq<Level>) requires slots_ok(l, num, locals), w == l.push(Map::empty()) ensures slots_ok(w, num, locals), forall|n: Seq<char>| #[trigger] lookup(w, n) == lookup(l, n)
{
    assert(w.drop_last() =~= l); let t = l.len() as int; lemma_base_same(l, w, t, locals); assert(count(w, t, locals) == 0);
    assert forall|k: int| 0 <= k < w.len() implies #[trigger] count(w, k, locals) >= 0 by { if k < t { assert(w[k] == l[k]); assert(count(l, k, locals) >= 0); } }
    assert forall|k: int, n: Seq<char>| #[trigger] known(w, k, n) implies k < t && known(l, k, n) && slot_ok(w, k, w[k][n] as int, locals) by { assert(k < t); assert(known(l, k, n)); lemma_base_same(l, w, k, locals); assert(slot_ok(l, k, l[k][n] as int, locals)); }
}
// where a slot is at run time: :local ones lie behind all others
pub open spec fn placed(id: usize, num: usize) -> int { if id > num { usize::MAX - id + num } else { id as int } }
pub proof fn lemma_placed(num: usize, locals: int, a: usize, b: usize) requires num + locals < usize::MAX, 0 <= locals, a < num || usize::MAX - locals < a, b < num || usize::MAX - locals < b ensures placed(a, num) == placed(b, num) ==> a == b, 0 <= placed(a, num) < num + locals {}
impl<'x> CompilerState<'x> {
    pub open spec fn levels(&self) -> Seq<Level> { levels_of(self.block_stack@, self.block) }
    pub open spec fn ok(&self) -> bool { slots_ok(self.levels(), self.vars_num as int, self.vars_local as int) }
//@fn src/compiler/grammar/instruction.rs CompilerState::is_var_local
//@ ret r
//@ replace "name.to_ascii_lowercase()" => "fold_name(name)"
//@ replace "for block in self.block_stack.iter().rev() {" => "let mut at = self.block_stack.len(); #[verifier::loop_isolation(false)] while at > 0 invariant 0 <= at <= self.block_stack@.len(), lookup(self.levels(), name@) == lookup(self.levels().take(at as int), name@), decreases at, { at = at - 1; let block = &self.block_stack[at]; proof { assert(self.levels().take(at + 1).drop_last() =~= self.levels().take(at as int)); assert(self.levels().take(at + 1).last() == block.vars_local@); }"
//@ at start
    proof { assert(self.levels().drop_last() =~= self.levels().take(self.block_stack@.len() as int)); }
//@ spec
    ensures r == (lookup(self.levels(), folded(name@)) is Some),
//@end
//@fn src/compiler/grammar/instruction.rs CompilerState::get_local_var
//@ ret r
//@ replace "name.to_ascii_lowercase()" => "fold_name(name)"
//@ replace "for block in self.block_stack.iter().rev() {" => "let mut at = self.block_stack.len(); #[verifier::loop_isolation(false)] while at > 0 invariant 0 <= at <= self.block_stack@.len(), lookup(self.levels(), name@) == lookup(self.levels().take(at as int), name@), decreases at, { at = at - 1; let block = &self.block_stack[at]; proof { assert(self.levels().take(at + 1).drop_last() =~= self.levels().take(at as int)); assert(self.levels().take(at + 1).last() == block.vars_local@); }"
//@ at start
    proof { assert(self.levels().drop_last() =~= self.levels().take(self.block_stack@.len() as int)); }
//@ spec
    ensures r == lookup(self.levels(), folded(name@)),
//@end
//@fn src/compiler/grammar/instruction.rs CompilerState::is_var_global
//@ ret r
//@ replace "name.to_ascii_lowercase()" => "fold_name(name)"
//@ spec
    ensures r == self.vars_global@.contains(folded(name@)),
//@end
//@fn src/compiler/grammar/instruction.rs CompilerState::register_global_var
//@ replace "name.to_ascii_lowercase()" => "fold_name(name)"
//@ spec
    ensures *final(self) == (CompilerState { vars_global: final(self).vars_global, ..*old(self) }), final(self).vars_global@ == old(self).vars_global@.insert(folded(name@)),
//@end
//@fn src/compiler/grammar/instruction.rs CompilerState::register_local_var
//@ ret r
//@ at start
    let ghost l0 = self.levels(); let ghost n0 = self.vars_num as int; let ghost j0 = self.vars_local as int; let ghost nm = name@;
//@ at after "self.block.vars_local.insert(name, var_id)"
    proof { assert(self.levels() =~= l0.update(l0.len() - 1, l0.last().insert(nm, n0 as usize))); lemma_new_name(l0, n0, j0, nm, self.levels()); }
//@ at after "self.vars_local += 1"
    proof { assert(self.levels() =~= l0.update(0, l0[0].insert(nm, (usize::MAX - j0) as usize))); lemma_new_local(l0, n0, j0, nm, self.levels()); }
//@ spec
    requires old(self).ok(), folded(name@) == name@, old(self).vars_num + old(self).vars_local + 1 < usize::MAX,
    ensures final(self).ok(), lookup(final(self).levels(), name@) == Some(r),
        // a known name keeps its slot; a new one changes no other
        lookup(old(self).levels(), name@) is Some ==> *final(self) == *old(self),
        forall|m: Seq<char>| m != name@ ==> #[trigger] lookup(final(self).levels(), m) == lookup(old(self).levels(), m),
        final(self).block_stack@.len() == old(self).block_stack@.len(), final(self).instructions == old(self).instructions, final(self).vars_num_max == old(self).vars_num_max, final(self).vars_global == old(self).vars_global,
//@end
//@fn src/compiler/grammar/instruction.rs CompilerState::block_end
//@ spec
    requires old(self).ok(), old(self).block_stack@.len() > 0, old(self).vars_num <= u32::MAX,
    ensures slots_ok(final(self).levels().drop_last(), final(self).vars_num as int, final(self).vars_local as int), final(self).block == old(self).block, final(self).block_stack == old(self).block_stack, final(self).vars_local == old(self).vars_local,
        // every variable of the block is cleared, and no other
        old(self).block.vars_local@.dom().len() > 0 ==> final(self).instructions@.len() == old(self).instructions@.len() + 1 && (match final(self).instructions@.last() { Instruction::Clear(c) => c.match_vars == old(self).block.match_test_vars && c.local_vars_idx == final(self).vars_num && c.local_vars_idx + c.local_vars_num == old(self).vars_num, _ => false }),
        forall|n: Seq<char>| old(self).block.vars_local@.dom().contains(n) ==> final(self).vars_num <= #[trigger] old(self).block.vars_local@[n] < old(self).vars_num,
        forall|k: int, n: Seq<char>| #[trigger] known(old(self).levels().drop_last(), k, n) ==> old(self).levels()[k][n] < final(self).vars_num || old(self).levels()[k][n] >= old(self).vars_num,
        old(self).block.vars_local@.dom().len() == 0 && old(self).block.match_test_vars != 0 ==> final(self).instructions@.len() == old(self).instructions@.len() + 1 && (match final(self).instructions@.last() { Instruction::Clear(c) => c.match_vars == old(self).block.match_test_vars && c.local_vars_num == 0, _ => false }),
        old(self).block.vars_local@.dom().len() == 0 && old(self).block.match_test_vars == 0 ==> final(self).instructions == old(self).instructions,
        forall|i: int| 0 <= i < old(self).instructions@.len() ==> final(self).instructions@[i] == #[trigger] old(self).instructions@[i],
        // the script has room for all of them
        final(self).vars_num_max >= old(self).vars_num_max, final(self).vars_num <= old(self).vars_num, old(self).vars_num <= final(self).vars_num_max || final(self).vars_num == old(self).vars_num,
//@ at start
    proof { lemma_close(self.levels(), self.vars_num as int, self.vars_local as int); let l = self.levels(); let d = l.drop_last(); let nl = self.vars_local as int; let t = l.len() - 1;
        assert(l.last() == self.block.vars_local@);
        assert forall|k: int, n: Seq<char>| #[trigger] known(d, k, n) implies l[k][n] < self.vars_num - l.last().dom().len() || l[k][n] >= self.vars_num by { assert(slot_ok(d, k, d[k][n] as int, nl)); lemma_base_mono(d, k + 1, d.len() as int, nl); } }
//@end
}
