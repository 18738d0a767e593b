// ---- the open blocks of a script and the jumps that wait for their end ------------------------
// a position that waits for the end of this block or of the chain of if blocks inside it
pub open spec fn has_jmp(b: ScriptBlock, k: int) -> bool { waits(b.if_jmps@, k) || waits(b.break_jmps@, k) }
pub open spec fn is_loop(w: Word) -> bool { w == Word::ForEveryPart || w == Word::While }
pub open spec fn is_if(w: Word) -> bool { w == Word::If || w == Word::ElsIf }
// the instruction that opens a block
pub open spec fn head_kind(w: Word) -> int { if is_if(w) { 1 } else if w == Word::ForEveryPart { 4 } else { 5 } }
pub open spec fn unset(i: Instruction) -> bool { jump(i) == Some(usize::MAX) }
pub open spec fn opens(v: Seq<Instruction>, p: int, w: Word) -> bool { if w == Word::Else { true } else { (is_if(w) || is_loop(w)) && 0 <= p < v.len() && kind(v[p]) == head_kind(w) && unset(v[p]) } }
pub open spec fn apart(a: ScriptBlock, b: ScriptBlock) -> bool { forall|k: int| !(#[trigger] has_jmp(a, k) && has_jmp(b, k)) }
pub open spec fn no_twice(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
pub open spec fn jumps_wait(b: ScriptBlock, v: Seq<Instruction>) -> bool { (forall|k: int| #[trigger] has_jmp(b, k) ==> 0 <= k < v.len() && v[k] == Instruction::Jmp(usize::MAX)) && no_twice(b.if_jmps@) && no_twice(b.break_jmps@) && forall|k: int| !(#[trigger] waits(b.if_jmps@, k) && waits(b.break_jmps@, k)) }
// block s was opened inside block s - 1 by the instruction at its last_block_start
pub open spec fn nested(v: Seq<Instruction>, a: ScriptBlock, b: ScriptBlock) -> bool { opens(v, a.last_block_start as int, b.btype) && a.last_block_start < v.len() && (a.if_jmps@.len() > 0 ==> b.btype == Word::ElsIf || b.btype == Word::Else) }
pub open spec fn head_at(bs: Seq<ScriptBlock>, s: int, k: int) -> bool { 0 < s < bs.len() && bs[s].btype != Word::Else && bs[s - 1].last_block_start == k }
pub open spec fn head(bs: Seq<ScriptBlock>, k: int) -> bool { exists|s: int| #[trigger] head_at(bs, s, k) }
pub open spec fn wait_at(bs: Seq<ScriptBlock>, s: int, k: int) -> bool { 0 <= s < bs.len() && has_jmp(bs[s], k) }
pub open spec fn waiting(bs: Seq<ScriptBlock>, k: int) -> bool { exists|s: int| #[trigger] wait_at(bs, s, k) }
pub open spec fn nested_at(v: Seq<Instruction>, bs: Seq<ScriptBlock>, s: int) -> bool { nested(v, bs[s - 1], bs[s]) }
pub open spec fn level_ok(v: Seq<Instruction>, bs: Seq<ScriptBlock>, s: int) -> bool { jumps_wait(bs[s], v) && (bs[s].break_jmps@.len() > 0 ==> is_loop(bs[s].btype)) }
pub open spec fn apart_at(bs: Seq<ScriptBlock>, s: int, u: int) -> bool { apart(bs[s], bs[u]) }
pub open spec fn order_at(bs: Seq<ScriptBlock>, s: int, u: int) -> bool { bs[s].btype != Word::Else && bs[u].btype != Word::Else ==> bs[s - 1].last_block_start < bs[u - 1].last_block_start }
pub open spec fn done_at(v: Seq<Instruction>, bs: Seq<ScriptBlock>, k: int) -> bool { settled(v, k) || waiting(bs, k) || head(bs, k) }
// a jump that has its target stays inside the script; the target of a loop is the place behind the jump back to it
pub open spec fn settled(v: Seq<Instruction>, k: int) -> bool { jump(v[k]) is Some ==> (jump(v[k])->0) <= v.len() && (kind(v[k]) >= 4 ==> k < (jump(v[k])->0) && v[(jump(v[k])->0) - 1] == Instruction::Jmp(k as usize)) }
pub open spec fn flow_ok_(v: Seq<Instruction>, bs: Seq<ScriptBlock>) -> bool {
    &&& bs.len() > 0 && bs[0].btype == Word::Not && v.len() < usize::MAX
    &&& forall|s: int| 0 < s < bs.len() ==> #[trigger] nested_at(v, bs, s)
    &&& forall|s: int| 0 <= s < bs.len() ==> #[trigger] level_ok(v, bs, s)
    &&& forall|s: int, u: int| 0 <= s < u < bs.len() ==> #[trigger] apart_at(bs, s, u)
    &&& forall|s: int, u: int| 0 < s < u < bs.len() ==> #[trigger] order_at(bs, s, u)
    &&& forall|k: int| 0 <= k < v.len() ==> #[trigger] done_at(v, bs, k)
}
#[verifier::opaque]
pub open spec fn flow_ok(v: Seq<Instruction>, bs: Seq<ScriptBlock>) -> bool { flow_ok_(v, bs) }
pub proof fn lemma_more(v: Seq<Instruction>, bs: Seq<ScriptBlock>, w: Seq<Instruction>, cs: Seq<ScriptBlock>) requires flow_ok(v, bs), more(v, w), blocks_kept(bs, cs) ensures flow_ok(w, cs)
{
    reveal(flow_ok);
    assert forall|s: int| 0 <= s < cs.len() implies #[trigger] level_ok(w, cs, s) by {
        assert(block_kept(bs[s], cs[s])); assert(level_ok(v, bs, s));
        assert forall|k: int| #[trigger] has_jmp(cs[s], k) implies 0 <= k < w.len() && w[k] == Instruction::Jmp(usize::MAX) by { assert(has_jmp(bs[s], k)); assert(same_ctl(v[k], w[k])); assert(w[k] is Jmp); }
    }
    assert forall|s: int| 0 < s < cs.len() implies #[trigger] nested_at(w, cs, s) by { assert(nested_at(v, bs, s)); assert(block_kept(bs[s - 1], cs[s - 1]) && block_kept(bs[s], cs[s])); assert(same_ctl(v[bs[s - 1].last_block_start as int], w[bs[s - 1].last_block_start as int])); }
    assert forall|s: int, u: int| 0 <= s < u < cs.len() implies #[trigger] apart_at(cs, s, u) by { assert(apart_at(bs, s, u)); assert(block_kept(bs[s], cs[s]) && block_kept(bs[u], cs[u])); assert forall|k: int| !(#[trigger] has_jmp(cs[s], k) && has_jmp(cs[u], k)) by { assert(has_jmp(bs[s], k) == has_jmp(cs[s], k)); } }
    assert forall|s: int, u: int| 0 < s < u < cs.len() implies #[trigger] order_at(cs, s, u) by { assert(order_at(bs, s, u)); assert(block_kept(bs[s - 1], cs[s - 1]) && block_kept(bs[u - 1], cs[u - 1]) && block_kept(bs[s], cs[s]) && block_kept(bs[u], cs[u])); }
    assert forall|k: int| 0 <= k < w.len() implies #[trigger] done_at(w, cs, k) by {
        if k < v.len() { assert(same_ctl(v[k], w[k])); assert(done_at(v, bs, k));
            if waiting(bs, k) { let s = choose|s: int| #[trigger] wait_at(bs, s, k); assert(block_kept(bs[s], cs[s])); assert(wait_at(cs, s, k)); }
            else if head(bs, k) { let s = choose|s: int| #[trigger] head_at(bs, s, k); assert(block_kept(bs[s], cs[s]) && block_kept(bs[s - 1], cs[s - 1])); assert(head_at(cs, s, k)); }
            else if kind(v[k]) >= 4 { let q = (jump(v[k])->0) - 1; assert(same_ctl(v[q], w[q])); assert(w[q] is Jmp); }
        }
    }
}
// a break inside a loop
pub proof fn lemma_break(v: Seq<Instruction>, bs: Seq<ScriptBlock>, x: int, b2: ScriptBlock) requires flow_ok(v, bs), 0 <= x < bs.len(), is_loop(bs[x].btype), v.len() + 1 < usize::MAX, b2 == (ScriptBlock { break_jmps: b2.break_jmps, ..bs[x] }), b2.break_jmps@ == bs[x].break_jmps@.push(v.len() as usize)
    ensures flow_ok(v.push(Instruction::Jmp(usize::MAX)), bs.update(x, b2))
{
    reveal(flow_ok);
    let w = v.push(Instruction::Jmp(usize::MAX)); let cs = bs.update(x, b2); let n = v.len() as int; let j = bs[x].break_jmps@;
    assert(forall|s: int| 0 <= s < bs.len() ==> (#[trigger] cs[s]).btype == bs[s].btype && cs[s].last_block_start == bs[s].last_block_start && cs[s].if_jmps@ == bs[s].if_jmps@);
    assert forall|k: int| #[trigger] waits(b2.break_jmps@, k) == (waits(j, k) || k == n) by {
        if waits(j, k) { let i = choose|i: int| 0 <= i < j.len() && #[trigger] j[i] == k; assert(b2.break_jmps@[i] == k); }
        if waits(b2.break_jmps@, k) { let i = choose|i: int| 0 <= i < b2.break_jmps@.len() && #[trigger] b2.break_jmps@[i] == k; if i < j.len() { assert(j[i] == k); } }
        if k == n { assert(b2.break_jmps@[j.len() as int] == k); }
    }
    assert forall|s: int, k: int| 0 <= s < bs.len() && #[trigger] has_jmp(cs[s], k) implies has_jmp(bs[s], k) || (s == x && k == n) by { }
    assert(forall|s: int, k: int| 0 <= s < bs.len() && #[trigger] has_jmp(bs[s], k) ==> has_jmp(cs[s], k) && 0 <= k < n) by { assert forall|s: int, k: int| 0 <= s < bs.len() && #[trigger] has_jmp(bs[s], k) implies has_jmp(cs[s], k) && 0 <= k < n by { assert(level_ok(v, bs, s)); } }
    assert forall|s: int| 0 <= s < cs.len() implies #[trigger] level_ok(w, cs, s) by {
        assert(level_ok(v, bs, s));
        assert forall|k: int| #[trigger] has_jmp(cs[s], k) implies 0 <= k < w.len() && w[k] == Instruction::Jmp(usize::MAX) by { if has_jmp(bs[s], k) { } }
        if s == x { assert forall|a: int, b: int| 0 <= a < b < b2.break_jmps@.len() implies b2.break_jmps@[a] != b2.break_jmps@[b] by { assert(waits(j, j[a] as int)); assert(has_jmp(bs[x], j[a] as int)); }
            assert forall|k: int| !(#[trigger] waits(cs[s].if_jmps@, k) && waits(cs[s].break_jmps@, k)) by { if waits(bs[s].if_jmps@, k) { assert(has_jmp(bs[s], k)); } } }
    }
    assert forall|s: int| 0 < s < cs.len() implies #[trigger] nested_at(w, cs, s) by { assert(nested_at(v, bs, s)); }
    assert forall|s: int, u: int| 0 <= s < u < cs.len() implies #[trigger] apart_at(cs, s, u) by { assert(apart_at(bs, s, u)); assert forall|k: int| !(#[trigger] has_jmp(cs[s], k) && has_jmp(cs[u], k)) by { if has_jmp(cs[s], k) && has_jmp(cs[u], k) { assert(has_jmp(bs[s], k) || has_jmp(bs[u], k)); assert(k < n); assert(has_jmp(bs[s], k)); } } }
    assert forall|s: int, u: int| 0 < s < u < cs.len() implies #[trigger] order_at(cs, s, u) by { assert(order_at(bs, s, u)); }
    assert forall|k: int| 0 <= k < w.len() implies #[trigger] done_at(w, cs, k) by {
        if k < n { assert(done_at(v, bs, k));
            if waiting(bs, k) { let s = choose|s: int| #[trigger] wait_at(bs, s, k); assert(wait_at(cs, s, k)); }
            else if head(bs, k) { let s = choose|s: int| #[trigger] head_at(bs, s, k); assert(cs[s].btype == bs[s].btype); assert(head_at(cs, s, k)); } }
        else { assert(waits(b2.break_jmps@, n)); assert(has_jmp(cs[x], n)); assert(wait_at(cs, x, n)); }
    }
}
// a new block; d is the head of it (nothing for an else block)
pub open spec fn empty_block(b: ScriptBlock) -> bool { b.if_jmps@.len() == 0 && b.break_jmps@.len() == 0 }
pub proof fn lemma_open_block(v: Seq<Instruction>, bs: Seq<ScriptBlock>, h: Seq<Instruction>, b2: ScriptBlock, nb: ScriptBlock)
    requires flow_ok(v, bs), empty_block(nb), v.len() + 1 < usize::MAX, b2 == (ScriptBlock { last_block_start: (v.len() + h.len() - 1) as usize, ..bs.last() }), (v + h).len() > 0, bs.last().if_jmps@.len() > 0 ==> nb.btype == Word::ElsIf || nb.btype == Word::Else,
        nb.btype == Word::Else ==> h.len() == 0, nb.btype != Word::Else ==> h.len() == 1 && (is_if(nb.btype) || is_loop(nb.btype)) && kind(h[0]) == head_kind(nb.btype) && unset(h[0]),
    ensures flow_ok(v + h, bs.drop_last().push(b2).push(nb))
{
    reveal(flow_ok);
    let w = v + h; let cs = bs.drop_last().push(b2).push(nb); let t = bs.len() - 1;
    assert(forall|s: int| 0 <= s < bs.len() ==> (#[trigger] cs[s]).btype == bs[s].btype && cs[s].if_jmps@ == bs[s].if_jmps@ && cs[s].break_jmps@ == bs[s].break_jmps@ && (s < t ==> cs[s] == bs[s]));
    assert(forall|s: int, k: int| 0 <= s < bs.len() ==> #[trigger] has_jmp(cs[s], k) == has_jmp(bs[s], k));
    assert(forall|k: int| !has_jmp(nb, k));
    assert forall|s: int| 0 <= s < cs.len() implies #[trigger] level_ok(w, cs, s) by { if s <= t { assert(level_ok(v, bs, s)); } }
    assert forall|s: int| 0 < s < cs.len() implies #[trigger] nested_at(w, cs, s) by { if s <= t { assert(nested_at(v, bs, s)); } else { assert(cs[s] == nb && cs[s - 1] == b2); } }
    assert forall|s: int, u: int| 0 <= s < u < cs.len() implies #[trigger] apart_at(cs, s, u) by { if u <= t { assert(apart_at(bs, s, u)); } }
    assert forall|s: int, u: int| 0 < s < u < cs.len() implies #[trigger] order_at(cs, s, u) by { if u <= t { assert(order_at(bs, s, u)); } else { assert(nested_at(v, bs, s)); } }
    assert forall|k: int| 0 <= k < w.len() implies #[trigger] done_at(w, cs, k) by {
        if k < v.len() { assert(done_at(v, bs, k));
            if waiting(bs, k) { let s = choose|s: int| #[trigger] wait_at(bs, s, k); assert(wait_at(cs, s, k)); }
            else if head(bs, k) { let s = choose|s: int| #[trigger] head_at(bs, s, k); assert(cs[s].btype == bs[s].btype && cs[s - 1] == bs[s - 1]); assert(head_at(cs, s, k)); } }
        else { assert(head_at(cs, t + 1, k)); }
    }
}
// w is v with the waiting jumps at the given positions, and the head of the block, directed to the end of w
pub open spec fn led(v: Seq<Instruction>, w: Seq<Instruction>, jm: Seq<usize>, hd: Option<usize>, t: int) -> bool { w.len() == v.len() && forall|k: int| 0 <= k < v.len() ==> kind(#[trigger] w[k]) == kind(v[k]) && (if waits(jm, k) || hd == Some(k as usize) { jump(w[k]) == Some(t as usize) } else { jump(w[k]) == jump(v[k]) }) }
// the end of a block: v holds the code up to its last instruction, x the jumps that lead here, c what the enclosing block becomes
pub proof fn lemma_close_block(v: Seq<Instruction>, bs: Seq<ScriptBlock>, e: Seq<Instruction>, w: Seq<Instruction>, jm: Seq<usize>, c: ScriptBlock)
    requires flow_ok(v, bs), bs.len() > 1, w.len() == v.len() + e.len(), e.len() <= 1, w.len() < usize::MAX,
        c.btype == bs[bs.len() - 2].btype, c.break_jmps@ == bs[bs.len() - 2].break_jmps@, bs.last().if_jmps@.len() == 0,
        led(v + e, w, jm, if bs.last().btype == Word::Else { None } else { Some(bs[bs.len() - 2].last_block_start) }, w.len() as int),
        is_loop(bs.last().btype) ==> jm == bs.last().break_jmps@ && c.if_jmps@ == bs[bs.len() - 2].if_jmps@ && e == seq![Instruction::Jmp(bs[bs.len() - 2].last_block_start)],
        bs.last().btype == Word::Else ==> jm == bs[bs.len() - 2].if_jmps@ && c.if_jmps@.len() == 0 && e.len() == 0,
        is_if(bs.last().btype) ==> (jm == bs[bs.len() - 2].if_jmps@ && c.if_jmps@.len() == 0 && e.len() == 0) || (jm.len() == 0 && c.if_jmps@ == bs[bs.len() - 2].if_jmps@.push(v.len() as usize) && e == seq![Instruction::Jmp(usize::MAX)]),
    ensures flow_ok(w, bs.drop_last().drop_last().push(c)),
{
    reveal(flow_ok);
    let t = bs.len() - 1; let cs = bs.drop_last().drop_last().push(c); let b = bs.last(); let p = bs[t - 1]; let n = v.len() as int; let z = v + e;
    assert(nested_at(v, bs, t)); assert(level_ok(v, bs, t - 1)); assert(level_ok(v, bs, t)); assert(apart_at(bs, t - 1, t));
    assert(forall|k: int| 0 <= k < n ==> z[k] == v[k]); if e.len() == 1 { assert(z[n] == e[0]); }
    let hd: Option<usize> = if b.btype == Word::Else { None } else { Some(p.last_block_start) };
    assert(forall|s: int| 0 <= s < t - 1 ==> #[trigger] cs[s] == bs[s]);
    assert(is_loop(b.btype) || is_if(b.btype) || b.btype == Word::Else);
    // what the enclosing block still waits for
    assert forall|k: int| #[trigger] has_jmp(c, k) implies (has_jmp(p, k) && !waits(jm, k)) || (k == n && e.len() == 1 && e[0] == Instruction::Jmp(usize::MAX)) by {
        if is_loop(b.btype) { if waits(jm, k) { assert(has_jmp(b, k)); assert(has_jmp(p, k)); } }
        else if waits(c.if_jmps@, k) { let i = choose|i: int| 0 <= i < c.if_jmps@.len() && #[trigger] c.if_jmps@[i] == k; if i < p.if_jmps@.len() { assert(p.if_jmps@[i] == k); assert(waits(p.if_jmps@, k)); } }
        else { assert(waits(p.break_jmps@, k)); if waits(jm, k) { assert(waits(p.if_jmps@, k)); } }
    }
    assert forall|k: int| #[trigger] has_jmp(p, k) && !waits(jm, k) implies has_jmp(c, k) by {
        if waits(p.if_jmps@, k) { if c.if_jmps@.len() > 0 { let i = choose|i: int| 0 <= i < p.if_jmps@.len() && #[trigger] p.if_jmps@[i] == k; assert(c.if_jmps@[i] == k); } }
    }
    assert forall|k: int| 0 <= k < n && waits(jm, k) implies has_jmp(p, k) || has_jmp(b, k) by { }
    assert forall|k: int| #[trigger] waits(jm, k) implies 0 <= k < n && v[k] == Instruction::Jmp(usize::MAX) by { if is_loop(b.btype) { assert(has_jmp(b, k)); } else { assert(has_jmp(p, k)); } }
    assert forall|s: int, k: int| 0 <= s < t - 1 && #[trigger] has_jmp(cs[s], k) implies 0 <= k < n && same_ctl(v[k], w[k]) by { assert(level_ok(v, bs, s)); assert(apart_at(bs, s, t - 1)); assert(apart_at(bs, s, t)); assert(has_jmp(bs[s], k)); assert(same_ctl(z[k], w[k])); }
    assert forall|k: int| #[trigger] has_jmp(c, k) implies 0 <= k < w.len() && w[k] == Instruction::Jmp(usize::MAX) by { assert(same_ctl(z[k], w[k])); assert(w[k] is Jmp); }
    assert forall|s: int| 0 <= s < cs.len() implies #[trigger] level_ok(w, cs, s) by {
        if s < t - 1 { assert(level_ok(v, bs, s)); assert forall|k: int| #[trigger] has_jmp(cs[s], k) implies 0 <= k < w.len() && w[k] == Instruction::Jmp(usize::MAX) by { assert(has_jmp(bs[s], k)); assert(same_ctl(v[k], w[k])); assert(w[k] is Jmp); } }
        else {
            assert forall|a: int, d: int| 0 <= a < d < c.if_jmps@.len() implies c.if_jmps@[a] != c.if_jmps@[d] by { assert(waits(p.if_jmps@, p.if_jmps@[a] as int)); assert(has_jmp(p, p.if_jmps@[a] as int)); }
            assert forall|k: int| !(#[trigger] waits(c.if_jmps@, k) && waits(c.break_jmps@, k)) by { if waits(c.if_jmps@, k) && waits(c.break_jmps@, k) { assert(waits(p.break_jmps@, k)); assert(has_jmp(p, k)); assert(!waits(p.if_jmps@, k)); let i = choose|i: int| 0 <= i < c.if_jmps@.len() && #[trigger] c.if_jmps@[i] == k; if i < p.if_jmps@.len() { assert(p.if_jmps@[i] == k); } } }
            assert(bs[t - 1].break_jmps@.len() > 0 ==> is_loop(bs[t - 1].btype));
        }
    }
    assert forall|s: int| 0 < s < cs.len() implies #[trigger] nested_at(w, cs, s) by {
        assert(nested_at(v, bs, s)); assert(cs[s - 1] == bs[s - 1]); assert(cs[s].btype == bs[s].btype); let q = bs[s - 1].last_block_start as int;
        if bs[s].btype != Word::Else { if waits(jm, q) { assert(kind(v[q]) == 3); } if hd == Some(q as usize) { assert(order_at(bs, s, t)); } assert(same_ctl(z[q], w[q])); }
    }
    assert forall|s: int, u: int| 0 <= s < u < cs.len() implies #[trigger] apart_at(cs, s, u) by {
        assert(apart_at(bs, s, u)); assert(cs[s] == bs[s]);
        assert forall|k: int| !(#[trigger] has_jmp(cs[s], k) && has_jmp(cs[u], k)) by { if has_jmp(cs[s], k) { assert(level_ok(v, bs, s)); assert(has_jmp(bs[s], k)); if u == t - 1 && has_jmp(c, k) { assert(has_jmp(p, k)); } } }
    }
    assert forall|s: int, u: int| 0 < s < u < cs.len() implies #[trigger] order_at(cs, s, u) by { assert(order_at(bs, s, u)); assert(cs[s - 1] == bs[s - 1] && cs[u - 1] == bs[u - 1]); assert(bs[u].btype == cs[u].btype); }
    assert forall|k: int| 0 <= k < w.len() implies #[trigger] done_at(w, cs, k) by {
        if k < n {
            assert(done_at(v, bs, k));
            if waits(jm, k) { assert(kind(w[k]) == 3); assert(jump(w[k]) == Some(w.len() as usize)); }
            else if hd == Some(k as usize) { assert(jump(w[k]) == Some(w.len() as usize)); if is_loop(b.btype) { assert(w.len() - 1 == n); assert(!waits(jm, n)); assert(same_ctl(z[n], w[n])); assert(w[n] is Jmp); assert(w[n] == Instruction::Jmp(k as usize)); } }
            else {
                assert(same_ctl(z[k], w[k]));
                if waiting(bs, k) { let s = choose|s: int| #[trigger] wait_at(bs, s, k); if s < t - 1 { assert(wait_at(cs, s, k)); } else if s == t - 1 { assert(has_jmp(c, k)); assert(wait_at(cs, t - 1, k)); } else { assert(waits(b.break_jmps@, k)); assert(is_loop(bs[t].btype)); assert(false); } }
                else if head(bs, k) { let s = choose|s: int| #[trigger] head_at(bs, s, k); assert(s < t); assert(cs[s].btype == bs[s].btype && cs[s - 1] == bs[s - 1]); assert(head_at(cs, s, k)); }
                else if kind(v[k]) >= 4 && jump(v[k]) is Some { let q = (jump(v[k])->0) - 1; assert(v[q] == Instruction::Jmp(k as usize)); assert(!waits(jm, q)); if hd == Some(q as usize) { assert(kind(v[q]) != 3); } assert(same_ctl(z[q], w[q])); assert(w[q] is Jmp); }
            }
        } else {
            assert(!waits(jm, n)); assert(same_ctl(z[n], w[n]));
            if e[0] == Instruction::Jmp(usize::MAX) && is_if(b.btype) { assert(c.if_jmps@[p.if_jmps@.len() as int] == n); assert(waits(c.if_jmps@, n)); assert(has_jmp(c, n)); assert(wait_at(cs, t - 1, n)); }
        }
    }
}
// nothing is open any more: every jump stays inside the script
pub open spec fn script_ok(v: Seq<Instruction>) -> bool { forall|k: int| 0 <= k < v.len() ==> #[trigger] settled(v, k) }
pub proof fn lemma_all_closed(v: Seq<Instruction>, bs: Seq<ScriptBlock>) requires flow_ok(v, bs), bs.len() == 1, bs[0].if_jmps@.len() == 0 ensures script_ok(v)
{
    reveal(flow_ok);
    assert(level_ok(v, bs, 0)); assert(bs[0].break_jmps@.len() == 0);
    assert forall|k: int| 0 <= k < v.len() implies #[trigger] settled(v, k) by { assert(done_at(v, bs, k)); if waiting(bs, k) { let s = choose|s: int| #[trigger] wait_at(bs, s, k); } if head(bs, k) { let s = choose|s: int| #[trigger] head_at(bs, s, k); } }
}

// ---- the state of the compiler between two commands -------------------------------------------
pub open spec fn levels(stack: Seq<ScriptBlock>, b: ScriptBlock) -> Seq<ScriptBlock> { stack.push(b) }
// how many foreverypart loops are open from level lv on
pub open spec fn pops(bs: Seq<ScriptBlock>, lv: int) -> nat decreases bs.len() - lv { if lv < 0 || lv >= bs.len() { 0 } else { pops(bs, lv + 1) + (if bs[lv].btype == Word::ForEveryPart { 1nat } else { 0nat }) } }
pub open spec fn require_at(v: Seq<Instruction>, b: ScriptBlock) -> bool { b.require_pos == usize::MAX || (b.require_pos < v.len() && v[b.require_pos as int] is Require) }
pub open spec fn code_good_(v: Seq<Instruction>, bs: Seq<ScriptBlock>, c: Compiler) -> bool { flow_ok(v, bs) && (forall|i: int| 0 <= i < bs.len() ==> require_at(v, #[trigger] bs[i])) && bs.len() - 1 <= c.max_nested_blocks && pops(bs, 0) <= c.max_nested_foreverypart + 1 }
#[verifier::opaque]
pub open spec fn code_good(v: Seq<Instruction>, bs: Seq<ScriptBlock>, c: Compiler) -> bool { code_good_(v, bs, c) }
pub proof fn lemma_pops(a: Seq<ScriptBlock>, b: Seq<ScriptBlock>, lv: int) requires 0 <= lv <= a.len(), a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).btype == b[i].btype ensures pops(a, lv) == pops(b, lv) decreases a.len() - lv { if lv < a.len() { lemma_pops(a, b, lv + 1); assert(a[lv].btype == b[lv].btype); } }
pub proof fn lemma_pops_push(a: Seq<ScriptBlock>, x: ScriptBlock, lv: int) requires 0 <= lv <= a.len() ensures pops(a.push(x), lv) == pops(a, lv) + (if x.btype == Word::ForEveryPart { 1nat } else { 0nat }) decreases a.len() - lv { let b = a.push(x); if lv < a.len() { lemma_pops_push(a, x, lv + 1); assert(b[lv] == a[lv]); } else { assert(b[lv] == x); assert(pops(b, lv + 1) == 0); assert(pops(a, lv) == 0); } }
impl<'x> CompilerState<'x> {
    pub open spec fn lv(&self) -> Seq<ScriptBlock> { levels(self.block_stack@, self.block) }
    pub open spec fn good(&self) -> bool { code_good(self.instructions@, self.lv(), *self.compiler) && self.calm() }
    pub open spec fn calm(&self) -> bool { self.few() && self.includes_num <= self.compiler.max_includes && self.tokens.compiler == self.compiler && self.tokens.line_start <= self.tokens.pos && left(self.tokens) <= u32::MAX }
}
pub proof fn lemma_grown(v: Seq<Instruction>, bs: Seq<ScriptBlock>, w: Seq<Instruction>, cs: Seq<ScriptBlock>, c: Compiler) requires code_good(v, bs, c), more(v, w), blocks_same(bs, cs) ensures code_good(w, cs, c)
{
    reveal(code_good);
    assert(blocks_kept(bs, cs)) by { assert forall|i: int| 0 <= i < bs.len() implies block_kept(#[trigger] bs[i], cs[i]) by { assert(block_same(bs[i], cs[i])); } }
    lemma_more(v, bs, w, cs);
    assert forall|i: int| 0 <= i < cs.len() implies require_at(w, #[trigger] cs[i]) by { assert(block_same(bs[i], cs[i])); assert(require_at(v, bs[i])); if cs[i].require_pos != usize::MAX { assert(same_ctl(v[cs[i].require_pos as int], w[cs[i].require_pos as int])); } }
    assert forall|i: int| 0 <= i < bs.len() implies (#[trigger] bs[i]).btype == cs[i].btype by { assert(block_same(bs[i], cs[i])); }
    lemma_pops(bs, cs, 0);
}
pub broadcast proof fn lemma_emits(s: CompilerState<'_>, o: CompilerState<'_>) requires #[trigger] s.emits(&o), o.good()
    ensures s.good(), s.block.if_jmps@ == o.block.if_jmps@, s.compiler == o.compiler, s.last_block_type == o.last_block_type, s.includes_num == o.includes_num, left(s.tokens) <= left(o.tokens), s.block_stack@.len() == o.block_stack@.len(), s.instructions@.len() >= o.instructions@.len(), forall|c: Capability| o.allowed(c) ==> s.allowed(c)
{
    reveal(CompilerState::emits);
    assert forall|i: int| 0 <= i < o.lv().len() implies block_same(#[trigger] o.lv()[i], s.lv()[i]) by { if i < o.block_stack@.len() { assert(block_same(o.block_stack@[i], s.block_stack@[i])); } }
    lemma_grown(o.instructions@, o.lv(), s.instructions@, s.lv(), *o.compiler);
}
pub broadcast proof fn lemma_declares(s: CompilerState<'_>, o: CompilerState<'_>) requires #[trigger] s.declares(&o), o.good(), s.require_ok()
    ensures s.good(), s.block.if_jmps@ == o.block.if_jmps@, s.compiler == o.compiler, s.last_block_type == o.last_block_type, s.includes_num == o.includes_num, left(s.tokens) <= left(o.tokens), s.block_stack@.len() == o.block_stack@.len(), s.instructions@.len() >= o.instructions@.len(), forall|c: Capability| o.allowed(c) ==> s.allowed(c)
{
    reveal(CompilerState::declares); reveal(code_good); let v = o.instructions@; let w = s.instructions@;
    lemma_more(v, o.lv(), w, s.lv());
    assert forall|i: int| 0 <= i < s.lv().len() implies require_at(w, #[trigger] s.lv()[i]) by { if i < o.block_stack@.len() { assert(s.lv()[i] == o.lv()[i]); assert(require_at(v, o.lv()[i])); if s.lv()[i].require_pos != usize::MAX { assert(same_ctl(v[s.lv()[i].require_pos as int], w[s.lv()[i].require_pos as int])); } } }
    lemma_pops(o.lv(), s.lv(), 0);
}
