use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include std.vrs
//@include text.vrs
//@include variable.vrs
//@include shim_chars.vrs
//@include lower_chars.vrs
//@type src/runtime/tests/glob.rs PatternChar
//@end
//@type src/runtime/tests/glob.rs GlobPattern
//@end
//@include glob_spec.vrs
//@include glob_compile_spec.vrs
//@include glob_fns.vrs
//@include setmod_spec.vrs
//@include setmod_fns.vrs
// the key made from s by :quotewildcard denotes exactly the characters of s
pub proof fn lemma_quoted_tail(s: Seq<char>, c: char) ensures full(M::Wild, seq![c] + s) == piece(M::Wild, 0, c) + full(M::Wild, s) decreases s.len()
{
    let t = seq![c] + s;
    assert(full(M::Wild, seq![]) =~= seq![]);
    if s.len() == 0 { assert(t.drop_last() =~= seq![]); assert(full(M::Wild, t) =~= piece(M::Wild, 0, c)); assert(piece(M::Wild, 0, c) + full(M::Wild, s) =~= piece(M::Wild, 0, c)); }
    else { lemma_quoted_tail(s.drop_last(), c); assert(t.drop_last() =~= seq![c] + s.drop_last());
        assert(full(M::Wild, t) =~= piece(M::Wild, 0, c) + full(M::Wild, s)); }
}
pub proof fn lemma_quoted_items(s: Seq<char>) ensures items(full(M::Wild, s), false, false) == lits(s) decreases s.len()
{
    if s.len() == 0 { assert(lits(s) =~= seq![]); }
    else {
        reveal_with_fuel(items, 3); let c = s[0]; let t = s.skip(1); let k = full(M::Wild, s); let kt = full(M::Wild, t);
        assert(s =~= seq![c] + t); lemma_quoted_tail(t, c); lemma_quoted_items(t);
        assert(lits(s) =~= lits(seq![c]) + lits(t));
        if wild_special(c) { assert(k =~= seq!['\\', c] + kt); assert(k.skip(1) =~= seq![c] + kt); assert(k.skip(1).skip(1) =~= kt); }
        else { assert(k =~= seq![c] + kt); assert(k.skip(1) =~= kt); }
    }
}
pub proof fn lemma_lits_match(s: Seq<char>, i: int, v: Seq<char>, j: int) requires 0 <= i <= s.len(), 0 <= j <= v.len() ensures m(lits(s), i, v, j) <==> v.skip(j) == s.skip(i) decreases s.len() - i
{
    if i == s.len() { if j == v.len() { assert(v.skip(j) =~= s.skip(i)); } else { assert(v.skip(j).len() != s.skip(i).len()); } }
    else if j == v.len() { assert(v.skip(j).len() != s.skip(i).len()); }
    else { lemma_lits_match(s, i + 1, v, j + 1);
        if v[j] == s[i] && v.skip(j + 1) == s.skip(i + 1) { assert(v.skip(j) =~= seq![v[j]] + v.skip(j + 1)); assert(s.skip(i) =~= seq![s[i]] + s.skip(i + 1)); }
        if v.skip(j) == s.skip(i) { assert(v.skip(j)[0] == s.skip(i)[0]); assert(v.skip(j + 1) =~= v.skip(j).skip(1)); assert(s.skip(i + 1) =~= s.skip(i).skip(1)); } }
}
// C09: quoting s (when the result is not cut) gives a key that matches s and nothing else
pub proof fn theorem_quoted_key(s: Seq<char>, key: Seq<char>, max: nat, v: Seq<char>)
    requires cut(M::Wild, s, max, key), blen(full(M::Wild, s)) <= max, blen(s) <= max
    ensures key == full(M::Wild, s), m(items(key, false, false), 0, v, 0) <==> v == s
{
    let k = choose|k: int| 0 <= k <= s.len() && key == #[trigger] full(M::Wild, s.take(k)) && (k < s.len() ==> blen(full(M::Wild, s)) > max || blen(s) > max);
    assert(k == s.len()); assert(s.take(k) =~= s);
    lemma_quoted_items(s); lemma_lits_match(s, 0, v, 0); assert(v.skip(0) =~= v); assert(s.skip(0) =~= s);
}
}
fn main() {}
