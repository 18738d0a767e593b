// ---- UTF-8 lengths and String building -------------------------------------------
pub open spec fn clen(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
pub broadcast proof fn lemma_blen_push(s: Seq<char>, c: char) ensures #[trigger] blen(s.push(c)) == blen(s) + clen(c)
{ assert(s.push(c).drop_last() =~= s); }
pub proof fn lemma_blen_take(s: Seq<char>, i: int) requires 0 <= i < s.len() ensures blen(s.take(i + 1)) == blen(s.take(i)) + clen(s[i]), s.take(i + 1) == s.take(i).push(s[i])
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1) =~= s.take(i).push(s[i])); }
pub proof fn lemma_blen_mono(s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures blen(s.take(i)) <= blen(s) decreases s.len() - i
{ if i < s.len() { lemma_blen_take(s, i); lemma_blen_mono(s, i + 1); } else { assert(s.take(i) =~= s); } }
pub proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>) ensures blen(a + b) == blen(a) + blen(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { lemma_blen_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); } }
pub proof fn lemma_blen_ge(s: Seq<char>) ensures blen(s) >= s.len() decreases s.len() { if s.len() > 0 { lemma_blen_ge(s.drop_last()); } }
// the longest prefix of s (on a character boundary) of at most max bytes
pub open spec fn fit(s: Seq<char>, max: nat) -> Seq<char> decreases s.len()
{ if blen(s) <= max { s } else { fit(s.drop_last(), max) } }
pub proof fn lemma_fit(s: Seq<char>, i: int, max: nat)
    requires 0 <= i < s.len(), blen(s.take(i)) <= max, blen(s.take(i + 1)) > max ensures fit(s, max) == s.take(i) decreases s.len()
{ reveal_with_fuel(fit, 2); lemma_blen_mono(s, i + 1); if i + 1 == s.len() { assert(s.take(i + 1) =~= s); assert(s.drop_last() =~= s.take(i)); }
  else { assert(s.drop_last().take(i) =~= s.take(i)); assert(s.drop_last().take(i + 1) =~= s.take(i + 1)); lemma_fit(s.drop_last(), i, max); } }
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures r == blen(s@), r <= isize::MAX;
