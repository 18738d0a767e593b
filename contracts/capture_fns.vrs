// ---- what a key takes from a value ------------------------------------------------------------
// the characters of a value: each as it is compared and as it is captured (U+FFFD: nothing)
pub open spec fn pairs_char(c: char, lower: bool) -> Seq<(char, char)> { if lower && char_is_upper(c) { Seq::new(char_lower(c).len(), |i: int| (char_lower(c)[i], if i == 0 { c } else { '\u{FFFD}' })) } else { seq![(c, c)] } }
pub open spec fn pairs(s: Seq<char>, lower: bool) -> Seq<(char, char)> decreases s.len() { if s.len() == 0 { seq![] } else { pairs(s.drop_last(), lower) + pairs_char(s.last(), lower) } }
pub open spec fn firsts(v: Seq<(char, char)>) -> Seq<char> { Seq::new(v.len(), |i: int| v[i].0) }
pub proof fn lemma_firsts(s: Seq<char>, lower: bool) ensures firsts(pairs(s, lower)) == fold(s, lower) decreases s.len()
{ if s.len() > 0 { lemma_firsts(s.drop_last(), lower); assert(firsts(pairs_char(s.last(), lower)) =~= fold_char(s.last(), lower)); assert(firsts(pairs(s, lower)) =~= firsts(pairs(s.drop_last(), lower)) + firsts(pairs_char(s.last(), lower))); } }
// the text of a piece of the value
pub open spec fn kept(v: Seq<(char, char)>) -> Seq<char> decreases v.len() { if v.len() == 0 { seq![] } else if v.last().1 == '\u{FFFD}' { kept(v.drop_last()) } else { kept(v.drop_last()).push(v.last().1) } }
pub proof fn lemma_kept_cat(a: Seq<(char, char)>, b: Seq<(char, char)>) ensures kept(a + b) == kept(a) + kept(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(kept(a) + kept(b) =~= kept(a)); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_kept_cat(a, b.drop_last()); assert(kept(a + b) =~= kept(a) + kept(b)); } }
// e[i]: where item i ends a run of stars or stands with its character
pub open spec fn from(p: Seq<PatternChar>, e: Seq<int>, i: int) -> int { if i <= 0 { 0 } else if is_star(p[i - 1]) { e[i - 1] } else { e[i - 1] + 1 } }
pub open spec fn upto(p: Seq<PatternChar>, e: Seq<int>, i: int) -> int { from(p, e, i + 1) }
pub open spec fn placed(p: Seq<PatternChar>, v: Seq<char>, e: Seq<int>, i: int) -> bool { if is_star(p[i]) { from(p, e, i) <= e[i] <= v.len() && forall|k: int| from(p, e, i) <= k < e[i] ==> !(#[trigger] m(p, i + 1, v, k)) } else { e[i] == from(p, e, i) && 0 <= e[i] < v.len() && one(p[i], v[e[i]]) } }
// the items before n take the value from its start, each star as little as possible
pub open spec fn taken(p: Seq<PatternChar>, v: Seq<char>, e: Seq<int>, n: int) -> bool { n <= e.len() && forall|i: int| 0 <= i < n ==> #[trigger] placed(p, v, e, i) }
pub open spec fn takes(p: Seq<PatternChar>, v: Seq<char>, e: Seq<int>) -> bool { e.len() == p.len() && taken(p, v, e, p.len() as int) && from(p, e, p.len() as int) == v.len() }
pub proof fn lemma_from(p: Seq<PatternChar>, v: Seq<char>, e: Seq<int>, n: int) requires 0 <= n <= p.len(), taken(p, v, e, n) ensures 0 <= from(p, e, n) <= v.len(), forall|i: int| 0 <= i < n ==> 0 <= #[trigger] from(p, e, i) <= from(p, e, i + 1) decreases n
{ if n > 0 { assert(placed(p, v, e, n - 1)); lemma_from(p, v, e, n - 1); assert(from(p, e, n - 1) <= from(p, e, n)); } }
// the pieces the items take, put together, are the whole value
pub open spec fn put(p: Seq<PatternChar>, w: Seq<(char, char)>, e: Seq<int>, n: int) -> Seq<char> decreases n { if n <= 0 { seq![] } else { put(p, w, e, n - 1) + kept(w.subrange(from(p, e, n - 1), from(p, e, n))) } }
pub proof fn lemma_put(p: Seq<PatternChar>, v: Seq<char>, w: Seq<(char, char)>, e: Seq<int>, n: int) requires 0 <= n <= p.len(), taken(p, v, e, n), v.len() == w.len() ensures 0 <= from(p, e, n) <= w.len(), put(p, w, e, n) == kept(w.take(from(p, e, n))) decreases n
{
    lemma_from(p, v, e, n);
    if n > 0 { lemma_put(p, v, w, e, n - 1); lemma_from(p, v, e, n - 1); assert(placed(p, v, e, n - 1)); let a = from(p, e, n - 1); let b = from(p, e, n); lemma_kept_cat(w.take(a), w.subrange(a, b)); assert(w.take(a) + w.subrange(a, b) =~= w.take(b)); }
    else { assert(w.take(0) =~= seq![]); }
}
pub proof fn lemma_kept_char(c: char, lower: bool) requires c != '\u{FFFD}', char_lower(c).len() > 0 ensures kept(pairs_char(c, lower)) == seq![c]
{ reveal_with_fuel(kept, 2); let w = pairs_char(c, lower); if lower && char_is_upper(c) { lemma_kept_tail(w); } else { assert(w.drop_last() =~= seq![]); assert(kept(w) =~= seq![c]); } }
pub proof fn lemma_kept_tail(w: Seq<(char, char)>) requires w.len() > 0, w[0].1 != '\u{FFFD}', forall|i: int| 1 <= i < w.len() ==> (#[trigger] w[i]).1 == '\u{FFFD}' ensures kept(w) == seq![w[0].1] decreases w.len()
{ reveal_with_fuel(kept, 2); if w.len() == 1 { assert(w.drop_last() =~= seq![]); assert(kept(w) =~= seq![w[0].1]); } else { assert forall|i: int| 1 <= i < w.drop_last().len() implies (#[trigger] w.drop_last()[i]).1 == '\u{FFFD}' by { assert(w.drop_last()[i] == w[i]); } lemma_kept_tail(w.drop_last()); } }
pub proof fn lemma_kept_all(s: Seq<char>, lower: bool) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != '\u{FFFD}' && char_lower(s[i]).len() > 0 ensures kept(pairs(s, lower)) == s decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]) != '\u{FFFD}' && char_lower(s.drop_last()[i]).len() > 0 by { assert(s.drop_last()[i] == s[i]); } lemma_kept_all(s.drop_last(), lower); assert(s[s.len() - 1] == s.last()); lemma_kept_char(s.last(), lower); lemma_kept_cat(pairs(s.drop_last(), lower), pairs_char(s.last(), lower)); assert(s.drop_last() + seq![s.last()] =~= s); } else { assert(kept(pairs(s, lower)) =~= s); } }
// the property: the pieces rebuild the value
pub proof fn lemma_rebuilt(p: Seq<PatternChar>, s: Seq<char>, lower: bool, e: Seq<int>)
    requires takes(p, fold(s, lower), e), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != '\u{FFFD}' && char_lower(s[i]).len() > 0
    ensures put(p, pairs(s, lower), e, p.len() as int) == s
{ lemma_firsts(s, lower); lemma_put(p, fold(s, lower), pairs(s, lower), e, p.len() as int); lemma_kept_all(s, lower); assert(pairs(s, lower).take(pairs(s, lower).len() as int) =~= pairs(s, lower)); }
// ---- which pieces are stored under which number ------------------------------------------------
pub open spec fn count(p: PatternChar) -> int { match p { PatternChar::WildcardMany { num, .. } => num as int, PatternChar::WildcardSingle { .. } => 1, PatternChar::Char { .. } => 0 } }
// the number of the first wildcard of item i
pub open spec fn number(p: Seq<PatternChar>, i: int) -> int decreases i { if i <= 0 { 1 } else { number(p, i - 1) + count(p[i - 1]) } }
pub open spec fn asked(mask: u64, k: int) -> bool { 0 <= k < 64 && mask & (1u64 << (k as usize)) != 0 }
pub open spec fn single(w: (char, char)) -> Seq<char> { if w.1 != '\u{FFFD}' { seq![w.1] } else { seq![w.0] } }
pub open spec fn opt(mask: u64, k: int, t: Seq<char>) -> Seq<(int, Seq<char>)> { if asked(mask, k) { seq![(k, t)] } else { seq![] } }
// k empty texts from number a on
pub open spec fn empties(mask: u64, a: int, k: int) -> Seq<(int, Seq<char>)> decreases k { if k <= 0 { seq![] } else { empties(mask, a, k - 1) + opt(mask, a + k - 1, seq![]) } }
pub open spec fn piece(p: Seq<PatternChar>, w: Seq<(char, char)>, e: Seq<int>, mask: u64, i: int) -> Seq<(int, Seq<char>)> {
    match p[i] {
        PatternChar::WildcardMany { num, .. } => empties(mask, number(p, i), num - 1) + opt(mask, number(p, i) + num - 1, kept(w.subrange(from(p, e, i), e[i]))),
        PatternChar::WildcardSingle { .. } => opt(mask, number(p, i), single(w[e[i]])),
        PatternChar::Char { .. } => seq![],
    }
}
pub open spec fn pieces(p: Seq<PatternChar>, w: Seq<(char, char)>, e: Seq<int>, mask: u64, n: int) -> Seq<(int, Seq<char>)> decreases n { if n <= 0 { seq![] } else if number(p, n - 1) > 63 { pieces(p, w, e, mask, n - 1) } else { pieces(p, w, e, mask, n - 1) + piece(p, w, e, mask, n - 1) } }
pub open spec fn view_caps(v: Seq<(usize, String)>) -> Seq<(int, Seq<char>)> { Seq::new(v.len(), |i: int| (v[i].0 as int, v[i].1@)) }
pub open spec fn captured(v: Seq<(usize, String)>, p: Seq<PatternChar>, s: Seq<char>, lower: bool, e: Seq<int>, mask: u64) -> bool { view_caps(v) == opt(mask, 0, s) + pieces(p, pairs(s, lower), e, mask, p.len() as int) }
// no run of stars crosses the last number (known finding C07-star-run-overflow), and no two runs stand together
pub open spec fn runs_fit(p: Seq<PatternChar>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] number(p, i)) > 63 || number(p, i) + count(p[i]) <= 64 }
pub open spec fn nums_ok(p: Seq<PatternChar>) -> bool { forall|i: int| 0 <= i < p.len() && is_star(#[trigger] p[i]) ==> count(p[i]) >= 1 }
pub open spec fn runs_apart(p: Seq<PatternChar>) -> bool { forall|i: int| 0 < i < p.len() && #[trigger] is_star(p[i]) ==> !is_star(p[i - 1]) }
pub proof fn lemma_number(p: Seq<PatternChar>, i: int, j: int) requires 0 <= i <= j <= p.len(), nums_ok(p) ensures 1 <= number(p, i) <= number(p, j) decreases j
{ if j > 0 && i < j { lemma_number(p, i, j - 1); } else if i > 0 { lemma_number(p, i - 1, j - 1); } }
#[verifier::external_body] // char::to_lowercase yields at least one character
pub proof fn axiom_lower_some(c: char) ensures char_lower(c).len() > 0 {}
// the items of a key text stand like that
pub proof fn lemma_items_shape(s: Seq<char>, esc: bool, lower: bool) requires s.len() <= usize::MAX ensures nums_ok(items(s, esc, lower)), runs_apart(items(s, esc, lower)), items(s, esc, lower).len() > 0 && is_star(items(s, esc, lower)[0]) ==> s.len() > 0 && !esc && s[0] == '*' decreases s.len()
{
    let r = items(s, esc, lower);
    if s.len() > 0 {
        if s[0] == '*' && !esc { lemma_stars(s); let k = stars(s) as int; let t = items(s.skip(k), false, lower); lemma_items_shape(s.skip(k), false, lower); lemma_stars_end(s); assert(forall|i: int| 0 < i < r.len() ==> r[i] == t[i - 1]); }
        else if s[0] == '?' && !esc { let t = items(s.skip(1), false, lower); lemma_items_shape(s.skip(1), false, lower); assert(forall|i: int| 0 < i < r.len() ==> r[i] == t[i - 1]); }
        else if s[0] == '\\' && !esc { lemma_items_shape(s.skip(1), true, lower); }
        else { let t = items(s.skip(1), false, lower); let h = lits(fold_char(s[0], lower)); axiom_lower_some(s[0]); lemma_items_shape(s.skip(1), false, lower); assert(h.len() > 0); assert(forall|i: int| h.len() <= i < r.len() ==> r[i] == t[i - h.len()]); assert(forall|i: int| 0 <= i < h.len() ==> r[i] == h[i]);
            assert forall|i: int| 0 < i < r.len() && #[trigger] is_star(r[i]) implies !is_star(r[i - 1]) by { if i > h.len() { assert(is_star(t[i - h.len()])); } } }
    }
}
pub proof fn lemma_stars_end(s: Seq<char>) ensures stars(s) <= s.len(), stars(s) < s.len() ==> s[stars(s) as int] != '*' decreases s.len()
{ if s.len() > 0 && s[0] == '*' { lemma_stars_end(s.skip(1)); } }
// items that differ in their places only
pub open spec fn kin(a: PatternChar, b: PatternChar) -> bool { match (a, b) { (PatternChar::WildcardMany { num, .. }, PatternChar::WildcardMany { num: n2, .. }) => num == n2, (PatternChar::WildcardSingle { .. }, PatternChar::WildcardSingle { .. }) => true, (PatternChar::Char { char, .. }, PatternChar::Char { char: c2, .. }) => char == c2, _ => false } }
pub open spec fn akin(p: Seq<PatternChar>, q: Seq<PatternChar>) -> bool { p.len() == q.len() && forall|i: int| 0 <= i < p.len() ==> kin(#[trigger] p[i], q[i]) }
pub open spec fn place(a: PatternChar) -> int { match a { PatternChar::WildcardMany { match_pos, .. } => match_pos as int, PatternChar::WildcardSingle { match_pos } => match_pos as int, PatternChar::Char { match_pos, .. } => match_pos as int } }
pub open spec fn places(q: Seq<PatternChar>) -> Seq<int> { Seq::new(q.len(), |i: int| place(q[i])) }
// the walk: what lies before the position is settled, and the last star leaves out nothing shorter
pub open spec fn walked(p: Seq<PatternChar>, v: Seq<char>, e: Seq<int>, px: int, nx: int, spx: int, snx: int) -> bool {
    &&& taken(p, v, e, px) && (px < p.len() && px == spx && snx > 0 && nx == snx ==> true)
    &&& if px == spx && nx == snx && snx > 0 { from(p, e, px) <= nx && forall|k: int| from(p, e, px) <= k < nx ==> !(#[trigger] m(p, px + 1, v, k)) } else { nx == from(p, e, px) }
}
pub proof fn lemma_taken_keep(p: Seq<PatternChar>, v: Seq<char>, e: Seq<int>, f: Seq<int>, n: int) requires taken(p, v, e, n), 0 <= n <= p.len(), e.len() == f.len(), forall|i: int| 0 <= i < n ==> e[i] == f[i] ensures taken(p, v, f, n), from(p, f, n) == from(p, e, n), forall|i: int| 0 <= i <= n ==> #[trigger] from(p, f, i) == from(p, e, i)
{ assert forall|i: int| 0 <= i < n implies #[trigger] placed(p, v, f, i) by { assert(placed(p, v, e, i)); assert(from(p, e, i) == from(p, f, i)); } }
pub proof fn lemma_pieces_end(p: Seq<PatternChar>, w: Seq<(char, char)>, e: Seq<int>, mask: u64, i: int, n: int) requires 0 <= i <= n <= p.len(), nums_ok(p), i < n ==> number(p, i) > 63 ensures pieces(p, w, e, mask, n) == pieces(p, w, e, mask, i) decreases n
{ if i < n { lemma_number(p, i, n - 1); lemma_pieces_end(p, w, e, mask, i, n - 1); } }
pub proof fn lemma_akin_number(p: Seq<PatternChar>, q: Seq<PatternChar>, i: int) requires akin(p, q), 0 <= i <= p.len() ensures number(p, i) == number(q, i) decreases i { if i > 0 { lemma_akin_number(p, q, i - 1); assert(kin(p[i - 1], q[i - 1])); } }
pub proof fn lemma_opt(a: Seq<(usize, String)>, b: Seq<(usize, String)>, mask: u64, k: int, t: Seq<char>) requires if asked(mask, k) { b.len() == a.len() + 1 && b.drop_last() =~= a && b.last().0 == k && b.last().1@ =~= t } else { b =~= a } ensures view_caps(b) == view_caps(a) + opt(mask, k, t)
{ if asked(mask, k) { assert(forall|i: int| 0 <= i < a.len() ==> b[i] == b.drop_last()[i]); } assert(view_caps(b) =~= view_caps(a) + opt(mask, k, t)); }
pub proof fn lemma_push(v: Seq<(usize, String)>, k: usize, t: String) ensures view_caps(v.push((k, t))) == view_caps(v).push((k as int, t@)) { assert(view_caps(v.push((k, t))) =~= view_caps(v).push((k as int, t@))); }
pub const REPLACEMENT_CHARACTER: char = '\u{FFFD}'; // std::char::REPLACEMENT_CHARACTER
pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@.len() == 0;
#[verifier::external_body] pub fn twins(s: &str) -> (r: Vec<(char, char)>) ensures r@ == pairs(s@, false) { s.chars().map(|char| (char, char)).collect::<Vec<_>>() }
// range.iter().filter_map(..).collect::<String>()
#[verifier::external_body] pub fn kept_text(r: &[(char, char)]) -> (t: String) ensures t@ == kept(r@) { unimplemented!() }
#[verifier::external_body] pub fn char_text(c: char) -> (t: String) ensures t@ == seq![c] { c.to_string() }
pub fn item_mut(v: &mut Vec<PatternChar>, i: usize) -> (r: Option<&mut PatternChar>)
    ensures match r { None => i >= old(v)@.len() && final(v)@ == old(v)@, Some(x) => i < old(v)@.len() && *x == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(x)) }
{ if i < v.len() { Some(&mut v[i]) } else { None } }
// one item takes one character
pub proof fn lemma_step(p: Seq<PatternChar>, v: Seq<char>, q: Seq<PatternChar>, r: Seq<PatternChar>, px: int, nx: int, spx: int, snx: int)
    requires state_ok(p, v, px, nx, spx, snx), walked(p, v, places(q), px, nx, spx, snx), akin(p, q), px < p.len(), nx < v.len(), !is_star(p[px]), one(p[px], v[nx]), r.len() == q.len(), akin(p, r), place(r[px]) == nx, forall|i: int| 0 <= i < q.len() && i != px ==> r[i] == q[i],
    ensures walked(p, v, places(r), px + 1, nx + 1, spx, snx)
{ let e = places(q); let f = places(r); assert(!(px == spx && snx > 0)); lemma_taken_keep(p, v, e, f, px); assert(placed(p, v, f, px)); }
pub proof fn lemma_star(p: Seq<PatternChar>, v: Seq<char>, q: Seq<PatternChar>, r: Seq<PatternChar>, px: int, nx: int, spx: int, snx: int)
    requires state_ok(p, v, px, nx, spx, snx), walked(p, v, places(q), px, nx, spx, snx), akin(p, q), px < p.len(), is_star(p[px]), r.len() == q.len(), akin(p, r), place(r[px]) == nx, forall|i: int| 0 <= i < q.len() && i != px ==> r[i] == q[i],
    ensures walked(p, v, places(r), px + 1, nx, px, nx + 1)
{ let e = places(q); let f = places(r); lemma_taken_keep(p, v, e, f, px); lemma_from(p, v, e, px); assert(placed(p, v, f, px)); }
pub proof fn lemma_run(p: Seq<PatternChar>, v: Seq<char>, e: Seq<int>, a: int, b: int) requires 0 <= a <= b <= p.len(), nostar(p, a, b), taken(p, v, e, b) ensures from(p, e, b) == from(p, e, a) + (b - a) decreases b
{ if a < b { lemma_run(p, v, e, a, b - 1); assert(!is_star(p[b - 1])); assert(placed(p, v, e, b - 1)); } }
// the item at the position does not fit: the last star takes one more
pub proof fn lemma_back(p: Seq<PatternChar>, v: Seq<char>, e: Seq<int>, px: int, nx: int, spx: int, snx: int)
    requires state_ok(p, v, px, nx, spx, snx), walked(p, v, e, px, nx, spx, snx), e.len() == p.len(), snx > 0, snx <= v.len(), !m(p, px, v, nx), px < p.len() ==> !is_star(p[px]),
    ensures walked(p, v, e, spx, snx, spx, snx)
{
    assert(placed(p, v, e, spx)); lemma_from(p, v, e, px); lemma_taken_keep(p, v, e, e, spx); lemma_run(p, v, e, spx + 1, px); assert(e[spx] == snx - 1);
    if m(p, spx + 1, v, snx - 1) { lemma_seg(p, spx + 1, px, v, snx - 1); }
}
// a value taken like that matches
pub proof fn lemma_takes(p: Seq<PatternChar>, v: Seq<char>, e: Seq<int>) requires takes(p, v, e) ensures m(p, 0, v, 0) { lemma_takes_from(p, v, e, 0); }
pub proof fn lemma_takes_from(p: Seq<PatternChar>, v: Seq<char>, e: Seq<int>, i: int) requires takes(p, v, e), 0 <= i <= p.len() ensures 0 <= from(p, e, i) <= v.len(), m(p, i, v, from(p, e, i)) decreases p.len() - i
{ lemma_from(p, v, e, i); if i < p.len() { assert(placed(p, v, e, i)); lemma_takes_from(p, v, e, i + 1); if is_star(p[i]) { lemma_star_intro(p, i, v, from(p, e, i), e[i]); } } }
impl GlobPattern {
//@fn src/runtime/tests/glob.rs GlobPattern::capture
//@ ret r
//@ loops 5
//@ sig "mut self" => "self"
//@ replace "self.to_lower" => "this.to_lower"
//@ replace "value_.chars().map(|char| (char, char)).collect::<Vec<_>>()" => "twins(value_)"
//@ replace "for (pos, lowerchar) in char.to_lowercase().enumerate()" => "let lows = lower_chars(char); let mut pos: usize = 0; while pos < lows.len()"
//@ replace "self.pattern.len()" => "this.pattern.len()"
//@ replace "match self.pattern.get_mut(px)" => "match item_mut(&mut this.pattern, px)"
//@ replace "&nc.0 == char" => "nc.0 == *char"
//@ replace "&self.pattern" => "&this.pattern"
//@ replace "range.iter().filter_map(|(_, char)| { if char != &REPLACEMENT_CHARACTER { Some(char) } else { None } }).collect::<String>()" => "kept_text(range)"
//@ replace "(if orig_char != &REPLACEMENT_CHARACTER { orig_char } else { char }).to_string()" => "char_text(if *orig_char != REPLACEMENT_CHARACTER { *orig_char } else { *char })"
//@ replace "debug_assert!(false, \"Glob pattern failure.\");" => "assert(false);"
//@ spec
    requires runs_fit(self.p()), nums_ok(self.p()), runs_apart(self.p()),
    ensures r == m(self.p(), 0, fold(value_@, self.lower()), 0),
        r ==> exists|e: Seq<int>| takes(self.p(), fold(value_@, self.lower()), e) && #[trigger] captured(final(captured_values)@, self.p(), value_@, self.lower(), e, capture_positions),
        !r ==> final(captured_values)@ == old(captured_values)@,
//@ at start
    let mut this = self;
    let ghost p = self.p();
    let ghost lower = self.lower();
    broadcast use axiom_vec_len_bound;
//@ loop 0 for it it
    invariant it.seq() == value_@, this.to_lower, value@ == pairs(value_@.take(it.index()), true),
//@ at loop 0 start
    let ghost v0 = value@;
//@ loop 1 for
    invariant pos <= lows@.len(), lows@ == char_lower(char), char_is_upper(char), value@ == v0 + pairs_char(char, true).take(pos as int),
    decreases lows@.len() - pos
//@ at loop 1 start
    let lowerchar = lows[pos];
//@ at loop 1 end
    pos = pos + 1;
    proof { assert(value@ =~= v0 + pairs_char(char, true).take(pos as int)); }
//@ at loop 0 end
    proof { let k = it.index(); assert(value_@.take(k + 1).drop_last() =~= value_@.take(k)); assert(pairs_char(char, true).take(pairs_char(char, true).len() as int) =~= pairs_char(char, true)); assert(value@ =~= pairs(value_@.take(k + 1), true)); }
//@ at after loop 0
    proof { assert(value_@.take(value_@.len() as int) =~= value_@); }
//@ at before loop 2
    let ghost w = value@;
    let ghost v = firsts(w);
    proof { axiom_char_eq(); lemma_firsts(value_@, lower); assert(v == fold(value_@, lower)); axiom_vec_len_bound(value); }
//@ loop 2 while
    invariant value@ == w, v == firsts(w), akin(p, this.pattern@), this.pattern@.len() <= isize::MAX, w.len() <= isize::MAX,
        state_ok(p, v, px as int, nx as int, next_px as int, next_nx as int), walked(p, v, places(this.pattern@), px as int, nx as int, next_px as int, next_nx as int),
        captured_values@ == old(captured_values)@,
        v == fold(value_@, lower), p == self.p(), lower == self.lower(),
    ensures px == p.len() && nx == v.len(),
    decreases p.len() - next_px, state_measure(v, px as int, nx as int, next_px as int, next_nx as int), p.len() - px
//@ at loop 2 start
    let ghost q0 = this.pattern@;
    let ghost (px0, nx0, spx0, snx0) = (px as int, nx as int, next_px as int, next_nx as int);
    proof { axiom_char_eq(); if px < p.len() && is_star(p[px as int]) { if 0 < next_nx && next_nx <= v.len() && px > next_px && m(p, next_px as int, v, next_nx as int) { lemma_drop_earlier(p, next_px as int, px as int, v, next_nx - 1, nx as int); } } if px < p.len() { assert(kin(p[px as int], q0[px as int])); } }
//@ at before "continue;" #0
    proof { lemma_step(p, v, q0, this.pattern@, px0, nx0, spx0, snx0); }
//@ at before "continue;" #1
    proof { lemma_step(p, v, q0, this.pattern@, px0, nx0, spx0, snx0); }
//@ at before "continue;" #2
    proof { lemma_star(p, v, q0, this.pattern@, px0, nx0, spx0, snx0); }
//@ at before "if 0 < next_nx"
    proof { assert(this.pattern@ =~= q0); assert(!m(p, px0, v, nx0)); }
//@ at before "continue;" #3
    proof { lemma_back(p, v, places(q0), px0, nx0, spx0, snx0); }
//@ at before loop 3
    let ghost q = this.pattern@;
    let ghost e = places(q);
    proof { lemma_from(p, v, e, p.len() as int); lemma_number(p, 0, 0); }
//@ at after "captured_values.clear();"
    proof { assert(view_caps(captured_values@) =~= seq![]); assert(1u64 << 0usize == 1) by (bit_vector); if asked(capture_positions, 0) { } }
//@ at before "let mut wildcard_pos"
    proof { assert(view_caps(captured_values@) =~= opt(capture_positions, 0, value_@)); }
//@ loop 3 for it it
    invariant_except_break wildcard_pos == number(p, it.index()), view_caps(captured_values@) == opt(capture_positions, 0, value_@) + pieces(p, w, e, capture_positions, it.index()), it.index() == 0 || !is_star(p[it.index() - 1]) ==> last_pos == from(p, e, it.index()),
    invariant it.seq().len() == q.len(), forall|i: int| 0 <= i < q.len() ==> *(#[trigger] it.seq()[i]) == q[i], akin(p, q), e == places(q), value@ == w, v == firsts(w), taken(p, v, e, p.len() as int), from(p, e, p.len() as int) == v.len(), runs_fit(p), nums_ok(p), runs_apart(p), w.len() <= isize::MAX,
    ensures view_caps(captured_values@) == opt(capture_positions, 0, value_@) + pieces(p, w, e, capture_positions, p.len() as int),
//@ at loop 3 start
    let ghost i = it.index();
    let ghost c0 = view_caps(captured_values@);
    let ghost w0 = wildcard_pos as int;
    let ghost cc = captured_values@;
    proof { lemma_number(p, 0, i); assert(kin(p[i], q[i])); assert(placed(p, v, e, i)); assert(e[i] == place(q[i])); assert(number(p, i + 1) == number(p, i) + count(p[i])); lemma_from(p, v, e, i); if w0 <= 63 { assert(pieces(p, w, e, capture_positions, i + 1) == pieces(p, w, e, capture_positions, i) + piece(p, w, e, capture_positions, i)); } }
//@ loop 4 while
    invariant 1 <= num <= count(p[i]), is_star(p[i]), wildcard_pos == w0 + (count(p[i]) - num), w0 == number(p, i), w0 + count(p[i]) <= 64, 1 <= w0, view_caps(captured_values@) == c0 + empties(capture_positions, w0, count(p[i]) - num),
    decreases num
//@ at loop 4 start
    let ghost c1 = captured_values@;
//@ at loop 4 end
    proof { let k = count(p[i]) - num; lemma_opt(c1, captured_values@, capture_positions, w0 + k - 1, seq![]); assert(view_caps(captured_values@) =~= view_caps(c1) + opt(capture_positions, w0 + k - 1, seq![])); assert(view_caps(captured_values@) =~= c0 + empties(capture_positions, w0, k)); }
//@ at after loop 4
    let ghost c2 = captured_values@;
//@ at before "wildcard_pos += 1;" #1
    proof { lemma_opt(c2, captured_values@, capture_positions, w0 + count(p[i]) - 1, kept(w.subrange(from(p, e, i), e[i]))); }
//@ at loop 3 end
    proof { if p[i] is WildcardSingle { lemma_opt(cc, captured_values@, capture_positions, w0, single(w[e[i]])); } assert(view_caps(captured_values@) =~= c0 + piece(p, w, e, capture_positions, i)); assert(view_caps(captured_values@) =~= opt(capture_positions, 0, value_@) + pieces(p, w, e, capture_positions, i + 1)); }
//@ at before "break;"
    proof { lemma_pieces_end(p, w, e, capture_positions, i, p.len() as int); }
//@ at after loop 3
    proof { lemma_takes(p, v, e); assert(captured(captured_values@, p, value_@, lower, e, capture_positions)); }
//@end
}
//@type src/compiler/grammar/mod.rs Comparator
//@end
impl Comparator {
//@fn src/runtime/tests/comparator.rs Comparator::matches
//@ ret r
//@ spec
    requires runs_fit(items(pattern@, false, self is AsciiCaseMap)), pattern@.len() <= isize::MAX,
    ensures capture_positions == 0 ==> r == m(items(pattern@, false, self is AsciiCaseMap), 0, if self is AsciiCaseMap { lower_seq(value@) } else { value@ }, 0) && final(captured_values)@ == old(captured_values)@,
        capture_positions != 0 ==> r == m(items(pattern@, false, self is AsciiCaseMap), 0, fold(value@, self is AsciiCaseMap), 0),
        capture_positions != 0 && r ==> exists|e: Seq<int>| takes(items(pattern@, false, self is AsciiCaseMap), fold(value@, self is AsciiCaseMap), e) && #[trigger] captured(final(captured_values)@, items(pattern@, false, self is AsciiCaseMap), value@, self is AsciiCaseMap, e, capture_positions),
        !r ==> final(captured_values)@ == old(captured_values)@,
//@ at start
    proof { lemma_items_shape(pattern@, false, self is AsciiCaseMap); }
//@end
}
// asking for captures does not change the outcome, where both ways fold the value alike (always, unless letter case is ignored)
pub proof fn lemma_same_outcome(p: Seq<PatternChar>, s: Seq<char>) ensures m(p, 0, fold(s, false), 0) == m(p, 0, s, 0) { lemma_fold_id(s); }
