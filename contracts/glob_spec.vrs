// ---- meaning of a compiled wildcard pattern --------------------------------------
pub open spec fn is_star(p: PatternChar) -> bool { p is WildcardMany }
// m(p,i,v,j): the pattern from item i on matches exactly the characters of v from j on
pub open spec fn m(p: Seq<PatternChar>, i: int, v: Seq<char>, j: int) -> bool
    decreases p.len() - i, v.len() - j when 0 <= i <= p.len() && 0 <= j <= v.len()
{
    if i == p.len() { j == v.len() }
    else { match p[i] {
        // a run of stars matches any number of characters: none, or one more
        PatternChar::WildcardMany { .. } => m(p, i + 1, v, j) || (j < v.len() && m(p, i, v, j + 1)),
        PatternChar::WildcardSingle { .. } => j < v.len() && m(p, i + 1, v, j + 1),
        PatternChar::Char { char: c, .. } => j < v.len() && v[j] == c && m(p, i + 1, v, j + 1),
    } }
}
pub open spec fn one(p: PatternChar, c: char) -> bool {
    match p { PatternChar::WildcardMany { .. } => false, PatternChar::WildcardSingle { .. } => true, PatternChar::Char { char: d, .. } => c == d }
}
// items i..i2 are no stars and match v[j..j+(i2-i)] one by one
pub open spec fn seg(p: Seq<PatternChar>, i: int, i2: int, v: Seq<char>, j: int) -> bool {
    &&& 0 <= i <= i2 <= p.len() && 0 <= j && j + (i2 - i) <= v.len()
    &&& forall|x: int| i <= x < i2 ==> #[trigger] one(p[x], v[j + x - i])
}
pub open spec fn nostar(p: Seq<PatternChar>, i: int, i2: int) -> bool {
    forall|x: int| i <= x < i2 ==> !(#[trigger] is_star(p[x]))
}
pub proof fn lemma_seg(p: Seq<PatternChar>, i: int, i2: int, v: Seq<char>, j: int)
    requires 0 <= i <= i2 <= p.len(), 0 <= j <= v.len(), nostar(p, i, i2), m(p, i, v, j)
    ensures j + (i2 - i) <= v.len(), m(p, i2, v, j + (i2 - i))
    decreases i2 - i
{
    if i < i2 { assert(!is_star(p[i])); lemma_seg(p, i + 1, i2, v, j + 1); }
}
// the star case, stated without recursion: it absorbs some number of characters
pub proof fn lemma_star_exists(p: Seq<PatternChar>, i: int, v: Seq<char>, j: int) -> (k: int)
    requires 0 <= i < p.len(), is_star(p[i]), 0 <= j <= v.len(), m(p, i, v, j)
    ensures j <= k <= v.len(), m(p, i + 1, v, k)
    decreases v.len() - j
{
    if m(p, i + 1, v, j) { j } else { lemma_star_exists(p, i, v, j + 1) }
}
pub proof fn lemma_star_intro(p: Seq<PatternChar>, i: int, v: Seq<char>, j: int, k: int)
    requires 0 <= i < p.len(), is_star(p[i]), 0 <= j <= k <= v.len(), m(p, i + 1, v, k)
    ensures m(p, i, v, j)
    decreases k - j
{
    if j < k { lemma_star_intro(p, i, v, j + 1, k); }
}
pub proof fn lemma_star_widen(p: Seq<PatternChar>, i: int, v: Seq<char>, j: int, j2: int)
    requires 0 <= i < p.len(), is_star(p[i]), 0 <= j <= j2 <= v.len(), m(p, i, v, j2)
    ensures m(p, i, v, j)
{
    let k = lemma_star_exists(p, i, v, j2);
    lemma_star_intro(p, i, v, j, k);
}
// a star further right makes an earlier star's remaining alternatives redundant
pub proof fn lemma_drop_earlier(p: Seq<PatternChar>, s: int, px: int, v: Seq<char>, sn: int, nx: int)
    requires 0 <= s < px < p.len(), is_star(p[s]), is_star(p[px]), nostar(p, s + 1, px),
        0 <= sn, nx == sn + (px - s - 1), nx <= v.len(), sn + 1 <= v.len(), m(p, s, v, sn + 1)
    ensures m(p, px, v, nx)
{
    let k = lemma_star_exists(p, s, v, sn + 1);
    lemma_seg(p, s + 1, px, v, k);
    lemma_star_widen(p, px, v, nx, k + (px - s - 1));
}
// the loop state: (px,nx) is the live position, (spx, snx) the star to fall back to (snx==0: none)
pub open spec fn state_ok(p: Seq<PatternChar>, v: Seq<char>, px: int, nx: int, spx: int, snx: int) -> bool {
    &&& 0 <= px <= p.len() && 0 <= nx <= v.len() && 0 <= spx <= p.len() && 0 <= snx <= v.len() + 1
    &&& snx == 0 ==> nostar(p, 0, px) && spx == 0 && nx == px
    &&& snx > 0 ==> spx < p.len() && is_star(p[spx]) && (
            (px == spx && nx == snx) || (px > spx && nostar(p, spx + 1, px) && nx == snx - 1 + (px - spx - 1)))
    &&& m(p, 0, v, 0) <==> (m(p, px, v, nx) || (snx > 0 && snx <= v.len() && m(p, spx, v, snx)))
}
pub open spec fn state_measure(v: Seq<char>, px: int, nx: int, spx: int, snx: int) -> int {
    2 * (v.len() + 1 - snx) + (if snx > 0 && px == spx { 0int } else { 1int })
}
