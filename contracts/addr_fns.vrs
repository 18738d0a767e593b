// ---- plain single addresses ---------------------------------------------------------
pub open spec fn count(s: Seq<char>, c: char) -> nat decreases s.len() { if s.len() == 0 { 0 } else { count(s.drop_last(), c) + if s.last() == c { 1nat } else { 0 } } }
pub broadcast proof fn lemma_count_push(s: Seq<char>, x: char, c: char) ensures #[trigger] count(s.push(x), c) == count(s, c) + (if x == c { 1nat } else { 0 }) { assert(s.push(x).drop_last() =~= s); }
pub open spec fn control(c: char) -> bool { (c as u32) < 0x20 || 0x7f <= (c as u32) <= 0x9f }
pub open spec fn ascii_space(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\u{c}' || c == '\r' }
// text with one @ behind a non-empty local part and a dot in the domain, without quotes, angle brackets or control characters
pub open spec fn dotted(s: Seq<char>) -> bool { exists|p: int, q: int| 0 < p < q < s.len() && #[trigger] s[p] == '@' && #[trigger] s[q] == '.' }
pub open spec fn syntax_free(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '"' && s[i] != '<' && s[i] != '>' }
pub open spec fn plain(s: Seq<char>) -> bool { count(s, '@') == 1 && dotted(s) && syntax_free(s) && forall|i: int| 0 <= i < s.len() ==> !control(#[trigger] s[i]) }
// r is made of characters of a, in their order
pub open spec fn sub(r: Seq<char>, a: Seq<char>) -> bool decreases a.len() { r.len() == 0 || (a.len() > 0 && ((r.last() == a.last() && sub(r.drop_last(), a.drop_last())) || sub(r, a.drop_last()))) }
pub proof fn lemma_sub(r: Seq<char>, a: Seq<char>, i: int) requires 0 <= i < a.len(), sub(r, a.take(i)) ensures sub(r, a.take(i + 1)), sub(r.push(a[i]), a.take(i + 1)), sub(seq![], a.take(i + 1))
{ assert(a.take(i + 1).drop_last() =~= a.take(i)); assert(r.push(a[i]).drop_last() =~= r); }
// an address that is used as it stands
pub open spec fn bare(s: Seq<char>) -> bool { plain(s) && forall|i: int| 0 <= i < s.len() ==> !ascii_space(#[trigger] s[i]) }
pub proof fn lemma_count_mono(s: Seq<char>, c: char, i: int) requires 0 <= i <= s.len() ensures count(s.take(i), c) <= count(s, c), (exists|j: int| i <= j < s.len() && s[j] == c) ==> count(s.take(i), c) < count(s, c) decreases s.len() - i
{ if i < s.len() { lemma_count_mono(s, c, i + 1); assert(s.take(i + 1).drop_last() =~= s.take(i)); } else { assert(s.take(i) =~= s); } }
pub proof fn lemma_count_zero(s: Seq<char>, c: char) ensures count(s, c) > 0 <==> exists|j: int| 0 <= j < s.len() && s[j] == c decreases s.len()
{ if s.len() > 0 { lemma_count_zero(s.drop_last(), c); if s.last() == c { assert(s[s.len() - 1] == c); } else { if exists|j: int| 0 <= j < s.len() && s[j] == c { let j = choose|j: int| 0 <= j < s.len() && s[j] == c; assert(s.drop_last()[j] == c); } if exists|j: int| 0 <= j < s.len() - 1 && s.drop_last()[j] == c { let j = choose|j: int| 0 <= j < s.len() - 1 && s.drop_last()[j] == c; assert(s[j] == c); } } } }
// a bare address up to i: no @ yet, or the only @ behind a non-empty local part
pub proof fn lemma_bare_take(s: Seq<char>, i: int) requires bare(s), 0 <= i < s.len() ensures s[i] == '@' ==> count(s.take(i), '@') == 0 && i > 0, count(s.take(i), '@') <= 1, s.take(i + 1) == s.take(i).push(s[i]), count(s.take(i + 1), '@') == count(s.take(i), '@') + (if s[i] == '@' { 1nat } else { 0 })
{
    lemma_count_mono(s, '@', i); lemma_count_mono(s, '@', i + 1); assert(s.take(i + 1) =~= s.take(i).push(s[i])); lemma_count_push(s.take(i), s[i], '@');
    if s[i] == '@' && i == 0 { let (p, q) = choose|p: int, q: int| 0 < p < q < s.len() && #[trigger] s[p] == '@' && #[trigger] s[q] == '.'; lemma_count_mono(s, '@', 1); assert(s.take(0) =~= Seq::<char>::empty()); assert(count(s.take(0), '@') == 0); assert(s[p] == '@' && 1 <= p); }
}
pub open spec fn dot_before(s: Seq<char>, i: int) -> bool { exists|p: int, q: int| 0 <= p < q < i && #[trigger] s[p] == '@' && #[trigger] s[q] == '.' }
pub proof fn lemma_bare_dot(s: Seq<char>, i: int) requires 0 <= i < s.len() ensures dot_before(s, i + 1) ==> dot_before(s, i) || (s[i] == '.' && count(s.take(i), '@') > 0)
{ if dot_before(s, i + 1) { let (p, q) = choose|p: int, q: int| 0 <= p < q < i + 1 && #[trigger] s[p] == '@' && #[trigger] s[q] == '.'; if q < i { assert(s[p] == '@' && s[q] == '.'); } else { lemma_count_zero(s.take(i), '@'); assert(s.take(i)[p] == '@'); } } }
pub assume_specification[ char::is_ascii_whitespace ](c: &char) -> (r: bool) ensures r == ascii_space(*c);
// s.matches(c).count()
#[verifier::external_body] pub fn count_char(s: &String, c: char) -> (r: usize) ensures r == count(s@, c) { unimplemented!() }
// s.contains(char::is_control)
#[verifier::external_body] pub fn has_control(s: &String) -> (r: bool) ensures r == exists|i: int| 0 <= i < s@.len() && control(#[trigger] s@[i]) { unimplemented!() }
//@fn src/runtime/actions/action_redirect.rs sanitize_address
//@ ret r
//@ loops 1
//@ replace "result.matches('@').count()" => "count_char(&result, '@')"
//@ replace "result.contains(char::is_control)" => "has_control(&result)"
//@ spec
    ensures r is Some ==> plain(r->0@) && sub(r->0@, addr@), bare(addr@) ==> r is Some && r->0@ == addr@,
//@ at start
    let ghost a = addr@;
    proof { axiom_char_eq(); assert(a.take(a.len() as int) == a); assert(a.take(0) =~= Seq::<char>::empty()); }
//@ loop 0 for it it
    invariant a == addr@, it.seq() == a, 0 <= it.index() <= a.len(),
        sub(result@, a.take(it.index() as int)), syntax_free(result@),
        has_at ==> exists|p: int| 0 < p < result@.len() && #[trigger] result@[p] == '@',
        has_dot ==> has_at && dotted(result@),
        bare(a) ==> !in_quote && result@ == a.take(it.index() as int) && has_at == (count(a.take(it.index() as int), '@') > 0)
            && (dot_before(a, it.index() as int) ==> has_dot),
//@ at loop 0 start
    let ghost i0 = it.index() as int;
    let ghost r0 = result@;
    proof { axiom_char_eq(); lemma_sub(r0, a, i0); lemma_sub(r0, a, i0); if bare(a) { lemma_bare_take(a, i0); lemma_count_zero(a.take(i0), '@'); lemma_count_zero(a.take(i0 + 1), '@'); } }
//@ at before "last_ch = ch"
    proof {
        if result@.len() > r0.len() {
            assert(result@ == r0.push(ch));
            if exists|p: int| 0 < p < r0.len() && #[trigger] r0[p] == '@' { let p = choose|p: int| 0 < p < r0.len() && #[trigger] r0[p] == '@'; assert(result@[p] == '@'); if ch == '.' { assert(result@[r0.len() as int] == '.'); assert(dotted(result@)); } }
            if dotted(r0) { let (p, q) = choose|p: int, q: int| 0 < p < q < r0.len() && #[trigger] r0[p] == '@' && #[trigger] r0[q] == '.'; assert(result@[p] == '@' && result@[q] == '.'); }
            if ch == '@' && r0.len() > 0 { assert(result@[r0.len() as int] == '@'); }
        }
        if bare(a) { lemma_bare_dot(a, i0); }
    }
//@end
