// ---- what each modifier of set computes -------------------------------------------
pub uninterp spec fn upper_seq(s: Seq<char>) -> Seq<char>;          // str::to_uppercase
pub uninterp spec fn char_upper(c: char) -> Seq<char>;              // char::to_uppercase
pub uninterp spec fn replaced(s: Seq<char>, f: Seq<char>, r: Seq<char>) -> Seq<char>;   // str::replace
pub assume_specification[ str::to_uppercase ](s: &str) -> (r: String) ensures r@ == upper_seq(s@);
#[verifier::external_body]
pub fn upper_chars(c: char) -> (r: Vec<char>) ensures r@ == char_upper(c) { c.to_uppercase().collect() }
#[verifier::external_body]
pub fn enum_chars(s: &str) -> (r: Vec<(usize, char)>) ensures r@ == Seq::new(s@.len(), |i: int| (i as usize, s@[i])), s@.len() <= isize::MAX { s.chars().enumerate().collect() }
#[verifier::external_body]
pub fn str_replace(s: &str, f: Variable, r: Variable) -> (o: String) ensures o@ == replaced(s@, vtext(f), vtext(r)) { s.replace(&*f.to_string(), &*r.to_string()) }
// n.to_string() for the number of characters
pub open spec fn digits(n: nat) -> Seq<char> decreases n { if n < 10 { seq![(48 + n) as u8 as char] } else { digits(n / 10).push((48 + n % 10) as u8 as char) } }
#[verifier::external_body]
pub fn count_string(s: &str) -> (r: String) ensures r@ == digits(s@.len()) { s.chars().count().to_string() }
// char.encode_utf8(..).as_bytes(), as an owned list; write!(result, "%{byte:02x}")
#[verifier::external_body]
pub fn char_bytes(c: char) -> (r: Vec<u8>) ensures r@ == utf8c(c) { unimplemented!() }
pub uninterp spec fn utf8c(c: char) -> Seq<u8>;
#[verifier::external_body]
pub broadcast proof fn axiom_utf8c(c: char) ensures #[trigger] utf8c(c).len() == clen(c) {}
pub open spec fn hexdigit(n: u8) -> char { if n < 10 { (48 + n) as u8 as char } else { (87 + n) as u8 as char } }
pub open spec fn pct(b: u8) -> Seq<char> { seq!['%', hexdigit(b / 16), hexdigit(b % 16)] }
pub open spec fn pcts(b: Seq<u8>) -> Seq<char> decreases b.len() { if b.len() == 0 { seq![] } else { pcts(b.drop_last()) + pct(b.last()) } }
#[verifier::external_body]
pub fn push_pct(s: &mut String, b: u8) ensures final(s)@ == old(s)@ + pct(b) { unimplemented!() }
pub proof fn lemma_pcts(b: Seq<u8>) ensures blen(pcts(b)) == 3 * b.len() decreases b.len()
{ if b.len() > 0 { lemma_pcts(b.drop_last()); lemma_blen_add(pcts(b.drop_last()), pct(b.last()));
    let p = pct(b.last()); reveal_with_fuel(blen, 4); assert(p.drop_last() =~= seq!['%', hexdigit(b.last() / 16)]); assert(p.drop_last().drop_last() =~= seq!['%']); assert(p.drop_last().drop_last().drop_last() =~= seq![]); } }

pub open spec fn wild_special(c: char) -> bool { c == '*' || c == '?' || c == '\\' }
pub open spec fn regex_special(c: char) -> bool { c == '*' || c == '\\' || c == '?' || c == '.' || c == '[' || c == ']' || c == '(' || c == ')' || c == '+' || c == '{' || c == '}' || c == '|' || c == '^' || c == '=' || c == ':' || c == '$' }
pub open spec fn unreserved(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '-' || c == '.' || c == '_' || c == '~' }
// what one character of the text contributes
pub enum M { Keep, LowFirst, UpFirst, Wild, Regex, Url }
pub open spec fn piece(m: M, pos: int, c: char) -> Seq<char> {
    match m {
        M::Keep => seq![c],
        M::LowFirst => if pos == 0 { char_lower(c) } else { seq![c] },
        M::UpFirst => if pos == 0 { char_upper(c) } else { seq![c] },
        M::Wild => if wild_special(c) { seq!['\\', c] } else { seq![c] },
        M::Regex => if regex_special(c) { seq!['\\', c] } else { seq![c] },
        M::Url => if unreserved(c) { seq![c] } else { pcts(utf8c(c)) },
    }
}
pub open spec fn full(m: M, s: Seq<char>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { seq![] } else { full(m, s.drop_last()) + piece(m, s.len() - 1, s.last()) } }
pub proof fn lemma_full(m: M, s: Seq<char>, i: int) requires 0 <= i < s.len()
    ensures full(m, s.take(i + 1)) == full(m, s.take(i)) + piece(m, i, s[i]), blen(full(m, s.take(i + 1))) == blen(full(m, s.take(i))) + blen(piece(m, i, s[i]))
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); lemma_blen_add(full(m, s.take(i)), piece(m, i, s[i])); }
pub proof fn lemma_full_mono(m: M, s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures blen(full(m, s.take(i))) <= blen(full(m, s)) decreases s.len() - i
{ if i < s.len() { lemma_full(m, s, i); lemma_full_mono(m, s, i + 1); } else { assert(s.take(i) =~= s); } }
pub proof fn lemma_pieces(c: char) ensures blen(seq![c]) == clen(c), blen(seq!['\\', c]) == clen(c) + 1, blen(pcts(utf8c(c))) == 3 * clen(c)
{ reveal_with_fuel(blen, 3); axiom_utf8c(c); lemma_pcts(utf8c(c)); assert(seq![c].drop_last() =~= seq![]); assert(seq!['\\', c].drop_last() =~= seq!['\\']); assert(seq!['\\'].drop_last() =~= seq![]); }
// r is the text computed by m, or, when that does not fit, what m computes for the first characters
pub open spec fn cut(m: M, s: Seq<char>, max: nat, r: Seq<char>) -> bool {
    exists|k: int| 0 <= k <= s.len() && r == #[trigger] full(m, s.take(k)) && (k < s.len() ==> blen(full(m, s)) > max || blen(s) > max || ((m is LowFirst || m is UpFirst) && k == 0))
}
