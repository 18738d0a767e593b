// ---- meaning of a wildcard key as text ---------------------------------------------
pub open spec fn fold_char(c: char, lower: bool) -> Seq<char> { if lower && char_is_upper(c) { char_lower(c) } else { seq![c] } }
pub open spec fn fold(s: Seq<char>, lower: bool) -> Seq<char> decreases s.len()
{ if s.len() == 0 { seq![] } else { fold(s.drop_last(), lower) + fold_char(s.last(), lower) } }
pub open spec fn lits(s: Seq<char>) -> Seq<PatternChar> { Seq::new(s.len(), |i: int| PatternChar::Char { char: s[i], match_pos: 0 }) }
pub open spec fn stars(s: Seq<char>) -> nat decreases s.len()
{ if s.len() > 0 && s[0] == '*' { 1 + stars(s.skip(1)) } else { 0 } }
pub proof fn lemma_stars(s: Seq<char>) ensures stars(s) <= s.len() decreases s.len()
{ if s.len() > 0 && s[0] == '*' { lemma_stars(s.skip(1)); } }
// the items denoted by key text s; esc: the previous character was an unquoted backslash
pub open spec fn items(s: Seq<char>, esc: bool, lower: bool) -> Seq<PatternChar> decreases s.len()
    via items_decreases
{
    if s.len() == 0 { seq![] }
    else if s[0] == '*' && !esc { seq![PatternChar::WildcardMany { num: stars(s) as usize, match_pos: 0 }] + items(s.skip(stars(s) as int), false, lower) }
    else if s[0] == '?' && !esc { seq![PatternChar::WildcardSingle { match_pos: 0 }] + items(s.skip(1), false, lower) }
    else if s[0] == '\\' && !esc { items(s.skip(1), true, lower) }
    else { lits(fold_char(s[0], lower)) + items(s.skip(1), false, lower) }
}
#[via_fn]
proof fn items_decreases(s: Seq<char>, esc: bool, lower: bool) { lemma_stars(s); }
pub proof fn lemma_fold_id(s: Seq<char>) ensures fold(s, false) == s decreases s.len()
{ if s.len() > 0 { lemma_fold_id(s.drop_last()); assert(s.drop_last() + seq![s.last()] =~= s); } }
