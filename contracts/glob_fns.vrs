impl GlobPattern {
    pub closed spec fn p(&self) -> Seq<PatternChar> { self.pattern@ }
    pub closed spec fn lower(&self) -> bool { self.to_lower }
//@fn src/runtime/tests/glob.rs GlobPattern::compile
//@ ret res
//@ attr #[verifier::loop_isolation(false)]
//@ loops 3
//@ replace "pattern.chars().peekable()" => "PeekChars::new(pattern)"
//@ replace "char.to_lowercase()" => "lower_chars(char)"
//@ spec
    ensures res.p() == items(pattern@, false, to_lower), res.lower() == to_lower,
//@ loop 0 while
    invariant chars@ + items(str.rem(), is_escaped, to_lower) == items(pattern@, false, to_lower),
        pattern@.len() <= isize::MAX, str.rem().len() <= pattern@.len(),
    decreases str.rem().len()
//@ at loop 0 start
    let ghost rem0 = str.rem();
    let ghost esc0 = is_escaped;
    let ghost chars0 = chars@;
    let ghost s0 = seq![char] + rem0;
    proof { assert(s0.skip(1) == rem0); lemma_stars(s0); assert(s0[0] == char);
       assert(chars0 + items(s0, is_escaped, to_lower) == items(pattern@, false, to_lower)); }
//@ loop 1 while
    invariant num + stars(str.rem()) == stars(s0), str.rem() == s0.skip(num as int), num >= 1, num <= s0.len(),
        s0.len() <= isize::MAX, chars@ == chars0, s0[0] == '*', !is_escaped,
    decreases str.rem().len()
//@ at loop 1 end
    proof { assert(s0.skip(num as int - 1).skip(1) == s0.skip(num as int)); }
//@ at before loop 2
    let ghost low = char_lower(char);
//@ loop 2 for it cit
    invariant cit.seq() == low, chars@ == chars0 + lits(low.take(cit.index() as int)), 0 <= cit.index() <= low.len(),
//@ at loop 2 end
    proof { assert(low.take(cit.index() + 1) == low.take(cit.index() as int).push(low[cit.index() as int]));
        assert(chars@ =~= chars0 + lits(low.take(cit.index() + 1))); }
//@ at after loop 2
    proof { assert(low.take(low.len() as int) == low); }
//@ at loop 0 end
    proof { assert(chars@ + items(str.rem(), is_escaped, to_lower) =~= chars0 + items(s0, esc0, to_lower)); }
//@end
//@fn src/runtime/tests/glob.rs GlobPattern::matches
//@ ret res
//@ attr #[verifier::loop_isolation(false)]
//@ loops 1
//@ spec
    ensures res == m(self.p(), 0, if self.lower() { lower_seq(value@) } else { value@ }, 0),
//@ at before loop 0
    proof { axiom_char_eq(); axiom_vec_len_bound(value); axiom_vec_len_bound(self.pattern);
        assert(value@ == if self.lower() { lower_seq(old_value@) } else { old_value@ }); }
//@ at start
    let ghost old_value = value;
//@ loop 0 while
    invariant state_ok(self.pattern@, value@, px as int, nx as int, next_px as int, next_nx as int),
        value@.len() <= isize::MAX, self.pattern@.len() <= isize::MAX,
        value@ == (if self.lower() { lower_seq(old_value@) } else { old_value@ }),
    decreases self.pattern@.len() - next_px, state_measure(value@, px as int, nx as int, next_px as int, next_nx as int), self.pattern@.len() - px
//@ at loop 0 start
    proof { if px < self.pattern@.len() && is_star(self.pattern@[px as int]) {
        if 0 < next_nx && next_nx <= value@.len() && px > next_px && m(self.pattern@, next_px as int, value@, next_nx as int) {
            lemma_drop_earlier(self.pattern@, next_px as int, px as int, value@, next_nx - 1, nx as int);
        }
    } }
//@end
}
