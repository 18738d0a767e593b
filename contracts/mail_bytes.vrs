// ---- line breaks in generated header text ---------------------------------------------
pub open spec fn brk(b: u8) -> nat { if b == 10 || b == 13 { 1 } else { 0 } }
pub open spec fn breaks(m: Seq<u8>) -> nat decreases m.len() { if m.len() == 0 { 0 } else { breaks(m.drop_last()) + brk(m.last()) } }
pub open spec fn sbrk(c: char) -> nat { if c == '\n' || c == '\r' { 1 } else { 0 } }
pub open spec fn sbreaks(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { sbreaks(s.drop_last()) + sbrk(s.last()) } }
pub broadcast proof fn lemma_breaks_add(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] breaks(a + b) == breaks(a) + breaks(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { lemma_breaks_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); } }
pub broadcast proof fn lemma_breaks_push(a: Seq<u8>, x: u8) ensures #[trigger] breaks(a.push(x)) == breaks(a) + brk(x) { assert(a.push(x).drop_last() =~= a); }
pub broadcast proof fn lemma_sbreaks_push(a: Seq<char>, x: char) ensures #[trigger] sbreaks(a.push(x)) == sbreaks(a) + sbrk(x) { assert(a.push(x).drop_last() =~= a); }
// in UTF-8 the bytes 10 and 13 stand for U+000A and U+000D and occur in no other character
#[verifier::external_body] pub broadcast proof fn axiom_utf8_breaks(s: Seq<char>) ensures #[trigger] breaks(vstd::utf8::encode_utf8(s)) == sbreaks(s) {}
pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == vstd::utf8::encode_utf8(s@);
// the text without CR and LF
pub open spec fn unbroken(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if sbrk(s.last()) == 1 { unbroken(s.drop_last()) } else { unbroken(s.drop_last()).push(s.last()) } }
pub proof fn lemma_unbroken(s: Seq<char>) ensures sbreaks(unbroken(s)) == 0, sbreaks(s) == 0 ==> unbroken(s) == s decreases s.len()
{ if s.len() > 0 { lemma_unbroken(s.drop_last()); if sbrk(s.last()) == 0 { lemma_sbreaks_push(unbroken(s.drop_last()), s.last()); assert(s.drop_last().push(s.last()) =~= s); } } }
pub proof fn lemma_unbroken_prefix(s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures unbroken(s.take(i)).len() <= unbroken(s).len(), unbroken(s).take(unbroken(s.take(i)).len() as int) =~= unbroken(s.take(i)) decreases s.len() - i
{ if i < s.len() { lemma_unbroken_prefix(s, i + 1); assert(s.take(i + 1).drop_last() =~= s.take(i)); } else { assert(s.take(i) =~= s); } }
pub proof fn lemma_fit_whole(s: Seq<char>, max: nat) ensures blen(s) <= max ==> fit(s, max) == s {}
pub proof fn lemma_fit_breaks(s: Seq<char>, max: nat) requires sbreaks(s) == 0 ensures sbreaks(fit(s, max)) == 0, blen(fit(s, max)) <= max decreases s.len()
{ if blen(s) > max { lemma_sbreaks_push(s.drop_last(), s.last()); assert(s.drop_last().push(s.last()) =~= s); lemma_fit_breaks(s.drop_last(), max); } }
//@fn src/runtime/actions/action_editheader.rs <RemoveCrLf for &str>::remove_crlf
//@ ret r
//@ sig "&self" => "this: &str"
//@ replace "self" => "this"
//@ spec
    ensures r@ == fit(unbroken(this@), max_len as nat), sbreaks(r@) == 0, blen(r@) <= max_len,
//@ at start
    let ghost s = this@;
    proof { lemma_unbroken(s); lemma_fit_breaks(unbroken(s), max_len as nat); axiom_char_eq(); assert(s.take(0) =~= Seq::<char>::empty()); assert(s.take(s.len() as int) =~= s); }
//@ loop 0 for it it
    invariant s == this@, it.seq() == s, 0 <= it.index() <= s.len(), header_value@ == unbroken(s.take(it.index() as int)), blen(header_value@) <= max_len,
        sbreaks(fit(unbroken(s), max_len as nat)) == 0, blen(fit(unbroken(s), max_len as nat)) <= max_len,
//@ at loop 0 start
    let ghost i0 = it.index() as int;
    proof {
        axiom_char_eq(); assert(s.take(i0 + 1).drop_last() =~= s.take(i0)); lemma_blen_push(header_value@, ch);
        lemma_unbroken_prefix(s, i0); lemma_unbroken_prefix(s, i0 + 1);
        let u = unbroken(s); let n = unbroken(s.take(i0)).len() as int;
        if sbrk(ch) == 0 { assert(unbroken(s.take(i0 + 1)) == unbroken(s.take(i0)).push(ch)); assert(u.take(n + 1) == unbroken(s.take(i0)).push(ch)); assert(u.take(n) == unbroken(s.take(i0))); if blen(u.take(n + 1)) > max_len { lemma_fit(u, n, max_len as nat); } }
    }
//@end
// Vec::extend_from_slice
pub fn push_bytes(m: &mut Vec<u8>, s: &[u8]) ensures final(m)@ == old(m)@ + s@, breaks(final(m)@) == breaks(old(m)@) + breaks(s@)
{ let ghost m0 = m@; m.extend_from_slice(s); proof { assert(m@ =~= m0 + s@); lemma_breaks_add(m0, s@); } }
//@fn src/runtime/actions/action_vacation.rs write_header
//@ replace "buf.extend_from_slice(" => "push_bytes(buf, "
//@ replace "value.remove_crlf(usize::MAX)" => "remove_crlf(value, usize::MAX)"
//@ bytes breaks
//@ spec
    ensures breaks(final(buf)@) == breaks(old(buf)@) + sbreaks(name@) + 2, final(buf)@.len() >= old(buf)@.len(), final(buf)@.take(old(buf)@.len() as int) == old(buf)@,
//@ at start
    broadcast use axiom_utf8_breaks; let ghost b0 = buf@;
//@ at end
    proof { assert(buf@.take(b0.len() as int) =~= b0); }
//@end
