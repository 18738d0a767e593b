// ---- envelope addresses (over the bytes of the text) --------------------------------------
pub open spec fn space(c: u8) -> bool { c == 9 || c == 10 || c == 12 || c == 13 || c == 32 }
pub open spec fn clean(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> !space(#[trigger] s[i]) && s[i] < 128 }
pub open spec fn no_marks(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != b'<' && s[i] != b'>' && s[i] != b':' && s[i] != b',' }
// local part, one @, domain
pub open spec fn one_at(s: Seq<u8>, p: int) -> bool { 0 < p < s.len() - 1 && s[p] == b'@' && forall|i: int| 0 <= i < s.len() && i != p ==> #[trigger] s[i] != b'@' }
pub open spec fn address(s: Seq<u8>) -> bool { clean(s) && no_marks(s) && exists|p: int| #[trigger] one_at(s, p) }
// an @ at the very start of the text is not seen
pub open spec fn at_first(s: Seq<u8>) -> bool { clean(s) && no_marks(s) && s.len() > 0 && s[0] == b'@' }
pub open spec fn dots_ok(s: Seq<u8>, p: int) -> bool { forall|i: int| p < i < s.len() && #[trigger] s[i] == b'.' ==> s[i - 1] != b'.' && s[i - 1] != b'@' }
pub open spec fn plain_address(s: Seq<u8>) -> bool { clean(s) && no_marks(s) && exists|p: int| #[trigger] one_at(s, p) && dots_ok(s, p) }
pub open spec fn part_of(s: Seq<u8>, t: Seq<u8>) -> bool { exists|a: int, b: int| 0 <= a <= b <= t.len() && s == #[trigger] t.subrange(a, b) }
pub open spec fn mailer() -> Seq<u8> { seq![109u8, 97u8, 105u8, 108u8, 101u8, 114u8, 45u8, 100u8, 97u8, 101u8, 109u8, 111u8, 110u8] } // mailer-daemon
pub open spec fn low(c: u8) -> u8 { if b'A' <= c <= b'Z' { (c + 32) as u8 } else { c } }
pub open spec fn same_ci(a: Seq<u8>, b: Seq<u8>) -> bool { a.map_values(|c: u8| low(c)) == b.map_values(|c: u8| low(c)) }
#[verifier::external_body] pub fn eq_ci(a: &[u8], b: &[u8]) -> (r: bool) ensures r == same_ci(a@, b@) { unimplemented!() }
// std::str::from_utf8(b).unwrap(): fails on bytes that are no text
#[verifier::external_body] pub fn text(b: &[u8]) -> (r: Option<&[u8]>) requires forall|i: int| 0 <= i < b@.len() ==> #[trigger] b@[i] < 128 ensures r is Some, r->0@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn nothing<'a>() -> (r: Option<&'a [u8]>) ensures r is Some, r->0@.len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn is_space(c: &u8) -> (r: bool) ensures r == space(*c) { unimplemented!() }
// what has been read up to pos
pub open spec fn one_only(a: Seq<u8>, start: int, pos: int, at: int) -> bool { forall|i: int| start <= i < pos && i != at && i != 0 ==> #[trigger] a[i] != b'@' }
pub open spec fn read(a: Seq<u8>, pos: int, start: int, end: int, at: int, bracket: bool, in_path: bool) -> bool {
    &&& 0 <= start <= pos <= a.len() && start <= end
    &&& forall|i: int| 0 <= i < pos ==> !space(#[trigger] a[i]) && a[i] < 128
    &&& forall|i: int| 0 < i < pos ==> #[trigger] a[i] != b'<'
    &&& (pos > 0 && a[0] == b'<') ==> start >= 1
    &&& bracket ==> pos > 0 && a[0] == b'<'
    &&& (pos > 0 && a[0] == b'<' && !bracket) ==> pos == a.len() && a[pos - 1] == b'>'
    &&& forall|i: int| 0 <= i < pos && #[trigger] a[i] == b'>' ==> i == a.len() - 1 && end == i && a.len() > 2 && !bracket
    &&& end == a.len() || (end == a.len() - 1 && pos == a.len() && a[end] == b'>' && a.len() > 2)
    &&& at != 0 ==> start <= at < pos && a[at] == b'@'
    &&& !in_path ==> one_only(a, start, pos, at) && forall|i: int| start <= i < pos ==> #[trigger] a[i] != b':' && a[i] != b','
}
// what a plain address looks like on the way
pub open spec fn on_track(a: Seq<u8>, p: int, pos: int, off: int, start: int, end: int, at: int, bracket: bool, in_path: bool) -> bool { start == (if pos > 0 { off } else { 0 }) && !in_path && at == (if pos > p { p } else { 0 }) && (bracket == (off == 1 && 0 < pos < a.len())) && end == (if off == 1 && pos == a.len() { a.len() - 1 } else { a.len() as int }) }
pub open spec fn wrapped(a: Seq<u8>, p: int) -> bool { a.len() >= 5 && a[0] == b'<' && a.last() == b'>' && one_at(a.subrange(1, a.len() - 1), p - 1) && clean(a.subrange(1, a.len() - 1)) && no_marks(a.subrange(1, a.len() - 1)) && dots_ok(a.subrange(1, a.len() - 1), p - 1) }
pub open spec fn bracketed(a: Seq<u8>) -> bool { exists|p: int| #[trigger] wrapped(a, p) }
pub open spec fn tracked(a: Seq<u8>, p: int, off: int) -> bool { if off == 1 { wrapped(a, p) } else { clean(a) && no_marks(a) && one_at(a, p) && dots_ok(a, p) } }
// the characters of a plain address where the loop stands
pub proof fn lemma_track(a: Seq<u8>, p: int, off: int, pos: int) requires tracked(a, p, off), off == 0 || off == 1, 0 <= pos < a.len()
    ensures off < p < a.len() - 1 - off, a[p] == b'@', off <= pos < a.len() - off ==> !space(a[pos]) && a[pos] < 128 && a[pos] != b'<' && a[pos] != b'>' && a[pos] != b':' && a[pos] != b',' && (pos != p ==> a[pos] != b'@') && (pos > p && a[pos] == b'.' ==> a[pos - 1] != b'.' && a[pos - 1] != b'@'),
        pos > 0 && off <= pos - 1 < a.len() - off && pos - 1 != p ==> a[pos - 1] != b'@',
        off == 1 ==> a[0] == b'<' && a[a.len() - 1] == b'>' && a.len() > 2
{ if off == 1 { let s = a.subrange(1, a.len() - 1); assert(s[p - 1] == a[p]); if 1 <= pos < a.len() - 1 { assert(s[pos - 1] == a[pos]); if pos > p { assert(s[pos - 2] == a[pos - 1]); } } if 1 <= pos - 1 < a.len() - 1 { assert(s[pos - 2] == a[pos - 1]); } } }
pub proof fn lemma_empty(a: Seq<u8>) ensures forall|t: Seq<u8>| t.len() == 0 ==> #[trigger] part_of(t, a) { assert forall|t: Seq<u8>| t.len() == 0 implies #[trigger] part_of(t, a) by { assert(t =~= a.subrange(0, 0)); } }
pub proof fn lemma_taken(a: Seq<u8>, start: int, end: int, at: int, bracket: bool, in_path: bool) requires a.len() > 0, read(a, a.len() as int, start, end, at, bracket, in_path)
    ensures part_of(a.subrange(start, end), a), clean(a.subrange(start, end)), !in_path && at > start && end - 1 > at ==> address(a.subrange(start, end)) || at_first(a.subrange(start, end))
{ let s = a.subrange(start, end);
    assert forall|i: int| 0 <= i < s.len() implies !space(#[trigger] s[i]) && s[i] < 128 by { assert(s[i] == a[start + i]); }
    if !in_path && at > start && end - 1 > at { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != b'<' && s[i] != b'>' && s[i] != b':' && s[i] != b',' by { assert(s[i] == a[start + i]); }
        if s[0] != b'@' { let q = at - start; assert forall|i: int| 0 <= i < s.len() && i != q implies #[trigger] s[i] != b'@' by { assert(s[i] == a[start + i]); } assert(one_at(s, q)); } } }
//@fn src/runtime/tests/test_envelope.rs parse_envelope_address
//@ ret r
//@ sig "addr: &str" => "addr: &[u8]"
//@ sig "Option<&str>" => "Option<&[u8]>"
//@ bytes
//@ replace "let addr = addr.as_bytes();" => ";"
//@ replace "return \"\".into();" => "return nothing();"
//@ replace "for (pos, &ch) in addr.iter().enumerate() {" => "for pos in 0..addr.len() invariant read(addr@, pos as int, addr_start_pos as int, addr_end_pos as int, at_pos as int, has_bracket, in_path), addr@.len() > 0, pos > 0 ==> last_ch == addr@[pos - 1], a0 == addr@, forall|t: Seq<u8>| t.len() == 0 ==> #[trigger] part_of(t, a0), { let ch = addr[pos];"
//@ replace "addr.eq_ignore_ascii_case(b\"mailer-daemon\")" => "eq_ci(addr, bstr_6d61696c65722d6461656d6f6e())"
//@ replace "std::str::from_utf8(addr).unwrap().into()" => "text(addr)"
//@ replace "ch.is_ascii_whitespace()" => "is_space(&ch)"
//@ replace "!ch.is_ascii()" => "ch >= 128"
//@ replace "std::str::from_utf8(&addr[addr_start_pos..addr_end_pos]) .unwrap() .into()" => "text(&addr[addr_start_pos..addr_end_pos])"
//@ spec
    ensures r is Some ==> part_of(r->0@, addr@) && (r->0@.len() == 0 || same_ci(r->0@, mailer()) || address(r->0@) || at_first(r->0@)),
//@ at start
    let ghost a0 = addr@; proof { lemma_empty(a0); }
//@ at before "if !has_bracket && !in_path && at_pos > addr_start_pos"
    proof { lemma_taken(a0, addr_start_pos as int, addr_end_pos as int, at_pos as int, has_bracket, in_path); }
//@end
// the same function again: addresses as they should be are taken as they are
//@fn src/runtime/tests/test_envelope.rs parse_envelope_address
//@ rename parse_plain_address
//@ ret r
//@ sig "addr: &str" => "addr: &[u8]"
//@ sig "Option<&str>" => "Option<&[u8]>"
//@ bytes
//@ replace "let addr = addr.as_bytes();" => ";"
//@ replace "return \"\".into();" => "return nothing();"
//@ replace "for (pos, &ch) in addr.iter().enumerate() {" => "for pos in 0..addr.len() invariant on_track(a0, pp, pos as int, off, addr_start_pos as int, addr_end_pos as int, at_pos as int, has_bracket, in_path), a0 == addr@, addr@.len() > 0, pos > 0 ==> last_ch == addr@[pos - 1], pos == 0 ==> last_ch == 0, off == 0 || off == 1, tracked(a0, pp, off), off == 1 <==> bracketed(a0), { let ch = addr[pos]; proof { lemma_track(a0, pp, off, pos as int); }"
//@ replace "addr.eq_ignore_ascii_case(b\"mailer-daemon\")" => "eq_ci(addr, bstr_6d61696c65722d6461656d6f6e())"
//@ replace "std::str::from_utf8(addr).unwrap().into()" => "text(addr)"
//@ replace "ch.is_ascii_whitespace()" => "is_space(&ch)"
//@ replace "!ch.is_ascii()" => "ch >= 128"
//@ replace "std::str::from_utf8(&addr[addr_start_pos..addr_end_pos]) .unwrap() .into()" => "text(&addr[addr_start_pos..addr_end_pos])"
//@ spec
    requires plain_address(addr@) || bracketed(addr@),
    ensures r is Some && r->0@ == (if bracketed(addr@) { addr@.subrange(1, addr@.len() - 1) } else { addr@ }),
//@ at start
    let ghost a0 = addr@; let ghost off: int = if bracketed(a0) { 1 } else { 0 };
    let ghost pp: int = if bracketed(a0) { choose|p: int| #[trigger] wrapped(a0, p) } else { choose|p: int| #[trigger] one_at(a0, p) && dots_ok(a0, p) };
    proof { if bracketed(a0) { assert(wrapped(a0, pp)); } assert(tracked(a0, pp, off)); lemma_track(a0, pp, off, 0); }
//@ at before "if !has_bracket && !in_path && at_pos > addr_start_pos"
    proof { assert(a0.subrange(0, a0.len() as int) =~= a0); if off == 1 { assert forall|i: int| 1 <= i < a0.len() - 1 implies a0[i] == a0.subrange(1, a0.len() - 1)[i - 1] by {} } }
//@end
