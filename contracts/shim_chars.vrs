// Stand-in for Peekable<Chars>: `s.chars().peekable()` is replaced by `PeekChars::new(s)`.
#[verifier::external_body]
pub struct PeekChars<'a> { it: core::iter::Peekable<core::str::Chars<'a>> }
impl<'a> PeekChars<'a> {
    pub uninterp spec fn rem(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(s: &'a str) -> (r: PeekChars<'a>) ensures r.rem() == s@, r.rem().len() <= isize::MAX { PeekChars { it: s.chars().peekable() } }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
                old(self).rem().len() > 0 ==> r == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1)
                    && old(self).rem() == seq![r->0] + final(self).rem(),
    { self.it.next() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&char>)
        ensures final(self).rem() == old(self).rem(),
                old(self).rem().len() == 0 ==> r is None,
                old(self).rem().len() > 0 ==> r is Some && *r->0 == old(self).rem()[0],
    { self.it.peek() }
}
