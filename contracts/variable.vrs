// ---- Variable (extracted); its text and stored length -----------------------------
//@type src/runtime/mod.rs Variable
//@end
impl Clone for Variable {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn str_of(v: Variable) -> Seq<char> { match v { Variable::String(a) => (*a)@, _ => seq![] } }
pub open spec fn is_text(v: Variable, s: Seq<char>) -> bool { match v { Variable::String(a) => (*a)@ == s, _ => false } }
pub uninterp spec fn number_text(v: Variable) -> Seq<char>;        // Display of a number, or of an array joined by line breaks
pub uninterp spec fn array_len(v: Variable) -> nat;
pub open spec fn vtext(v: Variable) -> Seq<char> { match v { Variable::String(a) => (*a)@, _ => number_text(v) } }
pub open spec fn vlen(v: Variable) -> nat { match v { Variable::String(a) => blen((*a)@), Variable::Array(_) => array_len(v), _ => 2 } }
impl Variable {
    // Variable::len: the String and number arms; an array's length is left uninterpreted
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == vlen(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (*self is String && str_of(*self).len() == 0) { unimplemented!() }
    // Variable::to_string, as an owned String instead of Cow<str>
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == vtext(*self) { unimplemented!() }
    // v.to_string().chars(), collected
    #[verifier::external_body]
    pub fn to_chars(&self) -> (r: Vec<char>) ensures r@ == vtext(*self) { unimplemented!() }
}
impl From<String> for Variable {
    #[verifier::external_body]
    fn from(s: String) -> (r: Variable) ensures is_text(r, s@) { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<String> for Variable {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(s: String) -> Self;
}
