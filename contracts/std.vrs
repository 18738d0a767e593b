// Assumed contracts on the Rust standard library (trusted base). Each mirrors the
// documented behaviour of the std item and is listed in the evidence.
pub uninterp spec fn lower_seq(s: Seq<char>) -> Seq<char>;          // str::to_lowercase
pub uninterp spec fn char_lower(c: char) -> Seq<char>;              // char::to_lowercase
pub uninterp spec fn char_is_upper(c: char) -> bool;                // char::is_uppercase
pub assume_specification[ str::to_lowercase ](s: &str) -> (r: String)
    ensures r@ == lower_seq(s@);
pub assume_specification[ char::is_uppercase ](c: char) -> (r: bool)
    ensures r == char_is_upper(c);

// An allocation never exceeds isize::MAX bytes (language guarantee), so a vector of
// non-zero-sized elements and the characters of a string have fewer than usize::MAX elements.
#[verifier::external_body]
pub broadcast proof fn axiom_vec_len_bound<T>(v: Vec<T>)
    ensures #[trigger] v@.len() <= isize::MAX
{}

// `==` on chars is equality of code points (also through references).
#[verifier::external_body]
pub proof fn axiom_char_eq()
    ensures <char as vstd::std_specs::cmp::PartialEqSpec<char>>::obeys_eq_spec(),
        forall|a: char, b: char| #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a == b),
{}

pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures <T as vstd::std_specs::cmp::PartialEqSpec<T>>::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && vstd::std_specs::cmp::PartialEqSpec::eq_spec(&#[trigger] s@[i], x);
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool)
    ensures r == (('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z') || ('0' <= *c && *c <= '9'));
