// char::to_lowercase() of one character, as the sequence it yields
#[verifier::external_body]
pub fn lower_chars(c: char) -> (r: Vec<char>) ensures r@ == char_lower(c) { c.to_lowercase().collect() }
