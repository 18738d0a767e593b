use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std.vrs
// ---- calendar dates (mail_parser::DateTime; its calendar arithmetic is trusted) ----------
pub struct DateTime { pub year: u16, pub month: u8, pub day: u8, pub hour: u8, pub minute: u8, pub second: u8, pub tz_before_gmt: bool, pub tz_hour: u8, pub tz_minute: u8 }
pub uninterp spec fn instant(d: DateTime) -> int;          // seconds since 1970, UTC
pub uninterp spec fn at_zone(t: int, tz: int) -> DateTime; // the calendar fields of an instant, tz seconds east of UTC
pub uninterp spec fn weekday(d: DateTime) -> u8;
pub uninterp spec fn mjd(d: DateTime) -> i64;
#[verifier::external_body] pub broadcast proof fn axiom_at_zone(t: int, tz: int) ensures instant(#[trigger] at_zone(t, tz)) == t {}
impl DateTime {
    #[verifier::external_body] pub fn to_timestamp(&self) -> (r: i64) ensures r == instant(*self) { unimplemented!() }
    #[verifier::external_body] pub fn from_timestamp(t: i64) -> (r: DateTime) ensures r == at_zone(t as int, 0) { unimplemented!() }
    #[verifier::external_body] pub fn to_timezone(&self, tz: i64) -> (r: DateTime) ensures r == at_zone(instant(*self), tz as int) { unimplemented!() }
    #[verifier::external_body] pub fn day_of_week(&self) -> (r: u8) ensures r == weekday(*self), r <= 6 { unimplemented!() }
    #[verifier::external_body] pub fn to_rfc3339(&self) -> (r: String) ensures r@ == iso(*self) { unimplemented!() }
    #[verifier::external_body] pub fn to_rfc822(&self) -> (r: String) ensures r@ == std11(*self) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: DateTime) ensures r == *self { unimplemented!() }
}
pub uninterp spec fn iso(d: DateTime) -> Seq<char>;
pub uninterp spec fn std11(d: DateTime) -> Seq<char>;
//@type src/compiler/grammar/tests/test_date.rs Zone
//@end
//@type src/compiler/grammar/tests/test_date.rs DatePart
//@end
pub enum Cow<'x> { Borrowed(&'x DateTime), Owned(DateTime) }
pub open spec fn date_of(c: Cow) -> DateTime { match c { Cow::Borrowed(d) => *d, Cow::Owned(d) => d } }
impl Zone {
//@fn src/runtime/tests/test_date.rs Zone::eval
//@ ret r
//@ sig "Cow<'x, DateTime>" => "Cow<'x>"
//@ spec
    ensures instant(date_of(r)) == instant(*dt), // the instant stays
        (match *self { Zone::Original => date_of(r) == *dt, Zone::Time(tz) => date_of(r) == at_zone(instant(*dt), tz as int), Zone::Local => date_of(r) == at_zone(instant(*dt), 0) }),
//@ at start
    broadcast use axiom_at_zone;
//@end
}
// ---- the texts of the parts -----------------------------------------------------------------
pub open spec fn digit(n: nat) -> char { (48 + n % 10) as u8 as char }
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n)) } }
pub open spec fn padded(n: nat, w: nat) -> Seq<char> { if dec(n).len() < w { Seq::new((w - dec(n).len()) as nat, |i: int| '0') + dec(n) } else { dec(n) } }
// {:0w} of format!
#[verifier::external_body] pub fn pad(n: u16, w: usize) -> (r: String) ensures r@ == padded(n as nat, w as nat) { unimplemented!() }
#[verifier::external_body] pub fn joined3(a: String, s1: &str, b: String, s2: &str, c: String) -> (r: String) ensures r@ == a@ + s1@ + b@ + s2@ + c@ { unimplemented!() }
#[verifier::external_body] pub fn to_text(n: u8) -> (r: String) ensures r@ == dec(n as nat) { unimplemented!() }
#[verifier::external_body] pub fn mjd_text(d: &DateTime) -> (r: String) ensures r@ == int_text(mjd(*d)) { unimplemented!() }
#[verifier::external_body] pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub open spec fn int_text(n: i64) -> Seq<char> { if n < 0 { "-"@ + dec((-n) as nat) } else { dec(n as nat) } }
pub open spec fn two(n: u8) -> Seq<char> { padded(n as nat, 2) }
pub open spec fn part_text(p: DatePart, d: DateTime) -> Seq<char> { match p {
    DatePart::Year => padded(d.year as nat, 4), DatePart::Month => two(d.month), DatePart::Day => two(d.day),
    DatePart::Date => padded(d.year as nat, 4) + "-"@ + two(d.month) + "-"@ + two(d.day), DatePart::Julian => int_text(mjd(d)),
    DatePart::Hour => two(d.hour), DatePart::Minute => two(d.minute), DatePart::Second => two(d.second), DatePart::Time => two(d.hour) + ":"@ + two(d.minute) + ":"@ + two(d.second),
    DatePart::Iso8601 => iso(d), DatePart::Std11 => std11(d),
    DatePart::Zone => (if d.tz_before_gmt && (d.tz_hour > 0 || d.tz_minute > 0) { "-"@ } else { "+"@ }) + ""@ + two(d.tz_hour) + ""@ + two(d.tz_minute),
    DatePart::Weekday => dec(weekday(d) as nat) } }
// fixed width
pub proof fn lemma_width(n: nat) ensures n < 100 ==> padded(n, 2).len() == 2, n < 10000 ==> padded(n, 4).len() == 4, n < 10 ==> dec(n).len() == 1 { reveal_with_fuel(dec, 5); }
impl DatePart {
//@fn src/runtime/tests/test_date.rs DatePart::eval
//@ ret r
//@ replace "format!(\"{:04}\", dt.year)" => "pad(dt.year, 4)"
//@ replace "format!(\"{:02}\", dt.month)" => "pad(dt.month as u16, 2)"
//@ replace "format!(\"{:02}\", dt.day)" => "pad(dt.day as u16, 2)"
//@ replace "format!(\"{:04}-{:02}-{:02}\", dt.year, dt.month, dt.day,)" => "joined3(pad(dt.year, 4), \"-\", pad(dt.month as u16, 2), \"-\", pad(dt.day as u16, 2))"
//@ replace "((dt.julian_day() as f64 - 2400000.5) as i64).to_string()" => "mjd_text(dt)"
//@ replace "format!(\"{:02}\", dt.hour)" => "pad(dt.hour as u16, 2)"
//@ replace "format!(\"{:02}\", dt.minute)" => "pad(dt.minute as u16, 2)"
//@ replace "format!(\"{:02}\", dt.second)" => "pad(dt.second as u16, 2)"
//@ replace "format!(\"{:02}:{:02}:{:02}\", dt.hour, dt.minute, dt.second,)" => "joined3(pad(dt.hour as u16, 2), \":\", pad(dt.minute as u16, 2), \":\", pad(dt.second as u16, 2))"
//@ replace "format!( \"{}{:02}{:02}\", if" => "joined3(owned(if"
//@ replace "dt.tz_hour, dt.tz_minute )" => "\"\", pad(dt.tz_hour as u16, 2), \"\", pad(dt.tz_minute as u16, 2))"
//@ replace "} else { \"+\" }," => "} else { \"+\" }),"
//@ replace "dt.day_of_week().to_string()" => "to_text(dt.day_of_week())"
//@ spec
    ensures r@ == part_text(*self, *dt),
//@end
}
// ---- the zone a script asks for -----------------------------------------------------------
// "+hhmm" as a number of seconds
pub open spec fn zone_seconds(n: int) -> int { if n >= 0 { n / 100 * 3600 + n % 100 * 60 } else { -((-n) / 100 * 3600 + (-n) % 100 * 60) } }
//@type src/compiler/lexer/mod.rs StringConstant
//@end
//@type src/compiler/mod.rs Number
//@end
#[verifier::external_body] pub struct CompileError { x: u8 }
pub enum Token { StringConstant(StringConstant), Other(u8) }
pub struct TokenInfo { pub token: Token, pub line: usize }
impl TokenInfo { #[verifier::external_body] pub fn expected(self, what: &str) -> (r: CompileError) { unimplemented!() } }
#[verifier::external_body] pub struct Tokens { x: u8 }
pub uninterp spec fn next_of(t: Tokens) -> Result<TokenInfo, CompileError>;
impl Tokens { #[verifier::external_body] pub fn unwrap_next(&mut self) -> (r: Result<TokenInfo, CompileError>) ensures r == next_of(*old(self)) { unimplemented!() } }
pub struct CompilerState { pub tokens: Tokens }
pub uninterp spec fn parsed(s: Seq<char>) -> Option<i64>; // str::parse::<i64>
#[verifier::external_body] pub fn parse_or_max(s: &String) -> (r: i64) ensures r == (match parsed(s@) { Some(n) => n, None => i64::MAX }) { unimplemented!() }
pub uninterp spec fn cut_of(n: f64) -> i64; // as i64
#[verifier::external_body] pub fn cut(n: &f64) -> (r: i64) ensures r == cut_of(*n) { unimplemented!() }
pub open spec fn asked(t: Token) -> Option<i64> { match t { Token::StringConstant(StringConstant::String(s)) => parsed(s@), Token::StringConstant(StringConstant::Number(Number::Integer(n))) => Some(n), Token::StringConstant(StringConstant::Number(Number::Float(n))) => Some(cut_of(n)), _ => None } }
impl CompilerState {
//@fn src/compiler/grammar/tests/test_date.rs CompilerState::parse_timezone
//@ ret r
//@ replace "value.parse::<i64>().unwrap_or(i64::MAX)" => "parse_or_max(value)"
//@ replace "*n as i64" => "cut(n)"
//@ spec
    ensures r is Ok <==> next_of(old(self).tokens) is Ok && asked(next_of(old(self).tokens)->Ok_0.token) is Some && -1200 <= asked(next_of(old(self).tokens)->Ok_0.token)->0 <= 1400,
        r is Ok ==> r->Ok_0 == zone_seconds(asked(next_of(old(self).tokens)->Ok_0.token)->0 as int),
//@end
}
//@literals
}
fn main() {}
