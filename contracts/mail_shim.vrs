// ---- shared by the actions that write mail --------------------------------------------
//@const src/runtime/actions/action_vacation.rs MAX_SUBJECT_LEN
#[verifier::external_body] pub fn capacity_hint() -> usize { unimplemented!() }
// a.chars().chain(b.chars()).enumerate()
pub struct Chained { pub v: Vec<char>, pub i: usize }
#[verifier::external_body] pub fn chained(a: &str, b: &str) -> (r: Chained) ensures r.v@ == a@ + b@, r.i == 0 { Chained { v: a.chars().chain(b.chars()).collect(), i: 0 } }
impl Chained { pub fn next(&mut self) -> (r: Option<(usize, char)>) requires old(self).i <= old(self).v@.len()
    ensures final(self).v == old(self).v, final(self).i <= final(self).v@.len(), old(self).i < old(self).v@.len() ==> r == Some((old(self).i, old(self).v@[old(self).i as int])) && final(self).i == old(self).i + 1, old(self).i >= old(self).v@.len() ==> r is None && final(self).i == old(self).i
{ if self.i < self.v.len() { let c = self.v[self.i]; let k = self.i; self.i = k + 1; Some((k, c)) } else { None } } }
#[verifier::external_body] pub fn date_now() -> (r: String) ensures sbreaks(r@) == 0 { unimplemented!() }
// mail_builder writes one message id made of the host name and numbers
#[verifier::external_body] pub fn push_message_id(m: &mut Vec<u8>, host: &String) ensures breaks(final(m)@) == breaks(old(m)@) + sbreaks(host@), final(m)@.len() >= old(m)@.len(), final(m)@.take(old(m)@.len() as int) == old(m)@ { unimplemented!() }
impl<'x> Context<'x> {
    #[verifier::external_body] pub fn user_from_field(&self) -> String { unimplemented!() }
    #[verifier::external_body] pub fn get_local_flags(&self, f: &Vec<Value>) -> Vec<String> { unimplemented!() }
}
pub fn value_texts(ctx: &Context, o: &Option<Value>) -> (r: Option<String>) { match o { Some(v) => Some(ctx.eval_value(v).to_string()), None => None } }
pub fn unbroken_opt(o: Option<&str>) -> (r: Option<String>) ensures r is Some == o is Some, r is Some ==> sbreaks(r->0@) == 0 { match o { Some(s) => Some(remove_crlf(s, usize::MAX)), None => None } }
pub proof fn lemma_no_breaks(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' && s[i] != '\r' ensures sbreaks(s) == 0 decreases s.len() { if s.len() > 0 { lemma_no_breaks(s.drop_last()); } }
pub open spec fn created(e: Event, id: usize) -> bool { match e { Event::CreatedMessage { message_id, .. } => message_id == id, _ => false } }
