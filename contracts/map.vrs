// AHashMap<Cow<'static, str>, Variable>: a finite map from names to values
#[verifier::external_body]
pub struct VarMap { m: std::collections::HashMap<String, Variable> }
impl VarMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Variable>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: Variable) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Variable>)
        ensures self@.dom().contains(k@) ==> r is Some && *r->0 == self@[k@], !self@.dom().contains(k@) ==> r is None { unimplemented!() }
}
