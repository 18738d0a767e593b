// ---- names of variables -------------------------------------------------------------------
//@type src/lib.rs Envelope
//@end
pub struct HeaderVariable { pub x: u8 }
pub struct MessagePart { pub x: u8 }
//@type src/compiler/mod.rs VariableType
//@ keep Local Global Envelope
//@end
//@type src/compiler/mod.rs ErrorType
//@ keep VariableTooLong InvalidNamespace
//@end
//@type src/lib.rs Compiler
//@ keep max_variable_name_size
//@end
//@type src/compiler/grammar/instruction.rs CompilerState
//@ keep compiler
//@end
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>; // str::to_lowercase
#[verifier::external_body] pub fn lower_text(s: &String) -> (r: String) ensures r@ == lower(s@) { unimplemented!() }
pub uninterp spec fn bytes_of(s: Seq<char>) -> nat; // length in bytes
#[verifier::external_body] pub fn byte_len(s: &str) -> (r: usize) ensures r == bytes_of(s@) { unimplemented!() }
// the part of a name behind its first dot, all of it without a dot
pub open spec fn own_name(s: Seq<char>) -> Seq<char> { if s.contains('.') { s.skip(s.index_of('.') + 1) } else { s } }
#[verifier::external_body] pub fn split_dot<'a>(s: &'a String) -> (r: Option<(&'a str, &'a str)>)
    ensures (r is Some) == s@.contains('.'), r is Some ==> (r->0).1@ == own_name(s@) && s@ == (r->0).0@ + seq!['.'] + (r->0).1@ && !(r->0).0@.contains('.') { unimplemented!() }
pub uninterp spec fn envelope_of(s: Seq<char>) -> Option<Envelope>;
#[verifier::external_body] pub fn parse_envelope(s: &str) -> (r: Result<Envelope, ()>) ensures (r is Ok) == (envelope_of(s@) is Some), r is Ok ==> Some(r->Ok_0) == envelope_of(s@) { unimplemented!() }
#[verifier::external_body] pub fn is_word(s: &str, w: &'static str) -> (r: bool) ensures r == (s@ == w@) { unimplemented!() }
impl<'x> CompilerState<'x> {
    pub uninterp spec fn declared_global(&self, n: Seq<char>) -> bool;
    #[verifier::external_body] pub fn is_var_global(&self, n: &str) -> (r: bool) ensures r == self.declared_global(n@) { unimplemented!() }
    #[verifier::external_body] pub fn register_local_var(&mut self, n: String, local: bool) -> (r: usize) ensures final(self).compiler == old(self).compiler { unimplemented!() }
//@fn src/compiler/grammar/actions/action_set.rs CompilerState::register_variable
//@ ret r
//@ replace "let name = name.to_lowercase();" => "let name = lower_text(&name);"
//@ replace "name.split_once('.').map_or(name.len(), |(_, n)| n.len())" => "(match split_dot(&name) { Some((_, n)) => byte_len(n), None => byte_len(name.as_str()) })"
//@ replace "if let Some((namespace, part)) = name.split_once('.')" => "if let Some((namespace, part)) = split_dot(&name)"
//@ replace "match namespace {" => "match 0u8 {"
//@ replace "\"global\" | \"t\" =>" => "_ if is_word(namespace, \"global\") || is_word(namespace, \"t\") =>"
//@ replace "\"envelope\" =>" => "_ if is_word(namespace, \"envelope\") =>"
//@ replace "Envelope::try_from(part).map(VariableType::Envelope).map_err(|_| ErrorType::InvalidNamespace(namespace.to_string()))" => "match parse_envelope(part) { Ok(e) => Ok(VariableType::Envelope(e)), Err(_) => Err(ErrorType::InvalidNamespace(namespace.to_string())) }"
//@ spec
    ensures final(self).compiler == old(self).compiler,
        // a name that is too long is refused, whatever its namespace
        bytes_of(own_name(lower(name@))) > old(self).compiler.max_variable_name_size ==> r is Err && r->Err_0 is VariableTooLong,
        r is Ok ==> bytes_of(own_name(lower(name@))) <= old(self).compiler.max_variable_name_size,
        // a name without namespace is a variable of the script, global when declared so
        !lower(name@).contains('.') && bytes_of(lower(name@)) <= old(self).compiler.max_variable_name_size ==> r is Ok && (match r->Ok_0 { VariableType::Global(n) => old(self).declared_global(lower(name@)) && n@ == lower(name@), VariableType::Local(_) => !old(self).declared_global(lower(name@)), _ => false }),
        r is Ok && lower(name@).contains('.') ==> !(r->Ok_0 is Local) && (r->Ok_0 is Global ==> r->Ok_0->Global_0@ == own_name(lower(name@))),
//@end
}
