// ---- the settings of the host: each changes exactly what it names ------------------------
#[verifier::external_body] pub struct Fn_ { x: u8 }
pub enum Capability { Known(u8), Other(String) }
pub enum HeaderName { Known(u8), Other(String) }
pub uninterp spec fn parsed(s: Seq<char>) -> Option<HeaderName>;
impl HeaderName { #[verifier::external_body] pub fn parse(s: String) -> (r: Option<HeaderName>) ensures r == parsed(s@) { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Bag<T> { x: Vec<T> }
impl<T> View for Bag<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl<T> Bag<T> { #[verifier::external_body] pub fn insert(&mut self, t: T) -> bool ensures final(self)@ == old(self)@.insert(t) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, t: &T) -> bool ensures final(self)@ == old(self)@.remove(*t) { unimplemented!() } }
#[verifier::external_body] pub struct Table { x: u8 }
impl View for Table { type V = Map<Seq<char>, Variable>; uninterp spec fn view(&self) -> Map<Seq<char>, Variable>; }
impl Table { #[verifier::external_body] pub fn insert(&mut self, k: String, v: Variable) -> Option<Variable> ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() } }
#[verifier::external_body] pub struct Label { x: u8 }
#[verifier::external_body] pub struct Names { x: u8 }
pub enum SpamStatus { Unknown, Ham, MaybeSpam(f64), Spam }
pub enum VirusStatus { Unknown, Clean, Replaced, Cured, MaybeVirus, Virus }
#[derive(PartialEq, Eq, Structural)] pub enum Envelope { From, To, Other(u8) }
pub assume_specification<T: Default> [std::mem::take] (a: &mut T) -> (r: T) ensures r == *old(a);
pub struct FunctionMap { pub map: Names, pub functions: Vec<Fn_> }
impl Default for Names { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
//@type src/lib.rs Runtime
//@ drop include_scripts
//@ replace "AHashSet<Capability>" => "Bag<Capability>"
//@ replace "AHashSet<Cow<'static, str>>" => "Bag<String>"
//@ replace "Vec<HeaderName<'static>>" => "Vec<HeaderName>"
//@ replace "AHashMap<Cow<'static, str>, Variable>" => "Table"
//@ replace "Vec<(Metadata<String>, Cow<'static, str>)>" => "Vec<(Label, String)>"
//@ replace "Vec<Function>" => "Vec<Fn_>"
//@ replace "local_hostname: Cow<'static, str>" => "local_hostname: String"
//@ replace "vacation_default_subject: Cow<'static, str>" => "vacation_default_subject: String"
//@ replace "vacation_subject_prefix: Cow<'static, str>" => "vacation_subject_prefix: String"
//@end
//@type src/lib.rs Compiler
//@ replace "AHashMap<String, (u32, u32)>" => "Names"
//@end
//@type src/lib.rs Context
//@ keep runtime user_address user_full_name envelope metadata spam_status virus_status vars_env vars_global main_message_id
//@ replace "AHashMap<Cow<'static, str>, Variable>" => "Table"
//@ replace "Vec<(Metadata<String>, Cow<'x, str>)>" => "Vec<(Label, String)>"
//@ replace "Cow<'x, str>" => "String"
//@end
// a quoted string of a header field: quotes and backslashes are escaped
pub open spec fn quoted_pair(c: char) -> bool { c == '"' || c == '\\' }
pub open spec fn escaped(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if quoted_pair(s.last()) { escaped(s.drop_last()).push('\\').push(s.last()) } else { escaped(s.drop_last()).push(s.last()) } }
#[verifier::external_body] pub fn quotes(c: char) -> (r: bool) ensures r == quoted_pair(c) { ['\"', '\\'].contains(&c) }
// the capabilities left when a list of them is refused
pub open spec fn without(s: Set<Capability>, c: Seq<Capability>) -> Set<Capability> decreases c.len() { if c.len() == 0 { s } else { without(s, c.drop_last()).remove(c.last()) } }
pub open spec fn all_parsed(s: Seq<String>) -> Seq<HeaderName> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match parsed(s.last()@) { Some(h) => all_parsed(s.drop_last()).push(h), None => all_parsed(s.drop_last()) } } }
// into_iter().filter_map(HeaderName::parse).collect() and into_iter().map(Into::into).collect()
#[verifier::external_body] pub fn parsed_of(s: Vec<String>) -> (r: Vec<HeaderName>) ensures r@ == all_parsed(s@) { unimplemented!() }
#[verifier::external_body] pub fn bag_of(s: Vec<String>) -> (r: Bag<String>) ensures r@ == s@.to_set() { unimplemented!() }
impl Runtime {
//@fn src/runtime/mod.rs Runtime::set_cpu_limit
//@ spec
    ensures *final(self) == (Runtime { cpu_limit: size, ..*old(self) }),
//@end
//@fn src/runtime/mod.rs Runtime::with_cpu_limit
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Runtime { cpu_limit: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_max_nested_includes
//@ spec
    ensures *final(self) == (Runtime { max_nested_includes: size, ..*old(self) }),
//@end
//@fn src/runtime/mod.rs Runtime::with_max_nested_includes
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Runtime { max_nested_includes: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_max_redirects
//@ spec
    ensures *final(self) == (Runtime { max_redirects: size, ..*old(self) }),
//@end
//@fn src/runtime/mod.rs Runtime::with_max_redirects
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Runtime { max_redirects: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_max_out_messages
//@ spec
    ensures *final(self) == (Runtime { max_out_messages: size, ..*old(self) }),
//@end
//@fn src/runtime/mod.rs Runtime::with_max_out_messages
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Runtime { max_out_messages: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_max_received_headers
//@ spec
    ensures *final(self) == (Runtime { max_received_headers: size, ..*old(self) }),
//@end
//@fn src/runtime/mod.rs Runtime::with_max_received_headers
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Runtime { max_received_headers: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_max_variable_size
//@ spec
    ensures *final(self) == (Runtime { max_variable_size: size, ..*old(self) }),
//@end
//@fn src/runtime/mod.rs Runtime::with_max_variable_size
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Runtime { max_variable_size: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_max_header_size
//@ spec
    ensures *final(self) == (Runtime { max_header_size: size, ..*old(self) }),
//@end
//@fn src/runtime/mod.rs Runtime::with_max_header_size
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Runtime { max_header_size: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_default_vacation_expiry
//@ spec
    ensures *final(self) == (Runtime { default_vacation_expiry: expiry, ..*old(self) }),
//@end
//@fn src/runtime/mod.rs Runtime::with_default_vacation_expiry
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Runtime { default_vacation_expiry: expiry, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_default_duplicate_expiry
//@ spec
    ensures *final(self) == (Runtime { default_duplicate_expiry: expiry, ..*old(self) }),
//@end
//@fn src/runtime/mod.rs Runtime::with_default_duplicate_expiry
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Runtime { default_duplicate_expiry: expiry, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_vacation_use_orig_rcpt
//@ spec
    ensures *final(self) == (Runtime { vacation_use_orig_rcpt: value, ..*old(self) }),
//@end
//@fn src/runtime/mod.rs Runtime::with_vacation_use_orig_rcpt
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Runtime { vacation_use_orig_rcpt: value, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_vacation_default_subject
//@ sig "value: impl Into<Cow<'static, str>>" => "value: String"
//@ replace? "value.into()" => "value"
//@ spec
    ensures *final(self) == (Runtime { vacation_default_subject: value, ..*old(self) }),
//@end
//@fn src/runtime/mod.rs Runtime::with_vacation_default_subject
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "value: impl Into<Cow<'static, str>>" => "value: String"
//@ replace? "value.into()" => "value"
//@ ret r
//@ spec
    ensures r == (Runtime { vacation_default_subject: value, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_vacation_subject_prefix
//@ sig "value: impl Into<Cow<'static, str>>" => "value: String"
//@ replace? "value.into()" => "value"
//@ spec
    ensures *final(self) == (Runtime { vacation_subject_prefix: value, ..*old(self) }),
//@end
//@fn src/runtime/mod.rs Runtime::with_vacation_subject_prefix
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "value: impl Into<Cow<'static, str>>" => "value: String"
//@ replace? "value.into()" => "value"
//@ ret r
//@ spec
    ensures r == (Runtime { vacation_subject_prefix: value, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_local_hostname
//@ sig "value: impl Into<Cow<'static, str>>" => "value: String"
//@ replace? "value.into()" => "value"
//@ spec
    ensures *final(self) == (Runtime { local_hostname: value, ..*old(self) }),
//@end
//@fn src/runtime/mod.rs Runtime::with_local_hostname
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "value: impl Into<Cow<'static, str>>" => "value: String"
//@ replace? "value.into()" => "value"
//@ ret r
//@ spec
    ensures r == (Runtime { local_hostname: value, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_capability
//@ sig "capability: impl Into<Capability>" => "capability: Capability"
//@ replace? "capability.into()" => "capability"
//@ spec
    ensures final(self).allowed_capabilities@ == old(self).allowed_capabilities@.insert(capability), (Runtime { allowed_capabilities: old(self).allowed_capabilities, ..*final(self) }) == *old(self),
//@end
//@fn src/runtime/mod.rs Runtime::with_capability
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "capability: impl Into<Capability>" => "capability: Capability"
//@ replace? "capability.into()" => "capability"
//@ ret r
//@ spec
    ensures r.allowed_capabilities@ == self.allowed_capabilities@.insert(capability), (Runtime { allowed_capabilities: self.allowed_capabilities, ..r }) == self,
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::unset_capability
//@ sig "capability: impl Into<Capability>" => "capability: Capability"
//@ replace? "capability.into()" => "capability"
//@ spec
    ensures final(self).allowed_capabilities@ == old(self).allowed_capabilities@.remove(capability), (Runtime { allowed_capabilities: old(self).allowed_capabilities, ..*final(self) }) == *old(self),
//@end
//@fn src/runtime/mod.rs Runtime::without_capability
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "capability: impl Into<Capability>" => "capability: Capability"
//@ replace? "capability.into()" => "capability"
//@ ret r
//@ spec
    ensures r.allowed_capabilities@ == self.allowed_capabilities@.remove(capability), (Runtime { allowed_capabilities: self.allowed_capabilities, ..r }) == self,
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::without_capabilities
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "capabilities: impl IntoIterator<Item = impl Into<Capability>>" => "capabilities: Vec<Capability>"
//@ replace? "capability.into()" => "capability"
//@ ret r
//@ spec
    ensures r.allowed_capabilities@ == without(self.allowed_capabilities@, capabilities@), (Runtime { allowed_capabilities: self.allowed_capabilities, ..r }) == self,
//@ at start
    let ghost given = capabilities@; let mut this = self;
    proof { assert(given.take(0) =~= Seq::<Capability>::empty()); assert(given.take(given.len() as int) =~= given); }
//@ loop 0 for it it
    invariant it.seq() == given, 0 <= it.index() <= given.len(), this.allowed_capabilities@ == without(self.allowed_capabilities@, given.take(it.index() as int)), (Runtime { allowed_capabilities: self.allowed_capabilities, ..this }) == self, given == capabilities@,
//@ at loop 0 start
    proof { assert(given.take(it.index() + 1).drop_last() =~= given.take(it.index() as int)); }
//@end
//@fn src/runtime/mod.rs Runtime::with_protected_headers
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "header_names: impl IntoIterator<Item = impl Into<Cow<'static, str>>>" => "header_names: Vec<String>"
//@ replace "header_names.into_iter().filter_map(HeaderName::parse).collect()" => "parsed_of(header_names)"
//@ ret r
//@ spec
    ensures r.protected_headers@ == all_parsed(header_names@), (Runtime { protected_headers: self.protected_headers, ..r }) == self,
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::with_valid_notification_uris
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "uris: impl IntoIterator<Item = impl Into<Cow<'static, str>>>" => "uris: Vec<String>"
//@ replace "uris.into_iter().map(Into::into).collect()" => "bag_of(uris)"
//@ ret r
//@ spec
    ensures r.valid_notification_uris@ == uris@.to_set(), (Runtime { valid_notification_uris: self.valid_notification_uris, ..r }) == self,
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::with_valid_ext_lists
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "lists: impl IntoIterator<Item = impl Into<Cow<'static, str>>>" => "lists: Vec<String>"
//@ replace "lists.into_iter().map(Into::into).collect()" => "bag_of(lists)"
//@ ret r
//@ spec
    ensures r.valid_ext_lists@ == lists@.to_set(), (Runtime { valid_ext_lists: self.valid_ext_lists, ..r }) == self,
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_valid_notification_uri
//@ sig "uri: impl Into<Cow<'static, str>>" => "uri: String"
//@ replace? "uri.into()" => "uri"
//@ spec
    ensures final(self).valid_notification_uris@ == old(self).valid_notification_uris@.insert(uri), (Runtime { valid_notification_uris: old(self).valid_notification_uris, ..*final(self) }) == *old(self),
//@end
//@fn src/runtime/mod.rs Runtime::with_valid_notification_uri
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "uri: impl Into<Cow<'static, str>>" => "uri: String"
//@ replace? "uri.into()" => "uri"
//@ ret r
//@ spec
    ensures r.valid_notification_uris@ == self.valid_notification_uris@.insert(uri), (Runtime { valid_notification_uris: self.valid_notification_uris, ..r }) == self,
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_valid_ext_list
//@ sig "name: impl Into<Cow<'static, str>>" => "name: String"
//@ replace? "name.into()" => "name"
//@ spec
    ensures final(self).valid_ext_lists@ == old(self).valid_ext_lists@.insert(name), (Runtime { valid_ext_lists: old(self).valid_ext_lists, ..*final(self) }) == *old(self),
//@end
//@fn src/runtime/mod.rs Runtime::with_valid_ext_list
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "name: impl Into<Cow<'static, str>>" => "name: String"
//@ replace? "name.into()" => "name"
//@ ret r
//@ spec
    ensures r.valid_ext_lists@ == self.valid_ext_lists@.insert(name), (Runtime { valid_ext_lists: self.valid_ext_lists, ..r }) == self,
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_env_variable
//@ sig "name: impl Into<Cow<'static, str>>" => "name: String"
//@ sig "value: impl Into<Variable>" => "value: Variable"
//@ replace? "name.into()" => "name"
//@ replace? "value.into()" => "value"
//@ spec
    ensures final(self).environment@ == old(self).environment@.insert(name@, value), (Runtime { environment: old(self).environment, ..*final(self) }) == *old(self),
//@end
//@fn src/runtime/mod.rs Runtime::with_env_variable
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "name: impl Into<Cow<'static, str>>" => "name: String"
//@ sig "value: impl Into<Cow<'static, str>>" => "value: String"
//@ replace? "name.into()" => "name"
//@ replace? "value.into()" => "Variable::from(value)"
//@ ret r
//@ spec
    ensures r.environment@ == self.environment@.insert(name@, r.environment@[name@]), is_text(r.environment@[name@], value@), (Runtime { environment: self.environment, ..r }) == self,
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_protected_header
//@ sig "header_name: impl Into<Cow<'static, str>>" => "header_name: String"
//@ spec
    ensures final(self).protected_headers@ == (if parsed(header_name@) is Some { old(self).protected_headers@.push(parsed(header_name@)->0) } else { old(self).protected_headers@ }), (Runtime { protected_headers: old(self).protected_headers, ..*final(self) }) == *old(self),
//@end
//@fn src/runtime/mod.rs Runtime::with_protected_header
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "header_name: impl Into<Cow<'static, str>>" => "header_name: String"
//@ ret r
//@ spec
    ensures r.protected_headers@ == (if parsed(header_name@) is Some { self.protected_headers@.push(parsed(header_name@)->0) } else { self.protected_headers@ }), (Runtime { protected_headers: self.protected_headers, ..r }) == self,
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_medatata
//@ sig "name: impl Into<Metadata<String>>" => "name: Label"
//@ sig "value: impl Into<Cow<'static, str>>" => "value: String"
//@ replace? "(name.into(), value.into())" => "(name, value)"
//@ spec
    ensures final(self).metadata@ == old(self).metadata@.push((name, value)), (Runtime { metadata: old(self).metadata, ..*final(self) }) == *old(self),
//@end
//@fn src/runtime/mod.rs Runtime::with_metadata
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "name: impl Into<Metadata<String>>" => "name: Label"
//@ sig "value: impl Into<Cow<'static, str>>" => "value: String"
//@ replace? "(name.into(), value.into())" => "(name, value)"
//@ ret r
//@ spec
    ensures r.metadata@ == self.metadata@.push((name, value)), (Runtime { metadata: self.metadata, ..r }) == self,
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/mod.rs Runtime::set_functions
//@ spec
    ensures *final(self) == (Runtime { functions: old(fnc_map).functions, ..*old(self) }),
//@end
//@fn src/runtime/mod.rs Runtime::with_functions
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Runtime { functions: old(fnc_map).functions, ..self }),
//@ at start
    let mut this = self;
//@end
}
impl Compiler {
//@fn src/compiler/mod.rs Compiler::set_max_header_size
//@ spec
    ensures *final(self) == (Compiler { max_header_size: size, ..*old(self) }),
//@end
//@fn src/compiler/mod.rs Compiler::with_max_header_size
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Compiler { max_header_size: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/compiler/mod.rs Compiler::set_max_includes
//@ spec
    ensures *final(self) == (Compiler { max_includes: size, ..*old(self) }),
//@end
//@fn src/compiler/mod.rs Compiler::with_max_includes
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Compiler { max_includes: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/compiler/mod.rs Compiler::set_max_nested_blocks
//@ spec
    ensures *final(self) == (Compiler { max_nested_blocks: size, ..*old(self) }),
//@end
//@fn src/compiler/mod.rs Compiler::with_max_nested_blocks
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Compiler { max_nested_blocks: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/compiler/mod.rs Compiler::set_max_nested_tests
//@ spec
    ensures *final(self) == (Compiler { max_nested_tests: size, ..*old(self) }),
//@end
//@fn src/compiler/mod.rs Compiler::with_max_nested_tests
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Compiler { max_nested_tests: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/compiler/mod.rs Compiler::set_max_nested_foreverypart
//@ spec
    ensures *final(self) == (Compiler { max_nested_foreverypart: size, ..*old(self) }),
//@end
//@fn src/compiler/mod.rs Compiler::with_max_nested_foreverypart
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Compiler { max_nested_foreverypart: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/compiler/mod.rs Compiler::set_max_script_size
//@ spec
    ensures *final(self) == (Compiler { max_script_size: size, ..*old(self) }),
//@end
//@fn src/compiler/mod.rs Compiler::with_max_script_size
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Compiler { max_script_size: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/compiler/mod.rs Compiler::set_max_string_size
//@ spec
    ensures *final(self) == (Compiler { max_string_size: size, ..*old(self) }),
//@end
//@fn src/compiler/mod.rs Compiler::with_max_string_size
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Compiler { max_string_size: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/compiler/mod.rs Compiler::set_max_variable_name_size
//@ spec
    ensures *final(self) == (Compiler { max_variable_name_size: size, ..*old(self) }),
//@end
//@fn src/compiler/mod.rs Compiler::with_max_variable_name_size
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Compiler { max_variable_name_size: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/compiler/mod.rs Compiler::set_max_match_variables
//@ spec
    ensures *final(self) == (Compiler { max_match_variables: size, ..*old(self) }),
//@end
//@fn src/compiler/mod.rs Compiler::with_max_match_variables
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Compiler { max_match_variables: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/compiler/mod.rs Compiler::set_max_local_variables
//@ spec
    ensures *final(self) == (Compiler { max_local_variables: size, ..*old(self) }),
//@end
//@fn src/compiler/mod.rs Compiler::with_max_local_variables
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Compiler { max_local_variables: size, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/compiler/mod.rs Compiler::set_no_capability_check
//@ spec
    ensures *final(self) == (Compiler { no_capability_check: value, ..*old(self) }),
//@end
//@fn src/compiler/mod.rs Compiler::with_no_capability_check
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Compiler { no_capability_check: value, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/compiler/mod.rs Compiler::register_functions
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Compiler { functions: old(fnc_map).map, ..self }),
//@ at start
    let mut this = self;
//@end
}
impl<'x> Context<'x> {
//@fn src/runtime/context.rs Context::set_user_address
//@ sig "from: impl Into<Cow<'x, str>>" => "from: String"
//@ replace? "from.into()" => "from"
//@ spec
    ensures *final(self) == (Context { user_address: from, ..*old(self) }),
//@end
//@fn src/runtime/context.rs Context::with_user_address
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "from: impl Into<Cow<'x, str>>" => "from: String"
//@ replace? "from.into()" => "from"
//@ ret r
//@ spec
    ensures r == (Context { user_address: from, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/context.rs Context::set_spam_status
//@ sig "status: impl Into<SpamStatus>" => "status: SpamStatus"
//@ replace? "status.into()" => "status"
//@ spec
    ensures *final(self) == (Context { spam_status: status, ..*old(self) }),
//@end
//@fn src/runtime/context.rs Context::with_spam_status
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "status: impl Into<SpamStatus>" => "status: SpamStatus"
//@ replace? "status.into()" => "status"
//@ ret r
//@ spec
    ensures r == (Context { spam_status: status, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/context.rs Context::set_virus_status
//@ sig "status: impl Into<VirusStatus>" => "status: VirusStatus"
//@ replace? "status.into()" => "status"
//@ spec
    ensures *final(self) == (Context { virus_status: status, ..*old(self) }),
//@end
//@fn src/runtime/context.rs Context::with_virus_status
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "status: impl Into<VirusStatus>" => "status: VirusStatus"
//@ replace? "status.into()" => "status"
//@ ret r
//@ spec
    ensures r == (Context { virus_status: status, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/context.rs Context::set_env_variable
//@ sig "name: impl Into<Cow<'static, str>>" => "name: String"
//@ sig "value: impl Into<Variable>" => "value: Variable"
//@ replace? "name.into()" => "name"
//@ replace? "value.into()" => "value"
//@ spec
    ensures final(self).vars_env@ == old(self).vars_env@.insert(name@, value), (Context { vars_env: old(self).vars_env, ..*final(self) }) == *old(self),
//@end
//@fn src/runtime/context.rs Context::with_env_variable
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "name: impl Into<Cow<'static, str>>" => "name: String"
//@ sig "value: impl Into<Variable>" => "value: Variable"
//@ replace? "name.into()" => "name"
//@ replace? "value.into()" => "value"
//@ ret r
//@ spec
    ensures r.vars_env@ == self.vars_env@.insert(name@, value), (Context { vars_env: self.vars_env, ..r }) == self,
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/context.rs Context::set_global_variable
//@ sig "name: impl Into<Cow<'static, str>>" => "name: String"
//@ sig "value: impl Into<Variable>" => "value: Variable"
//@ replace? "name.into()" => "name"
//@ replace? "value.into()" => "value"
//@ spec
    ensures final(self).vars_global@ == old(self).vars_global@.insert(name@, value), (Context { vars_global: old(self).vars_global, ..*final(self) }) == *old(self),
//@end
//@fn src/runtime/context.rs Context::with_global_variable
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "name: impl Into<Cow<'static, str>>" => "name: String"
//@ sig "value: impl Into<Variable>" => "value: Variable"
//@ replace? "name.into()" => "name"
//@ replace? "value.into()" => "value"
//@ ret r
//@ spec
    ensures r.vars_global@ == self.vars_global@.insert(name@, value), (Context { vars_global: self.vars_global, ..r }) == self,
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/context.rs Context::set_medatata
//@ sig "name: impl Into<Metadata<String>>" => "name: Label"
//@ sig "value: impl Into<Cow<'x, str>>" => "value: String"
//@ replace? "(name.into(), value.into())" => "(name, value)"
//@ spec
    ensures final(self).metadata@ == old(self).metadata@.push((name, value)), (Context { metadata: old(self).metadata, ..*final(self) }) == *old(self),
//@end
//@fn src/runtime/context.rs Context::with_metadata
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "name: impl Into<Metadata<String>>" => "name: Label"
//@ sig "value: impl Into<Cow<'x, str>>" => "value: String"
//@ replace? "(name.into(), value.into())" => "(name, value)"
//@ ret r
//@ spec
    ensures r.metadata@ == self.metadata@.push((name, value)), (Context { metadata: self.metadata, ..r }) == self,
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/context.rs Context::with_vars_env
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ sig "AHashMap<Cow<'static, str>, Variable>" => "Table"
//@ ret r
//@ spec
    ensures r == (Context { vars_env: vars_env, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/context.rs Context::with_envelope_list
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r == (Context { envelope: envelope, ..self }),
//@ at start
    let mut this = self;
//@end
//@fn src/runtime/context.rs Context::clear_envelope
//@ spec
    ensures final(self).envelope@.len() == 0, (Context { envelope: old(self).envelope, ..*final(self) }) == *old(self),
//@end
//@fn src/runtime/context.rs Context::has_message_changed
//@ ret r
//@ spec
    ensures r == (self.main_message_id > 0),
//@end
//@fn src/runtime/context.rs Context::set_user_full_name
//@ replace "['\\\"', '\\\\'].contains(&ch)" => "quotes(ch)"
//@ replace "name_.into()" => "name_"
//@ spec
    ensures final(self).user_full_name@ == escaped(name@), (Context { user_full_name: old(self).user_full_name, ..*final(self) }) == *old(self),
//@ at start
    let ghost given = name@; proof { assert(given.take(0) =~= Seq::<char>::empty()); assert(given.take(given.len() as int) =~= given); }
//@ loop 0 for it it
    invariant it.seq() == given, 0 <= it.index() <= given.len(), name_@ == escaped(given.take(it.index() as int)), given == name@,
//@ at loop 0 start
    proof { assert(given.take(it.index() + 1).drop_last() =~= given.take(it.index() as int)); }
//@end
//@fn src/runtime/context.rs Context::with_user_full_name
//@ sig "mut self" => "self"
//@ replace "self" => "this"
//@ ret r
//@ spec
    ensures r.user_full_name@ == escaped(name@), (Context { user_full_name: self.user_full_name, ..r }) == self,
//@ at start
    let mut this = self;
//@end
}
