RM='src/runtime/mod.rs'; RC='src/runtime/context.rs'; CM='src/compiler/mod.rs'
SEEDS=[
dict(id='c37-nested-setter', property='C37', file=RM, pairs=[("    pub fn set_max_nested_includes(&mut self, size: usize) {\n        self.max_nested_includes = size;","    pub fn set_max_nested_includes(&mut self, size: usize) {\n        self.max_nested_includes = std::cmp::max(self.max_nested_includes, size);")],
 needs='the nesting limit lowered through set_max_nested_includes', breaks='the limit stays at its default',
 main=r'''
fn main() {
    let mut r = Runtime::new(); r.set_max_nested_includes(1);
    let (ev, _) = run_with(&r, compile("require \"include\"; include \"a\";"), MSG, |_| {}, |_| Input::False);
    same("include asked for", ev.iter().any(|e| matches!(e, Event::IncludeScript { .. })), false);
}'''),
dict(id='c37-lists-kept', property='C37', file=RM, pairs=[("        capabilities: impl IntoIterator<Item = impl Into<Capability>>,\n    ) -> Self {\n        for capability in capabilities {\n            self.allowed_capabilities.remove(&capability.into());","        capabilities: impl IntoIterator<Item = impl Into<Capability>>,\n    ) -> Self {\n        for capability in capabilities {\n            let capability = capability.into();\n            if capability == Capability::EditHeader {\n                self.protected_headers.clear();\n            }\n            self.allowed_capabilities.remove(&capability);")],
 needs='editheader refused with without_capabilities and allowed again later', breaks='the protected header fields may then be edited',
 main=r'''
fn main() {
    let r = Runtime::new().without_capabilities(["editheader"]).with_capability("editheader");
    let (ev, er) = run_with(&r, compile("require [\"editheader\",\"reject\"]; addheader \"Original-From\" \"x\"; if header :is \"Original-From\" \"x\" { reject \"edited\"; }"), MSG, |_| {}, |_| Input::True);
    same("errors", er.len(), 0);
    same("edited", ev.iter().any(|e| matches!(e, Event::Reject { .. })), false);
}'''),
dict(id='c37-env-first', property='C37', file=RC, pairs=[("        value: impl Into<Variable>,\n    ) {\n        self.vars_env.insert(name.into(), value.into());","        value: impl Into<Variable>,\n    ) {\n        self.vars_env\n            .entry(name.into())\n            .or_insert_with(|| value.into());")],
 needs='an environment variable set twice for one message', breaks='the first value stays',
 main=r'''
fn main() {
    let (ev, _) = run_with(&rt(), compile("require [\"environment\",\"reject\"]; if environment :is \"vnd.x\" \"new\" { reject \"T\"; }"), MSG, |c| { c.set_env_variable("vnd.x", "old".to_string()); c.set_env_variable("vnd.x", "new".to_string()); }, |_| Input::True);
    same("new value", ev.iter().any(|e| matches!(e, Event::Reject { .. })), true);
}'''),
dict(id='c37-fullname-escape', property='C37', file=RC, pairs=[("            if ['\\\"', '\\\\'].contains(&ch) {\n                name_.push('\\\\');","            if ['\\\"', '\\\\'].contains(&ch) && !name_.ends_with('\\\\') {\n                name_.push('\\\\');")],
 needs='a full name with a backslash before a quote', breaks='the quote ends the quoted string of the From field',
 main=r'''
fn main() {
    let (ev, _) = run_with(&rt(), compile("require \"vacation\"; vacation :addresses \"me@here.com\" \"away\";"), "From: s@far.net\r\nTo: me@here.com\r\n\r\nx", |c| { c.set_envelope(Envelope::From, "s@far.net"); c.set_user_address("me@here.com"); c.set_user_full_name("A\\\"B"); }, |e| if matches!(e, Event::DuplicateId { .. }) { Input::False } else { Input::True });
    let m = messages(&ev);
    same("from", m[0].lines().find(|l| l.starts_with("From:")).unwrap_or("").trim_end().to_string(), "From: \"A\\\\\\\"B\" <me@here.com>".to_string());
}'''),
dict(id='c37-compiler-header', property='C37', file=CM, pairs=[("    pub fn with_max_nested_tests(mut self, size: usize) -> Self {\n        self.max_nested_tests = size;","    pub fn with_max_nested_tests(mut self, size: usize) -> Self {\n        self.max_nested_tests = size;\n        self.max_nested_blocks = std::cmp::min(self.max_nested_blocks, size);")],
 needs='the limit of nested tests below that of nested blocks', breaks='blocks may be nested less deep than the host allowed',
 main=r'''
fn main() {
    let c = Compiler::new().with_max_nested_tests(3);
    same("compiles", c.compile(format!("{}keep;{}", "if true {".repeat(10), "}".repeat(10)).as_bytes()).is_ok(), true);
}'''),
dict(id='c32-redirect-made', property='C32', file='src/runtime/actions/action_redirect.rs', pairs=[("                if let Some(event) = ctx.build_message_id() {\n                    events.push(event);","                let by_copy = self.copy;\n                if let Some(event) = ctx.build_message_id().filter(|_| !by_copy || self.list) {\n                    events.push(event);")],
 needs='redirect :copy after the message has been edited', breaks='the message sent was never handed to the host',
 main=r'''
fn main() {
    let ev = events("require [\"editheader\",\"copy\"]; addheader \"X-A\" \"1\"; redirect :copy \"a@far.org\";", MSG);
    same("made", messages(&ev).len(), 1);
}'''),
dict(id='c28-skip-depth', property='C28', file='src/compiler/grammar/mod.rs', pairs=[("                        d_count -= 1;\n                    }\n                }\n                Token::Comma => {","                        d_count -= if d_count > 2 { 2 } else { 1 };\n                    }\n                }\n                Token::Comma => {")],
 needs='an unknown test with lists nested two deep, in a list of tests', breaks='what follows the inner list is read as the next test',
 main=r"""
fn main() {
    same("inside", reject_of("require [\"reject\",\"ihave\"]; if anyof (allof (ihave \"none\", some_test (a (b (c), d), e)), true) { reject \"T\"; }", MSG), "T".to_string());
}"""),
dict(id='c28-special-use-not', property='C28', file='src/compiler/grammar/test.rs', pairs=[("                Test::SpecialUseExists(op) => {\n                    op.is_not = true;","                Test::SpecialUseExists(op) => {\n                    op.is_not = op.mailbox.is_none() || op.attributes.len() < 2;")],
 needs='not specialuse_exists with a mailbox and two attributes', breaks='the test is not negated',
 main=r"""
fn main() {
    let ev = events("require [\"special-use\",\"reject\"]; if not specialuse_exists \"a\" [\"\\\\Sent\",\"\\\\Junk\"] { reject \"T\"; }", MSG);
    same("negated", ev.iter().any(|e| matches!(e, Event::Reject { .. })), false);
}"""),
]
