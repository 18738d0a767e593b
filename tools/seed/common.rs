//! Shared by the demonstrations: drives the compiled crate through its public API.
#![allow(dead_code)]
use sieve::*;
use std::sync::Arc;
pub fn compile_with(c: &Compiler, script: &str) -> Arc<Sieve> {
    match c.compile(script.as_bytes()) { Ok(s) => Arc::new(s), Err(e) => fail(&format!("script does not compile: {e}\n{script}")) }
}
pub fn compile(script: &str) -> Arc<Sieve> { compile_with(&Compiler::new(), script) }
/// every event (Debug form) and error of a run; `answer` is the host
pub fn run_with(rt: &Runtime, script: Arc<Sieve>, msg: &str, setup: impl FnOnce(&mut Context), mut answer: impl FnMut(&Event) -> Input) -> (Vec<Event>, Vec<String>) {
    let mut ctx = rt.filter(msg.as_bytes());
    setup(&mut ctx);
    let (mut ev, mut er) = (vec![], vec![]);
    let mut input = Input::script("main", script);
    for _ in 0..100000 {
        match ctx.run(input) {
            None => return (ev, er),
            Some(Ok(e)) => { input = answer(&e); ev.push(e); }
            Some(Err(e)) => { er.push(format!("{e:?}")); input = true.into(); }
        }
    }
    fail("the run does not end")
}
pub fn rt() -> Runtime {
    use sieve::compiler::grammar::Capability as K;
    let mut r = Runtime::new();
    for c in [K::Expressions, K::While, K::Convert, K::ExtractText, K::Replace, K::Enclose] { r = r.with_capability(c); }
    r
}
pub fn events(script: &str, msg: &str) -> Vec<Event> { run_with(&rt(), compile(script), msg, |_| {}, |_| Input::True).0 }
pub const MSG: &str = "From: me@here.com\r\nTo: you@there.com\r\nSubject: hello\r\n\r\nbody\r\n";
/// the reason of the reject the script ends with
pub fn reject_of(script: &str, msg: &str) -> String {
    for e in events(script, msg) { if let Event::Reject { reason, .. } = e { return reason; } }
    fail("no reject")
}
/// "T" / "F" for a test
pub fn test_of(require: &str, test: &str, msg: &str) -> bool {
    let s = format!("require [\"reject\"{require}]; if {test} {{ reject \"T\"; }} else {{ reject \"F\"; }}");
    reject_of(&s, msg) == "T"
}
pub fn messages(ev: &[Event]) -> Vec<String> {
    ev.iter().filter_map(|e| if let Event::CreatedMessage { message, .. } = e { Some(String::from_utf8_lossy(message).into_owned()) } else { None }).collect()
}
pub fn fail(why: &str) -> ! { println!("DEMO: property broken: {why}"); std::process::exit(1) }
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) { if got != want { fail(&format!("{what}: got {got:?}, want {want:?}")) } }
