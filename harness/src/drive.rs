//! Drives the real compiled crate through its public API.
use sieve::{runtime::{RuntimeError, Variable}, Compiler, Context, Event, Input, Runtime, Sieve};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Debug, Clone, Default)]
pub struct Outcome {
    pub events: Vec<Event>,
    pub errors: Vec<String>,
    pub err_pos: Vec<usize>, // number of events seen before each error
    pub vars: Vec<(String, Variable)>,
    pub changed: bool,
    pub panicked: Option<String>,
    pub stuck: bool,
}
impl Outcome {
    pub fn var(&self, n: &str) -> Option<&Variable> { self.vars.iter().find(|v| v.0 == n).map(|v| &v.1) }
    pub fn text(&self, n: &str) -> String { self.var(n).map(|v| v.to_string().into_owned()).unwrap_or_default() }
}

pub fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else { "panic".into() }
}
pub fn compile(c: &Compiler, script: &str) -> Result<Sieve, String> {
    compile_bytes(c, script.as_bytes())
}
pub fn compile_bytes(c: &Compiler, script: &[u8]) -> Result<Sieve, String> {
    match catch_unwind(AssertUnwindSafe(|| c.compile(script))) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(e.to_string()),
        Err(e) => Err(format!("PANIC {}", panic_text(e))),
    }
}
pub struct Drive<'a> {
    pub rt: &'a Runtime,
    pub max_steps: usize,
}
impl<'a> Drive<'a> {
    pub fn new(rt: &'a Runtime) -> Self { Drive { rt, max_steps: 10000 } }
    /// `setup` prepares the context, `answer` gives the host's answer to an event.
    pub fn run(&self, script: Arc<Sieve>, msg: &[u8], setup: impl FnOnce(&mut Context), mut answer: impl FnMut(&Event) -> Input) -> Outcome {
        let mut out = Outcome::default();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut ctx = self.rt.filter(msg);
            setup(&mut ctx);
            let mut input = Input::script("main", script);
            let mut steps = 0;
            while let Some(r) = ctx.run(input) {
                steps += 1;
                if steps > self.max_steps { out.stuck = true; break; }
                match r {
                    Ok(ev) => { input = answer(&ev); out.events.push(ev); }
                    Err(e) => { out.err_pos.push(out.events.len()); out.errors.push(err_name(&e)); input = true.into(); }
                }
            }
            out.vars = ctx.global_variable_names().map(|n| (n.to_string(), ctx.global_variable(n).cloned().unwrap_or_default())).collect();
            out.vars.sort_by(|a, b| a.0.cmp(&b.0));
            out.changed = ctx.has_message_changed();
        }));
        if let Err(e) = r { out.panicked = Some(panic_text(e)); }
        out
    }
    pub fn simple(&self, script: Arc<Sieve>, msg: &[u8]) -> Outcome { self.run(script, msg, |_| {}, |_| Input::True) }
}
pub fn err_name(e: &RuntimeError) -> String {
    match e {
        RuntimeError::TooManyIncludes => "TooManyIncludes".into(),
        RuntimeError::InvalidInstruction(_) => "InvalidInstruction".into(),
        RuntimeError::ScriptErrorMessage(m) => format!("ScriptError({m})"),
        RuntimeError::CapabilityNotAllowed(_) => "CapabilityNotAllowed".into(),
        RuntimeError::CapabilityNotSupported(_) => "CapabilityNotSupported".into(),
        RuntimeError::CPULimitReached => "CPULimitReached".into(),
    }
}
/// a quoted Sieve string literal for s
pub fn lit(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' { o.push('\\'); }
        o.push(c);
    }
    o.push('"');
    o
}
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() >> 11) as usize % n.max(1) }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T { let i = self.below(v.len()); &v[i] }
}
