//! A reference interpreter for the core of the language: structure, variables, match variables,
//! includes, parts and the implicit keep. Independent of the compiler: it works on the tree.
use crate::drive::{lit, Rng};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Pc { Lit(String), Var(String), Mv(usize) }
pub type Str = Vec<Pc>;
#[derive(Clone, Debug)]
pub enum T { True, False, Not(Box<T>), All(Vec<T>), Any(Vec<T>), Is(Str, Str), Glob(Str, String), Regex(Str, String), Dup(Str) }
#[derive(Clone, Debug)]
pub enum S {
    Set { name: String, local: bool, v: Str }, Global(Vec<String>), If(Vec<(T, Vec<S>)>, Option<Vec<S>>), Trace(Str),
    Keep(Vec<String>), AddFlag(Vec<String>), Discard, FileInto(Str), Redirect { copy: bool, addr: String }, Reject(Str), Stop, Return, Error(Str),
    Include { name: String, once: bool, optional: bool }, Parts(Vec<S>), While { ctr: String, n: usize, body: Vec<S> }, Break, Continue, Bad,
}
pub type Lib = BTreeMap<String, Vec<S>>;

// ---------------------------------------------------------------- source text
pub fn show_str(s: &Str) -> String {
    let mut o = String::from("\"");
    for p in s { match p { Pc::Lit(t) => { let l = lit(t); o.push_str(&l[1..l.len() - 1]); } Pc::Var(n) => o.push_str(&format!("${{{n}}}")), Pc::Mv(n) => o.push_str(&format!("${{{n}}}")) } }
    o.push('"'); o
}
fn list(v: &[String]) -> String { format!("[{}]", v.iter().map(|x| lit(x)).collect::<Vec<_>>().join(",")) }
pub fn show_test(t: &T) -> String {
    match t {
        T::True => "true".into(), T::False => "false".into(), T::Not(t) => format!("not {}", show_test(t)),
        T::All(v) => format!("allof({})", v.iter().map(show_test).collect::<Vec<_>>().join(", ")),
        T::Any(v) => format!("anyof({})", v.iter().map(show_test).collect::<Vec<_>>().join(", ")),
        T::Is(a, b) => format!("string :comparator \"i;octet\" {} {}", show_str(a), show_str(b)),
        T::Glob(a, p) => format!("string :matches {} {}", show_str(a), lit(p)),
        T::Regex(a, p) => format!("string :regex {} {}", show_str(a), lit(p)),
        T::Dup(a) => format!("duplicate :uniqueid {}", show_str(a)),
    }
}
pub fn show(b: &[S], ind: usize) -> String {
    let p = " ".repeat(ind); let mut o = String::new();
    for s in b {
        o.push_str(&p);
        o.push_str(&match s {
            S::Set { name, local, v } => format!("set {}{} {};", if *local { ":local " } else { "" }, lit(name), show_str(v)),
            S::Global(n) => format!("global {};", list(n)),
            S::If(br, el) => {
                let mut t = String::new();
                for (i, (c, b)) in br.iter().enumerate() { t.push_str(&format!("{} {} {{\n{}{p}}} ", if i == 0 { "if" } else { "elsif" }, show_test(c), show(b, ind + 1))); }
                if let Some(b) = el { t.push_str(&format!("else {{\n{}{p}}}", show(b, ind + 1))); }
                t
            }
            S::Trace(v) => format!("fileinto :copy {};", show_str(v)),
            S::Keep(f) => if f.is_empty() { "keep;".into() } else { format!("keep :flags {};", list(f)) },
            S::AddFlag(f) => format!("addflag {};", list(f)),
            S::Discard => "discard;".into(), S::FileInto(v) => format!("fileinto {};", show_str(v)),
            S::Redirect { copy, addr } => format!("redirect {}{};", if *copy { ":copy " } else { "" }, lit(addr)),
            S::Reject(v) => format!("reject {};", show_str(v)), S::Stop => "stop;".into(), S::Return => "return;".into(),
            S::Error(v) => format!("error {};", show_str(v)),
            S::Include { name, once, optional } => format!("include {}{}{};", if *once { ":once " } else { "" }, if *optional { ":optional " } else { "" }, lit(name)),
            S::Parts(b) => format!("foreverypart {{\n{}{p}}}", show(b, ind + 1)),
            S::While { ctr, n, body } => format!("let \"global.{ctr}\" \"0\";\n{p}while \"global.{ctr} < {n}\" {{\n{p} let \"global.{ctr}\" \"global.{ctr} + 1\";\n{}{p}}}", show(body, ind + 1)),
            S::Break => "break;".into(), S::Continue => "continue;".into(), S::Bad => "frobnicate \"x\";".into(),
        });
        o.push('\n');
    }
    o
}
pub const REQ: &str = "require [\"variables\",\"fileinto\",\"copy\",\"include\",\"duplicate\",\"regex\",\"reject\",\"imap4flags\",\"foreverypart\",\"ihave\",\"vnd.stalwart.while\",\"vnd.stalwart.expressions\"];\n";

// ---------------------------------------------------------------- static resolution
#[derive(Clone, Debug, PartialEq)]
enum RP { Lit(String), Glo(String), Loc(usize), Mv(usize) }
type RStr = Vec<RP>;
#[derive(Clone, Debug)]
enum RT { Const(bool), Not(Box<RT>), All(Vec<RT>), Any(Vec<RT>), Is(RStr, RStr), Glob(RStr, String, Rc<Cell<u64>>), Regex(RStr, String, Rc<Cell<u64>>), Dup(RStr) }
#[derive(Debug)]
struct RB { ss: Vec<RS>, locals: Vec<usize>, tests: Vec<Rc<Cell<u64>>> }
#[derive(Debug)]
enum RS {
    Set(RP, RStr), Nop, If(Vec<(RT, RB)>, Option<RB>), Trace(RStr), Keep(Vec<String>), AddFlag(Vec<String>), Discard, FileInto(RStr), Redirect(bool, String),
    Reject(RStr), Stop, Return, Error(RStr), Include(String, bool, bool), Parts(RB), While(String, usize, RB), Break, Continue, Bad,
}
struct Scope { vars: BTreeMap<String, usize>, tests: Vec<Rc<Cell<u64>>>, own: Vec<usize> }
struct Res { scopes: Vec<Scope>, globals: BTreeSet<String>, n: usize }
impl Res {
    fn str(&mut self, s: &Str) -> RStr {
        let mut o = vec![];
        for p in s { match p {
            Pc::Lit(t) => o.push(RP::Lit(t.clone())),
            Pc::Var(n) => { let n = n.to_lowercase();
                if let Some(g) = n.strip_prefix("global.").or(n.strip_prefix("t.")) { o.push(RP::Glo(g.into())) }
                else if self.globals.contains(&n) { o.push(RP::Glo(n)) }
                else if let Some(i) = self.find(&n) { o.push(RP::Loc(i)) } }
            Pc::Mv(n) => {
                // the tests of the innermost block that already has one are the ones the variable refers to
                if let Some(sc) = self.scopes.iter().rev().find(|s| !s.tests.is_empty()) { for t in &sc.tests { t.set(t.get() | 1 << n); } o.push(RP::Mv(*n)); } }
        } }
        o
    }
    fn find(&self, n: &str) -> Option<usize> { self.scopes.iter().rev().find_map(|s| s.vars.get(n).copied()) }
    fn test(&mut self, t: &T) -> RT {
        match t {
            T::True => RT::Const(true), T::False => RT::Const(false), T::Not(t) => RT::Not(Box::new(self.test(t))),
            T::All(v) => RT::All(v.iter().map(|t| self.test(t)).collect()), T::Any(v) => RT::Any(v.iter().map(|t| self.test(t)).collect()),
            T::Is(a, b) => { let a = self.str(a); RT::Is(a, self.str(b)) }
            T::Glob(a, p) => { let a = self.str(a); let c = Rc::new(Cell::new(0)); self.scopes.last_mut().unwrap().tests.push(c.clone()); RT::Glob(a, p.clone(), c) }
            T::Regex(a, p) => { let a = self.str(a); let c = Rc::new(Cell::new(0)); self.scopes.last_mut().unwrap().tests.push(c.clone()); RT::Regex(a, p.clone(), c) }
            T::Dup(a) => RT::Dup(self.str(a)),
        }
    }
    fn block(&mut self, b: &[S]) -> RB {
        self.scopes.push(Scope { vars: BTreeMap::new(), tests: vec![], own: vec![] });
        let ss = b.iter().map(|s| self.stmt(s)).collect();
        let sc = self.scopes.pop().unwrap();
        RB { ss, locals: sc.own, tests: sc.tests }
    }
    fn stmt(&mut self, s: &S) -> RS {
        match s {
            S::Set { name, local, v } => {
                let n = name.to_lowercase();
                let target = if let Some(g) = n.strip_prefix("global.") { RP::Glo(g.into()) } else if self.globals.contains(&n) { RP::Glo(n) }
                    else if let Some(i) = self.find(&n) { RP::Loc(i) }
                    else { let i = self.n; self.n += 1;
                        if *local && self.scopes.len() > 1 { self.scopes[0].vars.insert(n, i); }
                        else { let sc = self.scopes.last_mut().unwrap(); sc.vars.insert(n, i); sc.own.push(i); }
                        RP::Loc(i) };
                RS::Set(target, self.str(v))
            }
            S::Global(n) => { for x in n { self.globals.insert(x.to_lowercase()); } RS::Nop }
            S::If(br, el) => { let r = br.iter().map(|(t, b)| { let t = self.test(t); (t, self.block(b)) }).collect(); RS::If(r, el.as_ref().map(|b| self.block(b))) }
            S::Trace(v) => RS::Trace(self.str(v)), S::Keep(f) => RS::Keep(f.clone()), S::AddFlag(f) => RS::AddFlag(f.clone()), S::Discard => RS::Discard,
            S::FileInto(v) => RS::FileInto(self.str(v)), S::Redirect { copy, addr } => RS::Redirect(*copy, addr.clone()), S::Reject(v) => RS::Reject(self.str(v)),
            S::Stop => RS::Stop, S::Return => RS::Return, S::Error(v) => RS::Error(self.str(v)), S::Include { name, once, optional } => RS::Include(name.clone(), *once, *optional),
            S::Parts(b) => RS::Parts(self.block(b)), S::While { ctr, n, body } => RS::While(ctr.clone(), *n, self.block(body)), S::Break => RS::Break, S::Continue => RS::Continue, S::Bad => RS::Bad,
        }
    }
}
fn resolve(b: &[S]) -> RB { Res { scopes: vec![], globals: BTreeSet::new(), n: 0 }.block(b) }

// ---------------------------------------------------------------- execution
#[derive(Clone, PartialEq)]
enum Fin { Keep(Vec<String>), Discard, None }
enum Flow { Next, Break, Continue, Return, End, Over }
pub struct Run<'a> { lib: &'a Lib, max_nested: usize, max_redirects: usize, max_out: usize, fin: Fin, glob: BTreeMap<String, String>, cache: BTreeSet<String>, active: usize, pub max_active: usize,
    redirects: usize, outs: usize, part: u8, loops: usize, pub steps: usize, pub cost: usize, pub pend: BTreeSet<(usize, String)>, pub out: Vec<String>, own: String, over: bool }
struct Frame { loc: BTreeMap<usize, String>, mv: BTreeMap<usize, String> }
pub fn answer(id: &str) -> bool { id.bytes().fold(7u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32)) % 3 == 0 }
fn glob_caps(p: &str, v: &str) -> Option<Vec<String>> {
    // leftmost wildcards as short as possible (ASCII lower-case only)
    fn go(p: &[char], v: &[char], caps: &mut Vec<String>) -> bool {
        match p.first() { None => v.is_empty(),
            Some('*') => { for k in 0..=v.len() { caps.push(v[..k].iter().collect()); if go(&p[1..], &v[k..], caps) { return true; } caps.pop(); } false }
            Some('?') => { if v.is_empty() { return false; } caps.push(v[0].to_string()); if go(&p[1..], &v[1..], caps) { return true; } caps.pop(); false }
            Some(c) => !v.is_empty() && v[0] == *c && go(&p[1..], &v[1..], caps) }
    }
    let (p, vc): (Vec<char>, Vec<char>) = (p.chars().collect(), v.chars().collect());
    let mut c = vec![v.to_string()];
    if go(&p, &vc, &mut c) { Some(c) } else { None }
}
impl<'a> Run<'a> {
    pub fn new(lib: &'a Lib, max_nested: usize, max_redirects: usize, max_out: usize, own: &str) -> Self {
        Run { lib, max_nested, max_redirects, max_out, fin: Fin::Keep(vec![]), glob: BTreeMap::new(), cache: BTreeSet::new(), active: 0, max_active: 0, redirects: 0, outs: 0, part: 0, loops: 0, steps: 0, cost: 0, pend: BTreeSet::new(), out: vec![], own: own.into(), over: false }
    }
    /// false: too many steps, no verdict
    pub fn main(&mut self, name: &str) -> bool {
        self.cache.insert(name.into());
        let lib = self.lib;
        self.script(&lib[name]);
        if self.over { return false; }
        self.note();
        let p = self.pending(); if !p.is_empty() { self.out.push(p); }
        true
    }
    fn script(&mut self, b: &[S]) -> Flow {
        let rb = resolve(b);
        let mut f = Frame { loc: BTreeMap::new(), mv: BTreeMap::new() };
        self.active += 1; self.max_active = self.max_active.max(self.active);
        let (p, l) = (self.part, self.loops);
        let r = self.stmts(&rb.ss, &mut f);
        self.active -= 1; self.part = p; self.loops = l;
        r
    }
    fn note(&mut self) { let p = self.pending(); self.pend.insert((self.out.len(), p)); }
    pub fn pending(&self) -> String { match &self.fin { Fin::Keep(f) => { let f = if f.is_empty() { self.gflags() } else { f.clone() }; format!("KEEP {f:?}") } Fin::Discard => "DISCARD".into(), Fin::None => String::new() } }
    fn gflags(&self) -> Vec<String> { match self.glob.get("__flags") { Some(f) if !f.is_empty() => f.split(' ').map(|x| x.to_string()).collect(), _ => vec![] } }
    fn str(&self, s: &RStr, f: &Frame) -> String {
        s.iter().map(|p| match p { RP::Lit(t) => t.clone(), RP::Glo(n) => self.glob.get(n).cloned().unwrap_or_default(), RP::Loc(i) => f.loc.get(i).cloned().unwrap_or_default(), RP::Mv(n) => f.mv.get(n).cloned().unwrap_or_default() }).collect()
    }
    fn test(&mut self, t: &RT, f: &mut Frame) -> bool {
        self.steps += 1; if !matches!(t, RT::Not(_) | RT::All(_) | RT::Any(_)) { self.cost += 1; }
        match t {
            RT::Const(b) => *b, RT::Not(t) => !self.test(t, f),
            RT::All(v) => { for t in v { if !self.test(t, f) { return false; } } true }
            RT::Any(v) => { for t in v { if self.test(t, f) { return true; } } false }
            RT::Is(a, b) => self.str(a, f) == self.str(b, f),
            RT::Glob(a, p, slots) => { let v = self.str(a, f); match glob_caps(p, &v) { None => false, Some(c) => { for (i, x) in c.into_iter().enumerate() { if slots.get() & (1 << i) != 0 { f.mv.insert(i, x); } } true } } }
            RT::Regex(a, p, slots) => { let v = self.str(a, f); match fancy_regex::Regex::new(p).unwrap().captures(&v).unwrap() { None => false, Some(c) => {
                for i in 0..c.len() { if slots.get() & (1 << i) != 0 { if let Some(m) = c.get(i) { f.mv.insert(i, m.as_str().into()); } } } true } } }
            RT::Dup(a) => { let id = self.str(a, f); if id.is_empty() { false } else { self.out.push(format!("DUP {id}")); self.note(); answer(&id) } }
        }
    }
    fn block(&mut self, b: &RB, f: &mut Frame) -> Flow {
        let r = self.stmts(&b.ss, f);
        if let Flow::Next = r {
            for l in &b.locals { f.loc.remove(l); }
            for t in &b.tests { for i in 0..64 { if t.get() & (1 << i) != 0 { f.mv.remove(&i); } } }
        }
        r
    }
    fn stmts(&mut self, b: &[RS], f: &mut Frame) -> Flow {
        for s in b {
            self.steps += 1;
            if self.steps > 4000 { self.over = true; return Flow::Over; }
            self.note();
            if !matches!(s, RS::Nop | RS::If(..) | RS::Parts(..)) { self.cost += 1; }
            match s {
                RS::Nop => (),
                RS::Set(t, v) => { let v = self.str(v, f); if v.len() > 20000 { self.over = true; return Flow::Over; } match t { RP::Glo(n) => { self.glob.insert(n.clone(), v); } RP::Loc(i) => { f.loc.insert(*i, v); } _ => () } }
                RS::If(br, el) => {
                    let mut taken = false;
                    for (t, b) in br { if self.test(t, f) { taken = true; match self.block(b, f) { Flow::Next => (), x => return x } break; } }
                    if !taken { if let Some(b) = el { match self.block(b, f) { Flow::Next => (), x => return x } } }
                }
                RS::Trace(v) => { let v = self.str(v, f); let fl = self.gflags(); self.out.push(format!("FILE {v} {fl:?}")); }
                RS::Keep(k) => { self.fin = Fin::Keep(if k.is_empty() { self.gflags() } else { k.clone() }); }
                RS::AddFlag(k) => { let mut c = self.glob.get("__flags").cloned().unwrap_or_default();
                    for x in k { if !c.split(' ').any(|y| y.eq_ignore_ascii_case(x)) { if !c.is_empty() { c.push(' '); } c.push_str(x); } } self.glob.insert("__flags".into(), c); }
                RS::Discard => self.fin = Fin::Discard,
                RS::FileInto(v) => { let v = self.str(v, f); if !matches!(&self.fin, Fin::Keep(k) if !k.is_empty()) { self.fin = Fin::None; } let fl = self.gflags(); self.out.push(format!("FILE {v} {fl:?}")); }
                RS::Redirect(copy, a) => if self.redirects < self.max_redirects && self.outs < self.max_out && !a.eq_ignore_ascii_case(&self.own) {
                    if !copy && matches!(self.fin, Fin::Keep(_)) { self.fin = Fin::None; }
                    self.redirects += 1; self.outs += 1; self.out.push(format!("SEND {a}")); },
                RS::Reject(v) => { let v = self.str(v, f); self.fin = Fin::None; self.out.push(format!("REJECT {v}")); }
                RS::Stop => return Flow::End,
                RS::Return => return Flow::Return,
                RS::Error(v) => { let v = self.str(v, f); self.out.push(format!("ERR ScriptError({v})")); return Flow::End; }
                RS::Bad => { self.out.push("ERR InvalidInstruction".into()); return Flow::End; }
                RS::Include(n, once, opt) => {
                    if *once && self.cache.contains(n) { continue; }
                    if self.active > self.max_nested - 1 { self.out.push("ERR TooManyIncludes".into()); return Flow::End; }
                    if !self.cache.contains(n) { self.out.push(format!("INC {n} {opt}")); self.note(); }
                    let lib = self.lib;
                    if let Some(b) = lib.get(n) {
                        self.cache.insert(n.clone());
                        match self.script(b) { Flow::Next | Flow::Return => (), x => return x }
                    }
                }
                RS::Parts(b) => {
                    let saved = self.part;
                    let parts: Vec<u8> = if self.loops == 0 { vec![0, 1, 2] } else if self.part == 0 { vec![1, 2] } else { vec![] };
                    self.loops += 1;
                    for p in parts {
                        self.part = p;
                        self.steps += 1;
                        match self.block(b, f) { Flow::Next => (), Flow::Break => break, x => { self.loops -= 1; self.part = saved; return x; } }
                    }
                    self.loops -= 1; self.part = saved;
                }
                RS::While(c, n, b) => {
                                        self.glob.insert(c.clone(), "0".into());
                    while self.glob.get(c).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0) < *n {
                        let i = self.glob[c].parse::<usize>().unwrap() + 1; self.glob.insert(c.clone(), i.to_string());
                        let (p, l) = (self.part, self.loops);
                        self.steps += 1;
                        match self.block(b, f) { Flow::Next => (), Flow::Continue => { self.part = p; self.loops = l; } Flow::Break => break, x => return x }
                    }
                }
                RS::Break => return Flow::Break,
                RS::Continue => return Flow::Continue,
            }
            self.note();
        }
        Flow::Next
    }
}

// ---------------------------------------------------------------- generator
pub struct Gen<'a> { pub r: &'a mut Rng, pub names: Vec<&'static str>, pub w: u32, pub ctr: usize, pub mix: Mix, pub whiles: usize, pub wdepth: usize, pub parts: usize, pub incs: Vec<String> }
#[derive(Clone, Copy)]
pub struct Mix { pub vars: usize, pub matches: usize, pub control: usize, pub keep: usize, pub include: usize, pub loops: usize, pub dup: usize, pub err: usize }
impl Gen<'_> {
    pub fn str(&mut self, plain: bool) -> Str {
        let n = self.r.below(3); let mut o = vec![];
        for _ in 0..=n { o.push(match self.r.below(if plain { 3 } else { 6 }) {
            0 | 1 => Pc::Lit(self.r.pick(&["a", "b", "ab", "ba", "aab", " "]).to_string()),
            2 => Pc::Var(self.r.pick(&["global.g", "global.h", "GLOBAL.G", "k"]).to_string()),
            3 => Pc::Var(self.r.pick(&self.names.clone()).to_string()),
            _ => if self.mix.matches > 0 { Pc::Mv(self.r.below(4)) } else { Pc::Var(self.r.pick(&self.names.clone()).to_string()) } }); }
        o
    }
    pub fn test(&mut self, d: usize, plain: bool) -> T {
        match self.r.below(if d == 0 { 9 } else { 14 }) {
            0 => T::True, 1 => T::False,
            2 => { let a = self.str(plain); T::Is(a, if self.r.below(2) == 0 { vec![Pc::Lit("a".into())] } else { self.str(plain) }) }
            3..=5 if self.mix.matches > 0 && !plain => { let a = self.str(false); if self.r.below(3) > 0 { T::Glob(a, self.r.pick(&["*", "a*", "*b", "?*", "*a*", "a?", "??*", "b*a", "zz*", "*b*"]).to_string()) }
                else { T::Regex(a, self.r.pick(&["^(a+)(b*)$", "(b)|(a)", "b(.)", "(a)(x)?(b)", "^(zz)$", "()a"]).to_string()) } }
            6 | 7 if self.mix.dup > 0 => { let mut s = self.str(plain); s.insert(0, Pc::Lit(format!("d{}", self.r.below(30)))); T::Dup(s) }
            3..=7 => T::Is(vec![Pc::Var("global.g".into())], vec![Pc::Lit(self.r.pick(&["a", "b", ""]).to_string())]),
            8 | 9 => T::Not(Box::new(self.test(d.saturating_sub(1), plain))),
            k => { let n = 1 + self.r.below(3); let v = (0..n).map(|_| self.test(d - 1, plain)).collect(); if k < 12 { T::All(v) } else { T::Any(v) } }
        }
    }
    /// plain: inside a loop that is left by break or continue (no block-local state)
    pub fn block(&mut self, d: usize, plain: bool) -> Vec<S> { let n = 1 + self.r.below(4); let mut o = vec![]; for _ in 0..n { if self.w == 0 { break; } self.w -= 1; o.push(self.stmt(d, plain)); } o }
    pub fn trace(&mut self, plain: bool) -> S { let mut s = self.str(plain); self.ctr += 1; s.insert(0, Pc::Lit(format!("t{}-", self.ctr))); S::Trace(s) }
    pub fn stmt(&mut self, d: usize, plain: bool) -> S {
        let m = self.mix;
        let opts = [("trace", 6), ("set", m.vars), ("if", if d > 0 { 8 } else { 0 }), ("control", m.control), ("keep", m.keep), ("inc", m.include), ("loop", if d > 0 { m.loops } else { 0 }), ("brk", if plain { m.loops } else { 0 }), ("err", m.err)];
        let tot: usize = opts.iter().map(|o| o.1).sum();
        let mut k = self.r.below(tot); let mut what = "trace";
        for o in opts { if k < o.1 { what = o.0; break; } k -= o.1; }
        match what {
            "set" => { if plain || self.r.below(4) == 0 { S::Set { name: self.r.pick(&["global.g", "global.h", "Global.H"]).to_string(), local: false, v: self.str(plain) } }
                else { S::Set { name: self.r.pick(&self.names.clone()).to_string(), local: self.r.below(4) == 0, v: self.str(plain) } } }
            "if" => { let n = 1 + self.r.below(3); let br = (0..n).map(|_| { let t = self.test(2, plain); (t, self.block(d - 1, plain)) }).collect(); let el = if self.r.below(2) == 0 { Some(self.block(d - 1, plain)) } else { None }; S::If(br, el) }
            "control" => match self.r.below(10) { 0 => S::Stop, 1 => S::Return, _ => self.trace(plain) },
            "keep" => match self.r.below(8) { 0 => S::Keep(vec![]), 1 => S::Keep(vec!["\\Seen".into()]), 2 => S::Discard, 3 => S::FileInto(vec![Pc::Lit("F".into())]), 4 => S::Redirect { copy: false, addr: self.r.pick(&["a@x.org", "b@x.org", "ME@x.org"]).to_string() }, 5 => S::Redirect { copy: true, addr: "c@x.org".into() },
                6 => S::AddFlag(vec![self.r.pick(&["f1", "F1", "f2"]).to_string()]), _ => S::Reject(vec![Pc::Lit("no".into())]) },
            "inc" => { if self.incs.is_empty() { return self.trace(plain); } S::Include { name: self.r.pick(&self.incs.clone()).clone(), once: self.r.below(2) == 0, optional: self.r.below(3) == 0 } }
            "loop" => if self.r.below(2) == 0 { self.parts += 1; let pl = plain || self.r.below(2) == 0; let b = if self.parts > 2 { vec![self.trace(pl)] } else { self.block(d - 1, pl) }; self.parts -= 1; S::Parts(b) }
                else { self.whiles += 1; let c = format!("w{}", self.whiles); let pl = plain || self.r.below(2) == 0; self.wdepth += 1; let body = self.block(d - 1, pl); self.wdepth -= 1; S::While { ctr: c, n: 1 + self.r.below(3), body } },
            "brk" => { let t = self.test(1, true); let what = if self.wdepth > 0 && self.r.below(2) == 0 { S::Continue } else { S::Break }; S::If(vec![(t, vec![what])], None) }
            "err" => match self.r.below(3) { 0 => S::Error(self.str(plain)), 1 => S::Bad, _ => self.trace(plain) },
            _ => self.trace(plain),
        }
    }
}
