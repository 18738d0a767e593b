//! C10 (comparison), C12 (operators), C13 (expression structure): the real operators and compiled expressions against an independent evaluator.
use crate::{drive::*, find::*, p_core::runtime};
use sieve::{runtime::Variable, Compiler, Context, Event, FunctionMap, Input};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::sync::Arc;
use Variable as V;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B { Add, Sub, Mul, Div, And, Or, Xor, Eq, Ne, Lt, Le, Gt, Ge }
pub const ALL: [B; 13] = [B::Add, B::Sub, B::Mul, B::Div, B::And, B::Or, B::Xor, B::Eq, B::Ne, B::Lt, B::Le, B::Gt, B::Ge];
impl B {
    fn text(self) -> &'static str { match self { B::Add => "+", B::Sub => "-", B::Mul => "*", B::Div => "/", B::And => "&&", B::Or => "||", B::Xor => "^", B::Eq => "==", B::Ne => "!=", B::Lt => "<", B::Le => "<=", B::Gt => ">", B::Ge => ">=" } }
    fn prec(self) -> u8 { match self { B::Or => 1, B::And => 2, B::Xor => 3, B::Eq | B::Ne => 4, B::Lt | B::Le | B::Gt | B::Ge => 5, B::Add | B::Sub => 6, B::Mul | B::Div => 7 } }
}
pub fn truth(v: &V) -> bool { match v { V::Integer(n) => *n != 0, V::Float(x) => *x != 0.0, V::String(s) => s.len() > 0, V::Array(a) => a.len() > 0 } }
pub fn text(v: &V) -> String { match v { V::Integer(n) => format!("{n}"), V::Float(x) => format!("{x}"), V::String(s) => s.to_string(), V::Array(a) => a.iter().map(text).collect::<Vec<_>>().join("\n") } }
fn number(v: &V) -> V {
    match v {
        V::String(s) => match s.parse::<i64>() { Ok(n) => V::Integer(n), _ => match s.parse::<f64>() { Ok(x) => V::Float(x), _ => V::Integer(0) } },
        V::Array(a) => V::Integer(if a.is_empty() { 1 } else { 0 }),
        n => n.clone(),
    }
}
fn both(a: &V, b: &V) -> Result<(i128, i128), (f64, f64)> {
    match (number(a), number(b)) { (V::Integer(x), V::Integer(y)) => Ok((x as i128, y as i128)),
        (x, y) => { let g = |v| match v { V::Integer(n) => n as f64, V::Float(x) => x, _ => unreachable!() }; Err((g(x), g(y))) } }
}
fn clamp(n: i128) -> V { V::Integer(n.clamp(i64::MIN as i128, i64::MAX as i128) as i64) }
fn numeric(v: &V) -> bool { matches!(v, V::Integer(_) | V::Float(_)) }
pub fn equal(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::String(x), V::String(y)) => x.as_bytes() == y.as_bytes(),
        (V::Array(x), V::Array(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| equal(p, q)),
        (V::Array(_), _) | (_, V::Array(_)) => false,
        _ => match both(a, b) { Ok((x, y)) => x == y, Err((x, y)) => x == y },
    }
}
pub fn compare(a: &V, b: &V) -> Option<Ordering> {
    match (a, b) {
        (V::String(x), V::String(y)) => Some(x.as_bytes().cmp(y.as_bytes())),
        (V::Array(x), V::Array(y)) => { for (p, q) in x.iter().zip(y.iter()) { match compare(p, q) { Some(Ordering::Equal) => {} o => return o } } Some(x.len().cmp(&y.len())) }
        (V::Array(_), _) => Some(Ordering::Greater),
        (V::String(_), V::Array(_)) => Some(Ordering::Greater),
        (_, V::Array(_)) => Some(Ordering::Less),
        _ => match both(a, b) { Ok((x, y)) => Some(x.cmp(&y)), Err((x, y)) => x.partial_cmp(&y) },
    }
}
fn list(v: Vec<V>) -> V { V::Array(Arc::new(v)) }
pub fn binary(op: B, a: &V, b: &V) -> V {
    let flag = |x: bool| V::Integer(if x { 1 } else { 0 });
    match op {
        B::Add => match (a, b) {
            (V::Array(x), V::Array(y)) => { let mut l = x.to_vec(); l.extend(y.iter().cloned()); list(l) }
            (V::Array(x), y) => { let mut l = x.to_vec(); l.push(y.clone()); list(l) }
            (x, V::Array(y)) => { let mut l = vec![x.clone()]; l.extend(y.iter().cloned()); list(l) }
            (V::String(x), _) if x.is_empty() => b.clone(),
            (V::String(_), _) => V::from(text(a) + &text(b)),
            (_, V::String(y)) if y.is_empty() => a.clone(),
            (_, V::String(_)) => V::from(text(a) + &text(b)),
            _ => match both(a, b) { Ok((x, y)) => clamp(x + y), Err((x, y)) => V::Float(x + y) },
        },
        B::Sub => match (a, b) {
            (V::Array(x), y) => list(x.iter().filter(|v| !equal(v, y)).cloned().collect()),
            (x, V::Array(y)) => list(y.iter().filter(|v| !equal(v, x)).cloned().collect()),
            _ => match both(a, b) { Ok((x, y)) => clamp(x - y), Err((x, y)) => V::Float(x - y) },
        },
        B::Mul => match both(a, b) { Ok((x, y)) => clamp(x * y), Err((x, y)) => V::Float(x * y) },
        B::Div => match both(a, b) { Ok((_, 0)) => V::Float(0.0), Ok((x, y)) => V::Float(x as f64 / y as f64), Err((_, y)) if y == 0.0 => V::Float(0.0), Err((x, y)) => V::Float(x / y) },
        B::And => flag(truth(a) && truth(b)), B::Or => flag(truth(a) || truth(b)), B::Xor => flag(truth(a) != truth(b)),
        B::Eq => flag(equal(a, b)), B::Ne => flag(!equal(a, b)),
        B::Lt => flag(compare(a, b) == Some(Ordering::Less)), B::Gt => flag(compare(a, b) == Some(Ordering::Greater)),
        B::Le => flag(matches!(compare(a, b), Some(Ordering::Less | Ordering::Equal))), B::Ge => flag(matches!(compare(a, b), Some(Ordering::Greater | Ordering::Equal))),
    }
}
pub fn not(a: &V) -> V { V::Integer(if truth(a) { 0 } else { 1 }) }
pub fn minus(a: &V) -> V { match number(a) { V::Integer(n) => clamp(-(n as i128)), V::Float(x) => V::Float(-x), _ => unreachable!() } }
/// identical values: same kind, same bits (all NaN alike)
pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Integer(x), V::Integer(y)) => x == y, (V::Float(x), V::Float(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        (V::String(x), V::String(y)) => x == y, (V::Array(x), V::Array(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q)), _ => false,
    }
}
pub fn corpus() -> Vec<V> {
    let mut c: Vec<V> = vec![];
    for n in [0i64, 1, -1, 2, 3, 7, -5, 10, 255, 1 << 31, -(1 << 31), (1 << 53) - 1, 1 << 53, (1 << 53) + 1, 3037000500, -3037000500, i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1, 4611686018427387904] { c.push(V::Integer(n)); }
    for x in [0.0f64, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, 2.0, 3.25, 1e10, 9007199254740993.0, 1e18, -1e18, 9223372036854775807.0, -9223372036854775808.0, 1e300, -1e300, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] { c.push(V::Float(x)); }
    for s in ["", "0", "1", "-1", "+5", "2", "10", "007", "1.5", "-0.0", ".5", "1e3", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "abc", "Abc", "ab", "b", " 1", "1 ", "0x10", "inf", "-inf", "nan", "é", "1,5", "true", "--1", "1e400", "a b"] { c.push(V::from(s)); }
    let l = |v: &[V]| list(v.to_vec());
    c.push(l(&[])); c.push(l(&[V::Integer(1)])); c.push(l(&[V::Integer(1), V::Integer(2), V::Integer(1)])); c.push(l(&[V::from("a"), V::from("1"), V::Float(1.0)])); c.push(l(&[V::from("")])); c.push(l(&[l(&[]), l(&[V::Integer(1)])])); c.push(l(&[V::from("abc"), V::Integer(2)]));
    c
}
fn rand_value(r: &mut Rng) -> V {
    match r.below(6) {
        0 | 1 => { let s = r.below(64) as u32; V::Integer((r.next() as i64) >> s) }
        2 => V::Float(f64::from_bits(r.next())), 3 => V::Float(((r.next() as i64) >> r.below(64)) as f64 / 16.0),
        4 => { let s = r.below(64) as u32; let n = (r.next() as i64) >> s; V::from(n.to_string()) }
        _ => V::from(rand_string(r, &['0', '1', '9', '.', '-', 'a', 'é', ' ', 'e'], 6)),
    }
}
fn real(op: B, a: V, b: V) -> V {
    match op { B::Add => a.op_add(b), B::Sub => a.op_subtract(b), B::Mul => a.op_multiply(b), B::Div => a.op_divide(b), B::And => a.op_and(b), B::Or => a.op_or(b), B::Xor => a.op_xor(b),
        B::Eq => a.op_eq(b), B::Ne => a.op_ne(b), B::Lt => a.op_lt(b), B::Le => a.op_le(b), B::Gt => a.op_gt(b), B::Ge => a.op_ge(b) }
}
fn guarded(g: impl FnOnce() -> V) -> Result<V, String> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)).map_err(|e| format!("PANIC {}", panic_text(e))) }

pub fn c12(f: &mut Finder) {
    f.bound = "all pairs of 80 operands (limits of integers and fractions, numeric and other texts, lists) under all 13 operators, unary minus and not, called directly and through compiled scripts; random pairs".into();
    f.rule = "one operation on two operands; the result must be the same kind of value, bit for bit, as the independent evaluator's; non-trivial when the operands differ in kind or the result saturates".into();
    let vals = corpus();
    let pairs: Vec<(V, V)> = vals.iter().flat_map(|a| vals.iter().map(move |b| (a.clone(), b.clone()))).collect();
    let mut extra = vec![]; for _ in 0..(if f.quick { 4000 } else { 400000 }) { let a = if f.rng.below(4) == 0 { f.rng.pick(&vals).clone() } else { rand_value(&mut f.rng) }; let b = if f.rng.below(4) == 0 { f.rng.pick(&vals).clone() } else { rand_value(&mut f.rng) }; extra.push((a, b)); }
    for (a, b) in pairs.iter().chain(extra.iter()) { for op in ALL {
        let want = binary(op, a, b);
        if !f.case(std::mem::discriminant(a) != std::mem::discriminant(b) || matches!(want, V::Integer(i64::MAX | i64::MIN)), || format!("{a:?} {} {b:?}", op.text())) { return; }
        match guarded(|| real(op, a.clone(), b.clone())) { Ok(got) if same(&got, &want) => {} Ok(got) => { f.fail(format!("{want:?}"), format!("{got:?}")); return; } Err(e) => { f.fail(format!("{want:?}"), e); return; } }
    } }
    for a in vals.iter().chain(extra.iter().map(|p| &p.0)) {
        if !f.case(true, || format!("! and - of {a:?}")) { return; }
        for (want, got) in [(not(a), guarded(|| a.clone().op_not())), (minus(a), guarded(|| a.clone().op_minus())), (number(a), guarded(|| a.parse_number()))] {
            match got { Ok(g) if same(&g, &want) => {} g => { f.fail(format!("{want:?}"), format!("{g:?}")); return; } } }
        if truth(a) != a.to_bool() { f.fail(truth(a), a.to_bool()); return; }
    }
    // the same through the compiler and the interpreter
    let c = Compiler::new(); let rt = runtime();
    let scripts: Vec<(B, Arc<sieve::Sieve>)> = ALL.iter().map(|op| (*op, Arc::new(compile(&c, &format!("require [\"vnd.stalwart.expressions\",\"environment\",\"variables\"]; let \"global.r\" \"env.a {} env.b\"; let \"global.n\" \"!env.a\"; let \"global.m\" \"-env.a\";", op.text())).unwrap()))).collect();
    let step = if f.quick { 5 } else { 1 };
    for (i, (a, b)) in pairs.iter().enumerate() { if i % step != 0 { continue; } for (op, s) in &scripts {
        let want = match op { B::And if !truth(a) => a.clone(), B::Or if truth(a) => a.clone(), _ => binary(*op, a, b) };
        if !f.case(false, || format!("script: {a:?} {} {b:?}", op.text())) { return; }
        let o = Drive::new(&rt).run(s.clone(), b"A: b\r\n\r\n", |c| { c.set_env_variable("a", a.clone()); c.set_env_variable("b", b.clone()); }, |_| Input::True);
        let d = V::default();
        for (n, w) in [("r", &want), ("n", &not(a)), ("m", &minus(a))] { let g = o.var(n).unwrap_or(&d); if o.panicked.is_some() || !same(g, w) { f.fail(format!("{n}: {w:?}"), format!("{n}: {g:?} {:?}", o.panicked)); return; } }
    } }
}

pub fn c10(f: &mut Finder) {
    f.bound = "all pairs of 80 operands and random pairs: the six operators of expressions, and :value with the six relations under the three comparators through compiled scripts".into();
    f.rule = "one pair of operands; exactly one of lt, eq, gt, their combinations, and the order of an independent comparison; non-trivial when the operands are equal or differ in kind".into();
    let vals = corpus();
    let mut pairs: Vec<(V, V)> = vals.iter().flat_map(|a| vals.iter().map(move |b| (a.clone(), b.clone()))).collect();
    for _ in 0..(if f.quick { 5000 } else { 300000 }) { pairs.push((rand_value(&mut f.rng), rand_value(&mut f.rng))); }
    let nan = |v: &V| matches!(v, V::Float(x) if x.is_nan()) || matches!(number(v), V::Float(x) if x.is_nan());
    for (a, b) in &pairs {
        if !f.case(equal(a, b) || std::mem::discriminant(a) != std::mem::discriminant(b), || format!("{a:?} ? {b:?}")) { return; }
        let g = |op: B| guarded(|| real(op, a.clone(), b.clone()));
        let r: Vec<Result<V, String>> = [B::Lt, B::Le, B::Gt, B::Ge, B::Eq, B::Ne].into_iter().map(g).collect();
        let w: Vec<V> = [B::Lt, B::Le, B::Gt, B::Ge, B::Eq, B::Ne].into_iter().map(|op| binary(op, a, b)).collect();
        if !r.iter().zip(&w).all(|(x, y)| matches!(x, Ok(x) if same(x, y))) { f.fail(format!("lt le gt ge eq ne = {w:?}"), format!("{r:?}")); return; }
        if !nan(a) && !nan(b) && !matches!(a, V::Array(_)) && !matches!(b, V::Array(_)) {
            let k = [0, 4, 2].iter().filter(|i| matches!(r[**i], Ok(V::Integer(1)))).count();
            if k != 1 { f.fail("exactly one of lt, eq, gt", format!("lt {:?} eq {:?} gt {:?}", r[0], r[4], r[2])); return; }
        }
    }
    let c = Compiler::new(); let rt = runtime();
    let rel = ["lt", "le", "gt", "ge", "eq", "ne"];
    let cmp = ["i;octet", "i;ascii-casemap", "i;ascii-numeric"];
    let mut src = String::from("require [\"variables\",\"environment\",\"relational\",\"comparator-i;ascii-numeric\"];\n");
    for k in 0..3 { for r in 0..6 { src.push_str(&format!("if string :value \"{}\" :comparator \"{}\" \"${{env.a}}\" \"${{env.b}}\" {{ set \"global.r{k}{r}\" \"1\"; }}\n", rel[r], cmp[k])); } }
    let s = Arc::new(compile(&c, &src).unwrap());
    let key = |v: &V| -> V { match v { V::Integer(_) | V::Float(_) => v.clone(), V::String(s) if !s.is_empty() => { let n = if s.contains('.') { s.parse::<f64>().ok().map(V::Float) } else { s.parse::<i64>().ok().map(V::Integer) }; n.unwrap_or(V::Float(f64::INFINITY)) } _ => V::Float(f64::INFINITY) } };
    for (i, (a, b)) in pairs.iter().enumerate() {
        if f.quick && i % 3 != 0 { continue; }
        if matches!(a, V::Array(_)) || matches!(b, V::Array(_)) || text(a).is_empty() && false { continue; }
        if !f.case(false, || format!(":value {a:?} ? {b:?}")) { return; }
        let o = Drive::new(&rt).run(s.clone(), b"A: b\r\n\r\n", |c| { c.set_env_variable("a", a.clone()); c.set_env_variable("b", b.clone()); }, |_| Input::True);
        for k in 0..3 {
            let (x, y) = match k { 0 => (V::from(text(a)), V::from(text(b))), 1 => (V::from(text(a).to_lowercase()), V::from(text(b).to_lowercase())), _ => (key(a), key(b)) };
            for (r, op) in [B::Lt, B::Le, B::Gt, B::Ge, B::Eq, B::Ne].into_iter().enumerate() {
                let want = truth(&binary(op, &x, &y)); let got = o.text(&format!("r{k}{r}")) == "1";
                if want != got || o.panicked.is_some() { f.fail(format!("{} under {}: {want}", rel[r], cmp[k]), format!("{got} {:?}", o.panicked)); return; }
            }
        }
    }
}

// ---------------------------------------------------------------- C13
thread_local! { static LOG: RefCell<Vec<(usize, Vec<V>)>> = const { RefCell::new(Vec::new()) }; }
/// what function k returns for its arguments
fn result_of(k: usize, args: &[V]) -> V {
    match k { 0 => V::Integer(7), 1 => binary(B::Add, &args[0], &V::Integer(1)), 2 => binary(B::Sub, &args[0], &args[1]), 3 => list(args.to_vec()), 4 => V::from("ext"), 5 => not(&args[0]), _ => binary(B::Mul, &args[0], &args[1]) }
}
fn logged(k: usize, args: Vec<V>) -> V { let r = result_of(k, &args); LOG.with(|l| l.borrow_mut().push((k, args))); r }
fn f0<'x>(_: &'x Context<'x>, a: Vec<V>) -> V { logged(0, a) }
fn f1<'x>(_: &'x Context<'x>, a: Vec<V>) -> V { logged(1, a) }
fn f2<'x>(_: &'x Context<'x>, a: Vec<V>) -> V { logged(2, a) }
fn f3<'x>(_: &'x Context<'x>, a: Vec<V>) -> V { logged(3, a) }
const FN: [(&str, usize); 7] = [("zero", 0), ("inc", 1), ("sub", 2), ("lst", 3), ("xzero", 0), ("xnot", 1), ("xmul", 2)];
fn map() -> FunctionMap {
    FunctionMap::new().with_function_no_args("zero", f0).with_function("inc", f1).with_function_args("sub", f2, 2).with_function_args("lst", f3, 3)
        .with_external_function("xzero", 0, 0).with_external_function("xnot", 1, 1).with_external_function("xmul", 2, 2)
}
#[derive(Clone, Debug)]
enum E { Const(V, String), Var(usize), Un(bool, Box<E>), Bin(B, Box<E>, Box<E>), Call(usize, Vec<E>), Index(Box<E>, Box<E>), List(Vec<E>) }
struct G<'a> { r: &'a mut Rng }
impl G<'_> {
    fn leaf(&mut self) -> E {
        match self.r.below(7) {
            0 | 1 => E::Var(self.r.below(6)),
            2 => { let n = *self.r.pick(&[0i64, 1, 2, 3, 10, i64::MAX]); E::Const(V::Integer(n), n.to_string()) }
            3 => { let t = *self.r.pick(&["0.0", "1.5", "2.0", "10.25"]); E::Const(V::Float(t.parse().unwrap()), t.into()) }
            4 => { let t = *self.r.pick(&["", "a", "b c", "5", "é", "1.5", "x,y", "(", "]&&"]); let q = if self.r.below(4) == 0 { "\\\"" } else { "'" }; E::Const(V::from(t), format!("{q}{t}{q}")) }
            5 => { let t = self.r.below(2); E::Const(V::Integer(t as i64), ["false", "true"][t].into()) }
            _ => { let n = self.r.below(4); E::List((0..n).map(|_| loop { let l = self.leaf(); if !matches!(l, E::List(_)) { break l; } }).collect()) }
        }
    }
    fn gen(&mut self, d: usize) -> E {
        if d == 0 { return self.leaf(); }
        match self.r.below(12) {
            0 => self.leaf(), 1 => E::Un(true, Box::new(self.gen(d - 1))), 2 => E::Un(false, Box::new(self.gen(d - 1))),
            3 | 4 => { let k = self.r.below(7); E::Call(k, (0..FN[k].1).map(|_| self.gen(d - 1)).collect()) }
            5 => { let a = match self.r.below(3) { 0 => E::Var(4 + self.r.below(2)), 1 => { E::Call(3, (0..3).map(|_| self.gen(d - 1)).collect()) } _ => E::Index(Box::new(E::Var(5)), Box::new(self.leaf())) }; E::Index(Box::new(a), Box::new(self.gen(d - 1))) }
            _ => { let mut op = *self.r.pick(&ALL); if self.r.below(3) == 0 { op = if self.r.below(2) == 0 { B::And } else { B::Or }; } E::Bin(op, Box::new(self.gen(d - 1)), Box::new(self.gen(d - 1))) }
        }
    }
    fn sp(&mut self) -> &'static str { match self.r.below(5) { 0 => "", 1 => "  ", _ => " " } }
    /// precedence 8 = unary, 9 = operand
    fn show(&mut self, e: &E, min: u8, tight: bool) -> String {
        let (s, p) = match e {
            E::Const(_, t) => (t.clone(), 9), E::Var(i) => (VARS[*i].to_string(), 9),
            E::List(l) => (format!("[{}]", l.iter().map(|x| self.show(x, 9, true)).collect::<Vec<_>>().join(", ")), 9),
            E::Un(neg, x) => { let s = self.show(x, 8, true); (format!("{}{s}", if *neg { "-" } else { "!" }), 8) }
            E::Bin(op, a, b) => { let l = self.show(a, op.prec(), tight); let r = self.show(b, op.prec() + 1, tight); let (x, y) = (self.sp(), self.sp()); (format!("{l}{x}{}{y}{r}", op.text()), op.prec()) }
            E::Call(k, a) => { let l: Vec<String> = a.iter().map(|x| self.show(x, 0, true)).collect(); let c = format!(",{}", self.sp()); (format!("{}({})", FN[*k].0, l.join(&c)), 9) }
            E::Index(a, i) => { let x = self.show(a, 9, true); let y = self.show(i, 0, true); (format!("{x}[{y}]"), 9) }
        };
        // a redundant pair of parentheses now and then, but not directly inside [ ] (refused) and not around the operand of an index
        if p < min || (p < 9 && self.r.below(12) == 0) { format!("({s})") } else { s }
    }
}
const VARS: [&str; 6] = ["env.i", "env.f", "env.s", "env.e", "env.l", "env.m"];
fn eval(e: &E, vars: &[V], log: &mut Vec<(usize, Vec<V>)>) -> V {
    match e {
        E::Const(v, _) => v.clone(), E::Var(i) => vars[*i].clone(),
        E::Un(neg, x) => { let v = eval(x, vars, log); if *neg { minus(&v) } else { not(&v) } }
        E::Bin(op, a, b) => { let l = eval(a, vars, log); if (*op == B::And && !truth(&l)) || (*op == B::Or && truth(&l)) { return l; } let r = eval(b, vars, log); binary(*op, &l, &r) }
        E::Call(k, a) => { let args: Vec<V> = a.iter().map(|x| eval(x, vars, log)).collect(); let r = result_of(*k, &args); log.push((*k, args)); r }
        E::Index(a, i) => { let l = eval(a, vars, log); let i = eval(i, vars, log);
            let l: Vec<V> = match l { V::Array(l) => l.to_vec(), V::String(s) if s.is_empty() => vec![], v => vec![v] };
            let n = match &i { V::Integer(n) => *n as usize, V::Float(x) => *x as usize, V::String(s) => s.parse().unwrap_or(0), V::Array(_) => 0 };
            l.get(n).cloned().unwrap_or_default() }
        E::List(l) => list(l.iter().map(|x| eval(x, vars, log)).collect()),
    }
}
fn has_call(e: &E) -> bool { match e { E::Call(..) => true, E::Un(_, x) => has_call(x), E::Bin(_, a, b) | E::Index(a, b) => has_call(a) || has_call(b), E::List(l) => l.iter().any(has_call), _ => false } }

pub fn c13(f: &mut Finder) {
    f.bound = "random expressions of depth at most 5 over the 13 binary and 2 unary operators, numbers, texts, lists, indexing, four built-in and three external functions; minimal and redundant parentheses; used in let, set, if eval and while".into();
    f.rule = "one expression and one assignment of the variables; the value and the sequence of function calls with their arguments must be those of the independent evaluator; non-trivial when it calls a function or short-circuits".into();
    let mut m = map();
    let c = Compiler::new().register_functions(&mut m).with_max_string_size(1 << 20);
    let rt = runtime().with_functions(&mut m).with_cpu_limit(100000);
    let vals = corpus();
    let fixed = fixed_cases();
    let n = if f.quick { 12000 } else { 1_000_000 };
    for round in 0..n {
        let vars: Vec<V> = if round % 3 == 0 { vec![V::Integer(3), V::Float(2.5), V::from("ab"), V::from(""), list(vec![V::Integer(1), V::from("z"), V::Integer(0)]), list(vec![])] }
            else { (0..6).map(|i| if i < 4 { loop { let v = f.rng.pick(&vals).clone(); if !matches!(v, V::Array(_)) { break v; } } } else { loop { let v = f.rng.pick(&vals).clone(); if matches!(v, V::Array(_)) { break v; } } }).collect() };
        let (src, e) = if round < fixed.len() { (fixed[round].0.to_string(), fixed[round].1.clone()) } else { let d = f.rng.below(6); let mut g = G { r: &mut f.rng }; let e = g.gen(d); (g.show(&e, 0, false), e) };
        let mut log = vec![]; let want = eval(&e, &vars, &mut log);
        // texts inside a quoted Sieve string: the only characters to escape were written escaped
        let mode = round % 4;
        let script = match mode { 0 | 1 => format!("let \"global.r\" \"{src}\";"), 2 => format!("if eval \"{src}\" {{ let \"global.r\" \"1\"; }} else {{ let \"global.r\" \"0\"; }}"),
            _ => format!("let \"n\" \"1\"; let \"global.r\" \"0\"; while \"n && ({src})\" {{ let \"n\" \"0\"; let \"global.r\" \"1\"; }}") };
        let want = if mode < 2 { want } else { V::Integer(if truth(&want) { 1 } else { 0 }) };
        if !f.case(has_call(&e), || format!("{script} with i={:?} f={:?} s={:?} e={:?} l={:?} m={:?}", vars[0], vars[1], vars[2], vars[3], vars[4], vars[5])) { return; }
        let s = match compile(&c, &format!("require [\"vnd.stalwart.expressions\",\"vnd.stalwart.while\",\"environment\",\"variables\"]; {script}")) { Ok(s) => Arc::new(s), Err(err) => { f.fail("the expression compiles", err); return; } };
        LOG.with(|l| l.borrow_mut().clear());
        let o = Drive::new(&rt).run(s, b"A: b\r\n\r\n", |c| for (i, v) in VARS.iter().zip(&vars) { c.set_env_variable(i[4..].to_string(), v.clone()); },
            |ev| match ev { Event::Function { id, arguments } => { let k = 4 + *id as usize; Input::FncResult(logged(k, arguments.clone())) } _ => Input::True });
        let calls = LOG.with(|l| l.borrow().clone());
        let d = V::default(); let g = o.var("r").unwrap_or(&d);
        let same_calls = calls.len() == log.len() && calls.iter().zip(&log).all(|(x, y)| x.0 == y.0 && x.1.len() == y.1.len() && x.1.iter().zip(&y.1).all(|(p, q)| same(p, q)));
        if o.panicked.is_some() || !o.errors.is_empty() || !same(g, &want) || !same_calls {
            f.fail(format!("{want:?}, calls {:?}", log.iter().map(|x| (FN[x.0].0, &x.1)).collect::<Vec<_>>()), format!("{g:?}, calls {:?} {:?} {:?}", calls.iter().map(|x| (FN[x.0].0, &x.1)).collect::<Vec<_>>(), o.panicked, o.errors)); return; }
    }
    // wrong expressions are refused
    for bad in ["(1", "1)", "inc()", "inc(1,2)", "sub(1)", "zero(1)", "unknown(1)", "'abc", "1 $ 2", "[1", "1]", "9223372036854775808", "1.2.3", "lst(1,2)", "xmul(1)", "xnot()", "inc(sub(1))"] {
        if !f.case(true, || format!("refused: {bad}")) { return; }
        if let Ok(_) = compile(&c, &format!("require [\"vnd.stalwart.expressions\",\"variables\"]; let \"x\" \"{bad}\";")) { f.fail("a compile error", "compiles"); return; }
    }
}
fn fixed_cases() -> Vec<(&'static str, E)> {
    let i = || Box::new(E::Var(0)); let n = |k: i64| Box::new(E::Const(V::Integer(k), k.to_string()));
    let b = |o, x, y| E::Bin(o, x, y);
    vec![
        ("env.i - 1 - 1", b(B::Sub, Box::new(b(B::Sub, i(), n(1))), n(1))), ("2 - (env.i - 1)", b(B::Sub, n(2), Box::new(b(B::Sub, i(), n(1))))),
        ("-env.i * 2 + 1", b(B::Add, Box::new(b(B::Mul, Box::new(E::Un(true, i())), n(2))), n(1))), ("1 = 1", b(B::Eq, n(1), n(1))), ("1 & 0", b(B::And, n(1), n(0))), ("0 | 2", b(B::Or, n(0), n(2))),
        ("!env.i == 0", b(B::Eq, Box::new(E::Un(false, i())), n(0))), ("1 < 2 == 2 > 1", b(B::Eq, Box::new(b(B::Lt, n(1), n(2))), Box::new(b(B::Gt, n(2), n(1))))), ("0 || 0 ^ 1 && 1", b(B::Or, n(0), Box::new(b(B::And, Box::new(b(B::Xor, n(0), n(1))), n(1))))),
        ("xnot(inc(env.i)) || xzero() && inc(1)", b(B::Or, Box::new(E::Call(5, vec![E::Call(1, vec![E::Var(0)])])), Box::new(b(B::And, Box::new(E::Call(4, vec![])), Box::new(E::Call(1, vec![*n(1)])))))),
        ("xmul(xmul(2, 3), xnot(0)) + inc(xzero()[0])", b(B::Add, Box::new(E::Call(6, vec![E::Call(6, vec![*n(2), *n(3)]), E::Call(5, vec![*n(0)])])), Box::new(E::Call(1, vec![E::Index(Box::new(E::Call(4, vec![])), n(0))])))),
        ("env.i && xnot(0) && xnot(1) && xzero()", b(B::And, Box::new(b(B::And, Box::new(b(B::And, i(), Box::new(E::Call(5, vec![*n(0)])))), Box::new(E::Call(5, vec![*n(1)])))), Box::new(E::Call(4, vec![])))),
    ]
}
