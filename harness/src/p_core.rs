//! C01, C02, C04, C08, C28, C30: whole scripts against the reference interpreter.
use crate::{core_model::*, drive::*, find::*};
use sieve::{compiler::grammar::Capability, Compiler, Event, Input, Recipient, Runtime, Script, Sieve};
use std::collections::BTreeMap;
use std::sync::Arc;

pub const MSG: &[u8] = b"From: a@b.com\r\nSubject: x\r\nContent-Type: multipart/mixed; boundary=\"b\"\r\n\r\n--b\r\nContent-Type: text/plain\r\n\r\none\r\n--b\r\nContent-Type: text/plain\r\n\r\ntwo\r\n--b--\r\n";
pub fn runtime() -> Runtime { Runtime::new().with_capability(Capability::Expressions).with_capability(Capability::While).with_max_variable_size(1 << 22) }
pub fn event(e: &Event) -> String {
    match e {
        Event::FileInto { folder, flags, .. } => format!("FILE {folder} {flags:?}"), Event::Keep { flags, .. } => format!("KEEP {flags:?}"), Event::Discard => "DISCARD".into(),
        Event::Reject { reason, .. } => format!("REJECT {reason}"), Event::DuplicateId { id, .. } => format!("DUP {id}"),
        Event::SendMessage { recipient: Recipient::Address(a), .. } => format!("SEND {a}"),
        Event::IncludeScript { name, optional } => format!("INC {} {optional}", name.as_str()), e => format!("{e:?}"),
    }
}
pub fn trace(o: &Outcome) -> Vec<String> {
    let mut t = vec![]; let mut k = 0;
    for (i, e) in o.events.iter().enumerate() { while k < o.errors.len() && o.err_pos[k] == i { t.push(format!("ERR {}", o.errors[k])); k += 1; } t.push(event(e)); }
    for e in &o.errors[k..] { t.push(format!("ERR {e}")); }
    if let Some(p) = &o.panicked { t.push(format!("PANIC {p}")); }
    if o.stuck { t.push("STUCK".into()); }
    t
}
pub struct Case { pub lib: Lib, pub text: String, pub sieve: BTreeMap<String, Arc<Sieve>> }
pub fn build(lib: Lib) -> Result<Case, String> {
    let c = Compiler::new().with_max_nested_blocks(40).with_max_includes(1000);
    let mut sieve = BTreeMap::new(); let mut text = String::new();
    for (n, b) in &lib { let src = format!("{REQ}{}", show(b, 0)); text.push_str(&format!("--- {n}\n{}", show(b, 0))); sieve.insert(n.clone(), Arc::new(compile(&c, &src).map_err(|e| format!("{e}\n{src}"))?)); }
    Ok(Case { lib, text, sieve })
}
pub fn execute(rt: &Runtime, c: &Case) -> Outcome {
    Drive::new(rt).run(c.sieve["main"].clone(), MSG, |c| c.set_user_address("me@x.org"), |e| match e {
        Event::IncludeScript { name: Script::Personal(n) | Script::Global(n), .. } => match c.sieve.get(n) { Some(s) => Input::script(Script::Personal(n.clone()), s.clone()), None => Input::False },
        Event::DuplicateId { id, .. } => if answer(id) { Input::True } else { Input::False },
        _ => Input::True })
}
pub fn generate(f: &mut Finder, mix: Mix, names: Vec<&'static str>, scripts: usize) -> Lib {
    let all = ["main", "s1", "s2", "s3"]; let mut lib = Lib::new();
    let missing = f.rng.below(4) == 0;
    for n in &all[..scripts] {
        let mut incs: Vec<String> = all[1..scripts.max(1)].iter().map(|x| x.to_string()).collect(); if missing { incs.push("none".into()); }
        let w = 6 + f.rng.below(20) as u32;
        let decl = f.rng.below(3) == 0;
        let mut g = Gen { r: &mut f.rng, names: names.clone(), w, ctr: 0, mix, whiles: if *n == "main" { 0 } else { 10 * n.as_bytes()[1] as usize }, wdepth: 0, parts: 0, incs };
        let mut b = vec![]; if decl { b.push(S::Global(vec!["k".into(), "G".into()])); }
        while g.w > 0 { b.extend(g.block(3, false)); }
        b.push(g.trace(false));
        lib.insert(n.to_string(), b);
    }
    lib
}
fn diff(exp: &[String], got: &[String]) -> (String, String) {
    let i = exp.iter().zip(got).position(|(a, b)| a != b).unwrap_or(exp.len().min(got.len()));
    (format!("event {i}: {:?} (of {exp:?})", exp.get(i)), format!("event {i}: {:?} (of {got:?})", got.get(i)))
}
struct Cfg { mix: Mix, names: Vec<&'static str>, scripts: usize, nested: usize }
fn random(f: &mut Finder, cfg: Cfg, n: usize, nontrivial: impl Fn(&str) -> bool, also: impl Fn(&mut Finder, &Case, &Run, usize)) {
    for i in 0..n {
        let k = 1 + f.rng.below(cfg.scripts); let lib = generate(f, cfg.mix, cfg.names.clone(), k);
        let case = match build(lib) { Ok(c) => c, Err(e) => { if f.case(true, || e.clone()) { f.fail("the script compiles", e); } return; } };
        let nested = if cfg.nested > 0 { cfg.nested } else { 1 + f.rng.below(4) };
        let (mr, mo) = (f.rng.below(4), f.rng.below(4));
        let mut m = Run::new(&case.lib, nested, mr, mo, "me@x.org");
        if !m.main("main") { continue; }
        if !f.case(nontrivial(&case.text), || format!("scripts (include limit {nested}, redirect limit {mr}, out limit {mo})\n{}", case.text)) { return; }
        let rt = runtime().with_max_nested_includes(nested).with_max_redirects(mr).with_max_out_messages(mo).with_cpu_limit(1 << 20);
        let got = trace(&execute(&rt, &case));
        if got != m.out { let (e, g) = diff(&m.out, &got); f.fail(e, g); return; }
        also(f, &case, &m, i);
        if f.done() { return; }
    }
}
const RULE: &str = "random scripts (conditionals, tests, variables, match variables, loops over parts and counters, includes, keep/discard/fileinto/redirect/reject, errors) run by the real interpreter and by the reference interpreter of harness/src/core_model.rs; all events, errors and the final keep must agree; non-trivial when the script contains the construct of the property";
/// every kind of test under not, anyof and allof, and tests of extensions that are not there
fn c28_kinds(f: &mut Finder) -> bool {
    let req = "require [\"envelope\",\"date\",\"body\",\"duplicate\",\"environment\",\"extlists\",\"mailbox\",\"mboxmetadata\",\"servermetadata\",\"mailboxid\",\"special-use\",\"spamtest\",\"spamtestplus\",\"virustest\",\"enotify\",\"imap4flags\",\"variables\",\"ihave\",\"vnd.stalwart.expressions\",\"convert\",\"mime\",\"relational\",\"subaddress\",\"regex\"];\n";
    let rt = crate::p_mail::caps(runtime()).with_valid_notification_uri("mailto").with_valid_ext_list("l1").with_metadata("/private/a", "v").with_env_variable("vnd.e", "v");
    let c = Compiler::new();
    let tests: Vec<&str> = "header \"subject\" \"x\"|header \"subject\" \"y\"|header :matches \"subject\" \"?\"|address \"from\" \"a@b.com\"|address :domain \"from\" \"x\"|address :user \"from\" \"a\"|envelope \"from\" \"e@f.g\"|envelope \"from\" \"x\"|exists \"subject\"|exists [\"subject\",\"x-none\"]|size :over 1|size :under 1|string \"a\" \"a\"|string :matches \"a\" \"b*\"|date \"date\" \"year\" \"2020\"|date :value \"ge\" \"date\" \"year\" \"1\"|currentdate :value \"ge\" \"year\" \"1\"|currentdate \"year\" \"1\"|body :contains \"one\"|body :raw :contains \"nope\"|duplicate|duplicate :handle \"h\"|environment \"vnd.e\" \"v\"|environment \"vnd.e\" \"w\"|valid_ext_list \"l1\"|valid_ext_list \"l2\"|mailboxexists \"m\"|mailboxidexists \"m\"|specialuse_exists \"\\\\Junk\"|specialuse_exists \"m\" \"\\\\Junk\"|metadata \"m\" \"/private/a\" \"v\"|metadataexists \"m\" \"/private/a\"|servermetadata \"/private/a\" \"v\"|servermetadata \"/private/a\" \"w\"|servermetadataexists \"/private/a\"|servermetadataexists \"/private/b\"|spamtest \"0\"|spamtest \"9\"|spamtest :percent \"0\"|virustest \"0\"|virustest \"5\"|valid_notify_method \"mailto:a@b.c\"|valid_notify_method \"bad\"|notify_method_capability \"mailto:a@b.c\" \"online\" \"maybe\"|notify_method_capability \"mailto:a@b.c\" \"other\" \"x\"|hasflag \"a\"|hasflag \"b\"|ihave \"fileinto\"|ihave \"vnd.none\"|eval \"1 < 2\"|eval \"2 < 1\"|convert \"text/plain\" \"text/html\" \"\"|header :count \"ge\" [\"subject\",\"x-none\"] \"1\"|header :value \"lt\" \"subject\" [\"a\",\"z\"]|header :regex [\"x-none\",\"subject\"] [\"(.*)\",\"b\"]|header :mime :anychild \"content-type\" \"text/plain\"|header :list \"subject\" \"l1\"|address :count \"eq\" [\"from\",\"to\"] \"1\"|address :all :matches [\"from\",\"to\"] [\"*@b.*\",\"x\"]|address :detail \"from\" \"d\"|address :list \"from\" \"l1\"|envelope :domain :matches [\"from\",\"to\"] [\"f.*\",\"x\"]|envelope :count \"ge\" \"from\" \"1\"|exists [\"subject\",\"from\",\"x-none\",\"x-other\"]|exists :mime :anychild [\"content-type\",\"x-none\"]|string :count \"eq\" [\"a\",\"b\"] \"2\"|string :regex [\"a\",\"b\"] [\"c\",\"b\"]|string :list \"a\" \"l1\"|date :zone \"+0100\" \"date\" \"hour\" \"1\"|date :count \"ge\" \"date\" \"year\" \"0\"|currentdate :zone \"+0100\" :value \"ge\" \"hour\" \"0\"|body :text :matches \"*o*\"|body :content [\"text\",\"image\"] :contains [\"nope\",\"one\"]|body :count \"ge\" \"1\"|duplicate :uniqueid \"u\" :seconds 60|duplicate :header \"subject\" :last|environment :contains \"vnd.e\" [\"v\",\"x\"]|environment :count \"eq\" \"vnd.e\" \"1\"|valid_ext_list [\"l1\",\"l2\"]|valid_ext_list [\"l1\",\"l1\"]|mailboxexists [\"m\",\"n\"]|mailboxidexists [\"m\",\"n\",\"o\"]|specialuse_exists [\"\\\\Junk\",\"\\\\Sent\"]|specialuse_exists \"m\" [\"\\\\Junk\",\"\\\\Sent\"]|metadata :contains \"m\" \"/private/b\" [\"v\",\"w\"]|metadataexists \"m\" [\"/private/a\",\"/private/b\"]|servermetadata :matches \"/private/a\" [\"w\",\"?\"]|servermetadataexists [\"/private/a\",\"/private/b\"]|spamtest :value \"ge\" \"0\"|spamtest :percent :value \"gt\" \"0\"|spamtest :count \"ge\" \"1\"|virustest :value \"lt\" \"5\"|valid_notify_method [\"mailto:a@b.c\",\"bad\"]|valid_notify_method [\"mailto:a@b.c\",\"mailto:d@b.c\"]|notify_method_capability :matches \"mailto:a@b.c\" \"online\" [\"n*\",\"m*\"]|hasflag :contains [\"a\"] [\"b\",\"a\"]|hasflag :count \"ge\" \"1\"|ihave [\"fileinto\",\"vnd.none\"]|ihave [\"fileinto\",\"reject\"]|eval \"1 < 2 && 2 < 1\"|eval \"0\"|eval \"\\\"\\\"\"|size :over 1K|true|false".split('|').collect();
    for t in tests { for yes in [true, false] {
        let run = |test: &str| -> Result<bool, String> {
            let s = compile(&c, &format!("{req}setflag \"a\"; if {test} {{ discard; }}"))?;
            let o = Drive::new(&rt).run(Arc::new(s), MSG, |x| x.set_envelope(sieve::Envelope::From, "e@f.g"), |_| if yes { Input::True } else { Input::False });
            if let Some(p) = o.panicked { return Err(p); } if !o.errors.is_empty() { return Err(o.errors.join(" ")); }
            Ok(o.events.iter().any(|e| matches!(e, Event::Discard)))
        };
        let Ok(b) = run(t) else { f.case(true, || t.to_string()); f.fail("an answer", format!("{:?}", run(t))); return false; };
        for (shape, want) in [("not T", !b), ("not not T", b), ("anyof(false, not T)", !b), ("allof(not T, true)", !b), ("not anyof(T, false)", !b), ("not allof(true, T)", !b), ("anyof(not allof(T, true), false)", !b), ("allof(anyof(T, false), not false)", b)] {
            let x = shape.replace('T', t); if x.contains("convert") && shape.contains("not") && b { continue; }
            if !f.case(true, || format!("{x}, the host answers {yes}")) { return false; }
            if !f.check(Ok(want), run(&x)) { return false; }
        }
    } }
    // tests that are never reached may be of any form
    for _ in 0..if f.quick { 1500 } else { 30000 } {
        let r = &mut f.rng;
        fn some(r: &mut Rng, d: usize) -> String {
            let arg = |r: &mut Rng| r.pick(&[":tag", "\"text\"", "12", "[\"a\", \"b\"]", ":x \"(\"", "\",\"", "\"{\"", ":over 2K", "text:\n),{\n.\n"]).to_string();
            let mut s = r.pick(&["foo", "vnd_test", "executer", "keep", "size_of"]).to_string();
            for _ in 0..r.below(3) { s.push(' '); s.push_str(&arg(r)); }
            if d < 3 && r.below(2) == 0 { s.push_str(" ("); for i in 0..1 + r.below(3) { if i > 0 { s.push_str(", "); } if r.below(3) == 0 { let a = arg(r); s.push_str(&a); } else { let a = some(r, d + 1); s.push_str(&a); } } s.push(')'); }
            s
        }
        let (u, v) = (some(r, 0), some(r, 0));
        // commands likewise
        fn command(r: &mut Rng, d: usize) -> String {
            let mut s = r.pick(&["vnd_do", "foo", "executer", "header", "not_keep", "addresses"]).to_string();
            for _ in 0..r.below(3) { s.push(' '); s.push_str(r.pick(&[":tag", "\"text\"", "12", "[\"a\", \"b;\"]", "\"{\"", "(a, b)", "\"}\"", "text:\n;}{\n.\n"])); }
            if d < 3 && r.below(3) == 0 { s.push_str(" {"); for _ in 0..r.below(3) { s.push(' '); let a = command(r, d + 1); s.push_str(&a); } s.push_str(" }"); } else { s.push(';'); }
            s
        }
        let (u2, v2) = (command(r, 0), command(r, 0));
        for (shape, want) in [("if ihave \"vnd.none\" { U V } discard;", true), ("if not ihave \"vnd.none\" { discard; } else { V }", true), ("if true { discard; stop; } U V", true), ("discard; if false { if true { U } V keep; }", true)] {
            let x: String = shape.chars().map(|c| match c { 'U' => u2.clone(), 'V' => v2.clone(), c => c.to_string() }).collect();
            if !f.case(true, || x.clone()) { return false; }
            let got = compile(&c, &format!("require \"ihave\"; {x}")).and_then(|s| { let o = Drive::new(&rt).simple(Arc::new(s), MSG); if o.errors.is_empty() { Ok(o.events.iter().any(|e| matches!(e, Event::Discard))) } else { Err(o.errors.join(" ")) } });
            if !f.check(Ok(want), got) { return false; }
        }
        for (shape, want) in [("allof(ihave \"vnd.none\", U)", false), ("anyof(allof(ihave \"vnd.none\", U, V), true)", true), ("anyof(true, U)", true), ("not allof(false, U, V)", true), ("anyof(not ihave \"vnd.none\", V)", true), ("allof(false, U, not V)", false), ("anyof(allof(ihave \"vnd.none\", not U), false)", false), ("allof(anyof(true, U), anyof(false, not allof(false, V)))", true)] {
            let x: String = shape.chars().map(|c| match c { 'U' => u.clone(), 'V' => v.clone(), c => c.to_string() }).collect();
            if !f.case(true, || x.clone()) { return false; }
            let got = compile(&c, &format!("require \"ihave\"; if {x} {{ discard; }}")).and_then(|s| { let o = Drive::new(&rt).simple(Arc::new(s), MSG); if o.errors.is_empty() { Ok(o.events.iter().any(|e| matches!(e, Event::Discard))) } else { Err(o.errors.join(" ")) } });
            if !f.check(Ok(want), got) { return false; }
        }
    }
    true
}
pub fn c28(f: &mut Finder) {
    f.bound = "all tests of depth <= 2 over {true,false,dup,not,allof,anyof} as condition; every kind of test in several forms under not, allof, anyof; unknown tests and commands nested 3 deep; plus random scripts of at most 26 statements, block depth 3, test depth 2".into(); f.rule = RULE.into();
    // every small test tree with evaluation observed through the duplicate events
    let leaves = [T::True, T::False, T::Dup(vec![Pc::Lit("a".into())]), T::Dup(vec![Pc::Lit("b".into())]), T::Dup(vec![Pc::Lit("c".into())])];
    let mut l1: Vec<T> = leaves.to_vec();
    for a in &leaves { l1.push(T::Not(Box::new(a.clone()))); for b in &leaves { for v in [T::All(vec![a.clone(), b.clone()]), T::Any(vec![a.clone(), b.clone()])] { l1.push(T::Not(Box::new(v.clone()))); l1.push(v); } } }
    let rt = runtime();
    let tag = |s: &str| S::Trace(vec![Pc::Lit(s.into())]);
    let mut all = l1.clone();
    for (i, a) in l1.iter().enumerate() { for (j, b) in l1.iter().enumerate() { if f.quick && (i * 7 + j) % 5 != 0 { continue; } for v in [T::All(vec![a.clone(), b.clone()]), T::Any(vec![a.clone(), b.clone()])] { all.push(T::Not(Box::new(v.clone()))); all.push(v); } } }
    for t in all {
        let lib: Lib = [("main".to_string(), vec![S::If(vec![(t.clone(), vec![tag("1")]), (T::Not(Box::new(t.clone())), vec![tag("2")])], Some(vec![tag("3")])), tag("4")])].into();
        let Ok(c) = build(lib) else { f.case(true, || show_test(&t)); f.fail("compiles", "error"); return; };
        let mut m = Run::new(&c.lib, 3, 3, 3, ""); m.main("main");
        if !f.case(true, || show_test(&t)) { break; }
        let got = trace(&execute(&rt, &c));
        if got != m.out { let (e, g) = diff(&m.out, &got); f.fail(e, g); return; }
    }
    if !c28_kinds(f) { return; }
    // long chains, wide and deep tests, deep nesting
    let dup = |s: String| T::Dup(vec![Pc::Lit(s)]);
    for n in 1..=if f.quick { 24 } else { 60 } { for shape in 0..5 { for at in 0..=n {
        if n > 6 && (at * 5 + n) % 7 > 1 && at < n - 1 { continue; }
        let leaf = |i: usize| if i == at { T::Not(Box::new(dup(format!("n{i}")))) } else { dup(format!("n{i}")) };
        let body = match shape {
            0 => vec![S::If((0..n).map(|i| (if i == at { T::True } else { T::False }, vec![tag(&format!("b{i}"))])).collect(), Some(vec![tag("else")]))],
            1 => vec![S::If((0..n).map(|i| (leaf(i), vec![tag(&format!("b{i}"))])).collect(), None)],
            2 => vec![S::If(vec![(T::All((0..n).map(leaf).collect()), vec![tag("all")])], Some(vec![tag("else")]))],
            3 => vec![S::If(vec![(T::Any((0..n).map(leaf).collect()), vec![tag("any")])], Some(vec![tag("else")]))],
            _ => { let d = n.min(12); let mut b = vec![tag("deep")]; for i in (0..d).rev() { b = vec![S::If(vec![(if i == at { T::False } else { T::True }, b)], Some(vec![tag(&format!("e{i}"))])), tag(&format!("a{i}"))]; } b }
        };
        let lib: Lib = [("main".to_string(), [body, vec![tag("end")]].concat())].into();
        let Ok(c) = build(lib.clone()) else { f.case(true, || format!("{n} branches or tests, shape {shape}, number {at}")); f.fail("compiles", "error"); return; };
        let mut m = Run::new(&c.lib, 3, 3, 3, ""); m.main("main");
        if !f.case(true, || show(&lib["main"], 0)) { return; }
        let got = trace(&execute(&rt, &c));
        if got != m.out { let (e, g) = diff(&m.out, &got); f.fail(e, g); return; }
    } } }
    let n = if f.quick { 6000 } else { 200000 };
    random(f, Cfg { mix: Mix { vars: 2, matches: 0, control: 2, keep: 2, include: 0, loops: 2, dup: 1, err: 0 }, names: vec!["x", "y"], scripts: 1, nested: 3 }, n, |t| t.contains("if "), |_, _, _, _| ());
}
pub fn c08(f: &mut Finder) {
    f.bound = "random scripts of at most 26 statements with :matches and :regex tests and ${0}..${3}; match variable numbers up to the limit; 3 nested blocks".into(); f.rule = RULE.into();
    // many groups and high numbers never fail
    let c = Compiler::new();
    for num in [0usize, 1, 30, 31, 61, 62, 63, 64, 100, 4096] { for kind in [":matches", ":regex"] { for key in ["*".repeat(40), "?*".repeat(10), "(a*)".repeat(70), "a".into(), "()*".repeat(3)] {
        if kind == ":regex" && key.contains("**") || key == "?*".repeat(10) && kind == ":regex" { continue; }
        let src = format!("require [\"variables\",\"regex\",\"fileinto\",\"copy\"]; if string {kind} \"aaa\" \"{key}\" {{ fileinto :copy \"m ${{{num}}}\"; }} fileinto :copy \"e ${{{num}}}\";");
        if !f.case(true, || src.clone()) { return; }
        if let Ok(s) = compile(&c, &src) { let rt = runtime(); let o = Drive::new(&rt).simple(Arc::new(s), MSG); if o.panicked.is_some() || o.events.is_empty() { f.fail("runs to its end", format!("{o:?}")); return; } }
        else if num < 30 { f.fail("compiles", "error"); return; }
    } } }
    // a block entered twice: in the second round nothing matches and every number reads as empty
    let c = Compiler::new().with_max_match_variables(63);
    for i in 0..if f.quick { 400 } else { 20000 } {
        let n = 1 + if i % 4 == 0 { f.rng.below(62) } else { f.rng.below(12) };
        let k = 1 + f.rng.below(6);
        let mut nums: Vec<usize> = (0..k).map(|_| f.rng.below(n + 1)).collect();
        let regex = f.rng.below(2) == 0; let empty = f.rng.below(3) == 0;
        if n > 40 { nums.push(n) }
        let parts: Vec<String> = (0..n).map(|j| if empty && j % 3 == 1 { String::new() } else { format!("p{j}") }).collect();
        let value = parts.join("-");
        let pat = if regex { format!("^{}$", vec!["([^-]*)"; n].join("-")) } else { vec!["*"; n].join("-") };
        let refs: String = nums.iter().map(|x| format!("[${{{x}}}]")).collect();
        let src = format!("{REQ}let \"global.i\" \"0\"; while \"global.i < 2\" {{ let \"global.i\" \"global.i + 1\"; if anyof(string \"${{global.i}}\" \"2\", string {} \"{value}\" \"{pat}\") {{ fileinto :copy \"{refs}\"; }} }}", if regex { ":regex" } else { ":matches" });
        if !f.case(true, || src.clone()) { return; }
        let s = match compile(&c, &src) { Ok(s) => Arc::new(s), Err(e) => { f.fail("compiles", e); return; } };
        let rt = runtime();
        let got: Vec<String> = Drive::new(&rt).simple(s, MSG).events.iter().filter_map(|e| if let Event::FileInto { folder, .. } = e { Some(folder.clone()) } else { None }).collect();
        let one: String = nums.iter().map(|x| format!("[{}]", if *x == 0 { value.clone() } else { parts[x - 1].clone() })).collect();
        if !f.check(vec![one, "[]".repeat(nums.len())], got) { return; }
    }
    let n = if f.quick { 12000 } else { 300000 };
    random(f, Cfg { mix: Mix { vars: 3, matches: 5, control: 1, keep: 0, include: 1, loops: 1, dup: 0, err: 0 }, names: vec!["x", "y"], scripts: 2, nested: 3 }, n, |t| t.contains(":matches") || t.contains(":regex"), |_, _, _, _| ());
}
pub fn c30(f: &mut Finder) {
    f.bound = "random scripts of at most 26 statements per script, up to 3 scripts, local, block-local, :local, global and declared global names in different case; every action and test argument with a variable".into(); f.rule = RULE.into();
    super::p_vars::c30_actions(f);
    if f.done() { return; }
    let n = if f.quick { 10000 } else { 300000 };
    random(f, Cfg { mix: Mix { vars: 10, matches: 1, control: 1, keep: 0, include: 2, loops: 2, dup: 0, err: 0 }, names: vec!["x", "Y", "y", "z", "w", "v1", "v2", "k"], scripts: 3, nested: 3 }, n, |t| t.contains("set "), |_, _, _, _| ());
    if f.done() { return; }
    super::p_vars::c30_finding(f);
}
pub fn c02(f: &mut Finder) {
    f.bound = "random libraries of up to 4 scripts including each other (also recursively, :once, :optional, missing), include limits 1 to 4".into(); f.rule = RULE.into();
    let n = if f.quick { 10000 } else { 300000 };
    random(f, Cfg { mix: Mix { vars: 3, matches: 1, control: 2, keep: 1, include: 8, loops: 1, dup: 0, err: 0 }, names: vec!["x", "y"], scripts: 4, nested: 0 }, n, |t| t.contains("include "), |_, _, _, _| ());
}
/// a run cut off by the CPU limit: events are a prefix, then the error, then exactly the pending keep
fn cpu_cut(f: &mut Finder, c: &Case, m: &Run, nested: usize, mr: usize, mo: usize, limit: usize) -> bool {
    let rt = runtime().with_max_nested_includes(nested).with_max_redirects(mr).with_max_out_messages(mo).with_cpu_limit(limit);
    let got = trace(&execute(&rt, c));
    let Some(k) = got.iter().position(|e| e == "ERR CPULimitReached") else { if got != m.out { let (e, g) = diff(&m.out, &got); f.fail(format!("cpu limit {limit}: {e}"), g); } return false; };
    if m.out.len() < k || m.out[..k] != got[..k] { let (e, g) = diff(&m.out, &got[..k]); f.fail(format!("cpu limit {limit}: {e}"), g); return true; }
    let rest = got[k + 1..].join(";");
    if !m.pend.contains(&(k, rest.clone())) { f.fail(format!("cpu limit {limit}: after the error one of {:?}", m.pend.iter().filter(|p| p.0 == k).map(|p| &p.1).collect::<Vec<_>>()), rest); }
    true
}
pub fn c04(f: &mut Finder) {
    f.bound = "random scripts of at most 26 statements with keep, discard, fileinto, redirect, reject, flags, includes, errors, and each one again under 6 CPU limits".into(); f.rule = RULE.into();
    // edits of the message reach the delivered message on every way a run can end
    let c = Compiler::new();
    for _ in 0..if f.quick { 1500 } else { 40000 } {
        let n = 1 + f.rng.below(7);
        let (mut src, mut exp, mut edits, mut changed) = (format!("{REQ}require \"editheader\";\n"), vec![], 0usize, false);
        let (mut pend, mut gflags): (Option<Vec<String>>, Vec<String>) = (Some(vec![]), vec![]);
        let end = f.rng.below(5);
        for i in 0..n {
            let k = f.rng.below(8);
            if matches!(k, 3..=6) && changed { exp.push(format!("NEW {edits}")); changed = false; }
            match k {
                0..=1 => { src.push_str(&format!("addheader \"X-{edits}\" \"v\";\n")); edits += 1; changed = true; }
                2 => { src.push_str(&format!("addflag \"g{i}\";\n")); gflags.push(format!("g{i}")); }
                3 => { src.push_str("keep;\n"); pend = Some(gflags.clone()); }
                4 => { src.push_str(&format!("keep :flags [\"a{i}\",\"b\"];\n")); pend = Some(vec![format!("a{i}"), "b".into()]); }
                5 => { src.push_str("fileinto :copy \"C\";\n"); exp.push(format!("FILE C {gflags:?}")); }
                6 => { src.push_str("fileinto \"F\";\n"); if pend.as_ref().is_some_and(|p| p.is_empty()) { pend = None; } exp.push(format!("FILE F {gflags:?}")); }
                _ => (),
            }
        }
        let mut limit = 1 << 20;
        let tail = |exp: &mut Vec<String>| if let Some(p) = &pend { if changed { exp.push(format!("NEW {edits}")); } exp.push(format!("KEEP {:?}", if p.is_empty() { &gflags } else { p })); };
        match end {
            0 => { src.push_str("error \"e\";\n"); exp.push("ERR ScriptError(e)".into()); tail(&mut exp); }
            1 => { src.push_str("frobnicate;\n"); exp.push("ERR InvalidInstruction".into()); tail(&mut exp); }
            2 => { src.push_str("while \"1\" {}\n"); limit = 60; exp.push("ERR CPULimitReached".into()); tail(&mut exp); }
            3 => { src.push_str("stop;\n"); tail(&mut exp); }
            _ => tail(&mut exp),
        }
        if !f.case(edits > 0, || src.clone()) { return; }
        let s = match compile(&c, &src) { Ok(s) => Arc::new(s), Err(e) => { f.fail("compiles", e); return; } };
        let rt = runtime().with_cpu_limit(limit);
        let mut o = Drive::new(&rt).simple(s, MSG);
        for e in o.events.iter_mut() { if let Event::CreatedMessage { message, .. } = e { let m = String::from_utf8_lossy(message).into_owned(); let k = m.lines().filter(|l| l.starts_with("X-") && l.ends_with(": v")).count(); *e = Event::DuplicateId { id: format!("NEW {k}"), expiry: 0, last: false }; } }
        let got: Vec<String> = trace(&o).into_iter().map(|t| t.strip_prefix("DUP ").map(|x| x.to_string()).unwrap_or(t)).collect();
        if got != exp { let (e, g) = diff(&exp, &got); f.fail(e, g); return; }
    }
    let n = if f.quick { 5000 } else { 150000 };
    let mut r = Rng(0x9E3779B97F4A7C15);
    let lims: Vec<usize> = (0..64).map(|_| 1 + r.below(60)).collect();
    random(f, Cfg { mix: Mix { vars: 1, matches: 0, control: 2, keep: 9, include: 2, loops: 1, dup: 1, err: 2 }, names: vec!["x"], scripts: 2, nested: 3 }, n, |t| t.contains("fileinto \"F\"") || t.contains("discard") || t.contains("redirect") || t.contains("reject") || t.contains("keep"),
        |f, c, _, i| {
            for j in 0..6 {
                let mut m = Run::new(&c.lib, 3, 3, 3, "me@x.org"); m.main("main");
                let l = lims[(i * 6 + j) % 64];
                cpu_cut(f, c, &m, 3, 3, 3, l); if f.done() { return; }
            }
        });
}
pub fn c01(f: &mut Finder) {
    f.bound = "random scripts with loops, includes and suspensions: the least CPU limit that lets each end is searched and compared with the number of statements executed; scripts that do not end under 5 limits".into(); f.rule = RULE.into();
    let c = Compiler::new();
    for src in ["while \"1\" { }", "while \"1\" { while \"0\" {} continue; }", "while \"1\" { while \"1\" { break; } }", "include \"main\"; include \"main\";", "while \"1\" { include \"s\"; }", "foreverypart { while \"1\" { foreverypart { break; } } }", "let \"global.x\" \"0\"; while \"global.x >= 0\" { let \"global.x\" \"global.x + 1\"; if duplicate :uniqueid \"a\" { keep; } }"] {
        for limit in [1usize, 2, 10, 100, 5000] {
            if !f.case(true, || format!("cpu limit {limit}: {src}")) { return; }
            let s = match compile(&c, &format!("{REQ}{src}")) { Ok(s) => Arc::new(s), Err(e) => { f.fail("compiles", e); return; } };
            let inc = Arc::new(compile(&c, "keep;").unwrap());
            let rt = runtime().with_cpu_limit(limit).with_max_nested_includes(1 << 20);
            let mut events = 0usize;
            let mut d = Drive::new(&rt); d.max_steps = 20000;
            let o = d.run(s.clone(), MSG, |_| {}, |e| { events += 1; match e { Event::IncludeScript { name: Script::Personal(n), .. } if n == "s" => Input::script("s", inc.clone()), Event::IncludeScript { .. } => Input::script("main", s.clone()), _ => Input::False } });
            let t = trace(&o);
            if o.stuck || t.iter().filter(|x| *x == "ERR CPULimitReached").count() != 1 || t.last().map(|x| x.starts_with("KEEP")) != Some(true) || events > limit + 2 { f.fail("CPULimitReached, then the keep", format!("{} events, last {:?}", t.len(), t.last())); return; }
        }
    }
    let n = if f.quick { 3000 } else { 60000 };
    random(f, Cfg { mix: Mix { vars: 2, matches: 1, control: 1, keep: 2, include: 3, loops: 4, dup: 2, err: 0 }, names: vec!["x"], scripts: 3, nested: 3 }, n, |t| t.contains("include") || t.contains("while") || t.contains("duplicate"),
        |f, c, _, _| {
            let mut m = Run::new(&c.lib, 3, 3, 3, "me@x.org"); m.main("main");
            let (mut lo, mut hi) = (0usize, 6 * m.steps + 40); // lo is too small, hi enough
            while hi - lo > 1 { let mid = (lo + hi) / 2; if cpu_cut(f, c, &m, 3, 3, 3, mid) { lo = mid } else { hi = mid } if f.done() { return; } }
            if cpu_cut(f, c, &m, 3, 3, 3, hi) { f.fail(format!("ends within {hi} instructions"), "CPULimitReached"); }
            else if hi < m.cost { f.fail(format!("at least {} instructions are counted", m.cost), hi); }
        });
}
