//! C37: every setting of the host takes effect, exactly that one
use crate::drive::{compile, Drive, Rng};
use crate::find::Finder;
use sieve::{runtime::Variable, Compiler, Context, Envelope, Event, FunctionMap, Input, Runtime, SpamStatus, VirusStatus};
use std::sync::Arc;
const URIS: [&str; 6] = ["xmpp:a", "tel:1", "http://x", "https://y", "tel", "http"];
const NAMES: [&str; 5] = ["A\"w\\", "Plain w", "\\\"w\"\"", "w\\\\", ""];
const LONG: usize = 1500;
fn one<'x>(_: &'x Context, _: Vec<Variable>) -> Variable { Variable::Integer(1) }
fn two<'x>(_: &'x Context, _: Vec<Variable>) -> Variable { Variable::Integer(2) }
#[derive(Clone)]
struct Rt { cpu: usize, nested: usize, redirects: usize, out: usize, received: usize, var: usize, header: usize, vac: u64, dup: u64, orig: bool, subject: String, prefix: String, host: String, protected: Vec<String>, env: Vec<(String, String)>, meta: Vec<(String, String)>, uris: Vec<String>, lists: Vec<String>, denied: Vec<&'static str>, fns: bool }
#[derive(Clone)]
struct Cx { addr: Option<String>, name: Option<String>, env: Vec<(String, String)>, global: Vec<(String, String)>, meta: Vec<(String, String)>, envl: Vec<(bool, String)>, spam: i64, virus: i64 }
const CAPS: [(&str, &str); 6] = [("fileinto", "fileinto \"x\";"), ("imap4flags", "setflag \"a\";"), ("reject", "reject \"x\";"), ("relational", "keep;"), ("date", "keep;"), ("editheader", "keep;")];
fn setup_rt(r: &mut Rng) -> (Runtime, Rt, String) {
    let mut rt = Runtime::new().with_capability("vnd.stalwart.while").with_capability("vnd.stalwart.expressions"); let mut log = String::new();
    let mut m = Rt { cpu: 5000, nested: 3, redirects: 1, out: 3, received: 10, var: 4096, header: 1024, vac: 30 * 86400, dup: 7 * 86400, orig: false, subject: "Automated reply".into(), prefix: "Auto: ".into(), host: "localhost".into(), protected: vec!["Original-Subject".into(), "Original-From".into()], env: vec![], meta: vec![], uris: vec![], lists: vec![], denied: vec![], fns: false };
    for _ in 0..r.below(9) {
        let with = r.below(2) == 0; let k = r.below(24); let n = 1 + r.below(5); let w = format!("w{}", r.below(60));
        log.push_str(&format!("{}{k}:{n}/{w} ", if with { "w" } else { "s" }));
        macro_rules! put { ($f:ident, $v:expr, $set:ident, $wi:ident) => {{ let v = $v; m.$f = v.clone(); if with { rt = rt.$wi(v); } else { rt.$set(v); } }} }
        match k {
            0 => put!(cpu, 60 * n, set_cpu_limit, with_cpu_limit),
            1 => put!(nested, n, set_max_nested_includes, with_max_nested_includes),
            2 => put!(redirects, n, set_max_redirects, with_max_redirects),
            3 => put!(out, n, set_max_out_messages, with_max_out_messages),
            4 => put!(received, n, set_max_received_headers, with_max_received_headers),
            5 => put!(var, 1100 + 30 * n, set_max_variable_size, with_max_variable_size),
            6 => put!(header, 100 * n, set_max_header_size, with_max_header_size),
            7 => put!(vac, n as u64, set_default_vacation_expiry, with_default_vacation_expiry),
            8 => put!(dup, n as u64, set_default_duplicate_expiry, with_default_duplicate_expiry),
            9 => put!(orig, n > 2, set_vacation_use_orig_rcpt, with_vacation_use_orig_rcpt),
            10 => put!(subject, w, set_vacation_default_subject, with_vacation_default_subject),
            11 => put!(prefix, w, set_vacation_subject_prefix, with_vacation_subject_prefix),
            12 => put!(host, w, set_local_hostname, with_local_hostname),
            13 => { let h = format!("X-P{}", r.below(4)); m.protected.push(h.clone()); if with { rt = rt.with_protected_header(h); } else { rt.set_protected_header(h); } }
            14 => { m.protected = (0..r.below(3)).map(|_| format!("X-P{}", r.below(4))).collect(); rt = rt.with_protected_headers(m.protected.clone()); }
            15 | 16 => { let e = format!("vnd.e{}", r.below(3)); m.env.retain(|x| x.0 != e); m.env.push((e.clone(), w.clone())); if with { rt = rt.with_env_variable(e, w); } else { rt.set_env_variable(e, w); } }
            17 => { let e = format!("/private/m{}", r.below(3)); m.meta.push((e.clone(), w.clone())); if with { rt = rt.with_metadata(e, w); } else { rt.set_medatata(e, w); } }
            18 => { let u = r.pick(&URIS).to_string(); m.uris.push(u.clone()); if with { rt = rt.with_valid_notification_uri(u); } else { rt.set_valid_notification_uri(u); } }
            19 => { if with { m.uris = vec![r.pick(&URIS).to_string()]; rt = rt.with_valid_notification_uris(m.uris.clone()); } else { m.lists = vec![format!("l{}", r.below(4)), format!("l{}", r.below(4))]; rt = rt.with_valid_ext_lists(m.lists.clone()); } }
            20 => { let u = format!("l{}", r.below(4)); m.lists.push(u.clone()); if with { rt = rt.with_valid_ext_list(u); } else { rt.set_valid_ext_list(u); } }
            21 => { let c = r.pick(&CAPS).0; if n < 4 { m.denied.push(c); if with { rt = rt.without_capability(c); } else { rt.unset_capability(c); } } else { m.denied.retain(|x| *x != c); if with { rt = rt.with_capability(c); } else { rt.set_capability(c); } } }
            22 => { let l: Vec<&str> = (0..n).map(|_| r.pick(&CAPS).0).collect(); m.denied.extend(l.iter()); rt = rt.without_capabilities(l); }
            _ => { let mut fm = FunctionMap::new().with_function_no_args("one", one).with_function_no_args("two", two); m.fns = true; if with { rt = rt.with_functions(&mut fm); } else { rt.set_functions(&mut fm); } }
        }
    }
    (rt, m, log)
}
fn setup_cx(r: &mut Rng) -> (Cx, Vec<(usize, bool, usize, String)>) {
    let mut m = Cx { addr: None, name: None, env: vec![], global: vec![], meta: vec![], envl: vec![], spam: 0, virus: 0 };
    let ops: Vec<(usize, bool, usize, String)> = (0..r.below(7)).map(|_| (r.below(10), r.below(2) == 0, r.below(5), format!("w{}", r.below(60)))).collect();
    for (k, _, n, w) in &ops {
        let last = |v: &mut Vec<(String, String)>, e: String| { v.retain(|x| x.0 != e); v.push((e, w.clone())); };
        match k {
            0 => m.addr = Some(format!("{w}@u.org")), 1 => m.name = Some(NAMES[*n].replace('w', w)),
            2 | 3 => last(&mut m.env, format!("vnd.e{}", n % 4)), 4 => last(&mut m.global, format!("g{n}")), 5 => m.meta.push((format!("/private/m{}", n % 4), w.clone())),
            6 => m.envl.push((n % 2 == 0, format!("{w}@e.org"))), 7 => m.spam = [0, 1, 4, 10, 1][*n], 8 => m.virus = [0, 1, 2, 3, 5][*n], _ => if *n == 0 { m.envl.clear() },
        }
    }
    (m, ops)
}
fn apply_cx<'x>(c: &mut Context<'x>, ops: &[(usize, bool, usize, String)]) {
    for (k, with, n, w) in ops {
        // the forms that take the context by value
        macro_rules! by { ($set:ident, $wi:ident, $($a:expr),*) => {{ if *with { let own = std::mem::replace(c, empty()); *c = own.$wi($($a),*); } else { c.$set($($a),*); } }} }
        match k {
            0 => by!(set_user_address, with_user_address, format!("{w}@u.org")), 1 => by!(set_user_full_name, with_user_full_name, &NAMES[*n].replace('w', w)),
            2 | 3 => by!(set_env_variable, with_env_variable, format!("vnd.e{}", n % 4), w.clone()), 4 => by!(set_global_variable, with_global_variable, format!("g{n}"), w.clone()),
            5 => by!(set_medatata, with_metadata, format!("/private/m{}", n % 4), w.clone()),
            6 => by!(set_envelope, with_envelope, if n % 2 == 0 { Envelope::From } else { Envelope::To }, format!("{w}@e.org")),
            7 => by!(set_spam_status, with_spam_status, [SpamStatus::Unknown, SpamStatus::Ham, SpamStatus::MaybeSpam(0.4), SpamStatus::Spam, SpamStatus::Ham][*n].clone()),
            8 => by!(set_virus_status, with_virus_status, [VirusStatus::Unknown, VirusStatus::Clean, VirusStatus::Replaced, VirusStatus::Cured, VirusStatus::Virus][*n].clone()),
            _ => if *n == 0 { c.clear_envelope() },
        }
    }
}
fn empty() -> Context<'static> { thread_local! { static E: &'static Runtime = Box::leak(Box::new(Runtime::new())); } E.with(|e| e.filter(b"")) }
fn limits(f: &mut Finder) -> bool {
    let rp = |s: &str, n: usize| s.repeat(n);
    let r = &mut f.rng; let mut c = Compiler::new(); let mut l = [1024 * 1024, 4096, 32, 15, 15, 3, 30, 128, 1024, 6]; let mut log = String::new(); let mut nocap = false;
    for _ in 0..r.below(7) {
        let k = r.below(11); let with = r.below(2) == 0; let n = r.below(5); log.push_str(&format!("{}{k}:{n} ", if with { "w" } else { "s" }));
        macro_rules! put { ($v:expr, $set:ident, $wi:ident) => {{ let v = $v; l[k] = v; if with { c = c.$wi(v); } else { c.$set(v); } }} }
        match k {
            0 => put!(50000 + 1000 * n, set_max_script_size, with_max_script_size), 1 => put!(1500 + 100 * n, set_max_string_size, with_max_string_size), 2 => put!(10 + 4 * n, set_max_variable_name_size, with_max_variable_name_size),
            3 => put!(6 + 2 * n, set_max_nested_blocks, with_max_nested_blocks), 4 => put!(2 + 3 * n, set_max_nested_tests, with_max_nested_tests), 5 => put!(n, set_max_nested_foreverypart, with_max_nested_foreverypart),
            6 => put!(2 + 3 * n, set_max_match_variables, with_max_match_variables), 7 => put!(10 + 20 * n, set_max_local_variables, with_max_local_variables), 8 => put!(100 + 50 * n, set_max_header_size, with_max_header_size), 9 => put!(1 + n, set_max_includes, with_max_includes),
            _ => { nocap = n > 1; if with { c = c.with_no_capability_check(nocap); } else { c.set_no_capability_check(nocap); } }
        }
    }
    for k in 0..11 {
        if k == 0 && l[0] > 100000 && f.rng.below(20) != 0 { continue; }
        let make = |n: usize| match k {
            0 => format!("keep; #{}\n", rp("x", n.saturating_sub(8))), 1 => format!("require \"reject\"; reject \"{}\";", rp("x", n)), 2 => format!("require \"variables\"; set \"{}\" \"1\";", rp("x", n)),
            3 => format!("{}keep;{}", rp("if true {", n), rp("}", n)), 4 => format!("if {}true{} {{ keep; }}", rp("allof(", n), rp(")", n)), 5 => format!("require [\"foreverypart\",\"mime\"]; {}keep;{}", rp("foreverypart {", n), rp("}", n)),
            6 => format!("require [\"variables\",\"fileinto\"]; if header :matches \"x\" \"{}\" {{ fileinto \"a${{{n}}}\"; }}", rp("a*", n + 1)), 7 => format!("require \"variables\"; {}", (0..n).map(|i| format!("set \"v{i}\" \"1\";")).collect::<String>()),
            8 => format!("require \"editheader\"; addheader \"X\" \"{}\";", rp("x", n)), 9 => format!("require \"include\"; {}", (0..n).map(|i| format!("include \"s{i}\";")).collect::<String>()), _ => String::new(),
        };
        if k == 10 {
            if !f.case(nocap, || format!("compiler {log}: fileinto without require")) { continue; }
            let got = compile(&c, "fileinto \"x\";").is_ok(); if !f.check(nocap, got) { return false; } continue;
        }
        // within the limit, and clearly over it
        for (n, ok) in [(l[k].saturating_sub(1), true), (l[k] + 2, false)] {
            let s = make(n); if !f.case(true, || format!("compiler {log}: limit {k} is {}, script with {n}: {}", l[k], s.chars().take(300).collect::<String>())) { continue; }
            let e = compile(&c, &s); if !f.check(if ok { String::new() } else { "refused".into() }, match e { Ok(_) => String::new(), Err(e) => if ok { e } else { "refused".into() } }) { return false; }
        }
    }
    true
}
pub fn c37(f: &mut Finder) {
    f.bound = "random sequences of up to 8 settings of the runtime, 6 of the context and 6 of the compiler, in their set_ and with_ forms, repeated and in any order".into();
    f.rule = "each setting read back through what scripts do, the ones not touched too; non-trivial when settings were made".into();
    let c = Compiler::new().with_max_string_size(1 << 16).with_max_header_size(1 << 16).with_max_includes(100);
    let get = |s: &str| -> Arc<sieve::Sieve> { Arc::new(compile(&c, s).unwrap_or_else(|e| panic!("{s}: {e}"))) };
    let cpu: Vec<(usize, Arc<sieve::Sieve>)> = [8usize, 22, 33, 60, 120, 700, 1500].iter().map(|n| (*n, get(&format!("require [\"vnd.stalwart.while\",\"variables\",\"vnd.stalwart.expressions\"]; set \"i\" \"0\"; while \"i < {n}\" {{ let \"i\" \"i + 1\"; }}")))).collect();
    let chain: Vec<Arc<sieve::Sieve>> = (0..10).map(|i| get(&format!("require \"include\"; include \"n{i}\";"))).collect();
    let redirect = get("require \"copy\"; redirect :copy \"a@b.c\"; redirect :copy \"b@b.c\"; redirect :copy \"c@b.c\"; redirect :copy \"d@b.c\"; redirect :copy \"e@b.c\"; redirect :copy \"f@b.c\";");
    let notify = get("require \"enotify\"; notify \"xmpp:a1\"; notify \"xmpp:a2\"; notify \"xmpp:a3\"; notify \"xmpp:a4\"; notify \"xmpp:a5\"; notify \"xmpp:a6\";");
    let sizes = get(&format!("require [\"variables\",\"editheader\",\"include\"]; global [\"n\",\"h\",\"v\"]; addheader \"X-L\" \"{0}\"; set \"v\" \"{1}\"; set :length \"n\" \"${{v}}\"; set :length \"h\" \"${{header.x-l}}\";", "x".repeat(LONG), "y".repeat(5000)));
    let reply = get("require \"vacation\"; vacation :addresses [\"t@x.y\"] :handle \"h\" \"gone\";");
    let dup = get("require \"duplicate\"; if duplicate :handle \"h\" { keep; }");
    let guards: Vec<(String, Arc<sieve::Sieve>)> = ["X-P0", "X-P1", "X-P2", "X-P3", "Original-Subject", "Original-From", "Subject"].iter().map(|h| (h.to_string(), get(&format!("require \"editheader\"; addheader \"{h}\" \"v\"; if header :is \"{h}\" \"v\" {{ discard; }}")))).collect();
    let looks = get("require [\"variables\",\"include\",\"environment\",\"servermetadata\",\"enotify\",\"extlists\",\"envelope\",\"spamtestplus\",\"virustest\"];
global [\"e0\",\"e1\",\"e2\",\"e3\",\"m0\",\"m1\",\"m2\",\"m3\",\"u0\",\"u1\",\"u2\",\"u3\",\"l0\",\"l1\",\"l2\",\"l3\",\"from\",\"to\",\"spam\",\"virus\"];
if environment :matches \"vnd.e0\" \"*\" { set \"e0\" \"${1}\"; } if environment :matches \"vnd.e1\" \"*\" { set \"e1\" \"${1}\"; } if environment :matches \"vnd.e2\" \"*\" { set \"e2\" \"${1}\"; } if environment :matches \"vnd.e3\" \"*\" { set \"e3\" \"${1}\"; }
if servermetadata :matches \"/private/m0\" \"*\" { set \"m0\" \"${1}\"; } if servermetadata :matches \"/private/m1\" \"*\" { set \"m1\" \"${1}\"; } if servermetadata :matches \"/private/m2\" \"*\" { set \"m2\" \"${1}\"; } if servermetadata :matches \"/private/m3\" \"*\" { set \"m3\" \"${1}\"; }
if valid_notify_method \"xmpp:a\" { set \"u0\" \"y\"; } if valid_notify_method \"tel:1\" { set \"u1\" \"y\"; } if valid_notify_method \"http://x\" { set \"u2\" \"y\"; } if valid_notify_method \"https://y\" { set \"u3\" \"y\"; }
if valid_ext_list \"l0\" { set \"l0\" \"y\"; } if valid_ext_list \"l1\" { set \"l1\" \"y\"; } if valid_ext_list \"l2\" { set \"l2\" \"y\"; } if valid_ext_list \"l3\" { set \"l3\" \"y\"; }
if envelope :matches \"from\" \"*\" { set \"from\" \"${1}\"; } if envelope :matches \"to\" \"*\" { set \"to\" \"${1}\"; }
if spamtest :matches \"*\" { set \"spam\" \"${1}\"; } if virustest :matches \"*\" { set \"virus\" \"${1}\"; }");
    let rep_env = get("require [\"vacation\"]; vacation :handle \"h\" \"gone\";");
    let fnc = Compiler::new().register_functions(&mut FunctionMap::new().with_function_no_args("one", one).with_function_no_args("two", two));
    let fnc = Arc::new(compile(&fnc, "require [\"vnd.stalwart.expressions\",\"variables\",\"include\"]; global [\"a\",\"b\"]; let \"a\" \"one()\"; let \"b\" \"two()\";").unwrap());
    let caps: Vec<(&str, Arc<sieve::Sieve>)> = CAPS.iter().map(|(n, s)| (*n, get(&format!("require \"{n}\"; {s}")))).collect();
    while !f.done() {
        if f.rng.below(3) == 0 { if !limits(f) { return; } continue; }
        let (rt, m, log) = setup_rt(&mut f.rng); let (cx, ops) = setup_cx(&mut f.rng); let d = Drive::new(&rt); let made = !log.is_empty() || !ops.is_empty();
        let msg = |received: usize, subject: &str| format!("{}From: s@far.net\r\nTo: t@x.y\r\nMessage-ID: <a@b>\r\n{subject}\r\nbody\r\n", "Received: x\r\n".repeat(received)).into_bytes();
        macro_rules! ask { ($what:expr, $want:expr, $got:expr) => {{ let w = $what; if f.case(made, || format!("runtime {log}; context {ops:?}; {w}")) { let (e, g) = ($want, $got); if !f.check(e, g) { return; } } }} }
        let plain = msg(0, "Subject: orig\r\n");
        // counted limits
        if f.rng.below(4) == 0 || m.cpu != 5000 { for (n, s) in &cpu { if 6 * n < m.cpu || 2 * n > m.cpu { ask!(format!("{n} turns with cpu limit {}", m.cpu), if 6 * n < m.cpu { vec![] } else { vec!["CPULimitReached".to_string()] }, d.simple(s.clone(), &plain).errors); } } }
        let mut depth = 0; d.run(chain[0].clone(), &plain, |_| {}, |e| match e { Event::IncludeScript { name, .. } => { depth += 1; Input::Script { name: name.clone(), script: chain[depth.min(9)].clone() } } _ => Input::True });
        ask!("nested scripts, the first one included", m.nested, depth + 1);
        let sent = |o: &crate::drive::Outcome| o.events.iter().filter(|e| matches!(e, Event::SendMessage { .. } | Event::Notify { .. })).count();
        ask!("six redirects", m.redirects.min(m.out), sent(&d.simple(redirect.clone(), &plain)));
        ask!("six notifications", m.out, sent(&d.simple(notify.clone(), &plain)));
        ask!("received one less", m.redirects.min(m.out), sent(&d.simple(redirect.clone(), &msg(m.received - 1, "Subject: a\r\n"))));
        ask!("received as many", 0, sent(&d.simple(redirect.clone(), &msg(m.received, "Subject: a\r\n"))));
        let o = d.simple(sizes.clone(), &plain);
        if !m.denied.contains(&"editheader") { ask!("variable and header size", (m.var.to_string(), m.header.to_string()), (o.text("n"), o.text("h"))); }
        // vacation and duplicate
        for (subj, want) in [("Subject: orig\r\n", format!("{}orig", m.prefix)), ("", m.subject.clone())] {
            let o = d.run(reply.clone(), &msg(0, subj), |c| { c.set_envelope(Envelope::From, "s@far.net"); c.set_user_address("me@u.org"); }, |e| match e { Event::DuplicateId { .. } => Input::False, _ => Input::True });
            let text = o.events.iter().find_map(|e| match e { Event::CreatedMessage { message, .. } => Some(String::from_utf8_lossy(message).to_string()), _ => None }).unwrap_or_default();
            let line = |n: &str| text.lines().find(|l| l.starts_with(n)).unwrap_or_default().trim_end().to_string();
            ask!("subject of the reply", format!("Subject: {want}"), line("Subject:"));
            ask!("message id of the reply", true, line("Message-ID:").ends_with(&format!("@{}>", m.host)));
            ask!("vacation expiry", Some(m.vac), o.events.iter().find_map(|e| match e { Event::DuplicateId { expiry, .. } => Some(*expiry), _ => None }));
        }
        for orig in [false, true] {
            let o = d.run(rep_env.clone(), &plain, |c| { c.set_envelope(Envelope::From, "s@far.net"); c.set_envelope(if orig { Envelope::Orcpt } else { Envelope::To }, "t@x.y"); c.set_user_address("me@u.org"); }, |e| match e { Event::DuplicateId { .. } => Input::False, _ => Input::True });
            ask!(format!("reply to a message for the {} recipient", if orig { "original" } else { "envelope" }), m.orig == orig, o.events.iter().any(|e| matches!(e, Event::CreatedMessage { .. })));
        }
        ask!("duplicate expiry", Some(m.dup), d.simple(dup.clone(), &plain).events.iter().find_map(|e| match e { Event::DuplicateId { expiry, .. } => Some(*expiry), _ => None }));
        for (h, s) in &guards { ask!(format!("protection of {h}"), m.denied.contains(&"editheader") || m.protected.contains(h), d.simple(s.clone(), &plain).events.iter().any(|e| matches!(e, Event::Keep { .. }))); }
        for (n, s) in &caps { ask!(format!("capability {n}"), !m.denied.contains(n), d.simple(s.clone(), &plain).errors.is_empty()); }
        if m.fns { let o = d.simple(fnc.clone(), &plain); ask!("functions", ("1".to_string(), "2".to_string()), (o.text("a"), o.text("b"))); }
        // what the context was told
        let o = d.run(looks.clone(), &plain, |c| apply_cx(c, &ops), |_| Input::True);
        ask!("errors", Vec::<String>::new(), o.errors.clone());
        let find = |v: &[(String, String)], n: &str| v.iter().find(|x| x.0 == n).map(|x| x.1.clone());
        for i in 0..4 {
            let e = format!("vnd.e{i}"); ask!(format!("environment {e}"), find(&cx.env, &e).or_else(|| find(&m.env, &e)).unwrap_or_default(), o.text(&format!("e{i}")));
            let e = format!("/private/m{i}"); ask!(format!("metadata {e}"), find(&cx.meta, &e).or_else(|| find(&m.meta, &e)).unwrap_or_default(), o.text(&format!("m{i}")));
            ask!(format!("notification method {i}"), m.uris.iter().any(|u| u == URIS[i] || u == URIS[i].split(':').next().unwrap()), o.text(&format!("u{i}")) == "y"); ask!(format!("list {i}"), m.lists.contains(&format!("l{i}")), o.text(&format!("l{i}")) == "y");
        }
        for i in 0..5 { ask!(format!("global g{i}"), find(&cx.global, &format!("g{i}")).unwrap_or_default(), o.text(&format!("g{i}"))); }
        for (from, n) in [(true, "from"), (false, "to")] { ask!(format!("envelope {n}"), cx.envl.iter().find(|x| x.0 == from).map(|x| x.1.clone()).unwrap_or_default(), o.text(n)); }
        ask!("spam and virus status", (cx.spam.to_string(), cx.virus.to_string()), (o.text("spam"), o.text("virus")));
        ask!("a message not changed", false, o.changed);
        let o = d.run(reply.clone(), &plain, |c| { apply_cx(c, &ops); c.clear_envelope(); c.set_envelope(Envelope::From, "s@far.net"); }, |e| match e { Event::DuplicateId { .. } => Input::False, _ => Input::True });
        let text = o.events.iter().find_map(|e| match e { Event::CreatedMessage { message, .. } => Some(String::from_utf8_lossy(message).to_string()), _ => None }).unwrap_or_default();
        let from = text.replace("\r\n\t", " ").replace("\r\n ", " ").lines().find(|l| l.starts_with("From:")).unwrap_or_default().to_string();
        let addr = cx.addr.clone().unwrap_or_default(); let want = match &cx.name { Some(n) if !addr.is_empty() && !n.is_empty() => format!("From: \"{}\" <{addr}>", n.replace('\\', "\\\\").replace('"', "\\\"")), _ => if addr.is_empty() { from.clone() } else { format!("From: {addr}") } };
        ask!("sender of a reply", want, from);
    }
}
