//! C16, C17, C19, C32: editing the incoming message.
use crate::{drive::*, find::*, p_mail::caps};
use sieve::{Compiler, Context, Event, Input, Runtime};
use std::sync::Arc;

fn comp() -> Compiler { Compiler::new().with_max_string_size(1 << 16) }
const KNOWN: [&str; 10] = ["Subject", "From", "To", "Cc", "Received", "Comments", "Date", "Reply-To", "List-Id", "Message-ID"];
fn canon(n: &str) -> String { KNOWN.iter().find(|k| k.eq_ignore_ascii_case(n)).map(|k| k.to_string()).unwrap_or(n.to_string()) }
fn plain(n: &str) -> bool { !n.is_empty() && n.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-' || c == b'_') }
/// one field: its name, the text after unfolding, the raw line(s)
#[derive(Clone, Debug)]
pub struct F { name: String, value: String, raw: String }
fn field(n: &str, v: &str) -> F { F { name: n.into(), value: v.trim().replace("\r\n ", " "), raw: format!("{n}: {v}\r\n") } }
fn added(n: &str, v: &str) -> F { F { name: canon(n), value: v.into(), raw: format!("{}: {v}\r\n", canon(n)) } }
/// the text without line breaks, at most max bytes long
fn clean(s: &str, max: usize) -> String { let mut o = String::new(); for c in s.chars().filter(|c| !['\r', '\n'].contains(c)) { if o.len() + c.len_utf8() > max { break; } o.push(c); } o }
/// the occurrences an operation with this index sees
fn occurrences(h: &[F], names: &[&str], index: Option<i32>) -> Vec<usize> {
    let mut out = vec![];
    for n in names {
        let a: Vec<usize> = h.iter().enumerate().filter(|x| x.1.name.eq_ignore_ascii_case(n)).map(|x| x.0).collect();
        match index { None => out.extend(a), Some(i) if i > 0 => out.extend(a.get(i as usize - 1)), Some(i) => if a.len() as i32 + i >= 0 { out.push(a[(a.len() as i32 + i) as usize]) } }
    }
    out
}
fn idx(r: &mut Rng) -> (Option<i32>, String) { match r.below(3) { 0 => (None, String::new()), k => { let n = match r.below(12) { 0 => 256 + r.below(5) as i32, 1 => *r.pick(&[65534, 32769, 32768, 4097, 129, 17]), _ => 1 + r.below(4) as i32 }; if k == 1 { (Some(n), format!(" :index {n}")) } else { (Some(-n), if r.below(2) == 0 { format!(" :index {n} :last") } else { format!(" :last :index {n}") }) } } } }
fn some_fields(r: &mut Rng) -> Vec<F> {
    let mut h = vec![];
    for _ in 0..r.below(7) { let n = *r.pick(&["Subject", "subject", "X-A", "x-a", "X-B", "Received", "Comments", "X-A-B", "COMMENTS", "X_C", "Original-Subject"]); h.push(field(n, *r.pick(&["v1", "v2", "v3", "V1", "v1 v2", "a\r\n b", " spaced  out ", "v1,v2", "", "é"]))); }
    h
}
const TEXTS: [&str; 22] = ["v", "a\r\nEvil: 1", "a\nEvil: 1", "a\rEvil: 1", "\r\n\r\nbody", "\r\n", "x\r\n folded", "", "é", "日本", "\u{1F600}", "\u{2028}", "\u{85}", "\u{0}", "tab\there", ": :", "long long long long text", "\n\n\n", " lead", "trail ", "=?utf-8?Q?a=0D=0Ab?=", "\\"];
const NAMES: [&str; 26] = ["X-New", "subject", "SUBJECT", "X-A", "Received", "x-a", "X New", "X-New:", "X\r\nEvil: 1", "", "é", "Xé", "X_Y", "_", "-", ":", "\r\n", "X-A\n", "\"X\"", "comments", "Content-Type", "X-\u{0}A", "K\u{212A}", "from", "X.Y", "9"];
/// C16, C17: sequences of header edits on a single-part message against a list of fields
fn edits(f: &mut Finder, c16: bool) {
    f.bound = "random sequences of up to 5 addheader and deleteheader actions (names and values with line breaks, NUL, multi-byte and empty texts, :last, :index, value patterns) on messages of up to 7 fields, header size limits 0..60 and random sets of protected names".into();
    f.rule = "the message rebuilt after the edits is compared byte for byte with an independent list-of-lines model; non-trivial when an edit applies".into();
    let c = comp();
    let names = ["Subject", "X-A", "Received", "Comments", "x-b", "X-New", "X_C", "Original-Subject"];
    loop {
        let mut rt = caps(Runtime::new()); let mut prot: Vec<&str> = vec!["Original-Subject", "Original-From"]; // protected unless the host sets the list
        let r = &mut f.rng;
        if r.below(2) == 0 { rt = rt.with_protected_headers(Vec::<String>::new()); prot.clear(); }
        for n in names { if r.below(4) == 0 { let spelled = match r.below(3) { 0 => n.to_uppercase(), 1 => n.to_lowercase(), _ => n.to_string() }; rt = rt.with_protected_header(spelled); prot.push(n); } }
        let max = *r.pick(&[0usize, 1, 2, 3, 5, 9, 60, 1000]); rt = rt.with_max_header_size(max);
        let h0 = some_fields(r); let mut h = h0.clone();
        let mut script = String::from("require [\"variables\",\"environment\",\"editheader\",\"relational\"];\n"); let mut env: Vec<(String, String)> = vec![]; let mut applied = 0; let mut sc = String::new();
        for k in 0..1 + r.below(5) {
            if r.below(2) == 0 || (c16 && r.below(2) == 0) {
                let n = if r.below(2) == 0 { format!("{}{}", r.pick(&NAMES), r.pick(&NAMES)) } else { r.pick(&NAMES).to_string() }; let v: String = (0..1 + r.below(3)).map(|_| *r.pick(&TEXTS)).collect(); let last = r.below(2) == 0;
                sc.push_str(&format!("addheader{} \"${{env.n{k}}}\" \"${{env.v{k}}}\";\n", if last { " :last" } else { "" }));
                let kept: String = n.chars().filter(|c| c.is_alphanumeric() || *c == '-').collect();
                if plain(&kept) && !prot.iter().any(|p| p.eq_ignore_ascii_case(&kept)) { let x = added(&kept, &clean(&v, max)); if last { h.push(x) } else { h.insert(0, x) } applied += 1; }
                env.push((format!("n{k}"), n)); env.push((format!("v{k}"), v));
            } else {
                let n = if r.below(8) == 0 { format!("{}{}", r.pick(&NAMES), r.pick(&["", ":", " "])) } else { r.pick(&names).to_string() }; let n = match r.below(3) { 0 => n.to_uppercase(), 1 => n.to_lowercase(), _ => n };
                let (i, it) = idx(r);
                let pats: Vec<&str> = (0..r.below(3)).map(|_| *r.pick(&["v1", "v2", "V3", "", "a b", "v"])).collect(); let mode = r.below(3);
                sc.push_str(&format!("deleteheader{it} {} \"${{env.n{k}}}\"{};\n", [":is", ":contains", ":matches"][mode], if pats.is_empty() { String::new() } else { format!(" [{}]", pats.iter().map(|p| lit(&if mode == 2 { format!("*{p}") } else { p.to_string() })).collect::<Vec<_>>().join(",")) }));
                if plain(&n) && !prot.iter().any(|p| p.eq_ignore_ascii_case(&n)) {
                    let seen = occurrences(&h, &[&n], i);
                    let gone: Vec<usize> = seen.into_iter().filter(|p| pats.is_empty() || { let v = h[*p].value.to_lowercase(); pats.iter().any(|p| { let p = p.to_lowercase(); match mode { 0 => v == p, 1 => v.contains(&p), _ => v.ends_with(&p) } }) }).collect();
                    for p in gone.into_iter().rev() { h.remove(p); applied += 1; }
                }
                env.push((format!("n{k}"), n));
            }
        }
        script.push_str(&sc); script.push_str("keep;");
        let body = *r.pick(&["\r\nbody\r\n", "\r\n", "\r\n\r\nX-A: v1\r\n", "\r\nbody without end"]);
        let msg: String = h0.iter().map(|x| x.raw.clone()).collect::<String>() + body;
        if h0.is_empty() { continue; }
        if !f.case(applied > 0, || format!("script {sc:?} with {env:?}, protected {prot:?}, max_header_size {max}, message {msg:?}")) { return; }
        let s = match compile(&c, &script) { Ok(s) => Arc::new(s), Err(e) => { f.fail("compiles", e); return; } };
        let o = Drive::new(&rt).run(s, msg.as_bytes(), |c: &mut Context| for (n, v) in &env { c.set_env_variable(n.clone(), v.clone()); }, |_| Input::True);
        if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
        let made = o.events.iter().find_map(|e| match e { Event::CreatedMessage { message, .. } => Some(String::from_utf8_lossy(message).into_owned()), _ => None });
        let want = if applied > 0 { Some(h.iter().map(|x| x.raw.clone()).collect::<String>() + body) } else { None };
        if !f.check(want, made) { return; }
    }
}
pub fn c16(f: &mut Finder) { edits(f, true) }
pub fn c17(f: &mut Finder) { edits(f, false) }
// ---------------------------------------------------------------- C19
pub fn c19(f: &mut Finder) {
    f.bound = "messages of up to 10 fields of which several share a name (in different spellings), every index 1..4 and some up to 65534 with and without :last, one or two field names; header, address, date and deleteheader".into();
    f.rule = "which occurrences a test or action sees, compared with a list model; non-trivial when a name occurs at least twice".into();
    let c = comp(); let rt = caps(Runtime::new());
    loop {
        let r = &mut f.rng; let mut h: Vec<(String, String)> = vec![];
        let kind = r.below(4);
        let pool: &[&str] = match kind { 1 => &["To", "to", "Cc", "TO", "Bcc", "From"], 2 => &["Date", "date", "Resent-Date", "DATE"], _ => &["X-A", "x-a", "X-B", "X-a", "Subject", "subject", "X-AA"] };
        for i in 0..1 + r.below(9) { let n = r.pick(pool).to_string(); let v = match kind { 1 => format!("u{i}@x.org"), 2 => format!("Tue, {} Nov 2022 05:14:20 +0000", i + 1), _ => format!("v{i}") }; h.push((n, v)); }
        let (i, it) = idx(r);
        let uniq: &[&str] = match kind { 1 => &["to", "Cc", "BCC"], 2 => &["date"], _ => &["x-a", "X-B", "subject"] };
        let names: Vec<&str> = if kind < 2 && r.below(2) == 0 { let a = *r.pick(uniq); let b = *r.pick(uniq); if a == b { vec![a] } else { vec![a, b] } } else { vec![*r.pick(uniq)] };
        let fs: Vec<F> = h.iter().map(|x| field(&x.0, &x.1)).collect();
        let seen = occurrences(&fs, &names, i);
        let msg: String = fs.iter().map(|x| x.raw.clone()).collect::<String>() + "\r\nb\r\n";
        let ns = format!("[{}]", names.iter().map(|n| lit(n)).collect::<Vec<_>>().join(","));
        let mut script = String::from("require [\"variables\",\"editheader\",\"index\",\"date\",\"relational\"];\n"); let mut want = String::new();
        if kind == 3 {
            script.push_str(&format!("deleteheader{it} {};\n", lit(names[0])));
            for (p, x) in fs.iter().enumerate() { if !seen.contains(&p) { want.push_str(&x.raw); } } want.push_str("\r\nb\r\n");
        } else {
            let t = ["header", "address", "date"][kind];
            for (k, (_, v)) in h.iter().enumerate() {
                let arg = if kind == 2 { format!(":is {} \"day\" \"{:02}\"", lit(names[0]), k + 1) } else { format!(":is {ns} {}", lit(v)) };
                let z = if kind == 2 { " :originalzone" } else { "" };
                script.push_str(&format!("if {t}{it}{z} {arg} {{ set \"global.g{k}\" \"y\"; }}\n")); if seen.contains(&k) { want.push_str(&format!("{k},")); }
            }
            if kind < 2 { script.push_str(&format!("if {t}{it} :count \"eq\" {ns} \"{}\" {{ set \"global.count\" \"y\"; }}\n", seen.len())); want.push_str("count"); }
        }
        script.push_str("keep;");
        let twice = names.iter().any(|n| h.iter().filter(|x| x.0.eq_ignore_ascii_case(n)).count() > 1);
        if !f.case(twice, || format!("{} with{it:?} {ns}: {}, message {msg:?}", ["header", "address", "date", "deleteheader"][kind], if kind == 3 { "fields left" } else { "occurrences seen" })) { return; }
        let s = match compile(&c, &script) { Ok(s) => Arc::new(s), Err(e) => { f.fail("compiles", format!("{e}: {script}")); return; } };
        let o = Drive::new(&rt).run(s, msg.as_bytes(), |_| (), |_| Input::True);
        if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
        let got = if kind == 3 { o.events.iter().find_map(|e| match e { Event::CreatedMessage { message, .. } => Some(String::from_utf8_lossy(message).into_owned()), _ => None }).unwrap_or(msg.clone()) }
            else { let mut g = String::new(); for k in 0..h.len() { if !o.text(&format!("g{k}")).is_empty() { g.push_str(&format!("{k},")); } } if !o.text("count").is_empty() { g.push_str("count"); } g };
        if !f.check(want, got) { return; }
    }
}
// ---------------------------------------------------------------- C32
#[derive(Clone, Debug)]
enum B { Text(String), Multi { b: String, pre: String, kids: Vec<P>, post: String }, Raw(String) }
#[derive(Clone, Debug)]
struct P { id: usize, h: Vec<F>, body: B }
fn render(p: &P) -> String {
    let mut o: String = p.h.iter().map(|x| x.raw.clone()).collect();
    match &p.body {
        B::Raw(s) => { o.push_str(s); return o; }
        B::Text(s) => { o.push_str("\r\n"); o.push_str(s); }
        B::Multi { b, pre, kids, post } => { o.push_str("\r\n"); o.push_str(pre); for k in kids { o.push_str(&format!("--{b}\r\n{}\r\n", render(k))); } o.push_str(&format!("--{b}--{post}")); }
    }
    o
}
/// the same field written in another way: letter case of the name, blanks before the colon, no blank behind it
fn written(r: &mut Rng, mut f: F) -> F {
    let n = f.name.len(); let v = f.raw[n + 1..].to_string();
    let name = match r.below(6) { 0 => f.name.to_uppercase(), 1 => f.name.to_lowercase(), _ => f.name.clone() };
    f.raw = format!("{name}{}:{}", ["", "", "", " ", "\t"][r.below(5)], match r.below(5) { 0 => v.strip_prefix(' ').unwrap_or(&v).to_string(), 1 => format!(" {v}"), _ => v });
    f
}
fn gen(r: &mut Rng, depth: usize, next: &mut usize) -> P { let mut p = gen_plain(r, depth, next); p.h = p.h.drain(..).map(|f| written(r, f)).collect(); p }
fn gen_plain(r: &mut Rng, depth: usize, next: &mut usize) -> P {
    let id = *next; *next += 1; let mut h = vec![field("X-P", &format!("p{id}"))];
    if depth == 0 { for _ in 0..r.below(4) { h.push(field(*r.pick(&["From", "To", "Subject", "X-A", "Received", "X-B"]), *r.pick(&["a@b.org", "v1", "x\r\n y", "é"]))); } }
    else { for _ in 0..r.below(3) { h.push(field(*r.pick(&["X-A", "X-B", "Content-Disposition", "Content-Description"]), *r.pick(&["v1", "inline", "x\r\n y"]))); } }
    if depth < 3 && r.below(if depth == 0 { 4 } else { 3 }) > if depth == 0 { 0 } else { 1 } {
        let b = format!("b{id}"); h.push(field("Content-Type", &format!("multipart/mixed; boundary=\"{b}\"")));
        let kids = (0..1 + r.below(3)).map(|_| gen(r, depth + 1, next)).collect();
        P { id, h, body: B::Multi { b, pre: r.pick(&["", "preamble\r\n"]).to_string(), kids, post: if depth == 0 { r.pick(&["\r\n", "", "\r\nepilogue\r\n"]).to_string() } else { String::new() } } }
    } else {
        if depth > 0 || r.below(2) == 0 { h.push(field("Content-Type", *r.pick(&["text/plain", "text/plain; charset=utf-8", "text/html", "application/octet-stream", "text/plain\r\n ; format=flowed"]))); }
        if depth > 0 && r.below(6) == 0 { h.retain(|x| x.name != "Content-Type"); h.push(field("Content-Type", "message/rfc822")); return P { id, h, body: B::Text(r.pick(&["From: i@n.org\r\nX-P: p1\r\nX-A: v1\r\n\r\ninner text", "SUBJECT: in\r\nContent-Type: multipart/mixed; boundary=\"q\"\r\n\r\n--q\r\nX-P: p2\r\n\r\none\r\n--q--\r\n"]).to_string()) }; }
        if r.below(8) == 0 { h.push(field("Content-Transfer-Encoding", "base64")); return P { id, h, body: B::Text("aGVsbG8=".into()) }; }
        P { id, h, body: B::Text(r.pick(&["text", "", "two\r\nlines", "end\r\n", "\r\nempty first", "bytes é", "X-A: v1\r\n"]).to_string()) }
    }
}
fn each(p: &mut P, act: &[(usize, usize)], log: &mut usize) {
    for (id, what) in act { if *id == p.id { match what {
        0 => { p.h.insert(0, added("X-N", "first")); *log += 1; }
        1 => { p.h.push(added("X-N", "last")); *log += 1; }
        2 => { let n = p.h.len(); p.h.retain(|x| !x.name.eq_ignore_ascii_case("X-A")); if p.h.len() != n { *log += 1; } }
        3 => { p.h = vec![F { name: "Content-Type".into(), value: String::new(), raw: "Content-Type: text/plain; charset=utf-8\r\n".into() }]; p.body = B::Text("new text".into()); *log += 1; }
        _ => { p.h = vec![]; p.body = B::Raw("Content-Type: text/x\r\n\r\nnew".into()); *log += 1; }
    } } }
    if let B::Multi { kids, .. } = &mut p.body { for k in kids { each(k, act, log); } }
}
/// every plain text part becomes HTML; a converted message keeps its own fields
fn html(p: &mut P, log: &mut usize) {
    let ct = p.h.iter().find(|x| x.name == "Content-Type").map(|x| if x.raw.contains("text/plain") { "plain" } else { "other" }).unwrap_or("plain");
    match &mut p.body {
        B::Multi { kids, .. } => for k in kids { html(k, log) },
        B::Text(t) if ct == "plain" => {
            if p.h.iter().any(|x| x.name == "Content-Transfer-Encoding") { *t = "hello".into(); }
            *t = format!("<html><body>{}</body></html>", t.replace('\r', "").replace('\n', "<br/>"));
            let f = F { name: "Content-Type".into(), value: String::new(), raw: "Content-Type: text/html; charset=utf8\r\n".into() };
            if p.id == 0 { p.h.retain(|x| !x.name.starts_with("Content-")); p.h.push(f); } else { p.h = vec![f]; }
            *log += 1;
        }
        _ => (),
    }
}
const WHAT: [&str; 5] = ["addheader \"X-N\" \"first\";", "addheader :last \"X-N\" \"last\";", "deleteheader \"X-A\";", "replace \"new text\";", "replace :mime \"Content-Type: text/x\\r\\n\\r\\nnew\";"];
/// convert changes exactly the parts of the type asked for, compared without regard to case
fn converts(f: &mut Finder) -> bool {
    let c = comp(); let rt = caps(Runtime::new());
    let kinds = ["text/plain", "text/csv", "text/html", "image/png", "", "TEXT/Plain; charset=us-ascii", "Text/HTML"];
    let base = |k: &str| { let k = k.split(';').next().unwrap().to_lowercase(); if k.is_empty() { "text/plain".to_string() } else { k } };
    for from in ["text/plain", "TEXT/plain", "text/PLAIN", "text/csv", "Text/Csv", "text/html", "TEXT/HTML", "image/png", "text/none"] { for to in ["text/html", "Text/HTML", "text/plain", "TEXT/Plain", "image/gif", "text/csv"] { for set in 0..1 << kinds.len() { for neg in [false, true] {
        if neg && set % 5 != 0 { continue; }
        let parts: Vec<&str> = kinds.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, k)| *k).collect();
        let mut msg = String::from("From: a@b.c\r\nSubject: s\r\nContent-Type: multipart/mixed; boundary=b\r\n\r\n"); let mut want = vec![]; let mut n = 0;
        for p in &parts {
            msg.push_str("--b\r\n"); if !p.is_empty() { msg.push_str(&format!("Content-Type: {p}\r\n")); } msg.push_str("\r\nhello\r\n");
            let (p, fr, to) = (base(p), base(from), base(to)); let done = p == fr && fr != to && (fr.starts_with("text/") && fr != "text/html" && to == "text/html" || fr == "text/html" && to == "text/plain");
            if done { n += 1; } want.push(if done { to } else { p });
        }
        msg.push_str("--b--\r\n");
        if !f.case(n > 0, || format!("convert {from:?} {to:?}, negated {neg}, on parts {parts:?}")) { continue; }
        let s = match compile(&c, &format!("require [\"convert\",\"reject\",\"fileinto\",\"copy\"]; if {}convert \"{from}\" \"{to}\" [\"\"] {{ fileinto :copy \"yes\"; }} keep;", if neg { "not " } else { "" })) { Ok(s) => Arc::new(s), Err(e) => { f.fail("compiles", e); return false; } };
        let o = Drive::new(&rt).run(s, msg.as_bytes(), |_| (), |_| Input::True);
        if let Some(p) = &o.panicked { f.fail("no panic", p); return false; }
        let yes = o.events.iter().any(|e| matches!(e, Event::FileInto { folder, .. } if folder == "yes"));
        let got = o.events.iter().rev().find_map(|e| match e { Event::CreatedMessage { message, .. } => Some(message.clone()), _ => None });
        if got.is_some() != (n > 0) { f.fail(format!("{n} parts converted"), format!("made a message: {}", got.is_some())); return false; }
        let got = got.unwrap_or_else(|| msg.clone().into_bytes());
        let got = String::from_utf8_lossy(&got).into_owned();
        let types: Vec<String> = got.split("--b\r\n").skip(1).map(|p| p.split("\r\n").take_while(|l| !l.is_empty()).find_map(|l| l.strip_prefix("Content-Type: ")).map_or("text/plain".into(), base)).collect();
        if !f.check(((n > 0) ^ neg, want), (yes, types)) { return false; }
    } } } }
    true
}
pub fn c32(f: &mut Finder) {
    if !converts(f) { return; }
    f.bound = "random messages of up to about 12 parts nested 3 deep with preambles and epilogues; random edits of parts (header fields added and removed, parts replaced with text or MIME contents) inside foreverypart, of the message's own fields before and after it, followed by enclose or convert".into();
    f.rule = "the rebuilt message is compared byte for byte with a tree model of the message; non-trivial when something changed and the message has more than one part".into();
    let c = comp(); let rt = caps(Runtime::new()).with_max_redirects(5).with_max_out_messages(5).with_max_received_headers(1000);
    loop {
        let r = &mut f.rng; let mut n = 0; let p0 = gen(r, 0, &mut n); let mut p = p0.clone();
        let mut script = String::from("require [\"variables\",\"editheader\",\"foreverypart\",\"mime\",\"replace\",\"enclose\",\"convert\",\"extracttext\",\"ihave\",\"fileinto\",\"copy\"];\n"); let mut log = 0;
        let root = |r: &mut Rng, p: &mut P, script: &mut String, log: &mut usize| { if r.below(3) == 0 { let w = r.below(3); script.push_str(WHAT[w]); let kids = std::mem::replace(&mut p.body, B::Text(String::new())); let id = p.id; each(p, &[(id, w)], log); p.body = kids; } };
        root(r, &mut p, &mut script, &mut log);
        let mut act: Vec<(usize, usize)> = vec![]; let mut body = String::new();
        for _ in 0..r.below(4) { let id = r.below(n); if id == 0 { continue; } let a = r.below(5); if act.iter().any(|x| x.0 == id && x.1 > 2) { continue; } act.push((id, a)); }
        act.sort_by_key(|x| x.0);
        let mut ids: Vec<usize> = act.iter().map(|x| x.0).collect(); ids.dedup();
        for id in ids { body.push_str(&format!("if header :mime :is \"X-P\" \"p{id}\" {{ {} }}\n", act.iter().filter(|x| x.0 == id).map(|x| WHAT[x.1]).collect::<Vec<_>>().join(" "))); }
        if !body.is_empty() || r.below(2) == 0 { script.push_str(&format!("foreverypart {{ {body} }}\n")); each(&mut p, &act, &mut log); }
        // a copy delivered half way holds what has been done so far
        let mid = r.below(4); let half = if mid < 2 { script.push_str(["fileinto :copy \"mid\";\n", "redirect :copy \"mid@x.y\";\n"][mid]); Some(if log > 0 { render(&p) } else { render(&p0) }) } else { None };
        root(r, &mut p, &mut script, &mut log);
        let fin = r.below(8);
        if fin == 1 && !act.iter().any(|x| x.1 > 3) { script.push_str(["convert \"text/plain\" \"text/html\" \"\";\n", "convert \"TEXT/Plain\" \"Text/HTML\" \"\";\n"][r.below(2)]); html(&mut p, &mut log); }
        let (msg, edited) = (render(&p0), render(&p));
        if fin == 2 {
            // the message itself replaced
            let (sub, mime) = (r.below(2) == 0, r.below(2) == 0);
            script.push_str(&format!("replace{}{} \"new text\";\nkeep;", if sub { " :subject \"S\"" } else { "" }, if mime { " :mime" } else { "" }));
            if !f.case(true, || format!("script {script:?} on message {msg:?}")) { return; }
            let s = match compile(&c, &script.replace("\\r\\n", "\r\n")) { Ok(s) => Arc::new(s), Err(e) => { f.fail("compiles", format!("{e}: {script}")); return; } };
            let o = Drive::new(&rt).run(s, msg.as_bytes(), |_| (), |_| Input::True);
            if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
            let got = o.events.iter().rev().find_map(|e| match e { Event::CreatedMessage { message, .. } => Some(String::from_utf8_lossy(message).into_owned()), _ => None }).unwrap_or_default();
            let kept: String = p.h.iter().filter(|x| ["from", "to", "received", "date", "subject"].contains(&x.name.to_lowercase().as_str())).map(|x| if sub && x.name == "Subject" { format!("Original-Subject{}", &x.raw[x.raw.find(':').unwrap()..]) } else { x.raw.clone() }).collect();
            let Some(rest) = got.strip_prefix(&kept) else { f.fail(format!("a message beginning with {kept:?}"), format!("{got:?}")); return; };
            let mut want = vec!["From: "]; if sub { want.push("Subject: S"); } want.extend(["Date", "Message-ID"]); if !mime { want.extend(["Content-Type: text/plain; charset=utf-8", ""]); } want.push("new text");
            let lines: Vec<&str> = rest.split("\r\n").map(|l| if l.starts_with("Date:") { "Date" } else if l.starts_with("Message-ID:") { "Message-ID" } else { l }).collect();
            if !f.check(want, lines) { return; }
            continue;
        }
        if fin == 0 { script.push_str("enclose :subject \"outer\" \"note\";\n"); }
        let end = r.below(8); script.push_str(match end { 0 => "", 1 => "error \"stop\";", 5 => "redirect \"r@x.y\";", 6 => "fileinto \"box\";", 7 => "redirect :copy \"r@x.y\"; fileinto :copy \"box\";", _ => "keep;" });
        if !f.case(n > 1 && log > 0, || format!("script {script:?} on message {msg:?}")) { return; }
        let s = match compile(&c, &script.replace("\\r\\n", "\r\n")) { Ok(s) => Arc::new(s), Err(e) => { f.fail("compiles", format!("{e}: {script}")); return; } };
        let o = Drive::new(&rt).run(s, msg.as_bytes(), |_| (), |_| Input::True);
        if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
        let made: Vec<String> = o.events.iter().filter_map(|e| match e { Event::CreatedMessage { message, .. } => Some(String::from_utf8_lossy(message).into_owned()), _ => None }).collect();
        let got = made.last().cloned();
        if o.errors.len() != (end == 1) as usize { f.fail(if end == 1 { "the error of the script" } else { "no error" }, format!("{:?}", o.errors)); return; }
        // the message kept is the one last made
        let id = o.events.iter().rev().find_map(|e| match e { Event::CreatedMessage { message_id, .. } => Some(*message_id), _ => None }).unwrap_or(0);
        let mut held: Vec<(usize, String)> = vec![(0, msg.clone())]; let (mut ends, mut halves) = (vec![], vec![]); let mut unknown = None;
        for e in &o.events { match e {
            Event::CreatedMessage { message, message_id } => held.push((*message_id, String::from_utf8_lossy(message).into_owned())),
            Event::Keep { message_id, .. } | Event::FileInto { message_id, .. } | Event::SendMessage { message_id, .. } => {
                let text = held.iter().find(|x| x.0 == *message_id).map(|x| x.1.clone()); if text.is_none() { unknown = Some(format!("{e:?}")); }
                if matches!(e, Event::FileInto { folder, .. } if folder == "mid") || matches!(e, Event::SendMessage { recipient: sieve::Recipient::Address(a), .. } if a == "mid@x.y") { halves.push(text); } else { ends.push(*message_id); }
            }
            _ => (),
        } }
        if let Some(e) = unknown { f.fail("a message announced before it is delivered", e); return; }
        if !f.check(half.into_iter().map(Some).collect::<Vec<_>>(), halves) { return; }
        if !f.check(vec![id; if end == 7 { 3 } else { 1 }], ends) { return; }
        if fin == 0 {
            let ok = got.as_ref().is_some_and(|g| { let b = g.split("boundary=\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("?").to_string(); g.split_once("\r\n\r\n").is_some_and(|x| x.1 == format!("--{b}\r\nContent-Type: text/plain; charset=utf-8\r\n\r\nnote\r\n--{b}\r\nContent-Type: message/rfc822\r\n\r\n{edited}\r\n--{b}--\r\n")) });
            if !ok { f.fail(format!("an enclosing message holding {edited:?}"), format!("{got:?}")); return; }
        } else if !f.check(if log > 0 { Some(edited) } else { None }, got) { return; }
    }
}
