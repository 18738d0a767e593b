//! C35: header, body, part, envelope and environment variables name exactly the piece they say.
use crate::{drive::*, find::*, p_mail::caps};
use sieve::{Compiler, Envelope, Input, Runtime};
use std::sync::Arc;

#[derive(Clone, Debug)]
struct Ad { name: Option<String>, local: String, domain: String }
impl Ad { fn addr(&self) -> String { format!("{}@{}", self.local, self.domain) } }
#[derive(Clone, Debug)]
enum K { Text(String), Addr(Vec<Ad>), Date(i64, String), Ids(Vec<String>), Ctype(&'static str, &'static str, Vec<(&'static str, &'static str)>), Rcvd(Vec<(&'static str, String)>) }
#[derive(Clone, Debug)]
struct H { written: String, name: &'static str, kind: K, raw: String }
fn spelled(r: &mut Rng, n: &str) -> String { match r.below(3) { 0 => n.to_string(), 1 => n.to_lowercase(), _ => n.to_uppercase() } }
fn fold(r: &mut Rng) -> &'static str { *r.pick(&[" ", " ", " ", "\r\n ", "\r\n\t", "  "]) }
fn ad(r: &mut Rng) -> Ad {
    let name = match r.below(3) { 0 => None, 1 => Some(format!("Name{}", r.below(9))), _ => Some(format!("First Last{}", r.below(9))) };
    let local = match r.below(3) { 0 => format!("u{}", r.below(9)), 1 => format!("u{}+d{}", r.below(9), r.below(9)), _ => format!("a.b{}", r.below(9)) };
    Ad { name, local, domain: r.pick(&["x.org", "Mail.Example.com", "y"]).to_string() }
}
fn field(r: &mut Rng, name: &'static str) -> H {
    let written = spelled(r, name);
    let (kind, v) = match name {
        "From" | "To" | "Cc" | "Reply-To" | "X-Addr" => {
            let n = if name == "X-Addr" || r.below(3) == 0 { 1 } else { 1 + r.below(5) };
            let l: Vec<Ad> = (0..n).map(|_| ad(r)).collect();
            let t: Vec<String> = l.iter().map(|a| match &a.name { None => if r.below(2) == 0 { a.addr() } else { format!("<{}>", a.addr()) }, Some(n) => if r.below(2) == 0 { format!("\"{n}\" <{}>", a.addr()) } else { format!("{n} <{}>", a.addr()) } }).collect();
            let sep = format!(",{}", fold(r));
            let v = if name != "X-Addr" && n > 1 && r.below(6) == 0 { format!("Team: {};", t.join(&sep)) } else { t.join(&sep) };
            if name == "X-Addr" { let flat = v.clone(); (K::Text(flat), v) } else { (K::Addr(l), v) }
        }
        "Date" | "Resent-Date" | "X-Date" => { let d = 1 + r.below(28); let h = r.below(24); let z = *r.pick(&[("+0000", 0i64), ("+0100", 3600), ("-0730", -27000)]); let v = format!("{d} Nov 2022 {h:02}:14:20 {}", z.0);
            (K::Date(1667260800 + (d as i64 - 1) * 86400 + h as i64 * 3600 + 860 - z.1, v.clone()), v) }
        "Message-ID" | "X-Ids" | "References" => { let n = if name == "Message-ID" { 1 } else { 1 + r.below(4) }; let l: Vec<String> = (0..n).map(|_| format!("i{}@h{}", r.below(99), r.below(3))).collect(); let v = l.iter().map(|x| format!("<{x}>")).collect::<Vec<_>>().join(fold(r)); (K::Ids(l), v) }
        "Content-Type" => { let (t, s) = *r.pick(&[("text", "plain"), ("text", "html"), ("text", "x-other")]); let a: Vec<(&str, &str)> = [("charset", "utf-8"), ("format", "flowed"), ("x-one", "Val")].into_iter().filter(|_| r.below(2) == 0).collect();
            let mut v = format!("{t}/{s}"); for (k, x) in &a { v.push_str(&format!(";{}{}={}", fold(r), spelled(r, k), if r.below(2) == 0 { format!("\"{x}\"") } else { x.to_string() })); } (K::Ctype(t, s, a), v) }
        "Received" => { let h = format!("h{}.x.org", r.below(9)); let b = format!("b{}.y.org", r.below(9)); let ip = format!("10.0.0.{}", r.below(200)); let id = format!("Q{}", r.below(999)); let f = format!("u{}@z.org", r.below(9)); let d = 1 + r.below(28); let ds = format!("Mon, {d} Nov 2022 01:02:03 +0000");
            let ds = &ds; let (g, rv, bi) = (format!("g{}.v.org", r.below(9)), format!("r{}.w.org", r.below(9)), format!("10.2.0.{}", r.below(200))); let (f1, f2) = (fold(r), fold(r));
            let (v, l): (String, Vec<(&'static str, &str)>) = match r.below(7) {
                0 => (format!("from {h} (HELO {g}) ({ip}){f1}by {b} with SMTP id {id} for <{f}>;{f2}{ds}"), vec![("from", &h), ("from.name", &h), ("ip", &ip), ("by", &b), ("by.name", &b), ("with", "SMTP"), ("id", &id), ("for", &f)]),
                1 => (format!("from {h} ({rv} [{ip}]) (using TLSv1.3 with cipher TLS_AES_256_GCM_SHA384 (256/256 bits)){f1}by {b} (Postfix) with ESMTPS id {id} for <{f}>;{f2}{ds}"), vec![("from", &h), ("from.name", &h), ("ip", &ip), ("iprev", &rv), ("by", &b), ("by.name", &b), ("with", "ESMTPS"), ("tls", "TLSv1.3"), ("cipher", "TLS_AES_256_GCM_SHA384"), ("id", &id), ("for", &f)]),
                2 => (format!("by {b} with LMTP id {id};{f2}{ds}"), vec![("by", &b), ("by.name", &b), ("with", "LMTP"), ("id", &id)]),
                3 => (format!("from [{bi}] ([{ip}] helo={g} ident=bill){f1}by {b} with esmtpsa;{f2}{ds}"), vec![("from", &bi), ("from.ip", &bi), ("ip", &ip), ("ident", "bill"), ("by", &b), ("by.name", &b), ("with", "ESMTPSA")]),
                4 => (format!("from {h}{f1}by [{bi}];{f2}{ds}"), vec![("from", &h), ("from.name", &h), ("by", &bi), ("by.ip", &bi)]),
                _ => (format!("from {h} ({h} [{ip}]){f1}by {b} with ESMTPS id {id} for <{f}>;{f2}{ds}"), vec![("from", &h), ("from.name", &h), ("ip", &ip), ("iprev", &h), ("by", &b), ("by.name", &b), ("with", "ESMTPS"), ("id", &id), ("for", &f)]),
            };
            let mut l: Vec<(&'static str, String)> = l.into_iter().map(|(k, x)| (k, x.to_string())).collect(); l.push(("date", (1667260800 + (d as i64 - 1) * 86400 + 3723).to_string()));
            (K::Rcvd(l), v) }
        _ => { let v = r.pick(&["v1", "two words", "ünï", "a, b; c", "x", "1234", "v<1>", "-"]).to_string(); (K::Text(v.clone()), v) }
    };
    let raw = format!("{written}:{}{v}\r\n", if r.below(5) == 0 { "" } else { " " });
    H { written, name, kind, raw }
}
fn pieces<T: Clone>(l: &[T], j: i32) -> Option<Vec<T>> { if j == 0 { None } else if j > 0 { Some(l.get(j as usize - 1).cloned().into_iter().collect()) } else { Some(if l.len() as i32 + j >= 0 { vec![l[(l.len() as i32 + j) as usize].clone()] } else { vec![] }) } }
/// the pieces of one list: the asked one (or an empty value when there is none), or all of them
fn select(l: Vec<String>, j: i32) -> Vec<String> { match pieces(&l, j) { None => l, Some(v) if v.is_empty() => vec![String::new()], Some(v) => v } }
fn squeeze(s: &str) -> String { let mut o = String::new(); let mut sp = false; for c in s.chars() { if c.is_ascii_whitespace() { sp = true; } else { if sp { o.push(' '); sp = false; } o.push(c); } } o }
fn part_of(a: &Ad, p: &str) -> String {
    let (u, d) = match a.local.split_once('+') { Some((u, d)) => (u.to_string(), d.to_string()), None => (a.local.clone(), String::new()) };
    match p { "name" => a.name.clone().unwrap_or_default(), "addr" => a.addr(), "addr.local" => a.local.clone(), "addr.domain" => a.domain.clone(), "addr.user" => u, _ => d }
}
const ADDR: [&str; 6] = ["name", "addr", "addr.local", "addr.domain", "addr.user", "addr.detail"];
/// what the asked part of one field is; None: not covered
fn value(h: &H, p: &str, j: i32) -> Option<Vec<String>> {
    let at = h.raw.find(':').unwrap();
    Some(match p {
        "raw" => vec![squeeze(&h.raw[at + 1..])],
        "raw_name" => vec![h.written.clone()],
        "exists" => vec!["1".into()],
        "text" | "" => match &h.kind {
            K::Text(v) => if h.name == "X-Addr" && v.contains("\r\n") { return None } else if (-1..=1).contains(&j) { vec![squeeze(v)] } else { vec![String::new()] },
            K::Addr(l) => select(l.iter().map(|a| match &a.name { Some(n) => format!("{n} <{}>", a.addr()), None => format!("<{}>", a.addr()) }).collect(), j),
            K::Date(_, v) => if h.name == "X-Date" { if (-1..=1).contains(&j) { vec![v.clone()] } else { vec![String::new()] } } else { vec![v.clone()] },
            K::Ids(l) => if h.name == "X-Ids" { return None } else if l.len() == 1 { if (-1..=1).contains(&j) { l.clone() } else { vec![String::new()] } } else { select(l.clone(), j) },
            K::Ctype(t, s, _) => vec![format!("{t}/{s}")],
            K::Rcvd(_) => return None,
        },
        "date" => match &h.kind { K::Date(t, _) => vec![t.to_string()], _ => return None },
        "id" => match &h.kind { K::Ids(l) if h.name != "References" => l.clone(), K::Text(_) if h.name == "Subject" => vec![String::new()], _ => return None },
        "type" => match &h.kind { K::Ctype(t, _, _) => vec![t.to_string()], _ => vec![String::new()] },
        "subtype" => match &h.kind { K::Ctype(_, s, _) => vec![s.to_string()], _ => vec![String::new()] },
        _ => if let Some(a) = p.strip_prefix("attr.") { match &h.kind { K::Ctype(_, _, l) => vec![l.iter().find(|x| x.0 == a).map(|x| x.1.to_string()).unwrap_or_default()], _ => vec![String::new()] } }
            else if let Some(a) = p.strip_prefix("rcvd.") { match &h.kind { K::Rcvd(l) => vec![l.iter().find(|x| x.0 == a).map(|x| x.1.clone()).unwrap_or_default()], _ => vec![String::new()] } }
            else if ADDR.contains(&p) { match &h.kind { K::Addr(l) => select(l.iter().map(|a| part_of(a, p)).collect(), j), K::Ctype(..) => vec![String::new()], K::Date(..) if h.name != "X-Date" => vec![String::new()], _ => return None } }
            else { return None },
    })
}
fn joined(v: &[String]) -> String { let mut o = String::new(); for x in v { if !o.is_empty() { o.push_str("\r\n"); } o.push_str(x); } o }
struct Ask { names: Vec<&'static str>, i: i32, p: String, j: i32, text: String }
fn index(r: &mut Rng) -> (i32, String) { match r.below(8) { 0 | 1 => (-1, String::new()), 2 => (0, "[*]".into()), 3 => (1, "[0]".into()), 4 | 5 => { let n = 1 + r.below(6) as i32; (n, format!("[{n}]")) } _ => { let n = 1 + r.below(6) as i32; (-n, format!("[-{n}]")) } } }
fn ask(r: &mut Rng, have: &[&'static str]) -> Ask {
    let all = ["Subject", "X-Text", "From", "To", "Cc", "Reply-To", "Date", "X-Date", "Message-ID", "X-Ids", "References", "Content-Type", "Received", "X-Addr"];
    let mut names: Vec<&'static str> = vec![];
    for _ in 0..1 + (r.below(4) == 0) as usize { names.push(if r.below(8) > 0 && !have.is_empty() { *r.pick(have) } else { *r.pick(&all) }); }
    let p = match r.below(4) {
        0 => *r.pick(&["", "text", "raw", "raw_name", "exists", "date", "id", "type", "subtype"]),
        1 => *r.pick(&ADDR),
        _ => match names[0] { "From" | "To" | "Cc" | "Reply-To" => *r.pick(&["", "name", "addr", "addr.local", "addr.domain", "addr.user", "addr.detail"]), "Date" | "X-Date" => "date", "Message-ID" | "X-Ids" => "id", "Content-Type" => *r.pick(&["type", "subtype", "attr.charset", "attr.format", "attr.x-one", "attr.none"]), "Received" => *r.pick(&["rcvd.from", "rcvd.from", "rcvd.from.name", "rcvd.from.ip", "rcvd.ip", "rcvd.iprev", "rcvd.by", "rcvd.by.name", "rcvd.by.ip", "rcvd.with", "rcvd.id", "rcvd.ident", "rcvd.for", "rcvd.date", "rcvd.tls", "rcvd.cipher"]), _ => "" },
    };
    let (i, it) = index(r); let (j, jt) = if p.is_empty() { (-1, String::new()) } else { index(r) };
    let names_text = names.iter().map(|n| spelled(r, n)).collect::<Vec<_>>().join(":");
    let text = format!("header.{names_text}{it}{}{jt}", if p.is_empty() { String::new() } else { format!(".{}", spelled(r, p)) });
    Ask { names, i, p: p.into(), j, text }
}
fn answer(h: &[H], a: &Ask) -> Option<String> {
    let l: Vec<H> = h.iter().filter(|x| a.names.iter().any(|n| n.eq_ignore_ascii_case(x.name))).cloned().collect();
    let l = match pieces(&l, a.i) { None => l, Some(v) => v };
    let mut o = vec![];
    for x in &l { o.extend(value(x, &a.p, a.j)?); }
    Some(joined(&o))
}
fn fields(r: &mut Rng, pool: &[&'static str], n: usize) -> Vec<H> {
    let mut h: Vec<H> = vec![];
    for _ in 0..n { let name = *r.pick(pool); if name == "Content-Type" && h.iter().any(|x| x.name == name) { continue; } h.push(field(r, name)); }
    h
}
pub fn c35(f: &mut Finder) {
    f.bound = "random messages of up to 9 fields of 14 kinds (repeated, in any letter case, folded) and of up to 3 MIME parts; header variables with up to two names, every index -6..6 and *, every part; the same text in a string and in an expression; body, part, envelope and environment variables".into();
    f.rule = "the value of each variable, compared with the fields the message was built from; non-trivial when a field has the name".into();
    let c = Compiler::new().with_max_string_size(1 << 16).with_max_variable_name_size(256); let rt = caps(Runtime::new());
    let pool = ["Subject", "X-Text", "From", "To", "Cc", "Reply-To", "Date", "X-Date", "Message-ID", "X-Ids", "References", "Content-Type", "Received", "X-Addr"];
    loop {
        let r = &mut f.rng;
        let small: Vec<&'static str> = (0..1 + r.below(4)).map(|_| *r.pick(&pool)).collect();
        let n = r.below(10); let wide = r.below(3) == 0; let mut h = fields(r, if wide { &pool } else { &small }, n);
        let parts = r.below(4) == 0;
        let mut script = String::from("require [\"variables\",\"foreverypart\",\"mime\",\"environment\",\"vnd.stalwart.expressions\"];\n");
        let mut want: Vec<(String, String, String)> = vec![]; let mut hit = false;
        let mut msg: String;
        let body = r.pick(&["hello", "two\r\nlines", "é", ""]).to_string();
        if !parts {
            msg = h.iter().map(|x| x.raw.clone()).collect(); msg.push_str("\r\n"); msg.push_str(&body);
            let have: Vec<&'static str> = h.iter().map(|x| x.name).collect();
            for k in 0..12 {
                let a = ask(r, &have); let Some(w) = answer(&h, &a) else { continue };
                hit |= h.iter().any(|x| a.names.contains(&x.name));
                if r.below(2) == 0 { script.push_str(&format!("set \"global.v{k}\" \"${{{}}}\";\n", a.text)); } else { script.push_str(&format!("let \"global.v{k}\" \"{}\";\n", a.text)); }
                want.push((format!("v{k}"), a.text, w));
            }
            let html = h.iter().any(|x| matches!(x.kind, K::Ctype(_, "html", _)));
            let odd = h.iter().any(|x| matches!(x.kind, K::Ctype(_, "x-other", _)));
            if !odd { script.push_str("set \"global.b\" \"${body.text}\"; set \"global.c\" \"${body.html}\"; set \"global.d\" \"${part.text}\"; set \"global.e\" \"${part.raw}\";\n");
                let (t, u) = if html { (String::new(), body.clone()) } else { (body.clone(), String::new()) };
                want.push(("b".into(), "body.text".into(), t)); want.push(("c".into(), "body.html".into(), u)); want.push(("d".into(), "part.text".into(), body.clone())); want.push(("e".into(), "part.raw".into(), body.clone())); }
        } else {
            h.retain(|x| x.name != "Content-Type");
            let kids: Vec<(Vec<H>, String, &str)> = (0..1 + r.below(3)).map(|k| { let n = 1 + r.below(3); let mut l = fields(r, &["Subject", "X-Text", "X-Addr", "To", "X-Ids"], n); l.retain(|x| x.name != "Content-Type"); (l, format!("body {k}{}", r.below(9)), *r.pick(&["plain", "html"])) }).collect();
            msg = h.iter().map(|x| x.raw.clone()).collect(); msg.push_str("Content-Type: multipart/mixed; boundary=\"b\"\r\n\r\n");
            for (l, b, t) in &kids { msg.push_str("--b\r\n"); for x in l { msg.push_str(&x.raw); } msg.push_str(&format!("Content-Type: text/{t}\r\n\r\n{b}\r\n")); }
            msg.push_str("--b--\r\n");
            let have: Vec<&'static str> = kids.iter().flat_map(|k| k.0.iter().map(|x| x.name)).collect();
            let asks: Vec<Ask> = (0..4).map(|_| ask(r, &have)).collect();
            script.push_str("set \"global.n\" \"0\";\nforeverypart {\n let \"global.n\" \"global.n + 1\";\n");
            for (k, a) in asks.iter().enumerate() { script.push_str(&format!(" set \"global.w{k}\" \"${{global.w{k}}}<${{{}}}>\";\n", a.text)); }
            script.push_str(" if header :mime :type \"Content-Type\" \"text\" { set \"global.t\" \"${global.t}<${part.text}>\"; set \"global.r\" \"${global.r}<${part.raw}>\"; }\n}\n");
            for (k, a) in asks.iter().enumerate() {
                let mut w = String::new(); let mut known = a.p != "type" && a.p != "subtype" && !a.p.starts_with("attr") && !a.names.contains(&"Content-Type");
                for l in std::iter::once(&h).chain(kids.iter().map(|k| &k.0)) { match answer(l, a) { Some(x) => w.push_str(&format!("<{x}>")), None => known = false } }
                if known { hit = true; want.push((format!("w{k}"), a.text.clone(), w)); }
            }
            let all: String = kids.iter().map(|k| format!("<{}>", k.1)).collect();
            want.push(("t".into(), "part.text of each part".into(), all.clone())); want.push(("r".into(), "part.raw of each part".into(), all));
        }
        let env = [("env.a", "alpha"), ("env.b", ""), ("env.long_name", "value 2")];
        let (ef, et) = (format!("s{}@x.org", r.below(9)), format!("r{}@y.org", r.below(9)));
        script.push_str("set \"global.x\" \"${env.a}|${env.b}|${env.long_name}|${env.none}|${envelope.from}|${envelope.to}|${ENVELOPE.To}|${envelope.envid}\";\nkeep;");
        want.push(("x".into(), "env and envelope".into(), format!("alpha||value 2||{ef}|{et}|{et}|")));
        if !f.case(hit, || format!("variables {} of message {msg:?}", want.iter().map(|w| w.1.as_str()).collect::<Vec<_>>().join(", "))) { return; }
        let s = match compile(&c, &script) { Ok(s) => Arc::new(s), Err(e) => { f.fail("compiles", format!("{e}: {script}")); return; } };
        let o = Drive::new(&rt).run(s, msg.as_bytes(), |x| { for (k, v) in env { x.set_env_variable(k[4..].to_string(), v); } x.set_envelope(Envelope::From, ef.clone()); x.set_envelope(Envelope::To, et.clone()); }, |_| Input::True);
        if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
        for (k, t, w) in &want {
            let got = o.text(k);
            if *w != got { f.fail(format!("{t} = {w:?}"), format!("{got:?}")); return; }
        }
    }
}
