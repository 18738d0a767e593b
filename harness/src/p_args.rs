//! C36: the arguments of actions reach them as written, in whatever order
use crate::drive::{compile, lit, Drive, Rng};
use crate::find::Finder;
use crate::p_mail::caps;
use sieve::{Compiler, Envelope, Event, Input, Recipient, Runtime};
use std::sync::Arc;
const REQ: &str = "require [\"fileinto\",\"copy\",\"mailbox\",\"imap4flags\",\"mailboxid\",\"special-use\",\"extlists\",\"redirect-deliverby\",\"redirect-dsn\",\"enotify\",\"fcc\",\"vacation\",\"vacation-seconds\",\"include\",\"enclose\",\"replace\",\"mime\",\"variables\",\"envelope\",\"date\",\"extracttext\",\"foreverypart\",\"reject\"];\n";
const MSG: &[u8] = b"From: s@far.net\r\nTo: me@x.org, alias7@x.org\r\nSubject: orig\r\n\r\nbody one\r\n";
/// the texts of a script: as quoted strings or through a variable set before
struct B { pre: String, n: usize }
impl B {
    fn text(&mut self, r: &mut Rng, v: &str) -> String {
        if v.ends_with(" orig") && r.below(2) == 0 { return format!("\"{}${{header.subject}}\"", v.strip_suffix("orig").unwrap()); }
        match r.below(4) { 0 => { self.n += 1; self.pre.push_str(&format!("set \"g{}\" {};\n", self.n, lit(v))); format!("\"${{g{}}}\"", self.n) } _ => lit(v) }
    }
    fn tagged(&mut self, r: &mut Rng, v: &str) -> String { let t = self.text(r, v); if r.below(5) == 0 { format!("[{t}]") } else { t } }
    fn list(&mut self, r: &mut Rng, v: &[String]) -> String { let l: Vec<String> = v.iter().map(|x| self.text(r, x)).collect(); if l.len() == 1 && r.below(2) == 0 { l[0].clone() } else { format!("[{}]", l.join(if r.below(2) == 0 { ", " } else { "," })) } }
}
fn tag(r: &mut Rng, t: &str) -> String { t.chars().map(|c| if r.below(6) == 0 { c.to_ascii_uppercase() } else { c }).collect() }
fn word(r: &mut Rng, p: &str) -> String { format!("{p}{}", r.below(90)) }
fn words(r: &mut Rng, p: &str, min: usize) -> Vec<String> { let n = min + r.below(3); (0..n).map(|i| format!("{p}{i}{}", r.below(9))).collect() }
fn show(e: &Event) -> String {
    match e {
        Event::FileInto { folder, flags, mailbox_id, special_use, create, message_id } => format!("fileinto {folder:?} flags {flags:?} id {mailbox_id:?} use {special_use:?} create {create} message {message_id}"),
        Event::SendMessage { recipient, notify, return_of_content, by_time, message_id } => format!("send {} notify {notify:?} ret {return_of_content:?} by {by_time:?} message {message_id}", match recipient { Recipient::Address(a) => format!("A:{a}"), Recipient::List(a) => format!("L:{a}"), Recipient::Group(g) => format!("G:{}", g.join("|")) }),
        Event::Notify { from, importance, options, message, method } => format!("notify {method:?} from {from:?} importance {importance:?} options {options:?} message {message:?}"),
        Event::Keep { flags, message_id } => format!("keep {flags:?} message {message_id}"),
        Event::DuplicateId { id, expiry, last } => format!("duplicate {id:?} {expiry} {last}"),
        Event::IncludeScript { name, optional } => format!("include {name:?} optional {optional}"),
        Event::CreatedMessage { message, message_id } => {
            let m = String::from_utf8_lossy(message).to_string(); let (h, b) = m.split_once("\r\n\r\n").unwrap_or((&m, ""));
            let h: Vec<&str> = h.split("\r\n").filter(|l| !["date:", "message-id:", "content-type: multipart", "x-sieve", "auto-submitted"].iter().any(|p| l.to_ascii_lowercase().starts_with(p))).collect();
            let b: Vec<&str> = b.split("\r\n").filter(|l| !l.starts_with("--") && !l.is_empty() && !l.starts_with("Content-")).collect();
            format!("created {message_id} {h:?} {b:?}")
        }
        e => format!("{e:?}"),
    }
}
pub fn c36(f: &mut Finder) {
    f.bound = "random fileinto, keep, redirect, notify, vacation, include, replace, enclose and extracttext commands: every subset of their tagged arguments in any order and letter case, texts given directly or through variables, single texts as lists; and the same commands with a tag given twice or two tags that exclude each other".into();
    f.rule = "one command per case, its events compared with what the arguments say; non-trivial when it has a tag".into();
    let c = Compiler::new().with_max_string_size(1 << 16);
    let rt = caps(Runtime::new()).with_max_redirects(5).with_max_out_messages(5).with_default_vacation_expiry(4242);
    loop {
        let r = &mut f.rng; let mut b = B { pre: String::new(), n: 0 };
        // the tags of one action, and what it does
        let mut tags: Vec<String> = vec![]; let on = |r: &mut Rng| r.below(2) == 0; let mut wrong = vec![]; let mut forbidden = false;
        let opt = |o: &Option<String>| format!("{o:?}");
        let (name, rest, mut want): (&str, String, Vec<String>);
        // a copy filed away (vacation and notify)
        macro_rules! flagged { ($w:expr, $v:ident, $t:expr) => { let $v = on(r); if $v { tags.push(tag(r, $t)); } let _ = $w; } }
        macro_rules! texted { ($v:ident, $t:expr, $x:expr) => { let $v: Option<String> = if on(r) { Some($x) } else { None }; if let Some(v) = &$v { let t = tag(r, $t); let x = b.tagged(r, v); tags.push(format!("{t} {x}")); } } }
        macro_rules! listed { ($v:ident, $t:expr, $x:expr) => { let $v: Vec<String> = if on(r) { $x } else { vec![] }; if !$v.is_empty() { let t = tag(r, $t); let x = b.list(r, &$v); tags.push(format!("{t} {x}")); } } }
        macro_rules! fcc { () => {{
            texted!(fcc, ":fcc", word(r, "Sent."));
            let mut own = vec![]; std::mem::swap(&mut own, &mut tags);
            flagged!(0, create, ":create"); listed!(flags, ":flags", words(r, "$k", 1)); texted!(su, ":specialuse", word(r, "\\Sent")); texted!(mid, ":mailboxid", word(r, "F"));
            if fcc.is_none() { if r.below(6) != 0 { tags.clear(); } if !tags.is_empty() { forbidden = true; } }
            tags.extend(own);
            fcc.map(|m| format!("fileinto {m:?} flags {flags:?} id {} use {} create {create} message", opt(&mid), opt(&su)))
        }} }
        match r.below(9) {
            0 => {
                name = "fileinto"; flagged!(0, copy, ":copy"); flagged!(0, create, ":create"); listed!(flags, ":flags", words(r, "$f", 1)); texted!(mid, ":mailboxid", word(r, "F")); texted!(su, ":specialuse", word(r, "\\Use"));
                let folder = word(r, "In.box "); rest = b.text(r, &folder);
                want = vec![format!("fileinto {folder:?} flags {flags:?} id {} use {} create {create} message 0", opt(&mid), opt(&su))]; if copy { want.push("keep [] message 0".into()); }
            }
            1 => { name = "keep"; listed!(flags, ":flags", words(r, "$f", 1)); rest = String::new(); want = vec![format!("keep {flags:?} message 0")]; }
            2 => {
                name = "redirect"; flagged!(0, copy, ":copy"); flagged!(0, list, ":list"); flagged!(0, trace, ":bytrace");
                let mode = match r.below(3) { 0 => { let t = tag(r, ":bymode"); let v = tag(r, "notify"); tags.push(format!("{t} \"{v}\"")); "Notify" } 1 => { let t = tag(r, ":bymode"); let v = tag(r, "return"); tags.push(format!("{t} \"{v}\"")); "Return" } _ => "Default" };
                let n = r.below(100000) as u64;
                let by = match r.below(3) {
                    0 => { let t = tag(r, ":bytimerelative"); tags.push(format!("{t} {n}")); if r.below(6) == 0 { wrong.push(":bytimeabsolute \"2022-11-07T01:02:03Z\"".into()); } format!("Relative {{ rlimit: {n}, mode: {mode}, trace: {trace} }}") }
                    1 => { let t = tag(r, ":bytimeabsolute"); let d = 1 + r.below(28); let x = b.tagged(r, &format!("2022-11-{d:02}T01:02:03Z")); tags.push(format!("{t} {x}")); if r.below(6) == 0 { wrong.push(":bytimerelative 7".into()); } format!("Absolute {{ alimit: {}, mode: {mode}, trace: {trace} }}", 1667260800 + (d as i64 - 1) * 86400 + 3723) }
                    _ => "None".into() };
                let ret = match r.below(3) { 0 => { let t = tag(r, ":ret"); let v = tag(r, "full"); tags.push(format!("{t} \"{v}\"")); "Full" } 1 => { let t = tag(r, ":ret"); let v = tag(r, "hdrs"); tags.push(format!("{t} \"{v}\"")); "Hdrs" } _ => "Default" };
                let dsn = match r.below(3) { 0 => { let t = tag(r, ":notify"); let v = tag(r, "never"); tags.push(format!("{t} \"{v}\"")); "Never".to_string() }
                    1 => { let mut all = vec![("success", "Success"), ("failure", "Failure"), ("delay", "Delay")]; for i in (1..3).rev() { let j = r.below(i + 1); all.swap(i, j); } all.truncate(1 + r.below(3)); let t = tag(r, ":notify"); let v: Vec<String> = all.iter().map(|x| tag(r, x.0)).collect(); tags.push(format!("{t} \"{}\"", v.join(if r.below(2) == 0 { "," } else { ", " }))); format!("Items([{}])", all.iter().map(|x| x.1).collect::<Vec<_>>().join(", ")) }
                    _ => "Default".into() };
                let to = format!("u{}@far.org", r.below(90)); rest = b.text(r, &to);
                want = vec![format!("send {}:{to} notify {dsn} ret {ret} by {by} message 0", if list { "L" } else { "A" })]; if copy { want.push("keep [] message 0".into()); }
            }
            3 => {
                name = "notify"; texted!(from, ":from", format!("f{}@x.org", r.below(9))); texted!(imp, ":importance", r.pick(&["1", "2", "3"]).to_string()); listed!(options, ":options", words(r, "o=", 1)); texted!(message, ":message", word(r, "hey "));
                let copy = fcc!(); let method = format!("xmpp:u{}@y.org", r.below(90)); rest = b.text(r, &method);
                want = vec![];
                let msg = message.clone().unwrap_or("orig".into()); let i = match imp.as_deref() { Some("1") => "High", Some("3") => "Low", _ => "Normal" };
                if copy.is_some() { want.push(format!("created 1 {:?} {:?}", ["From: me@x.org".to_string(), format!("Importance: {i}"), format!("X-Priority: {}", match i { "High" => "1 (High)", "Low" => "5 (Low)", _ => "3 (Normal)" }), format!("Subject: {msg}"), "Content-type: text/plain; charset=utf-8".into()], [msg.clone()])); }
                want.push(format!("notify {method:?} from {from:?} importance {i} options {options:?} message {msg:?}"));
                if let Some(c) = copy { want.push(format!("{c} 1")); }
                want.push("keep [] message 0".into());
            }
            4 => {
                name = "vacation"; flagged!(0, mime, ":mime"); texted!(subject, ":subject", word(r, "Away ")); texted!(from, ":from", format!("Joe <j{}@x.org>", r.below(9))); texted!(handle, ":handle", word(r, "h"));
                let n = r.below(400) as u64; let expiry = match r.below(3) { 0 => { let t = tag(r, ":days"); tags.push(format!("{t} {n}")); if r.below(6) == 0 { wrong.push(":seconds 9".into()); } n * 86400 } 1 => { let t = tag(r, ":seconds"); tags.push(format!("{t} {n}")); if r.below(6) == 0 { wrong.push(":days 9".into()); } n } _ => 4242 };
                let k = r.below(10); let known = on(r); let l: Vec<String> = { let mut l = words(r, "other@", 0); if known { l.insert(r.below(l.len() + 1), "alias7@x.org".into()); } l }; let _ = k;
                if !l.is_empty() { let t = tag(r, ":addresses"); let x = b.list(r, &l); tags.push(format!("{t} {x}")); }
                let copy = fcc!();
                let reason = if mime { format!("Content-Type: text/html\r\n\r\n<p>{}</p>", r.below(90)) } else { word(r, "gone ") }; rest = b.text(r, &reason);
                want = vec![];
                if known {
                    want.push(format!("duplicate {:?} {expiry} false", format!("_vs@far.net{}", handle.clone().unwrap_or(reason.clone()))));
                    let mut h = vec![format!("From: {}", from.clone().unwrap_or("own@x.org".into())), "To: s@far.net".into(), format!("Subject: {}", subject.clone().unwrap_or("Auto: orig".into()))];
                    h.push(if mime { "Content-Type: text/html".into() } else { "Content-type: text/plain; charset=utf-8".into() });
                    want.push(format!("created 1 {h:?} {:?}", [reason.rsplit("\r\n").next().unwrap()]));
                    want.push("send A:s@far.net notify Never ret Default by None message 1".into());
                    if let Some(c) = copy { want.push(format!("{c} 1")); }
                }
                want.push("keep [] message 0".into());
            }
            5 => {
                name = "include"; flagged!(0, once, ":once"); flagged!(0, optional, ":optional"); let global = match r.below(3) { 0 => { tags.push(tag(r, ":global")); if r.below(6) == 0 { wrong.push(":personal".into()); } true } 1 => { tags.push(tag(r, ":personal")); if r.below(6) == 0 { wrong.push(":global".into()); } false } _ => false };
                let s = word(r, "script "); rest = b.text(r, &s);
                want = vec![format!("include {}({s:?}) optional {optional}", if global { "Global" } else { "Personal" }), format!("Reject {{ extended: false, reason: {:?} }}", if once { "x" } else { "xx" })];
            }
            6 => {
                name = "replace"; flagged!(0, mime, ":mime"); texted!(subject, ":subject", if r.below(3) == 0 { "New orig".into() } else { word(r, "New ") }); texted!(from, ":from", if r.below(3) == 0 { "n@x.org orig".into() } else { format!("n{}@x.org", r.below(9)) });
                let text = if mime { format!("Content-Type: text/html\r\n\r\n<p>{}</p>", r.below(90)) } else if r.below(3) == 0 { "text orig".into() } else { word(r, "text ") }; rest = b.text(r, &text);
                let mut h = vec![if from.is_some() { "Original-From: s@far.net".to_string() } else { "From: s@far.net".into() }, "To: me@x.org, alias7@x.org".into(), if subject.is_some() { "Original-Subject: orig".to_string() } else { "Subject: orig".into() }];
                h.push(format!("From: {}", from.clone().unwrap_or("me@x.org".into()))); if let Some(s) = &subject { h.push(format!("Subject: {s}")); }
                h.push(if mime { "Content-Type: text/html".into() } else { "Content-Type: text/plain; charset=utf-8".into() });
                want = vec![format!("created 1 {h:?} {:?}", [text.rsplit("\r\n").next().unwrap()]), "keep [] message 1".into()];
            }
            7 => {
                name = "enclose"; texted!(subject, ":subject", if r.below(3) == 0 { "New orig".into() } else { word(r, "New ") }); listed!(headers, ":headers", (0..1 + r.below(3)).map(|i| if r.below(3) == 0 { format!("X-{i}: orig") } else { format!("X-{i}: v{}", r.below(9)) }).collect());
                let text = if r.below(3) == 0 { "text orig".into() } else { word(r, "text ") }; rest = b.text(r, &text);
                let mut h = vec![format!("Subject: {}", subject.clone().unwrap_or("orig".into()))]; h.extend(headers.iter().cloned()); h.push("From: me@x.org".into());
                want = vec![format!("created 1 {h:?} {:?}", [&text, "From: s@far.net", "To: me@x.org, alias7@x.org", "Subject: orig", "body one"]), "keep [] message 1".into()];
            }
            _ => {
                name = "foreverypart { extracttext"; let n = r.below(6); let first = on(r); if first { let t = tag(r, ":first"); tags.push(format!("{t} {n}")); if r.below(6) == 0 { wrong.push(":first 3".into()); } }
                let up = on(r); if up { tags.push(tag(r, ":upper")); } let len = on(r); if len { tags.push(tag(r, ":length")); }
                rest = "\"global.v\"; } reject \"${global.v}\"".into();
                let body = "body one\r\n"; let mut v: String = if first { body.chars().take(n).collect() } else { body.into() }; if up { v = v.to_uppercase(); } if len && !v.is_empty() { v = v.chars().count().to_string(); }
                want = vec![format!("Reject {{ extended: false, reason: {v:?} }}")];
            }
        }
        let twice = !tags.is_empty() && wrong.is_empty() && !forbidden && name.starts_with("foreverypart") == false && name != "keep" && r.below(12) == 0;
        if twice { let t = r.pick(&tags).clone(); tags.push(t); }
        tags.extend(wrong.iter().cloned());
        for i in (1..tags.len()).rev() { let j = r.below(i + 1); tags.swap(i, j); }
        let refused = twice || forbidden || !wrong.is_empty();
        let sep = *r.pick(&[" ", "\r\n  ", " /* :copy */ "]);
        let cmd = format!("{name} {}{}{};\n", tags.join(sep), if tags.is_empty() { "" } else { sep }, rest);
        let cmd = if name == "include" { format!("{cmd}{cmd}reject \"${{global.n}}\";\n") } else { cmd };
        let script = format!("{REQ}{}{cmd}{}", b.pre, if name == "replace" || name == "enclose" { "keep;\n" } else { "" });
        if name == "vacation" { /* own addresses */ }
        if !f.case(!tags.is_empty(), || script[REQ.len()..].to_string()) { return; }
        let s = compile(&c, &script);
        if refused { if !f.check(true, s.is_err()) { return; } continue; }
        let s = match s { Ok(s) => Arc::new(s), Err(e) => { f.fail("compiles", e); return; } };
        let inc = Arc::new(compile(&c, "require [\"variables\",\"include\"];\nset \"global.n\" \"${global.n}x\";\n").unwrap());
        let vac = name == "vacation";
        let o = Drive::new(&rt).run(s, MSG, |x| { x.set_user_address(if vac { "own@x.org" } else { "me@x.org" }); x.set_envelope(Envelope::From, "s@far.net"); if vac { x.set_envelope(Envelope::To, "own@x.org"); } else { x.set_envelope(Envelope::To, "me@x.org"); } },
            |e| match e { Event::IncludeScript { name, .. } => Input::script(name.clone(), inc.clone()), Event::DuplicateId { .. } => Input::False, _ => Input::True });
        if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
        if !o.errors.is_empty() { f.fail("no error", format!("{:?}", o.errors)); return; }
        if !f.check(want, o.events.iter().map(show).collect::<Vec<_>>()) { return; }
    }
}
