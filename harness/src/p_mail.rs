//! C03, C18, C24, C25, C26: mail the interpreter sends.
use crate::{drive::*, find::*};
use sieve::compiler::grammar::Capability;
use sieve::{Compiler, Context, Envelope, Event, Input, Recipient, Runtime, Sieve};
use std::sync::Arc;

pub fn caps(mut rt: Runtime) -> Runtime {
    for c in [Capability::ExtractText, Capability::Replace, Capability::Enclose, Capability::Expressions, Capability::While, Capability::Convert] { rt = rt.with_capability(c); }
    rt
}
fn comp() -> Compiler { Compiler::new().with_max_string_size(1 << 16).with_max_variable_name_size(64) }
fn must(c: &Compiler, s: &str) -> Arc<Sieve> { match compile(c, s) { Ok(s) => Arc::new(s), Err(e) => panic!("{e} in {s}") } }
fn recip(r: &Recipient) -> String { match r { Recipient::Address(a) => format!("A:{a}"), Recipient::List(a) => format!("L:{a}"), Recipient::Group(g) => format!("G:{}", g.join("|")) } }

// ---------------------------------------------------------------- C24
/// the single address a redirect argument stands for (None: unusable)
pub fn address(s: &str) -> Option<String> {
    let cs: Vec<char> = s.chars().collect();
    // quoted(i): is character i inside a quoted string
    let mut q = false; let mut inq = vec![];
    for (i, c) in cs.iter().enumerate() {
        if *c == '"' { if !q { q = true } else if cs[i - 1] != '\\' { q = false } inq.push(true) } else { inq.push(q) }
    }
    // what stands before < is a display name; every segment may hold one @ behind some text
    let mut start = 0; let mut kept = String::new();
    for (i, c) in cs.iter().enumerate() {
        if *c == '<' { start = i + 1; kept.clear(); continue; }
        if *c == '@' && !inq[i] {
            if kept.is_empty() || (start..i).any(|j| cs[j] == '@' && !inq[j]) { return None; }
        }
        if *c == '"' || *c == '>' || (!inq[i] && c.is_ascii_whitespace()) { continue; }
        kept.push(*c);
    }
    let at = (start..cs.len()).find(|j| cs[*j] == '@' && !inq[*j])?;
    (at..cs.len()).find(|j| cs[*j] == '.' && !inq[*j])?;
    if kept.matches('@').count() != 1 || kept.chars().any(|c| c.is_control()) { return None; }
    Some(kept)
}
pub fn c24(f: &mut Finder) {
    f.bound = "every text of length <= 6 (thorough 7) over {a @ . < > \"}, addresses assembled from fragments (display names, quotes, control characters, several addresses), random texts of up to 14 characters; plain, :copy and :list redirect".into();
    f.rule = "one address text, redirected by a compiled script; non-trivial when the text contains an @".into();
    let c = comp();
    let scripts = ["redirect \"${env.a}\";", "redirect :copy \"${env.a}\";", "redirect :list \"${env.a}\";"]
        .map(|s| must(&c, &format!("require [\"variables\",\"environment\",\"copy\",\"extlists\"]; {s}")));
    let rts = [(5, 5, 5), (0, 5, 5), (5, 0, 5), (5, 5, 2), (1, 1, 3)].map(|(a, b, c)| caps(Runtime::new()).with_max_redirects(a).with_max_out_messages(b).with_max_received_headers(c));
    let mut all = strings(&['a', '@', '.', '<', '>', '"'], 0, if f.quick { 6 } else { 7 });
    let frag = ["a", "@", ".", "b.c", "a@b.c", "<", ">", "\"", "\\", "\\\"", " ", "\r\n", "\n", "\t", ",", ";", ":", "é", "\u{85}", "\u{7f}", "\u{0}", "N <", "\"x y\"", "RCPT TO:<e@f.g>", "%", "!", "(c)", "me@x.org", "ME@X.ORG"];
    for a in frag { for b in frag { for d in frag { all.push(format!("{a}{b}{d}")); all.push(format!("{a}@b.c{b}{d}")); all.push(format!("{a}{b}<u@v.w>{d}")); } } }
    for _ in 0..if f.quick { 30000 } else { 2000000 } { let n = 1 + f.rng.below(6); let s: String = (0..n).map(|_| *f.rng.pick(&frag)).collect(); all.push(s); }
    for (n, a) in all.into_iter().enumerate() {
        let k = if n % 3 == 0 { n / 3 % 3 } else { 0 };
        if !f.case(a.contains('@'), || format!("redirect{} {a:?}, runtime {} of (max_redirects, max_out_messages, max_received_headers) in (5,5,5) (0,5,5) (5,0,5) (5,5,2) (1,1,3), two Received fields", ["", " :copy", " :list"][k], if n % 16 == 15 { n / 16 % 5 } else { 0 })) { return; }
        let lim = if n % 16 == 15 { n / 16 % 5 } else { 0 };
        let o = Drive::new(&rts[lim]).run(scripts[k].clone(), b"Received: a\r\nFrom: x@y.z\r\nReceived: b\r\nSubject: t\r\n\r\nb", |c: &mut Context| { c.set_env_variable("a", a.clone()); c.set_user_address("me@x.org"); }, |_| Input::True);
        let want: Vec<String> = match address(&a).filter(|_| ![1, 2, 3].contains(&lim)) {
            Some(r) if k == 2 => vec![format!("L:{r}")],
            Some(r) if !r.eq_ignore_ascii_case("me@x.org") => if k == 1 { vec![format!("A:{r}"), "keep".into()] } else { vec![format!("A:{r}")] },
            _ => vec!["keep".into()] };
        let mut got: Vec<String> = o.events.iter().map(|e| match e { Event::SendMessage { recipient, message_id: 0, .. } => recip(recipient), Event::Keep { .. } => "keep".into(), e => format!("{e:?}") }).collect();
        if let Some(p) = &o.panicked { got.push(format!("PANIC {p}")); }
        if !o.errors.is_empty() { got.push(format!("{:?}", o.errors)); }
        if !f.check(want, got) { return; }
    }
}
// ---------------------------------------------------------------- C03
#[derive(Clone, Debug)]
enum A { Redirect { copy: bool, list: bool, to: u8 }, Vacation(u8), Mail(u8), Uri(u8, bool), Received, Edit, Twice(Vec<A>), Sub(usize) }
fn acts(r: &mut Rng, depth: usize, subs: usize) -> Vec<A> {
    let n = 1 + r.below(if depth == 0 { 9 } else { 3 });
    (0..n).map(|_| match r.below(if depth == 0 { 13 } else { 11 }) {
        0..=3 => A::Redirect { copy: r.below(3) == 0, list: r.below(4) == 0, to: r.below(8) as u8 },
        4 | 5 => A::Vacation(r.below(4) as u8), 6 | 7 => A::Mail(r.below(3) as u8), 8 => { let f = r.below(2) == 0; A::Uri(r.below(2) as u8, f) }
        9 => A::Received, 10 => A::Edit,
        11 => A::Twice(acts(r, 1, subs)), _ => A::Sub(r.below(subs.max(1))),
    }).collect()
}
fn to_addr(t: u8) -> String { match t { 0 => "ME@x.org".into(), 1 => "not an address".into(), t => format!("r{t}@dest.org") } }
fn src(a: &[A], loops: &mut usize) -> String {
    let mut s = String::new();
    for x in a { s.push_str(&match x {
        A::Redirect { copy, list, to } => format!("redirect{}{} \"{}\";", if *copy { " :copy" } else { "" }, if *list { " :list" } else { "" }, to_addr(*to)),
        A::Vacation(h) => format!("vacation :handle \"h{h}\" \"away\";"),
        A::Mail(n) => format!("notify \"mailto:n{n}@x.org\";"),
        A::Uri(n, fcc) => format!("notify {}\"tel:{n}\";", if *fcc { ":fcc \"Sent\" " } else { "" }),
        A::Received => "addheader \"Received\" \"from somewhere\";".into(),
        A::Edit => "addheader \"X-Mark\" \"1\";".into(),
        A::Twice(b) => { *loops += 1; let l = *loops; let b = src(b, loops); format!("let \"i{l}\" \"0\"; while \"i{l} < 2\" {{ let \"i{l}\" \"i{l} + 1\"; {b} }}") }
        A::Sub(n) => format!("include \"sub{n}\";"),
    }); }
    s
}
struct Quota { red: usize, out: usize, recv: usize, max_red: usize, max_out: usize, max_recv: usize, dups: Vec<bool>, ndup: usize, sent: Vec<String>, steps: usize }
fn sim(a: &[A], subs: &[Vec<A>], q: &mut Quota) {
    for x in a { q.steps += 1; match x {
        A::Redirect { to, list, .. } => if (*to > 1 || (*list && *to == 0)) && q.red < q.max_red && q.out < q.max_out && q.recv < q.max_recv { q.red += 1; q.out += 1; q.sent.push(format!("{}:{}", if *list { "L" } else { "A" }, to_addr(*to))); },
        A::Vacation(_) => if q.out < q.max_out && q.recv <= q.max_recv { let d = q.dups[q.ndup % q.dups.len()]; q.ndup += 1; if !d { q.out += 1; q.sent.push("A:sender@far.net".into()); } },
        A::Mail(n) => if q.out < q.max_out { q.out += 1; q.sent.push(format!("G:n{n}@x.org")); },
        A::Uri(n, _) => if q.out < q.max_out { q.out += 1; q.sent.push(format!("U:tel:{n}")); },
        A::Received => q.recv += 1, A::Edit => (),
        A::Twice(b) => { sim(b, subs, q); sim(b, subs, q); }
        A::Sub(n) => if let Some(b) = subs.get(*n) { sim(b, subs, q); },
    } }
}
pub fn c03(f: &mut Finder) {
    f.bound = "random scripts of up to 9 statements (redirect, :copy, vacation, mail and other notifications, header edits, loops, two included scripts), limits 0..5, 0..4 Received fields".into();
    f.rule = "one script with its limits; every send is compared with a model of the limits; non-trivial when a limit suppresses something".into();
    let c = comp();
    let head = "require [\"extlists\",\"copy\",\"vacation\",\"enotify\",\"editheader\",\"include\",\"variables\",\"fcc\",\"vnd.stalwart.expressions\",\"vnd.stalwart.while\"];";
    loop {
        let subs: Vec<Vec<A>> = (0..2).map(|_| acts(&mut f.rng, 1, 0)).collect();
        let main = acts(&mut f.rng, 0, 2);
        let (mr, mo, mx, nr) = (f.rng.below(4), f.rng.below(6), f.rng.below(5), f.rng.below(4));
        let dups: Vec<bool> = (0..4).map(|_| f.rng.below(3) == 0).collect();
        let mut q = Quota { red: 0, out: 0, recv: nr, max_red: mr, max_out: mo, max_recv: mx, dups: dups.clone(), ndup: 0, sent: vec![], steps: 0 };
        sim(&main, &subs, &mut q);
        let s = format!("{head}{}", src(&main, &mut 0));
        let ss: Vec<String> = subs.iter().map(|b| format!("{head}{}", src(b, &mut 10))).collect();
        let nt = q.red >= mr || q.out >= mo || q.recv >= mx;
        if !f.case(nt, || format!("max_redirects={mr} max_out_messages={mo} max_received_headers={mx} Received fields={nr} duplicates={dups:?} main: {s} sub0: {} sub1: {}", ss[0], ss[1])) { return; }
        let rt = caps(Runtime::new()).with_max_redirects(mr).with_max_out_messages(mo).with_max_received_headers(mx).with_max_nested_includes(5);
        let m = must(&c, &s); let sm: Vec<Arc<Sieve>> = ss.iter().map(|x| must(&c, x)).collect();
        let mut msg = Vec::new();
        let mut lines = vec!["From: sender@far.net\r\n".to_string(), "To: me@x.org\r\n".into(), "Subject: hi\r\n".into()];
        for i in 0..nr { lines.insert(f.rng.below(lines.len() + 1), format!("{}: from h{i}\r\n", ["Received", "received", "RECEIVED"][i % 3])); }
        msg.extend_from_slice(lines.concat().as_bytes()); msg.extend_from_slice(b"\r\nbody\r\n");
        let mut nd = 0;
        let o = Drive::new(&rt).run(m, &msg, |c: &mut Context| { c.set_user_address("me@x.org"); c.set_envelope(Envelope::From, "sender@far.net"); c.set_envelope(Envelope::To, "me@x.org"); }, |e| match e {
            Event::DuplicateId { .. } => { nd += 1; if dups[(nd - 1) % 4] { Input::True } else { Input::False } }
            Event::IncludeScript { name, .. } => { let n = if name.as_str().ends_with('0') { 0 } else { 1 }; Input::script(name.as_str().to_string(), sm[n].clone()) }
            _ => Input::True });
        let mut got: Vec<String> = o.events.iter().filter_map(|e| match e { Event::SendMessage { recipient, .. } => Some(recip(recipient)), Event::Notify { method, .. } => Some(format!("U:{method}")), _ => None }).collect();
        if let Some(p) = &o.panicked { got.push(format!("PANIC {p}")); }
        if !o.errors.is_empty() { got.push(format!("{:?}", o.errors)); }
        if !f.check(q.sent, got) { return; }
    }
}
// ---------------------------------------------------------------- C25
#[derive(Clone, Debug, Default)]
struct Vac { from: Option<&'static str>, to: Option<&'static str>, orcpt: Option<&'static str>, user: &'static str, addrs: Vec<&'static str>, orig: bool, headers: Vec<(&'static str, String)>, max_recv: usize, handle: bool, period: u8, dup: bool, pre: bool }
fn in_header(v: &str, mine: &[String]) -> bool {
    // addresses of a header value: "Name <a>, b, Group: c, d;"
    v.split([',', ';']).any(|x| { let x = x.rsplit(':').next().unwrap_or(""); let x = match x.find('<') { Some(i) => x[i + 1..].split('>').next().unwrap_or(""), None => x }.trim(); mine.iter().any(|m| m.eq_ignore_ascii_case(x)) })
}
pub fn c25(f: &mut Finder) {
    f.bound = "random envelopes, own addresses, header sets (recipients, list, auto-submitted, precedence, Received) and periods; about 600 combinations per second".into();
    f.rule = "one combination of envelope, own addresses, options and header fields; compared with the list of suppression rules; non-trivial when the reply is suppressed".into();
    let c = comp();
    let rcpt = ["me@x.org", "Me@X.org", "Joe <me@x.org>", "a@b.c, me@x.org", "other@x.org", "Grp: a@b.c, me@x.org;", "Grp: a@b.c;", "alias@x.org", "orig@x.org", "\"me@x.org\" <no@b.c>", "ame@x.org", "me@x.org.au", ""];
    let froms = ["s@far.net", "S@far.net", "", "MAILER-DAEMON@far.net", "mailer-daemon", "mailer-daemons@far.net", "owner-list@far.net", "Owner-x@far.net", "downer-x@far.net", "list-request@far.net", "LIST-Request@far.net", "request@far.net", "x-request.y@far.net", "me@x.org", "ME@x.org", "alias@x.org", "orig@x.org"];
    loop {
        let r = &mut f.rng;
        let mut v = Vac { max_recv: 2, ..Default::default() };
        let calm = r.below(3) != 0; // mostly let the remaining rules decide
        v.from = if r.below(20) == 0 { None } else if calm { Some(*r.pick(&["s@far.net", "S@far.net"])) } else { Some(*r.pick(&froms)) };
        v.to = match r.below(6) { 0 => None, 1 => Some("alias@x.org"), 2 => Some("Me@X.org"), _ => Some("me@x.org") };
        v.orcpt = match r.below(3) { 0 => Some("orig@x.org"), _ => None };
        v.user = *r.pick(&["me@x.org", "Me@X.org", "", "user@x.org"]);
        for a in ["alias@x.org", "me@x.org", "", "orig@x.org", "ALIAS@x.org"] { if r.below(5) == 0 { v.addrs.push(a); } }
        v.orig = r.below(3) == 0; v.handle = r.below(2) == 0; v.period = r.below(3) as u8; v.dup = r.below(3) == 0; v.pre = r.below(8) == 0;
        for h in ["To", "Cc", "Bcc", "Resent-To", "Resent-Cc", "Resent-Bcc", "Reply-To", "X-To"] { if r.below(if h == "To" { 2 } else { 6 }) == 0 { v.headers.push((h, r.pick(&rcpt).to_string())); } }
        if r.below(2) == 0 {
            let one: (&'static str, String) = match r.below(7) {
                0 => (*r.pick(&["List-Archive", "List-Help", "List-Id", "List-ID", "List-Owner", "List-Post", "List-Subscribe", "List-Unsubscribe", "list-unsubscribe"]), "<mailto:l@far.net>".into()),
                1 => ("List-Other", "x".into()),
                2 => (*r.pick(&["Auto-Submitted", "auto-submitted"]), r.pick(&["no", "NO", "auto-replied", "auto-generated", "no; x", "", "auto-notified"]).to_string()),
                3 => (*r.pick(&["X-Auto-Response-Suppress", "x-auto-response-suppress"]), r.pick(&["All", "OOF", "DR, OOF", "DR,all ", "DR", "RN, NRN", "allx", "o of", "oof, dr"]).to_string()),
                4 => (*r.pick(&["Precedence", "PRECEDENCE"]), r.pick(&["bulk", "Bulk", "first-class", "bulky"]).to_string()),
                5 => ("X-Precedence", "bulk".into()), _ => ("Subject", "all".into()) };
            v.headers.push(one);
        }
        let n = r.below(5); if n > 1 { for i in 0..n - 1 { v.headers.push(("Received", format!("from h{i}"))); } }
        for i in (1..v.headers.len()).rev() { let j = r.below(i + 1); v.headers.swap(i, j); }
        let max_out = if r.below(8) == 0 { if v.pre { 1 } else { 0 } } else { 3 };
        let period = ["", ":days 7 ", ":seconds 90 "][v.period as usize];
        let s = format!("require [\"vacation\",\"vacation-seconds\",\"copy\"]; {} vacation {period}{}{} \"gone\";",
            if v.pre { "redirect :copy \"q@far.net\";" } else { "" },
            if v.addrs.is_empty() { String::new() } else { format!(":addresses [{}] ", v.addrs.iter().map(|a| lit(a)).collect::<Vec<_>>().join(",")) },
            if v.handle { ":handle \"hd\"" } else { "" });
        // the rules
        let from = v.from.unwrap_or("").to_lowercase();
        let mut mine: Vec<String> = vec![];
        if let Some(t) = if v.orig { v.orcpt } else { v.to } { mine.push(t.into()); }
        mine.extend(v.addrs.iter().filter(|a| !a.is_empty()).map(|a| a.to_string()));
        if !v.user.is_empty() { mine.push(v.user.into()); }
        let has = |n: &str| v.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(n)).map(|h| h.1.clone()).collect::<Vec<_>>();
        let machine = from.is_empty() || from.starts_with("mailer-daemon") || from.starts_with("owner-") || from.contains("-request@");
        let list = ["list-archive", "list-help", "list-id", "list-owner", "list-post", "list-subscribe", "list-unsubscribe"].iter().any(|n| !has(n).is_empty());
        let auto = has("auto-submitted").iter().any(|x| x.to_lowercase() != "no");
        let supp = has("x-auto-response-suppress").iter().any(|x| x.to_lowercase().split(',').any(|t| t.trim() == "all" || t.trim() == "oof"));
        let bulk = has("precedence").iter().any(|x| x.to_lowercase() == "bulk");
        let own = mine.iter().any(|m| m.eq_ignore_ascii_case(&from));
        let named = ["to", "cc", "bcc", "resent-to", "resent-cc", "resent-bcc"].iter().any(|n| has(n).iter().any(|x| in_header(x, &mine)));
        let reply = !machine && !mine.is_empty() && !own && !list && !auto && !supp && !bulk && named && has("received").len() <= v.max_recv;
        let mut want: Vec<String> = vec![];
        let pre = v.pre && max_out > 0 && has("received").len() < v.max_recv;
        if pre { want.push("A:q@far.net".into()); }
        let reply = reply && (max_out > pre as usize);
        if reply {
            want.push(format!("dup _v{from}{} {} false", if v.handle { "hd" } else { "gone" }, [1000u64, 7 * 86400, 90][v.period as usize]));
            if !v.dup { want.push("created".into()); want.push(format!("A:{}", v.from.unwrap_or(""))); }
        }
        want.push("keep".into());
        let mut msg = String::from("From: s@far.net\r\n");
        for (n, x) in &v.headers { msg.push_str(&format!("{n}: {x}\r\n")); }
        msg.push_str("\r\nbody\r\n");
        if !f.case(!reply, || format!("{v:?} max_out_messages={max_out} script {s}")) { return; }
        let rt = caps(Runtime::new()).with_max_redirects(3).with_max_out_messages(max_out).with_max_received_headers(v.max_recv).with_default_vacation_expiry(1000).with_vacation_use_orig_rcpt(v.orig);
        let o = Drive::new(&rt).run(must(&c, &s), msg.as_bytes(), |c: &mut Context| {
            if !v.user.is_empty() { c.set_user_address(v.user); }
            if let Some(x) = v.from { c.set_envelope(Envelope::From, x); }
            if let Some(x) = v.to { c.set_envelope(Envelope::To, x); }
            if let Some(x) = v.orcpt { c.set_envelope(Envelope::Orcpt, x); }
        }, |e| match e { Event::DuplicateId { .. } => if v.dup { Input::True } else { Input::False }, _ => Input::True });
        let mut got: Vec<String> = o.events.iter().map(|e| match e { Event::SendMessage { recipient, .. } => recip(recipient), Event::DuplicateId { id, expiry, last } => format!("dup {id} {expiry} {last}"), Event::CreatedMessage { .. } => "created".into(), Event::Keep { .. } => "keep".into(), e => format!("{e:?}") }).collect();
        if let Some(p) = &o.panicked { got.push(format!("PANIC {p}")); }
        if !o.errors.is_empty() { got.push(format!("{:?}", o.errors)); }
        if !f.check(want, got) { return; }
    }
}
// ---------------------------------------------------------------- C26
#[derive(Debug, Default, Clone, PartialEq)]
pub struct Mailto { pub to: Vec<String>, pub cc: Vec<String>, pub bcc: Vec<String>, pub headers: Vec<(String, String)>, pub body: Option<String> }
/// RFC 6068 as this implementation reads it
pub fn mailto(s: &str) -> Option<Mailto> {
    // percent decoding first: (byte, was it escaped)
    let b = s.as_bytes(); let mut t: Vec<(u8, bool)> = vec![]; let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = |x: Option<&u8>| x.and_then(|x| (*x as char).to_digit(16));
            t.push(((h(b.get(i + 1))? * 16 + h(b.get(i + 2))?) as u8, true)); i += 3;
        } else { t.push((b[i], false)); i += 1; }
    }
    let mut m = Mailto::default(); let mut any = false;
    let text = |v: &[(u8, bool)]| String::from_utf8(v.iter().map(|x| x.0).collect()).ok();
    let mut add = |m: &mut Mailto, k: u8, v: String| { any = true;
        if m.to.iter().chain(&m.cc).chain(&m.bcc).any(|x| x.eq_ignore_ascii_case(&v)) { return; }
        match k { 0 => m.to.push(v), 1 => m.cc.push(v), _ => m.bcc.push(v) } };
    let mut pos = 0;
    // a list of addresses; returns the separator that ended it
    let mut kind: Option<u8> = Some(0);
    let mut first = true;
    loop {
        if let Some(k) = kind.take() {
            let mut cur: Vec<(u8, bool)> = vec![]; let mut at = false;
            let end = loop {
                let Some(&(c, esc)) = t.get(pos) else { break None };
                pos += 1;
                match c {
                    b',' => { if !at { return None; } add(&mut m, k, text(&cur)?); cur.clear(); at = false; }
                    b'@' => { if at || (!esc && cur.is_empty()) { return None; } at = true; cur.push((c, esc)); }
                    b'?' | b'&' if !esc => break Some(c),
                    b'=' if !esc => return None,
                    _ if esc && c.is_ascii_control() => return None,
                    _ => if esc || !c.is_ascii_whitespace() { cur.push((c, esc)); },
                }
            };
            match end {
                None => { if !cur.is_empty() { if !at { return None; } add(&mut m, k, text(&cur)?); } break; }
                Some(b'&') if !at => return None,
                Some(_) => if at { add(&mut m, k, text(&cur)?); } else if !cur.is_empty() { return None; },
            }
            first = false;
        }
        if !first && pos >= t.len() { break; }
        // name
        let mut name = vec![];
        let mut closed = false;
        while pos < t.len() { let (c, esc) = t[pos]; pos += 1;
            if c == b'=' && !esc { closed = true; break; }
            if !(c.is_ascii_alphanumeric() || c == b'-' || c == b'_') { return None; }
            name.push((c, esc)); }
        let n = text(&name)?;
        if !closed { if !n.is_empty() && !["to", "cc", "bcc"].contains(&n.to_lowercase().as_str()) { m.headers.push((n, String::new())); } break; }
        if n.is_empty() { return None; }
        match n.to_lowercase().as_str() { "to" => { kind = Some(0); continue; } "cc" => { kind = Some(1); continue; } "bcc" => { kind = Some(2); continue; } _ => () }
        let mut v = vec![]; let mut more = false;
        while pos < t.len() { let (c, esc) = t[pos]; pos += 1;
            if c == b'&' && !esc { more = true; break; }
            if esc || !c.is_ascii_whitespace() { v.push((c, esc)); } }
        if !v.is_empty() { let v = text(&v)?; if n.eq_ignore_ascii_case("body") { m.body = Some(v) } else { m.headers.push((n, v)) } }
        if !more { break; }
    }
    if any { Some(m) } else { None }
}
fn fields(m: &[u8]) -> (Vec<(String, String)>, String) {
    let s = String::from_utf8_lossy(m); let mut out: Vec<(String, String)> = vec![]; let mut rest = &s[..];
    loop {
        let (line, r) = match rest.find('\n') { Some(i) => (rest[..i].strip_suffix('\r').unwrap_or(&rest[..i]), &rest[i + 1..]), None => (rest, "") };
        rest = r;
        if line.is_empty() { break; }
        if line.starts_with([' ', '\t']) { if let Some(l) = out.last_mut() { l.1.push_str("\r\n"); l.1.push_str(line); continue; } }
        match line.find(':') { Some(i) => out.push((line[..i].into(), line[i + 1..].strip_prefix(' ').unwrap_or(&line[i + 1..]).into())), None => out.push(("?".into(), line.into())) }
    }
    (out, rest.to_string())
}
const OWN: [&str; 11] = ["from", "date", "message-id", "importance", "x-priority", "subject", "auto-submitted", "x-sieve", "content-type", "to", "cc"];
fn bare(a: &str) -> String { match a.rfind('<').and_then(|i| a[i + 1..].rfind('>').map(|j| a[i + 1..i + 1 + j].to_string())) { Some(x) => x, None => a.to_string() } }
pub fn c26(f: &mut Finder) {
    f.bound = "every mailto text of length <= 5 over {a @ ? & = ,} behind a recipient, assembled URIs with percent-escapes (valid, malformed, non-UTF-8), random fragment sequences; schemes".into();
    f.rule = "one URI executed by notify and valid_notify_method; recipients, header fields and body of the notification are compared with an independent decoder; non-trivial when the URI has an escape or a parameter".into();
    let c = comp();
    let sc = must(&c, "require [\"variables\",\"environment\",\"enotify\"]; if valid_notify_method \"${env.u}\" { set \"global.v\" \"T\"; } else { set \"global.v\" \"F\"; } notify \"${env.u}\";");
    let rt = caps(Runtime::new()).with_max_out_messages(5).with_valid_notification_uri("mailto").with_valid_notification_uri("tel").with_valid_notification_uri("xmpp");
    let mut all: Vec<String> = vec![];
    let vals = ["a@b.c", "a@b.c,d@e.f", "d@e.f,g@h.i,a@b.c", "a@b.c%2Cd@e.f", "%41@b.c, d@e.f", "hello", "x%20y%0D%0Az", ""];
    let keys = ["to", "cc", "bcc", "CC", "subject", "body", "X-A", "date", "importance"];
    for h in ["", "r@s.t", "r@s.t,u@v.w"] { for k in keys { for v in vals { all.push(format!("mailto:{h}?{k}={v}")); for k2 in keys { for v2 in vals { all.push(format!("mailto:{h}?{k}={v}&{k2}={v2}")); } } } } }
    for _ in 0..4000 { let mut u = format!("mailto:{}?", f.rng.pick(&["", "r@s.t", "r@s.t,u@v.w"])); for i in 0..2 + f.rng.below(4) { if i > 0 { u.push('&'); } u += f.rng.pick(&keys); u.push('='); u += f.rng.pick(&vals); } all.push(u); }
    for s in strings(&['a', '@', '?', '&', '=', ','], 0, if f.quick { 5 } else { 7 }) { all.push(format!("mailto:{s}")); all.push(format!("mailto:x@y.z{s}")); all.push(format!("mailto:x@y?cc={s}")); }
    let frag = ["a@b.c", "u", "@", ",", "?", "&", "=", "to=", "cc=", "bcc=", "subject=", "body=", "X-A=", "date=", "message-id=", "from=", "content-type=", "auto-submitted=", "x_y=", "from", "to", "bcc", "x-a", "subject", "%", "%4", "%40", "%2C", "%2c", "%3F", "%26", "%3d", "%25", "%2540", "%0D%0A", "%0a", "%00", "%7f", "%zz", "%4g", "%g4", "%C3%A9", "%c3", "%FF", "%20", " ", "\r\n", "\t", "é", "Joe <j@k.l>", "<", ">", "%3Cq@r.s%3E", "A@B.C", "me@x.org", "+", "%61%62", "%2B", "%2b", "%3A", "%3a", "%22", "%5C", "%09", "%0b", "%80", "\u{1}"];
    for a in frag { for b in frag { all.push(format!("mailto:{a}{b}")); all.push(format!("mailto:q@w.e?{a}{b}")); all.push(format!("mailto:q@w.e?subject={a}{b}&cc=z@w.e")); all.push(format!("mailto:{a}q@w.e{b}?X-B=1&body=x")); } }
    for i in 0..256 { for h in [format!("%{i:02x}"), format!("%{i:02X}"), format!("%C3%{i:02x}")] { for p in ["", "x@y.z?subject=", "x@y.z?body=a", "x@y.z?X-A=b", "x@y.z?cc=", "x@y.z?", "x@y.z?X", "x"] { all.push(format!("mailto:{p}{h}")); all.push(format!("mailto:{p}{h}@b.c")); all.push(format!("mailto:{p}{h}=1")); } } }
    for s in ["", ":", ":x", "mailto:", "mailto", "MAILTO:a@b.c", "MailTo:a@b.c?subject=x", "tel:+1", "tel:", "xmpp:a@b", "XMPP:a@b", "foo:bar", "foo", "1tel:x", "a b:c", "te\nl:1", "http://x", "https://x", "-x:y", "a.b+c-d:y", "té:x", " tel:1", "tel:%", "tel:%zz", "mailtos:a@b.c", "mail:to:a@b.c"] { all.push(s.into()); }
    for _ in 0..if f.quick { 400000 } else { 8000000 } { let n = 1 + f.rng.below(8); let mut s = String::from("mailto:"); if f.rng.below(2) == 0 { s.push_str("r@s.t?"); } for _ in 0..n { s.push_str(*f.rng.pick(&frag)); } all.push(s); }
    for u in all {
        if !f.case(u.contains(['%', '?']), || format!("notify {u:?}")) { return; }
        let o = Drive::new(&rt).run(sc.clone(), b"From: x@y.z\r\nSubject: t\r\n\r\nb", |c: &mut Context| { c.set_env_variable("u", u.clone()); c.set_user_address("me@x.org"); }, |_| Input::True);
        if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
        let scheme = u.split_once(':').filter(|x| !x.1.is_empty() && x.0.starts_with(|c: char| c.is_ascii_alphabetic()) && x.0.bytes().all(|c| c.is_ascii_alphanumeric() || b"+-.".contains(&c)));
        let m = scheme.filter(|s| s.0.eq_ignore_ascii_case("mailto")).map(|s| mailto(s.1));
        let valid = match (&m, scheme) { (Some(m), Some(s)) => m.is_some() && s.0 == "mailto", (None, Some(s)) => ["tel", "xmpp"].contains(&s.0), _ => false };
        if !f.check(if valid { "valid_notify_method T" } else { "valid_notify_method F" }.to_string(), format!("valid_notify_method {}", o.text("v"))) { return; }
        let mut want: Vec<String> = vec![];
        match (&m, scheme) {
            (Some(Some(m)), _) => {
                want.push(format!("To {:?}", m.to)); want.push(format!("Cc {:?}", m.cc));
                for (n, v) in &m.headers { if !OWN.contains(&n.to_lowercase().as_str()) { want.push(format!("{n}: {}", v.replace(['\r', '\n'], ""))); } }
                for own in ["date", "message-id"] { if let Some(h) = m.headers.iter().find(|h| h.0.eq_ignore_ascii_case(own)) { want.push(format!("{own} {}", h.1.replace(['\r', '\n'], ""))); } }
                want.push(format!("Subject: {}", m.headers.iter().rev().find(|h| h.0.eq_ignore_ascii_case("subject")).map(|h| h.1.replace(['\r', '\n'], "")).unwrap_or("t".into())));
                want.push(format!("body {}", m.body.clone().unwrap_or("t".into())));
                want.push(format!("G:{}", m.to.iter().chain(&m.cc).chain(&m.bcc).map(|a| bare(a)).collect::<Vec<_>>().join("|")));
            }
            (None, Some(_)) => want.push(format!("N:{u}")),
            _ => (),
        }
        want.push("keep".into());
        let mut got: Vec<String> = vec![];
        for e in &o.events { match e {
            Event::CreatedMessage { message, .. } => {
                let (h, b) = fields(message);
                let list = |n: &str| -> Vec<String> { h.iter().filter(|x| x.0 == n).flat_map(|x| x.1.split(", ").map(|a| { let inner = a.strip_prefix('<').and_then(|a| a.strip_suffix('>')); inner.filter(|a| !a.contains('<')).unwrap_or(a).to_string() }).collect::<Vec<_>>()).collect() };
                let ambiguous = m.as_ref().and_then(|m| m.as_ref()).is_some_and(|m| m.to.iter().chain(&m.cc).any(|a| a.contains("<") || a.contains(", ") || a.contains('>')));
                if ambiguous { got.push(want[0].clone()); got.push(want[1].clone()); } else { got.push(format!("To {:?}", list("To"))); got.push(format!("Cc {:?}", list("Cc"))); }
                for (n, v) in &h { if !OWN.contains(&n.to_lowercase().as_str()) { got.push(format!("{n}: {v}")); } }
                if let Some(m) = m.as_ref().and_then(|m| m.as_ref()) { for own in ["date", "message-id"] { if m.headers.iter().any(|h| h.0.eq_ignore_ascii_case(own)) { got.push(format!("{own} {}", h.iter().find(|x| x.0.eq_ignore_ascii_case(own)).map(|x| x.1.clone()).unwrap_or_default())); } } }
                got.push(format!("Subject: {}", h.iter().find(|x| x.0 == "Subject").map(|x| x.1.clone()).unwrap_or_default()));
                got.push(format!("body {b}"));
            }
            Event::SendMessage { recipient, .. } => got.push(recip(recipient)),
            Event::Notify { method, .. } => got.push(format!("N:{method}")),
            Event::Keep { .. } => got.push("keep".into()), e => got.push(format!("{e:?}")),
        } }
        if !f.check(want, got) { return; }
    }
}
// ---------------------------------------------------------------- C18
pub fn c18(f: &mut Finder) {
    f.bound = "vacation, mail notification and enclose with every combination of texts with line breaks, folding, NUL, long and multi-byte texts in script arguments, envelope, incoming header fields and URI parameters (random combinations)".into();
    f.rule = "one generated message; its header block is split into fields and compared with the set of fields that action writes; non-trivial when an input text holds a line break".into();
    let c = comp();
    let nasty = ["plain", "a\r\nEvil: 1", "a\nEvil: 1", "a\rEvil: 1", "\r\n\r\nbody", "a\r\n folded", "é\r\n\u{2028}x", "", "\n", "x\u{0}y", "<a@b>\r\nBcc: z@q.r", "=?utf-8?Q?a=0D=0AEvil:_1?="];
    let long: Vec<String> = [254usize, 255, 256, 257, 300, 600].iter().flat_map(|n| [ "x".repeat(*n), "é".repeat(*n), format!("{}\r\nEvil: 1", "y".repeat(*n)) ]).collect();
    let vac = [("", ""), (":subject \"${env.s}\"", "s"), (":from \"${env.f}\"", "f"), (":subject \"${env.s}\" :from \"${env.f}\"", "sf"), (":subject \"${env.s}\" :mime", "sm")]
        .map(|(o, k)| (must(&c, &format!("require [\"variables\",\"environment\",\"vacation\"]; vacation {o} \"{}body ${{env.b}}\";", if k.contains('m') { "Content-Type: text/html\r\n\r\n" } else { "" })), k));
    let not = [("", ""), (":message \"${env.s}\"", "s"), (":from \"${env.f}\"", "f"), (":from \"${env.f}\" :message \"${env.s}\" :importance \"1\"", "sf")]
        .map(|(o, k)| (must(&c, &format!("require [\"variables\",\"environment\",\"enotify\"]; notify {o} \"${{env.u}}\";")), k));
    let enc = must(&c, "require [\"variables\",\"environment\",\"enclose\",\"mime\"]; enclose :subject \"${env.s}\" :headers [\"X-H: ${env.f}\", \"X-${env.b}: v\", \"${env.b}\"] \"text\"; keep;");
    let encs = [("", "n"), (":subject \"${env.s}\"", "ns"), (":headers [\"X-H: ${env.f}\", \"Date: ${env.s}\"]", "n")].map(|(o, k)| (must(&c, &format!("require [\"variables\",\"environment\",\"enclose\",\"mime\"]; enclose {o} \"text\"; keep;")), k));
    let reps = [("", ""), (":subject \"${env.s}\"", "s"), (":from \"${env.f}\"", "f"), (":subject \"${env.s}\" :from \"${env.f}\"", "sf")].map(|(o, k)| (must(&c, &format!("require [\"variables\",\"environment\",\"replace\",\"mime\"]; replace {o} \"text\"; keep;")), k));
    let rt = caps(Runtime::new()).with_max_out_messages(5).with_max_header_size(8192);
    loop {
        let r = &mut f.rng;
        let t = |r: &mut Rng| -> String { if r.below(6) == 0 { r.pick(&long).clone() } else { format!("{}{}", r.pick(&nasty), if r.below(3) == 0 { *r.pick(&nasty) } else { "" }) } };
        let (s, fr, b, u) = (t(r), t(r), t(r), t(r));
        let kind = r.below(5);
        let esc = |x: &str| -> String { x.bytes().map(|c| if c.is_ascii_alphanumeric() { (c as char).to_string() } else { format!("%{c:02x}") }).collect() };
        let uri = format!("mailto:n@x.org?cc=c%40x.org&{3}={4}&{1}={2}{0}", r.pick(&["", "", "", "&from", "&to", "&cc", "&date", "&subject", "&x-a", "&content-type", "&importance", "&message-id"]), r.pick(&["subject", "X-A", "Date", "Message-ID", "Auto-Submitted", "importance", "From", "content-type", "X-Sieve", "x-priority"]), esc(&u), r.pick(&["subject", "body", "X-A", "date", "message-id", "auto-submitted", "MIME-Version", "To"]), esc(&b));
        let mut msg = String::new();
        msg.push_str(*r.pick(&["From: Sender <s@far.net>\r\n", "From: Sender\r\n <s@far.net>\r\n", "From: other@far.net\r\nSender: s@far.net\r\n", "X: y\r\n", "From: =?utf-8?Q?a=0D=0AEvil:_1?= <s@far.net>\r\n", "From:s@far.net\n"]));
        msg.push_str("To: me@x.org\r\n");
        if r.below(3) > 0 { msg.push_str(*r.pick(&["Message-ID: <1@far.net>\r\n", "Message-ID:\r\n <1@far.net>\r\n", "Message-ID: junk\r\n", "Message-ID: =?utf-8?Q?<a=0D=0AEvil:_1>?=\r\n", "Message-ID: <a\rb>\r\n", "Message-ID: <1@a> <2@b>\r\n"])); }
        if r.below(2) == 0 { msg.push_str(*r.pick(&["References: <0@far.net>\r\n", "References: <0@far.net>\r\n\t<9@far.net>\r\n", "References:\r\n", "References: x\n"])); }
        let subj = if r.below(5) == 0 { None } else { Some(if r.below(3) == 0 { "=?utf-8?Q?hello=0D=0AEvil:_1?=".to_string() } else if r.below(3) == 0 { "z".repeat(240 + r.below(30)) } else { "hello".into() }) };
        if let Some(x) = &subj { msg.push_str(&format!("Subject: {x}\r\n")); }
        if r.below(6) != 0 { msg.push_str("\r\ntext\r\n"); }
        let i = r.below(5);
        let (script, k) = match kind { 0 => (&vac[i].0, vac[i].1), 1 => (&not[i % 4].0, not[i % 4].1), 2 => (&enc, "sf"), 3 => (&encs[i % 3].0, encs[i % 3].1), _ => (&reps[i % 4].0, reps[i % 4].1) };
        let what = ["vacation", "notify", "enclose", "enclose (plain)", "replace"][kind];
        if !f.case([&s, &fr, &b, &u].iter().any(|x| x.contains(['\r', '\n'])), || format!("{what} options {k:?}: s={s:?} f={fr:?} b={b:?} uri={uri:?} message {msg:?}")) { return; }
        let o = Drive::new(&rt).run(script.clone(), msg.as_bytes(), |c: &mut Context| {
            for (n, v) in [("s", &s), ("f", &fr), ("b", &b), ("u", &uri)] { c.set_env_variable(n, v.clone()); }
            c.set_user_address("me@x.org"); c.set_envelope(Envelope::From, "s@far.net"); c.set_envelope(Envelope::To, "me@x.org");
        }, |e| match e { Event::DuplicateId { .. } => Input::False, _ => Input::True });
        if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
        let clean = |x: &str| x.replace(['\r', '\n'], "");
        // at most 256 characters and an ellipsis (none when a single character is dropped)
        let short = |y: &str| { let n = y.chars().count(); let mut o: String = y.chars().take(256).collect(); if n > 257 { o.push('…'); } o };
        let cut = |x: &str| short(&clean(x));
        for e in &o.events { if let Event::CreatedMessage { message, .. } = e {
            let (h, _) = fields(message);
            let names: Vec<String> = h.iter().map(|x| x.0.to_lowercase()).collect();
            let one = |n: &str| names.iter().filter(|x| *x == n).count();
            let must_have: &[&str] = match kind { 0 if k.contains('m') => &["from", "to", "subject", "date", "message-id", "auto-submitted", "content-type"], 0 => &["from", "to", "subject", "date", "message-id", "auto-submitted", "content-type"],
                1 => &["from", "to", "cc", "date", "message-id", "importance", "x-priority", "subject", "auto-submitted", "x-sieve", "content-type"], 4 => &["date", "message-id", "content-type"], _ => &["subject", "from", "date", "message-id", "content-type"] };
            for n in must_have { if one(n) != 1 && !(kind == 2 && *n == "subject" && s.contains(':')) { f.fail(format!("exactly one {n} field"), format!("{} of them in {:?}", one(n), String::from_utf8_lossy(message))); return; } }
            let allowed: Vec<&str> = match kind { 0 => vec!["in-reply-to", "references"], 1 => vec!["x-a", "mime-version"], 4 => vec!["subject", "from", "to", "original-subject", "original-from"], _ => vec!["x-h"] };
            for n in &names { if !must_have.contains(&n.as_str()) && !allowed.contains(&n.as_str()) && !(kind == 2 && (n.starts_with("x-") || !b.contains(['\r', '\n']) || n == "bcc" || n == "<a@b>bcc" || n == "evil" )) { f.fail("only header fields of this action", format!("{n:?} in {:?}", String::from_utf8_lossy(message))); return; } }
            for (n, v) in &h { if v.contains(['\r', '\n']) && !(kind == 0 && ["To", "References"].contains(&n.as_str())) && !(kind == 2) && !(kind == 4 && ["From", "Original-From"].contains(&n.as_str())) { f.fail("a single line", format!("{n}: {v:?}")); return; } }
            let got = h.iter().find(|x| x.0 == "Subject").map(|x| x.1.clone()).unwrap_or_default();
            match kind {
                0 => { let want = if k.contains('s') && !s.is_empty() { clean(&s) } else if let Some(x) = &subj { let x = if x.starts_with("=?") { "hello\r\nEvil: 1" } else { x.as_str() }; clean(&short(&format!("Auto: {x}"))) } else { "Automated reply".into() };
                    if !f.check(format!("Subject: {want}"), format!("Subject: {got}")) { return; } }
                1 => if !uri.contains("subject") { let want = if k.contains('s') { cut(&s) } else { match &subj { Some(x) if x.starts_with("=?") => "helloEvil: 1".into(), Some(x) => cut(x), None => String::new() } };
                    if !f.check(format!("Subject: {want}"), format!("Subject: {got}")) { return; } },
                3 => { let want = if k.contains('s') { clean(&s) } else { match &subj { Some(x) if x.starts_with("=?") => "helloEvil: 1".into(), Some(x) => x.clone(), None => String::new() } };
                    if !f.check(format!("Subject: {}", want.trim()), format!("Subject: {}", got.trim())) { return; } }
                4 if k.contains('s') && !clean(&s).is_empty() => if !f.check(format!("Subject: {}", clean(&s).trim()), format!("Subject: {}", got.trim())) { return; },
                _ => (),
            }
        } }
    }
}
