//! C11, C20, C21, C23, C31, C34: tests on lists, scores, size, envelope, MIME traversal, dates
use crate::drive::{compile, lit, Drive, Rng};
use crate::find::Finder;
use crate::p_mail::caps;
use sieve::{Compiler as C, Envelope, Event, Input, Runtime, SpamStatus, VirusStatus};
use std::sync::Arc;
fn comp() -> C { C::new().with_max_string_size(1 << 20).with_max_nested_tests(64) }
const MSG: &[u8] = b"From: a@b.org\r\nSubject: s\r\n\r\nbody\r\n";
// ---------------------------------------------------------------- C20
pub fn c20(f: &mut Finder) {
    f.bound = "every status number 0..=40 and the extreme ones, every probability k/2000 from -0.1 to 1.1, special and random floating-point values, every virus status; each read back through all of the possible test values".into();
    f.rule = "one status per case; non-trivial when it is not unknown".into();
    let c = comp(); let rt = caps(Runtime::new());
    let mut s = String::from("require [\"spamtest\",\"spamtestplus\",\"virustest\",\"relational\",\"comparator-i;ascii-numeric\",\"variables\"];\n");
    for n in -1..=12i32 { for (t, k) in [("spamtest", "s"), ("virustest", "v")] {
        let key = if n < 0 { "999".to_string() } else { n.to_string() };
        s.push_str(&format!("if {t} :value \"eq\" :comparator \"i;ascii-numeric\" \"{key}\" {{ set \"global.{k}\" \"${{global.{k}}}{key},\"; }}\nif not {t} :value \"ge\" :comparator \"i;ascii-numeric\" \"{key}\" {{ set \"global.{k}n\" \"${{global.{k}n}}{key},\"; }}\n")); } }
    for n in 0..=102 { s.push_str(&format!("if spamtest :percent :value \"eq\" :comparator \"i;ascii-numeric\" \"{n}\" {{ set \"global.p\" \"${{global.p}}{n},\"; }}\n")); }
    let s = Arc::new(match compile(&c, &s) { Ok(s) => s, Err(e) => { f.fail("compiles", e); return; } });
    let one = |st: SpamStatus, v: VirusStatus| { let (mut a, mut b) = (Some(st), Some(v)); Drive::new(&rt).run(s.clone(), MSG, |x| { x.set_spam_status(a.take().unwrap()); x.set_virus_status(b.take().unwrap()); }, |_| Input::True) };
    let num = |t: &str| { let v: Vec<i64> = t.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(); if v.len() == 1 { Some(v[0]) } else { None } };
    let below = |n: i64| -> String { (-1..=12i64).map(|k| if k < 0 { 999 } else { k }).filter(|k| n < *k).map(|k| format!("{k},")).collect() };
    for n in (0..=40u32).chain([99, 255, 256, 257, 65536, u32::MAX, u32::MAX - 1, i32::MAX as u32]) { for via in 0..3 {
        if !f.case(n > 0 && n <= 10, || format!("spam and virus status set from the number {n}{}", ["", " (SpamStatus::from_number)", " (usize)"][via])) { return; }
        let (a, b) = match via { 0 => (SpamStatus::from(n), VirusStatus::from(n)), 1 => (SpamStatus::from_number(n), VirusStatus::from_number(n)), _ => (SpamStatus::from(n as usize), VirusStatus::from(n as usize)) };
        let o = one(a, b); if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
        let (ws, wv) = (if n <= 10 { n as i64 } else { 0 }, if n <= 5 { n as i64 } else { 0 });
        if !f.check((Some(ws), Some(wv), below(ws), below(wv)), (num(&o.text("s")), num(&o.text("v")), o.text("sn"), o.text("vn"))) { return; }
        let p = num(&o.text("p")); let wp = match ws { 0 | 1 => Some(0), 10 => Some(100), _ => p.filter(|x| (1..=100).contains(x)) };
        if !f.check(format!("percent {wp:?} (in range)"), if p.is_none() { "percent none in 0..100".into() } else { format!("percent {p:?} (in range)") }) { return; }
    } }
    let mut seen: Vec<(f64, i64, i64)> = vec![]; let mut k = -200i32;
    loop {
        let p = if k <= 2200 { k as f64 / 2000.0 } else { let r = &mut f.rng; match r.below(4) { 0 => f64::from_bits(r.next()), 1 => (r.next() >> 11) as f64 / (1u64 << 53) as f64, 2 => f64::from_bits((r.below(101) as f64 / 100.0).to_bits().wrapping_add(r.below(5) as u64).wrapping_sub(2)), _ => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::MIN_POSITIVE, f64::MAX, f64::MIN, 1e300, -1e300]) } }; k += 1;
        if !f.case(true, || format!("spam probability {p:?}")) { return; }
        let o = one(SpamStatus::MaybeSpam(p), VirusStatus::MaybeVirus); if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
        let (Some(n), Some(q)) = (num(&o.text("s")), num(&o.text("p"))) else { f.fail("one value 0..10 and one percentage 0..100", format!("{:?} and {:?}", o.text("s"), o.text("p"))); return; };
        if !(1..=10).contains(&n) || !(0..=100).contains(&q) { f.fail("a value of 1..10 and a percentage of 0..100", format!("{n} and {q}")); return; }
        if !f.check(below(n), o.text("sn")) { return; }
        if p.is_nan() { continue; }
        for (a, x, y) in &seen { if (*a < p && (*x > n || *y > q)) || (*a > p && (*x < n || *y < q)) || (*a == p && (*x != n || *y != q)) { f.fail(format!("monotone: probability {a} has {x} and {y}%"), format!("probability {p} has {n} and {q}%")); return; } }
        if seen.len() < 2000 && k % 3 == 0 { seen.push((p, n, q)); }
    }
}
// ---------------------------------------------------------------- C21
pub fn c21(f: &mut Finder) {
    f.bound = "messages of 0..=3000 octets around every limit (plain numbers and K), limits up to the largest number, after up to 4 header edits and a replace, enclose or convert, under not and in included messages".into();
    f.rule = "size :over/:under of a number near the size of the message; non-trivial when the limit is within 2 of the size".into();
    let c = comp(); let rt = caps(Runtime::new());
    let mut n = 0usize;
    loop {
        let r = &mut f.rng;
        let body = if n < 60 { n } else { r.below(2500) }; n += 1;
        let mut msg: Vec<u8> = match r.below(5) { 0 => b"\r\n".to_vec(), 1 => b"X-A: 1\r\nX-A: \xc3\xa9\r\nX-B: 2\r\n\r\n".to_vec(), 2 => b"X-A: a\r\n b\r\n\r\n".to_vec(), 3 => b"\r\n".to_vec(), _ => b"From: x@y.org\r\nX-A: 1\r\n\r\n".to_vec() };
        msg.extend(std::iter::repeat(if r.below(2) == 0 { b'x' } else { 0xc3 }).take(body));
        let mut script = String::from("require [\"editheader\",\"variables\",\"replace\",\"enclose\",\"convert\"];\n"); let mut edits = 0;
        if r.below(2) == 0 { for _ in 0..1 + r.below(4) { edits += 1; script.push_str(match r.below(6) { 0 => "addheader \"X-N\" \"value\";", 1 => "addheader :last \"X-M\" \"va\u{e9}lue\";", 2 => "deleteheader \"X-A\";", 3 => "deleteheader :is \"X-A\" \"1\";", 4 => "deleteheader \"X-N\";", _ => "addheader \"X-L\" \"a\\\nb\";" }); script.push('\n'); } }
        let replaced = r.below(6) == 0;
        if replaced { edits += 1; msg.splice(0..0, b"From: Some One <some@one.org>\r\nSubject: a b\r\n c\r\n".iter().copied()); script.push_str(match r.below(8) { 6 | 7 => "convert \"text/plain\" \"text/html\" \"\";", 0 => "replace \"text\";", 1 => "replace :subject \"sub\" \"text\";", 2 => "replace :from \"me@x.org\" \"text\";", 3 => "replace :from \"me@x.org\" :subject \"s\" :mime \"Content-Type: text/html\r\n\r\ntext\";", 4 => "enclose \"text\";", _ => "enclose :subject \"sub\" :headers [\"X-E: 1\"] \"text\";" }); if r.below(2) == 0 { script.push_str(match r.below(5) { 0 => " addheader \"X-O\" \"1\";", 1 => if r.below(2) == 0 { " deleteheader \"From\";" } else { " deleteheader \"Original-From\"; deleteheader \"Original-Subject\";" }, 2 => " replace :subject \"two\" \"\";", 3 => " enclose \"all\";", _ => " deleteheader \"X-N\"; convert \"text/plain\" \"text/html\" \"\";" }); } script.push('\n'); }
        let probe = Drive::new(&rt).simple(Arc::new(match compile(&c, &format!("{script}keep;")) { Ok(s) => s, Err(e) => { f.fail("compiles", format!("{e}: {script}")); return; } }), &msg);
        let size = probe.events.iter().rev().find_map(|e| match e { Event::CreatedMessage { message, .. } => Some(message.len()), _ => None }).unwrap_or(msg.len());
        let mut lims: Vec<(usize, String)> = vec![]; for d in -2i64..=2 { let l = size as i64 + d; if l >= 0 { lims.push((l as usize, l.to_string())); } }
        let kb = size / 1024; for k in kb..kb + 2 { lims.push((k * 1024, format!("{k}K"))); } lims.push((0, "0".into())); lims.push((1 << 20, "1M".into())); lims.push((1 << 30, "1G".into())); lims.push((usize::MAX, "18446744073709551615".into()));
        if edits == 0 && body > 0 && n % 7 == 0 { let m = 1024 - msg.len() % 1024; msg.extend(vec![b'y'; m]); let s = msg.len(); lims = vec![(s, format!("{}K", s / 1024)), (s - 1, (s - 1).to_string()), (s + 1, (s + 1).to_string())]; }
        let size = if edits == 0 { msg.len() } else { size };
        let lims: Vec<_> = lims.into_iter().filter(|l| compile(&c, &format!("if size :over {} {{ keep; }}", l.1)).is_ok()).collect();
        let mut want = vec![];
        for (i, (l, t)) in lims.iter().enumerate() { for (j, (not, over)) in [(false, true), (false, false), (true, true), (true, false)].iter().enumerate() {
            script.push_str(&format!("if {}size :{} {t} {{ set \"global.r{i}_{j}\" \"y\"; }}\n", if *not { "not " } else { "" }, if *over { "over" } else { "under" }));
            want.push(((if *over { size > *l } else { size < *l }) ^ not, format!("{}size :{} {t}", if *not { "not " } else { "" }, if *over { "over" } else { "under" }), format!("r{i}_{j}")));
        } }
        if !f.case(true, || format!("message of {} octets, {size} after the edits of {:?}", msg.len(), script.split("if ").next().unwrap_or(""))) { return; }
        let o = Drive::new(&rt).simple(Arc::new(match compile(&c, &script) { Ok(s) => s, Err(e) => { f.fail("compiles", format!("{e}: {script}")); return; } }), &msg);
        if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
        // what replace and enclose generate may differ in length from run to run
        if replaced && o.events.iter().rev().find_map(|e| match e { Event::CreatedMessage { message, .. } => Some(message.len()), _ => None }) != Some(size) { continue; }
        for (w, t, v) in want { if !f.check(format!("{t}: {w}"), format!("{t}: {}", !o.text(&v).is_empty())) { return; } }
    }
}
// ---------------------------------------------------------------- C23
fn envelope_ok(given: &str, got: &str) -> Result<(), String> {
    if !given.contains(got) { return Err("part of the text given".into()); }
    if got.is_empty() || got.eq_ignore_ascii_case("mailer-daemon") { return Ok(()); }
    let p: Vec<&str> = got.split('@').collect();
    if p.len() != 2 || p[0].is_empty() || p[1].is_empty() { return Err("local part @ domain".into()); }
    if got.contains(|c: char| c.is_ascii_whitespace() || !c.is_ascii() || c == '<' || c == '>') { return Err("no spaces, non-ASCII characters or angle brackets".into()); }
    Ok(())
}
pub fn c23(f: &mut Finder) {
    f.bound = "all texts of up to 6 characters over a < > @ : , . space, texts built of address pieces, random Unicode texts with control characters; as sender and as recipient, as the first, second or third setting".into();
    f.rule = "what the script sees of the envelope; non-trivial when the text holds an @".into();
    let c = comp(); let rt = caps(Runtime::new());
    let s = Arc::new(compile(&c, "require [\"variables\",\"envelope\"]; set \"global.f\" \"${envelope.from}\"; set \"global.t\" \"${envelope.to}\"; if envelope :count \"ge\" \"from\" \"0\" { } if envelope :contains \"from\" \"\" { set \"global.sf\" \"y\"; } if envelope :contains \"to\" \"\" { set \"global.st\" \"y\"; }").unwrap_or_else(|_| compile(&c, "require [\"variables\",\"envelope\"]; set \"global.f\" \"${envelope.from}\"; set \"global.t\" \"${envelope.to}\"; if envelope :contains \"from\" \"\" { set \"global.sf\" \"y\"; } if envelope :contains \"to\" \"\" { set \"global.st\" \"y\"; }").unwrap()));
    // how many entries there are: one test per number
    let many = { let mut t = String::from("require [\"variables\",\"envelope\",\"relational\"]; "); for (p, v) in [("from", "nf"), ("to", "nt")] { for k in 0..6 { t.push_str(&format!("if envelope :count \"eq\" \"{p}\" \"{k}\" {{ set \"global.{v}\" \"{k}\"; }} ")); } } Arc::new(compile(&c, &t).unwrap()) };
    let alpha = ['a', '<', '>', '@', ':', ',', '.', ' ']; let all = crate::find::strings(&alpha, 0, 6); let mut i = 0;
    let pieces = ["a", "b.c", "@", "<", ">", ":", ",", ".", " ", "\t", "\u{1}", "\u{7f}", "\0", "é", "x.org", "<>", "@x.y:", "\"", "\\", "MAILER-DAEMON", "mailer-daemon", "\u{a0}", "user", "..", "@@"];
    let mut k = 0u64;
    loop {
        k += 1;
        let t = if k % 3 == 0 && i < all.len() { let j = if all.len() > 50_000 && f.quick { (i * 7919) % all.len() } else { i }; i += 1; all[j].clone() } else if k % 3 == 1 {
            let r = &mut f.rng; let (l, d) = (*r.pick(&["a", "user.name", "x+y", "a-b_c", "\"q\""]), *r.pick(&["b.org", "x", "mail.example.com"])); let base = format!("{l}@{d}");
            let plain = r.below(2) == 0; let t = match r.below(4) { 0 => base.clone(), 1 => format!("<{base}>"), 2 => format!("<@r.org:{base}>"), _ => format!("<@r.org,@s.org:{base}>") };
            if plain { if !f.case(true, || format!("envelope sender and recipient {t:?}")) { return; }
                let o = Drive::new(&rt).run(s.clone(), MSG, |x| { x.set_envelope(Envelope::From, t.clone()); x.set_envelope(Envelope::To, t.clone()); }, |_| Input::True);
                if !f.check((base.clone(), base), (o.text("f"), o.text("t"))) { return; } continue; }
            let at = r.below(t.chars().count() + 1); let ins = *r.pick(&pieces); let mut u: String = t.chars().take(at).collect(); u.push_str(ins); u.extend(t.chars().skip(at)); u
        } else { let r = &mut f.rng; (0..r.below(7)).map(|_| *r.pick(&pieces)).collect::<String>() };
        if !f.case(t.contains('@'), || format!("envelope sender and recipient {t:?}")) { return; }
        let o = Drive::new(&rt).run(s.clone(), MSG, |x| { x.set_envelope(Envelope::From, t.clone()); x.set_envelope(Envelope::To, t.clone()); }, |_| Input::True);
        if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
        if k % 8 == 0 || !o.text("f").is_empty() {
            // the same text again behind well-formed settings: whatever is stored is well-formed
            let n = 1 + (k / 8 % 3) as usize;
            let m = Drive::new(&rt).run(many.clone(), MSG, |x| { for i in 0..n { let w = format!("w{i}@z.org"); x.set_envelope(Envelope::From, w.clone()); x.set_envelope(Envelope::To, w); } x.set_envelope(Envelope::From, t.clone()); x.set_envelope(Envelope::To, t.clone()); }, |_| Input::True);
            if let Some(p) = &m.panicked { f.fail("no panic", p); return; }
            for v in ["sf", "st"] { // sender, recipient
                let stored = !o.text(if v == "sf" { "f" } else { "t" }).is_empty(); // empty ones are not counted
                let want = (n + stored as usize).to_string();
                if !f.check((v, want), (v, m.text(if v == "sf" { "nf" } else { "nt" }))) { return; }
            }
        }
        for v in ["f", "t"] { if let Err(e) = envelope_ok(&t, &o.text(v)) { f.fail(e, format!("{:?}", o.text(v))); return; } }
    }
}
// ---------------------------------------------------------------- C34
fn civil(z: i64) -> (i64, i64, i64) { // days since 1970-01-01 (H. Hinnant's algorithm)
    let z = z + 719468; let era = z.div_euclid(146097); let doe = z.rem_euclid(146097); let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100); let mp = (5 * doy + 2) / 153; let d = doy - (153 * mp + 2) / 5 + 1; let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}
const PARTS: [&str; 13] = ["year", "month", "day", "date", "julian", "hour", "minute", "second", "time", "iso8601", "std11", "zone", "weekday"];
fn part(name: &str, t: i64, off: i64) -> String { // off in minutes
    let l = t + off * 60; let (days, sec) = (l.div_euclid(86400), l.rem_euclid(86400)); let (y, m, d) = civil(days); let (h, mi, s) = (sec / 3600, sec / 60 % 60, sec % 60);
    let (sg, oh, om) = (if off < 0 { '-' } else { '+' }, off.abs() / 60, off.abs() % 60); let w = (days + 4).rem_euclid(7);
    match name {
        "year" => format!("{y:04}"), "month" => format!("{m:02}"), "day" => format!("{d:02}"), "date" => format!("{y:04}-{m:02}-{d:02}"), "julian" => (days + 40587).to_string(),
        "hour" => format!("{h:02}"), "minute" => format!("{mi:02}"), "second" => format!("{s:02}"), "time" => format!("{h:02}:{mi:02}:{s:02}"),
        "iso8601" => format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}{}", if off == 0 { "Z".into() } else { format!("{sg}{oh:02}:{om:02}") }),
        "std11" => format!("{}, {d} {} {y:04} {h:02}:{mi:02}:{s:02} {sg}{oh:02}{om:02}", ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"][w as usize], ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize - 1]),
        "zone" => format!("{sg}{oh:02}{om:02}"), _ => w.to_string(),
    }
}
pub fn c34(f: &mut Finder) {
    f.bound = "random and boundary instants (month, year and leap-day ends, midnight) of 1900..2999, sender zones -1159..+1159, requested zones -1200..+1400 (as the compiler accepts), :originalzone and default, every date part; date and currentdate".into();
    f.rule = "each date part compared with an independent calendar; non-trivial when a zone other than UTC takes part".into();
    let c = comp(); let rt = caps(Runtime::new()); let mut scripts: Vec<(Option<i64>, Arc<sieve::Sieve>)> = vec![];
    let mut n = 0u64;
    loop {
        n += 1; let r = &mut f.rng;
        if scripts.len() < 200 && (n % 20 == 1) {
            let z = match r.below(4) { 0 => Some(*r.pick(&[0, 30, -30, 60, -60, 330, 345, 14 * 60, -12 * 60, -11 * 60 - 59, 13 * 60 + 59, 1, -1])), 1 => None, _ => { let z = r.below(1561) as i64 - 720; Some(if r.below(2) == 0 { z / 60 * 60 } else { z }) } };
            let mut s = String::from("require [\"date\",\"variables\",\"relational\"];\n");
            for p in PARTS { for (k, (t, h)) in [("date", "\"Date\" "), ("date", "\"Date\" "), ("currentdate", "")].iter().enumerate() {
                let zone = if k == 1 { ":originalzone ".to_string() } else { match z { None => String::new(), Some(z) => format!(":zone \"{}{:02}{:02}\" ", if z < 0 { '-' } else { '+' }, z.abs() / 60, z.abs() % 60) } };
                s.push_str(&format!("if {t} {zone}:matches {h}\"{p}\" \"*\" {{ set \"global.{p}{k}\" \"${{1}}\"; }}\n"));
            } }
            match compile(&c, &s) { Ok(x) => scripts.push((z, Arc::new(x))), Err(e) => { f.fail("compiles", format!("{e}: {s}")); return; } }
        }
        let (z, s) = r.pick(&scripts).clone();
        let so = match r.below(3) { 0 => 0, 1 => *r.pick(&[330i64, -180, 60, -719, 660, 719, 1, -1, -30]), _ => r.below(1439) as i64 - 719 };
        let day = match r.below(4) { 0 => { let y = 1902 + r.below(1096) as i64; let d0 = (y - 1970) * 365 + (y - 1969).div_euclid(4) - (y - 1901).div_euclid(100) + (y - 1601).div_euclid(400); d0 + *r.pick(&[-1, 0, 30, 31, 58, 59, 60, 364]) } 1 => r.below(20000) as i64, _ => r.below(390000) as i64 - 24000 };
        let t = day * 86400 + match r.below(3) { 0 => *r.pick(&[0i64, 1, 59, 60, 3599, 3600, 86399, 43200]), _ => r.below(86400) as i64 };
        let msg = format!("Date: {}\r\n\r\nx\r\n", part("std11", t, so)); let off = z.unwrap_or(0);
        if !f.case(so != 0 || off != 0, || format!("date parts of {msg:?} in zone {z:?} (minutes)")) { return; }
        let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs() as i64).unwrap_or(0);
        let t0 = now(); let o = Drive::new(&rt).simple(s, msg.as_bytes()); let t1 = now();
        if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
        for p in PARTS {
            let z34 = |p: &str, off: i64| { let m = ((off * 60).abs() % 3600) as u8; let w = part(p, t, off); let n = w.len() - 2; format!("{}{m:02}", &w[..n]) };
            if off % 60 != 0 && ["zone", "iso8601", "std11"].contains(&p) && o.text(&format!("{p}0")) == z34(p, off) && o.text(&format!("{p}1")) == part(p, t, so) { f.known("C34-zone-minutes", part(p, t, off), o.text(&format!("{p}0"))); continue; }
            if (t < 0 || t + off * 60 < 0) && o.text(&format!("{p}0")) != part(p, t, off) && o.text(&format!("{p}1")) == part(p, t, so) { f.known("C34-before-1970", part(p, t, off), o.text(&format!("{p}0"))); continue; }
            if !f.check(format!("date {p} {:?}, :originalzone {:?}", part(p, t, off), part(p, t, so)), format!("date {p} {:?}, :originalzone {:?}", o.text(&format!("{p}0")), o.text(&format!("{p}1")))) { return; }
        }
        if !(t0..=t1).any(|x| PARTS.iter().all(|p| off % 60 != 0 && ["zone", "iso8601", "std11"].contains(p) || part(p, x, off) == o.text(&format!("{p}2")))) { f.fail(format!("currentdate parts of {}", part("iso8601", t0, off)), PARTS.iter().map(|p| format!("{p}={}", o.text(&format!("{p}2")))).collect::<Vec<_>>().join(" ")); return; }
    }
}
// ---------------------------------------------------------------- C31
#[derive(Clone, Debug)]
enum K { Leaf(&'static str), Multi(Vec<N>), Mail(Box<N>) }
#[derive(Clone, Debug)]
struct N { id: usize, kind: K }
fn tree(r: &mut Rng, depth: usize, mails: usize, next: &mut usize) -> N {
    let id = *next; *next += 1;
    let kind = match r.below(if depth == 0 { 3 } else { 6 }) {
        0 | 1 if depth < 5 => K::Multi((0..1 + r.below(3)).map(|_| tree(r, depth + 1, mails, next)).collect()),
        3 if depth > 0 && depth < 5 && mails < 1 => K::Mail(Box::new(tree(r, depth + 1, mails + 1, next))),
        _ => K::Leaf(r.pick(&["text/plain", "text/html", "application/pdf"])),
    };
    N { id, kind }
}
fn show(n: &N, o: &mut String) {
    o.push_str(&format!("X-P: p{}\r\n", n.id));
    match &n.kind {
        K::Leaf(t) => o.push_str(&format!("Content-Type: {t}\r\n\r\ntok{}.", n.id)),
        K::Multi(v) => { let b = format!("b{}", n.id); o.push_str(&format!("Content-Type: multipart/mixed; boundary=\"{b}\"\r\n\r\n")); for k in v { o.push_str(&format!("--{b}\r\n")); show(k, o); o.push_str("\r\n"); } o.push_str(&format!("--{b}--\r\n")); }
        K::Mail(m) => { o.push_str("Content-Type: message/rfc822\r\n\r\n"); show(m, o); }
    }
}
/// the parts of the message itself in order: an attached message is one part
fn order(n: &N, o: &mut Vec<usize>) { o.push(n.id); if let K::Multi(v) = &n.kind { for k in v { order(k, o); } } }
fn find(n: &N, id: usize) -> Option<&N> { if n.id == id { return Some(n); } if let K::Multi(v) = &n.kind { v.iter().find_map(|k| find(k, id)) } else { None } }
fn leaves(n: &N, o: &mut Vec<(usize, &'static str)>) { match &n.kind { K::Leaf(t) => o.push((n.id, t)), K::Multi(v) => for k in v { leaves(k, o) }, K::Mail(m) => leaves(m, o) } }
pub fn c31(f: &mut Finder) {
    f.bound = "random messages nested up to 6 deep with attached messages; foreverypart alone, nested twice, with break and with :name; header, exists and count tests with :mime :anychild in each part; body :content by type".into();
    f.rule = "the parts visited, in order, compared with the tree the message was made from; non-trivial when there are at least 3 parts".into();
    let c = comp().with_max_nested_foreverypart(8); let rt = caps(Runtime::new().with_cpu_limit(1_000_000));
    loop {
        let r = &mut f.rng; let mut n = 0; let t = tree(r, 0, 0, &mut n); let mut all = vec![]; order(&t, &mut all);
        let stop = *r.pick(&all); let brk = r.below(3) == 0; let probe = r.below(n);
        let mut script = String::from("require [\"variables\",\"mime\",\"foreverypart\",\"relational\",\"body\"];\n");
        script.push_str(&format!("if header :mime :anychild :is \"X-P\" \"p{probe}\" {{ set \"global.top\" \"y\"; }}\n"));
        script.push_str("foreverypart {\n if header :mime :matches \"X-P\" \"p*\" { set \"global.id\" \"${1}\"; set \"global.a\" \"${global.a},${1}\"; }\n");
        script.push_str(&format!(" if header :mime :anychild :is \"X-P\" \"p{probe}\" {{ set \"global.c\" \"${{global.c}},${{global.id}}\"; }}\n"));
        for k in 0..4 { script.push_str(&format!(" if header :mime :anychild :count \"eq\" :comparator \"i;ascii-numeric\" \"X-P\" \"{}\" {{ set \"global.n{}\" \"${{global.n{}}},${{global.id}}\"; }}\n", k + 1, k + 1, k + 1)); }
        script.push_str(" foreverypart {\n  if header :mime :matches \"X-P\" \"p*\" { set \"global.in\" \"${1}\"; set \"global.b\" \"${global.b},${global.id}/${1}\"; }\n  foreverypart { if header :mime :matches \"X-P\" \"p*\" { set \"global.d\" \"${global.d},${global.id}/${global.in}/${1}\"; } }\n }\n");
        if brk { script.push_str(&format!(" if header :mime :is \"X-P\" \"p{stop}\" {{ break; }}\n")); }
        script.push_str("}\nif header :mime :matches \"X-P\" \"p*\" { set \"global.after\" \"${1}\"; }\n");
        let mut lv = vec![]; leaves(&t, &mut lv); let probe2 = r.below(n); let ty = *r.pick(&["text/plain", "text", "text/html", "application", "application/pdf", "TEXT/Plain"]);
        script.push_str(&format!("if body :content {} :contains \"tok{probe2}.\" {{ set \"global.body\" \"y\"; }}\n", lit(ty)));
        let mut msg = String::new(); show(&t, &mut msg);
        if !f.case(all.len() > 2, || format!("script {script:?} on message {msg:?}")) { return; }
        let s = match compile(&c, &script) { Ok(s) => Arc::new(s), Err(e) => { f.fail("compiles", format!("{e}: {script}")); return; } };
        let o = Drive::new(&rt).run(s, msg.as_bytes(), |_| (), |_| Input::True);
        if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
        let (mut a, mut b, mut cc, mut d) = (String::new(), String::new(), String::new(), String::new()); let mut cnt = vec![String::new(); 4];
        for id in &all {
            a.push_str(&format!(",{id}")); let mut sub = vec![]; order(find(&t, *id).unwrap(), &mut sub);
            if sub.contains(&probe) { cc.push_str(&format!(",{id}")); }
            if (1..=4).contains(&sub.len()) { cnt[sub.len() - 1].push_str(&format!(",{id}")); }
            for k in &sub[1..] { b.push_str(&format!(",{id}/{k}")); let mut s2 = vec![]; order(find(&t, *k).unwrap(), &mut s2); for j in &s2[1..] { d.push_str(&format!(",{id}/{k}/{j}")); } }
            if brk && *id == stop { break; }
        }
        let body = lv.iter().any(|(i, t)| *i == probe2 && (t.eq_ignore_ascii_case(ty) || t.split('/').next().unwrap().eq_ignore_ascii_case(ty)));
        let w = (a, b, d, cc, cnt, all.contains(&probe), body, "0".to_string());
        let g = (o.text("a"), o.text("b"), o.text("d"), o.text("c"), (1..=4).map(|k| o.text(&format!("n{k}"))).collect::<Vec<_>>(), !o.text("top").is_empty(), !o.text("body").is_empty(), o.text("after"));
        if !f.check(w, g) { return; }
    }
}
// ---------------------------------------------------------------- C11
pub fn c11(f: &mut Finder) {
    f.bound = "1..3 values and 1..3 keys in every order, match types is, contains, matches and all six of :value and :count, three comparators, with and without not; string, environment, header, address, envelope and hasflag".into();
    f.rule = "the list test compared with the same test on each single value and key; non-trivial when some pairs match and some do not".into();
    let c = comp(); let rt = caps(Runtime::new());
    let words = ["a", "A", "ab", "b", "10", "9", "", "a*b", "é"];
    loop {
        let r = &mut f.rng; let kind = r.below(6); let (nv, nk) = (1 + r.below(3), 1 + r.below(3));
        let mut vals: Vec<String> = (0..nv).map(|_| { let w = *r.pick(&words); match kind { 3 | 4 => format!("{}@x.org", if w.is_empty() || w == "é" { "z".to_string() } else { w.replace('*', "+") }), 5 => format!("\\{}", if w.is_empty() { "q" } else { w }), _ => w.to_string() } }).collect();
        if kind == 5 { vals.sort(); vals.dedup_by(|a, b| a.eq_ignore_ascii_case(b)); let mut seen: Vec<String> = vec![]; vals.retain(|v| { let l = v.to_lowercase(); if seen.contains(&l) { false } else { seen.push(l); true } }); }
        if kind == 1 { vals.truncate(1); }
        let rel = *r.pick(&["eq", "ne", "lt", "le", "gt", "ge"]);
        let mt = match r.below(6) { 0 => ":is".to_string(), 1 => ":contains".into(), 2 => ":matches".into(), 3 | 4 => format!(":value \"{rel}\""), _ => format!(":count \"{rel}\"") };
        let count = mt.starts_with(":count");
        if kind == 5 && !(mt == ":is" || mt == ":contains" || mt == ":matches" || count) { continue; }
        let keys: Vec<String> = (0..nk).map(|_| if count { r.below(5).to_string() } else { let w = *r.pick(&words); match kind { 3 | 4 if r.below(3) > 0 => r.pick(&vals).clone(), 5 if r.below(2) == 0 => r.pick(&vals).clone(), _ if r.below(5) == 0 => "*".to_string(), _ => w.to_string() } }).collect();
        let cmp = if count { "i;ascii-numeric" } else { *r.pick(&["i;octet", "i;ascii-casemap", "i;ascii-numeric"]) };
        if cmp == "i;ascii-numeric" && (mt == ":contains" || mt == ":matches") { continue; }
        let list = |v: &[String]| format!("[{}]", v.iter().map(|x| lit(x)).collect::<Vec<_>>().join(","));
        let head = format!("{mt} :comparator \"{cmp}\"");
        let vs = |i: Option<usize>| -> String { match kind {
            0 => format!("string {head} {}", match i { None => list(&vals), Some(i) => list(&vals[i..i + 1]) }), 1 => format!("environment {head} \"vnd.v\""),
            2 => format!("header {head} {}", match i { None => format!("[{}]", (0..vals.len()).map(|k| format!("\"X-{k}\"")).collect::<Vec<_>>().join(",")), Some(i) => format!("\"X-{i}\"") }),
            3 => format!("address {head} {}", match i { None => format!("[{}]", ["To", "Cc", "Bcc"][..vals.len()].iter().map(|x| lit(x)).collect::<Vec<_>>().join(",")), Some(i) => lit(["To", "Cc", "Bcc"][i]) }),
            4 => format!("envelope {head} {}", match i { None => format!("[{}]", ["from", "to", "orcpt"][..vals.len()].iter().map(|x| lit(x)).collect::<Vec<_>>().join(",")), Some(i) => lit(["from", "to", "orcpt"][i]) }),
            _ => format!("hasflag {head} {}", match i { None => "\"all\"".into(), Some(i) => format!("\"f{i}\"") }) } };
        let mut script = String::from("require [\"variables\",\"relational\",\"envelope\",\"envelope-dsn\",\"environment\",\"imap4flags\",\"comparator-i;ascii-numeric\"];\n");
        if kind == 5 { for (i, v) in vals.iter().enumerate() { script.push_str(&format!("setflag \"f{i}\" {};\n", lit(v))); } script.push_str(&format!("setflag \"all\" {};\n", list(&vals))); }
        script.push_str(&format!("if {} {} {{ set \"global.r\" \"y\"; }}\nif not {} {} {{ set \"global.n\" \"y\"; }}\n", vs(None), list(&keys), vs(None), list(&keys)));
        for i in 0..vals.len() { for (j, k) in keys.iter().enumerate() { script.push_str(&format!("if {} {} {{ set \"global.s{i}_{j}\" \"y\"; }}\n", vs(Some(i)), lit(k))); } }
        for (j, k) in keys.iter().enumerate() { script.push_str(&format!("if {} {} {{ set \"global.k{j}\" \"y\"; }}\n", vs(None), lit(k))); }
        let msg = format!("{}\r\nx\r\n", match kind { 2 => vals.iter().enumerate().map(|(i, v)| format!("X-{i}: {v}\r\n")).collect::<String>(), 3 => vals.iter().enumerate().map(|(i, v)| format!("{}: {v}\r\n", ["To", "Cc", "Bcc"][i])).collect(), _ => "X-Z: z\r\n".into() });
        let s = match compile(&c, &script) { Ok(s) => Arc::new(s), Err(e) => { if !f.case(false, || script.clone()) { return; } f.fail("compiles", format!("{e}: {script}")); return; } };
        let v0 = vals.clone();
        let o = Drive::new(&rt).run(s, msg.as_bytes(), |x| { if kind == 1 { x.set_env_variable("vnd.v", v0[0].clone()); } if kind == 4 { for (i, v) in v0.iter().enumerate() { x.set_envelope([Envelope::From, Envelope::To, Envelope::Orcpt][i].clone(), v.clone()); } } }, |_| Input::True);
        let single: Vec<Vec<bool>> = (0..vals.len()).map(|i| (0..keys.len()).map(|j| !o.text(&format!("s{i}_{j}")).is_empty()).collect()).collect();
        let some = single.iter().flatten().any(|x| *x);
        if !f.case(some && !single.iter().flatten().all(|x| *x), || format!("{} {} on values {vals:?}", vs(None), list(&keys))) { return; }
        if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
        let got = !o.text("r").is_empty(); let not = !o.text("n").is_empty();
        if !f.check(format!("not inverts: {}", !got), format!("not inverts: {not}")) { return; }
        let per_key: Vec<bool> = (0..keys.len()).map(|j| !o.text(&format!("k{j}")).is_empty()).collect();
        let want = if count {
            let n = match kind { 0 | 1 => vals.iter().filter(|v| !v.is_empty()).count(), 5 => vals.len(), _ => vals.len() } as f64;
            if kind == 1 && n == 0.0 { false } else { keys.iter().any(|k| { let k: f64 = k.parse().unwrap(); match rel { "eq" => n == k, "ne" => n != k, "lt" => n < k, "le" => n <= k, "gt" => n > k, _ => n >= k } }) }
        } else { some };
        if !count { for j in 0..keys.len() { let w = single.iter().any(|s| s[j]); if !f.check(format!("with the key {:?} alone: {w}", keys[j]), format!("with the key {:?} alone: {}", keys[j], per_key[j])) { return; } } }
        if got != want && !count && kind < 2 && keys.len() > 1 && got == per_key[keys.len() - 1] { f.known("C11-string-key-order", want, got); continue; }
        if !f.check(format!("list test: {want}"), format!("list test: {got}")) { return; }
    }
}
