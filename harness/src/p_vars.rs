//! C05 (stored size), C33 (set modifiers), parts of C30.
use crate::{core_model::REQ, drive::*, find::*, p_core::runtime};
use sieve::{compiler::grammar::Capability, runtime::Variable, Compiler, Envelope, Event, Input, Runtime};
use std::sync::Arc;

pub fn fit(s: &str, max: usize) -> String { let mut o = String::new(); for c in s.chars() { if o.len() + c.len_utf8() > max { break; } o.push(c); } o }

pub fn c05(f: &mut Finder) {
    f.bound = "limits 0 to 12, 100 and 4096; texts of 0 to 14 characters with 1 to 4 byte characters and texts around the limit; set of local, global, envelope variables, modifiers, let, extracttext".into();
    f.rule = "one (way of storing, limit, text); the stored text must be the text cut to its longest prefix of whole characters that fits; non-trivial when the text is longer than the limit".into();
    let c = Compiler::new();
    let way = |s: &str| Arc::new(compile(&c, &format!("require [\"variables\",\"environment\",\"vnd.stalwart.expressions\",\"foreverypart\",\"extracttext\",\"mime\"]; {s}")).expect(s));
    let ways: Vec<(&str, Arc<sieve::Sieve>, u8)> = vec![
        ("set global", way("set \"global.r\" \"${env.v}\";"), 0),
        ("set local", way("set \"x\" \"${env.v}\"; set \"global.r\" \"${x}\";"), 0),
        ("set block local", way("if true { set \"x\" \"${env.v}\"; set :local \"y\" \"${x}\"; set \"global.r\" \"${y}\"; }"), 0),
        ("set over a longer value", way("set \"global.r\" \"${env.v}\"; set \"global.r\" \"${env.v}\";"), 0),
        ("set twice joined", way("set \"global.r\" \"${env.v}${env.v}\";"), 1),
        ("set list", way("set \"x\" \"${env.v}\"; set \"global.r\" \"${x}${env.v}\";"), 2),
        ("set :replace", way("set :replace \"a\" \"${env.v}\" \"global.r\" \"aa\";"), 1),
        ("set :upper", way("set :upper \"global.r\" \"${env.v}\";"), 3),
        ("let", way("let \"global.r\" \"env.v + env.v\";"), 1),
        ("let copy", way("let \"x\" \"env.v\"; let \"global.r\" \"x\";"), 0),
        ("envelope", way("set \"envelope.from\" \"${env.v}\"; set \"global.r\" \"${envelope.from}\";"), 4),
        ("envelope notify", way("set \"envelope.notify\" \"${env.v}\"; set \"envelope.notify\" \"${env.v}\"; set \"global.r\" \"${envelope.notify}\";"), 5),
        ("extracttext", way("foreverypart { extracttext \"global.r\"; }"), 6),
        ("extracttext local", way("foreverypart { extracttext \"x\"; set \"global.r\" \"${x}\"; }"), 6),
        ("extracttext :upper", way("foreverypart { extracttext :upper \"global.r\"; }"), 7),
    ];
    let al: Vec<char> = "abé€😀ß z".chars().collect();
    let mut texts: Vec<String> = strings(&['a', 'é', '€', '😀'], 0, 3);
    for n in [90usize, 99, 100, 101, 4093, 4094, 4095, 4096, 4097, 9000] { texts.push("x".repeat(n)); texts.push("é".repeat(n / 2)); texts.push(format!("{}😀é", "y".repeat(n.saturating_sub(3)))); }
    for _ in 0..(if f.quick { 60 } else { 2000 }) { texts.push(rand_string(&mut f.rng, &al, 14)); }
    for max in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 12, 100, 4096] {
        let rt = runtime().with_capability(Capability::ExtractText).with_max_variable_size(max);
        for t in &texts { for (name, s, kind) in &ways {
            if t.len() > 200 && max < 100 { continue; }
            let full = match kind { 1 => format!("{t}{t}"), 2 => format!("{}{t}", fit(t, max)), 3 => t.to_uppercase(), 7 => t.trim().to_uppercase(), _ => t.clone() };
            if *kind >= 6 && (t.trim() != t || t.is_empty()) { continue; }
            if !f.case(full.len() > max, || format!("{name}: limit {max}, text {:?} ({} bytes)", fit(t, 60), t.len())) { return; }
            let msg = format!("From: a@b.c\r\nContent-Type: text/plain; charset=utf-8\r\n\r\n{t}");
            let o = Drive::new(&rt).run(s.clone(), msg.as_bytes(), |c| { c.set_env_variable("v", t.to_string()); }, |_| Input::True);
            let want = fit(&full, max);
            let got = match &o.panicked { Some(p) => format!("PANIC {p}"), None => o.text("r") };
            if *kind == 4 || *kind == 5 {
                let env = if *kind == 4 { Envelope::From } else { Envelope::Notify };
                for e in &o.events { if let Event::SetEnvelope { envelope, value } = e { if *envelope != env || *value != want { f.fail(format!("SetEnvelope {:?}", fit(&want, 80)), format!("{:?}", fit(value, 80))); return; } } }
            }
            if got != want { f.fail(format!("{} bytes {:?}", want.len(), fit(&want, 80)), format!("{} bytes {:?}", got.len(), fit(&got, 80))); return; }
        } }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum M { Lower, Upper, LowerFirst, UpperFirst, Wild, Regex, Url, Length, Rep(&'static str, &'static str) }
fn prec(m: M) -> u8 { match m { M::Lower => 41, M::Upper => 40, M::Rep(..) => 40, M::LowerFirst => 31, M::UpperFirst => 30, M::Regex => 21, M::Wild => 20, M::Url => 15, M::Length => 10 } }
fn apply(m: M, s: &str) -> String {
    match m {
        M::Lower => s.to_lowercase(), M::Upper => s.to_uppercase(),
        M::LowerFirst => { let mut c = s.chars(); match c.next() { Some(x) => x.to_lowercase().chain(c).collect(), None => String::new() } }
        M::UpperFirst => { let mut c = s.chars(); match c.next() { Some(x) => x.to_uppercase().chain(c).collect(), None => String::new() } }
        M::Wild => s.chars().flat_map(|c| if "*?\\".contains(c) { vec!['\\', c] } else { vec![c] }).collect(),
        M::Regex => s.chars().flat_map(|c| if "*\\?.[]()+{}|^=:$".contains(c) { vec!['\\', c] } else { vec![c] }).collect(),
        M::Url => s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-._~".contains(&b) { (b as char).to_string() } else { format!("%{b:02x}") }).collect(),
        M::Length => s.chars().count().to_string(),
        M::Rep(a, b) => s.replace(a, b),
    }
}
fn text(m: M) -> String { match m { M::Lower => ":lower".into(), M::Upper => ":upper".into(), M::LowerFirst => ":lowerfirst".into(), M::UpperFirst => ":upperfirst".into(), M::Wild => ":quotewildcard".into(), M::Regex => ":quoteregex".into(), M::Url => ":encodeurl".into(), M::Length => ":length".into(), M::Rep(a, b) => format!(":replace {} {}", lit(a), lit(b)) } }
pub fn c33(f: &mut Finder) {
    f.bound = "every modifier, every ordered pair and random lists of up to 5 modifiers (also repeated) on all strings of length <= 2 over 14 characters and random Unicode strings up to 30 characters".into();
    f.rule = "one (modifier list, text); non-trivial when the text is not empty".into();
    let ms = [M::Lower, M::Upper, M::LowerFirst, M::UpperFirst, M::Wild, M::Regex, M::Url, M::Length, M::Rep("a", "Bb"), M::Rep("b", ""), M::Rep("", "x"), M::Rep("É", "é")];
    let mut lists: Vec<Vec<M>> = vec![];
    for a in ms { lists.push(vec![a]); for b in ms { lists.push(vec![a, b]); } }
    for _ in 0..(if f.quick { 60 } else { 600 }) { let n = 3 + f.rng.below(3); lists.push((0..n).map(|_| *f.rng.pick(&ms)).collect()); }
    let mut texts = strings(&"aBé*?\\ .%/ßΣ\n\u{0}".chars().collect::<Vec<_>>(), 0, 2);
    let al: Vec<char> = "abzABZ019-._~ *?\\[](){}+|^=:$éÉßΣσςİǅ😀%\"\t\n/;,'&<>#@!`\u{7f}\u{80}".chars().collect();
    for _ in 0..(if f.quick { 120 } else { 3000 }) { texts.push(rand_string(&mut f.rng, &al, 30)); }
    texts.push(al.iter().collect()); texts.push((1u8..128).map(|b| b as char).collect());
    let c = Compiler::new(); let rt = runtime();
    for l in lists {
        // the relative order of upper and replace (equal precedence) is not part of the property
        if l.contains(&M::Upper) && l.iter().any(|m| matches!(m, M::Rep(..))) { continue; }
        let src = format!("require [\"variables\",\"environment\",\"regex\",\"enotify\"]; set {} \"global.r\" \"${{env.v}}\";", l.iter().map(|m| text(*m)).collect::<Vec<_>>().join(" "));
        let s = match compile(&c, &src) { Ok(s) => Arc::new(s), Err(e) => { f.case(true, || src.clone()); f.fail("compiles", e); return; } };
        let mut order: Vec<M> = vec![];
        for m in &l { if matches!(m, M::Rep(..)) || !order.contains(m) { order.push(*m); } }
        order.sort_by_key(|m| std::cmp::Reverse(prec(*m)));
        let step = if l.len() == 1 { 1 } else { 5 };
        let off = f.rng.below(step);
        for t in texts.iter().skip(off).step_by(step) {
            if !f.case(!t.is_empty(), || format!("{src} on {t:?}")) { return; }
            let o = Drive::new(&rt).run(s.clone(), b"\r\n", |c| c.set_env_variable("v", t.clone()), |_| Input::True);
            let got = match &o.panicked { Some(p) => format!("PANIC {p}"), None => o.text("r") };
            let mut want = t.clone(); for m in &order { want = apply(*m, &want); }
            if !f.check(want, got) { return; }
        }
    }
    // near the size limit: outputs are cut, never longer
    for max in [0usize, 1, 2, 5, 6, 7] { let rt = runtime().with_max_variable_size(max); for m in ms { for t in ["aaaaaa", "éé*éé", "****", "ééé", "😀😀"] {
        let src = format!("require [\"variables\",\"environment\",\"regex\",\"enotify\"]; set {} \"global.r\" \"${{env.v}}\";", text(m));
        if !f.case(true, || format!("{src} limit {max} on {t:?}")) { return; }
        let o = Drive::new(&rt).run(Arc::new(compile(&c, &src).unwrap()), b"\r\n", |c| c.set_env_variable("v", t.to_string()), |_| Input::True);
        let (full, got) = (apply(m, t), o.text("r"));
        if m == M::Length { continue; } // a number
        if o.panicked.is_some() || got.len() > max || !full.starts_with(&got) || (full.len() <= max && got != full) { f.fail(format!("at most {max} bytes of {full:?}"), format!("{got:?} {:?}", o.panicked)); return; }
    } } }
}

/// every action and test argument reads the variable it names (block-local and :local variables are renumbered after parsing)
pub fn c30_actions(f: &mut Finder) {
    let table: &[(&str, &str, &str)] = &[
        ("VAL", "fileinto :copy \"${v}\";", "folder: \"VAL\""), ("VAL", "fileinto :copy :flags \"${v}\" \"f\";", "flags: [\"VAL\"]"), ("VAL", "fileinto :copy :mailboxid \"${v}\" \"f\";", "mailbox_id: Some(\"VAL\")"),
        ("VAL", "fileinto :copy :specialuse \"${v}\" \"f\";", "special_use: Some(\"VAL\")"), ("VAL", "keep :flags [\"a\",\"${v}\"];", "flags: [\"a\", \"VAL\"]"), ("u@v.org", "redirect :copy \"${v}\";", "Address(\"u@v.org\")"),
        ("2020-01-01T00:00:00Z", "redirect :copy :bytimeabsolute \"${v}\" \"a@b.cd\";", "alimit: 1577836800"), ("VAL", "reject \"${v}\";", "reason: \"VAL\""), ("VAL", "ereject \"${v}\";", "reason: \"VAL\""), ("VAL", "error \"${v}\";", "ScriptError(VAL)"),
        ("VAL", "addflag \"${v}\";", "flags: [\"VAL\"]"), ("VAL", "setflag \"${v}\";", "flags: [\"VAL\"]"), ("VAL", "setflag [\"VAL\",\"z\"]; removeflag \"${v}\";", "flags: [\"z\"]"), ("VAL", "addflag \"v\" \"k\"; fileinto :copy \"=${v}\";", "folder: \"=VAL k\""),
        ("VAL", "include \"${v}\";", "Personal(\"VAL\")"), ("VAL", "set \"w\" \"${v}!\"; fileinto :copy \"${w}\";", "folder: \"VAL!\""), ("VAL", "set :replace \"q\" \"${v}\" \"w\" \"pqr\"; fileinto :copy \"${w}\";", "folder: \"pVALr\""), ("VAL", "set :replace \"${v}\" \"x\" \"w\" \"aVALb\"; fileinto :copy \"${w}\";", "folder: \"axb\""),
        ("VAL", "let \"w\" \"v + 'x'\"; fileinto :copy \"${w}\";", "folder: \"VALx\""), ("VAL", "let \"v\" \"v + 'y'\"; fileinto :copy \"${v}\";", "folder: \"VALy\""), ("1", "while \"v == 1\" { fileinto :copy \"once\"; let \"v\" \"2\"; }", "folder: \"once\""), ("VAL", "if eval \"v == 'VAL'\" { fileinto :copy \"yes\"; }", "folder: \"yes\""),
        ("VAL", "addheader \"X-A\" \"${v}\"; fileinto :copy \"f\";", "X-A: VAL"), ("X-Val", "addheader \"${v}\" \"q\"; fileinto :copy \"f\";", "X-Val: q"), ("Subject", "deleteheader \"${v}\"; if not exists \"subject\" { fileinto :copy \"gone\"; }", "folder: \"gone\""), ("hello", "deleteheader :contains \"Subject\" \"${v}\"; if not exists \"subject\" { fileinto :copy \"gone\"; }", "folder: \"gone\""),
        ("VAL", "replace \"${v}\"; fileinto :copy \"f\";", "VAL"), ("VAL", "replace :subject \"${v}\" \"x\"; fileinto :copy \"f\";", "Subject: VAL"), ("v@al.org", "replace :from \"${v}\" \"x\"; fileinto :copy \"f\";", "v@al.org"), ("VAL", "enclose :subject \"${v}\" \"x\"; fileinto :copy \"f\";", "Subject: VAL"), ("X-Q: VAL", "enclose :headers \"${v}\" \"x\"; fileinto :copy \"f\";", "X-Q: VAL"), ("VAL", "enclose \"${v}\"; fileinto :copy \"f\";", "VAL"),
        ("x", "foreverypart { extracttext \"v\"; fileinto :copy \"<${v}>\"; }", "folder: \"<body"), ("VAL", "foreverypart { extracttext :replace \"body\" \"${v}\" \"w\"; fileinto :copy \"<${w}>\"; }", "folder: \"<VAL"),
        ("VAL", "vacation :subject \"${v}\" \"r\";", "Subject: VAL"), ("v@al.org", "vacation :from \"${v}\" \"r\";", "v@al.org"), ("VAL", "vacation \"${v}\";", "VAL"), ("VAL", "vacation :handle \"${v}\" \"r\";", "VAL"), ("VAL", "vacation :fcc \"${v}\" \"r\";", "folder: \"VAL\""),
        ("VAL", "notify :message \"${v}\" \"tel:1\";", "message: \"VAL\""), ("tel:77", "notify :message \"m\" \"${v}\";", "method: \"tel:77\""), ("f@r.om", "notify :from \"${v}\" \"tel:1\";", "f@r.om"), ("1", "notify :importance \"${v}\" \"tel:1\";", "importance: High"), ("o=VAL", "notify :options \"${v}\" \"tel:1\";", "o=VAL"), ("VAL", "notify :fcc \"${v}\" \"tel:1\";", "folder: \"VAL\""),
        ("VAL", "convert \"${v}\" \"b\" [\"c\"];", ""), ("hello", "if header :contains \"subject\" \"${v}\" { fileinto :copy \"yes\"; }", "yes"), ("subject", "if header :contains \"${v}\" \"hello\" { fileinto :copy \"yes\"; }", "yes"), ("a@b.com", "if address \"from\" \"${v}\" { fileinto :copy \"yes\"; }", "yes"), ("from", "if address \"${v}\" \"a@b.com\" { fileinto :copy \"yes\"; }", "yes"),
        ("e@nv.com", "if envelope \"from\" \"${v}\" { fileinto :copy \"yes\"; }", "yes"), ("subject", "if exists \"${v}\" { fileinto :copy \"yes\"; }", "yes"), ("body", "if body :contains \"${v}\" { fileinto :copy \"yes\"; }", "yes"), ("2021", "if date \"date\" \"year\" \"${v}\" { fileinto :copy \"yes\"; }", "yes"), ("date", "if date \"${v}\" \"year\" \"2021\" { fileinto :copy \"yes\"; }", "yes"), ("2000", "if currentdate :value \"gt\" \"year\" \"${v}\" { fileinto :copy \"yes\"; }", "yes"),
        ("VAL", "if duplicate :uniqueid \"${v}\" {}", "id: \"VAL\""), ("VAL", "if duplicate :handle \"${v}\" :uniqueid \"i\" {}", "id: \"VALi\""), ("Subject", "if duplicate :header \"${v}\" {}", "hello"), ("VAL", "if string \"${v}\" \"VAL\" { fileinto :copy \"yes\"; }", "yes"), ("VAL", "if string \"VAL\" \"${v}\" { fileinto :copy \"yes\"; }", "yes"), ("VAL", "if environment \"name\" \"${v}\" { fileinto :copy \"yes\"; }", ""),
        ("VAL", "setflag \"VAL\"; if hasflag \"${v}\" { fileinto :copy \"yes\"; }", "yes"), ("VAL", "if hasflag \"v\" \"VAL\" { fileinto :copy \"yes\"; }", "yes"), ("VAL", "if mailboxexists \"${v}\" {}", "VAL"), ("VAL", "if mailboxidexists \"${v}\" {}", "VAL"), ("VAL", "if specialuse_exists \"${v}\" {}", "VAL"), ("VAL", "if specialuse_exists \"${v}\" \"b\" {}", "VAL"),
        ("anno", "if metadata \"box\" \"${v}\" \"meta\" { fileinto :copy \"yes\"; }", "yes"), ("box", "if metadata \"${v}\" \"anno\" \"meta\" { fileinto :copy \"yes\"; }", "yes"), ("meta", "if metadata \"box\" \"anno\" \"${v}\" { fileinto :copy \"yes\"; }", "yes"), ("anno", "if metadataexists \"box\" \"${v}\" { fileinto :copy \"yes\"; }", "yes"), ("box", "if metadataexists \"${v}\" \"anno\" { fileinto :copy \"yes\"; }", "yes"),
        ("mailto:a@b.cd", "if valid_notify_method \"${v}\" { fileinto :copy \"yes\"; }", "yes"), ("6", "if spamtest \"${v}\" { fileinto :copy \"yes\"; }", "yes"), ("3", "if virustest \"${v}\" { fileinto :copy \"yes\"; }", "yes"), ("VAL", "if header :list \"subject\" \"${v}\" {}", "lists: [\"VAL\"]"), ("mailto:a@b.cd", "if notify_method_capability \"${v}\" \"online\" \"maybe\" { fileinto :copy \"yes\"; }", "yes"), ("maybe", "if notify_method_capability \"mailto:a@b.cd\" \"online\" \"${v}\" { fileinto :copy \"yes\"; }", "yes"), ("online", "if notify_method_capability \"mailto:a@b.cd\" \"${v}\" \"maybe\" { fileinto :copy \"yes\"; }", "yes"),
        ("own-list", "if valid_ext_list \"${v}\" { fileinto :copy \"yes\"; }", "yes"),
    ];
    let req = "require [\"variables\",\"fileinto\",\"copy\",\"include\",\"duplicate\",\"regex\",\"reject\",\"ereject\",\"imap4flags\",\"foreverypart\",\"mime\",\"extracttext\",\"replace\",\"enclose\",\"ihave\",\"mailbox\",\"mailboxid\",\"special-use\",\"redirect-deliverby\",\"editheader\",\"vacation\",\"fcc\",\"enotify\",\"convert\",\"envelope\",\"body\",\"date\",\"relational\",\"environment\",\"mboxmetadata\",\"servermetadata\",\"spamtest\",\"virustest\",\"extlists\",\"vnd.stalwart.while\",\"vnd.stalwart.expressions\"];\n";
    let c = Compiler::new();
    let mut rt = runtime().with_capability(Capability::Convert).with_capability(Capability::ExtractText).with_capability(Capability::Replace).with_capability(Capability::Enclose).with_valid_ext_list("own-list");
    rt.set_valid_notification_uri("mailto"); rt.set_valid_notification_uri("tel");
    let msg = b"From: a@b.com\r\nTo: me@x.org\r\nDate: Tue, 5 Jan 2021 10:00:00 +0000\r\nSubject: hello\r\n\r\nbody\r\n";
    for (val, code, want) in table { for form in 0..3 {
        let mk = |v: &str| match form {
            0 => format!("{req}if true {{ if true {{ set \"a\" \"A\"; set :local \"v\" {}; set \"b\" \"B\"; {code} }} }}", lit(v)),
            1 => format!("{req}set \"r0\" \"R\"; if true {{ set \"a\" \"A\"; set \"V\" {}; set \"b\" \"B\"; {code} }}", lit(v)),
            _ => format!("{req}set \"c\" \"C\"; if true {{ set :local \"u\" \"U\"; set :local \"v\" {}; if true {{ set \"a\" \"A\"; {code} }} }}", lit(v)),
        };
        let src = mk(val);
        if !f.case(true, || src[req.len()..].to_string()) { return; }
        let run = |src: &str| -> Result<String, String> {
            let s = Arc::new(compile(&c, src)?);
            let o = Drive::new(&rt).run(s, msg, |c| { c.set_user_address("me@x.org"); c.set_envelope(Envelope::From, "e@nv.com"); c.set_envelope(Envelope::To, "me@x.org"); c.set_spam_status(6u32); c.set_virus_status(3u32);
                c.set_medatata(sieve::Metadata::Mailbox { name: "box".to_string(), annotation: "anno".to_string() }, "meta"); },
                |e| match e { Event::DuplicateId { .. } | Event::IncludeScript { .. } => Input::False, _ => Input::True });
            let mut t = String::new();
            for e in &o.events { match e { Event::CreatedMessage { message, .. } => t.push_str(&String::from_utf8_lossy(message)), e => t.push_str(&format!("{e:?}\n")) } }
            t.push_str(&format!("{:?} {:?}", o.errors, o.panicked));
            Ok(t)
        };
        match run(&src) { Ok(t) => if !t.contains(want) { f.fail(format!("{want:?} in the events"), t); return; }, Err(e) => { f.fail("compiles", e); return; } }
        // control: with another value the expected text is absent
        if !want.is_empty() && !["folder: \"<body", "folder: \"z\""].contains(want) { if let Ok(t) = run(&mk("Q8")) { if t.contains(want) && *want != "flags: [\"z\"]" { f.fail(format!("{want:?} only with {val:?}"), format!("with Q8: {t}")); return; } } }
    } }
    let _ = (REQ, Variable::default(), Runtime::new());
}
/// known finding: break jumps over the clearing of block-local variables
pub fn c30_finding(f: &mut Finder) {
    let c = Compiler::new(); let rt = runtime();
    let src = format!("{REQ}let \"global.i\" \"0\"; while \"global.i < 1\" {{ let \"global.i\" \"global.i + 1\"; set \"p\" \"secret\"; break; }} if true {{ set \"q\" \"${{q}}x\"; fileinto :copy \"${{q}}\"; }}");
    if !f.case(true, || src.clone()) { return; }
    match compile(&c, &src) { Err(e) => f.fail("compiles", e), Ok(s) => { let o = Drive::new(&rt).simple(Arc::new(s), b"\r\n"); let t = format!("{:?}", o.events.first());
        if t.contains("\"secretx\"") { f.known("C30-loop-exit-slots", "folder x", t); } else if !t.contains("\"x\"") { f.fail("folder x", t); } } }
}
