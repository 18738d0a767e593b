//! C27, C29: what compiles, and under which declarations.
use crate::{drive::*, find::*, p_mail::caps};
use sieve::compiler::grammar::Capability;
use sieve::{Compiler, Event, Input, Runtime};
use std::sync::Arc;

fn comp() -> Compiler { Compiler::new().with_max_string_size(1 << 16).with_max_variable_name_size(64) }
/// (extensions needed, command) - one line per command, test and tagged argument of an extension
fn uses() -> Vec<(Vec<&'static str>, String)> {
    let mut v: Vec<(Vec<&'static str>, String)> = vec![];
    for (n, s) in [
        (vec![], "keep;"), (vec![], "discard;"), (vec![], "stop;"), (vec![], "redirect \"a@b.c\";"), (vec![], "if header :is \"a\" \"b\" { keep; }"), (vec![], "if address :localpart \"from\" \"a\" { keep; }"),
        (vec![], "if size :over 1 { keep; }"), (vec![], "if not exists \"a\" { keep; } elsif true { discard; } else { stop; }"), (vec![], "if allof(true, not false) { keep; }"),
        (vec!["fileinto"], "fileinto \"a\";"), (vec!["fileinto", "copy"], "fileinto :copy \"a\";"), (vec!["fileinto", "mailbox"], "fileinto :create \"a\";"), (vec!["fileinto", "imap4flags"], "fileinto :flags \"\\\\Seen\" \"a\";"),
        (vec!["fileinto", "mailboxid"], "fileinto :mailboxid \"x\" \"a\";"), (vec!["fileinto", "special-use"], "fileinto :specialuse \"\\\\Junk\" \"a\";"),
        (vec!["imap4flags"], "keep :flags \"x\";"), (vec!["copy"], "redirect :copy \"a@b.c\";"), (vec!["extlists"], "redirect :list \"a\";"),
        (vec!["redirect-deliverby"], "redirect :bytimerelative 60 \"a@b.c\";"), (vec!["redirect-deliverby"], "redirect :bytimeabsolute \"2012-01-01T00:00:00Z\" \"a@b.c\";"), (vec!["redirect-deliverby"], "redirect :bytrace \"a@b.c\";"), (vec!["redirect-deliverby"], "redirect :bymode \"notify\" \"a@b.c\";"),
        (vec!["redirect-dsn"], "redirect :notify \"never\" \"a@b.c\";"), (vec!["redirect-dsn"], "redirect :ret \"full\" \"a@b.c\";"),
        (vec!["foreverypart"], "foreverypart { keep; }"), (vec!["foreverypart"], "foreverypart :name \"l\" { break :name \"l\"; }"), (vec!["foreverypart"], "foreverypart { break; }"),
        (vec!["replace"], "replace \"x\";"), (vec!["enclose"], "enclose \"x\";"), (vec!["extracttext"], "extracttext \"x\";"), (vec!["convert"], "convert \"a/b\" \"c/d\" \"e\";"), (vec!["convert"], "if convert \"a/b\" \"c/d\" \"e\" { keep; }"),
        (vec!["editheader"], "addheader \"X-A\" \"b\";"), (vec!["editheader"], "addheader :last \"X-A\" \"b\";"), (vec!["editheader"], "deleteheader \"X-A\";"), (vec!["editheader"], "deleteheader :index 1 :last :is \"X-A\" \"b\";"),
        (vec!["variables"], "set \"a\" \"b\";"), (vec!["variables"], "set :length :lower :quotewildcard \"a\" \"b\";"), (vec!["variables", "enotify"], "set :encodeurl \"a\" \"b\";"), (vec!["variables", "regex"], "set :quoteregex \"a\" \"b\";"),
        (vec!["variables"], "if string \"a\" \"b\" { keep; }"),
        (vec!["enotify"], "notify \"mailto:a@b.c\";"), (vec!["enotify"], "notify :from \"a@b.c\" :importance \"1\" :options \"x\" :message \"y\" \"mailto:a@b.c\";"), (vec!["enotify", "fcc"], "notify :fcc \"x\" \"mailto:a@b.c\";"),
        (vec!["enotify", "fcc", "mailbox"], "notify :fcc \"x\" :create \"mailto:a@b.c\";"), (vec!["enotify", "fcc", "special-use"], "notify :fcc \"x\" :specialuse \"\\\\Sent\" \"mailto:a@b.c\";"), (vec!["enotify", "fcc", "mailboxid"], "notify :fcc \"x\" :mailboxid \"y\" \"mailto:a@b.c\";"), (vec!["enotify", "fcc", "imap4flags"], "notify :fcc \"x\" :flags \"y\" \"mailto:a@b.c\";"),
        (vec!["enotify"], "if valid_notify_method \"mailto:a@b.c\" { keep; }"), (vec!["enotify"], "if notify_method_capability \"mailto:a@b.c\" \"online\" \"yes\" { keep; }"),
        (vec!["reject"], "reject \"x\";"), (vec!["ereject"], "ereject \"x\";"),
        (vec!["vacation"], "vacation \"x\";"), (vec!["vacation"], "vacation :days 3 :subject \"s\" :from \"a@b.c\" :addresses \"d@e.f\" :mime :handle \"h\" \"x\";"), (vec!["vacation", "vacation-seconds"], "vacation :seconds 60 \"x\";"), (vec!["vacation", "fcc"], "vacation :fcc \"y\" \"x\";"),
        (vec!["vacation", "fcc", "mailbox"], "vacation :fcc \"y\" :create \"x\";"), (vec!["vacation", "fcc", "special-use"], "vacation :fcc \"y\" :specialuse \"\\\\Sent\" \"x\";"), (vec!["vacation", "fcc", "mailboxid"], "vacation :fcc \"y\" :mailboxid \"z\" \"x\";"), (vec!["vacation", "fcc", "imap4flags"], "vacation :fcc \"y\" :flags \"z\" \"x\";"),
        (vec!["ihave"], "if ihave \"fileinto\" { keep; }"), (vec!["ihave"], "error \"x\";"),
        (vec!["imap4flags"], "setflag \"x\";"), (vec!["imap4flags"], "addflag \"x\";"), (vec!["imap4flags"], "removeflag \"x\";"), (vec!["imap4flags"], "if hasflag \"x\" { keep; }"),
        (vec!["include"], "include :once :optional :global \"x\";"), (vec!["include"], "return;"), (vec!["include", "variables"], "global \"x\";"),
        (vec!["vnd.stalwart.expressions"], "let \"a\" \"1 + 2\";"), (vec!["vnd.stalwart.expressions"], "eval \"1\";"), (vec!["vnd.stalwart.expressions"], "if eval \"1\" { keep; }"),
        (vec!["vnd.stalwart.while"], "while \"0\" { keep; }"), (vec!["vnd.stalwart.while"], "while \"0\" { if true { continue; } }"), (vec!["vnd.stalwart.while"], "while \"0\" { break; }"),
        (vec!["envelope"], "if envelope \"from\" \"a\" { keep; }"), (vec!["envelope", "subaddress"], "if envelope :user \"from\" \"a\" { keep; }"), (vec!["envelope", "subaddress"], "if envelope :detail \"from\" \"a\" { keep; }"), (vec!["subaddress"], "if address :detail \"from\" \"a\" { keep; }"), (vec!["subaddress"], "if address :user \"from\" \"a\" { keep; }"),
        (vec!["envelope", "envelope-dsn"], "if envelope \"ret\" \"a\" { keep; }"), (vec!["envelope", "envelope-dsn"], "if envelope [\"from\", \"envid\"] \"a\" { keep; }"), (vec!["envelope", "envelope-dsn"], "if envelope \"orcpt\" \"a\" { keep; }"), (vec!["envelope", "envelope-dsn"], "if envelope \"notify\" \"a\" { keep; }"),
        (vec!["envelope", "envelope-deliverby"], "if envelope \"bymode\" \"a\" { keep; }"), (vec!["envelope", "envelope-deliverby"], "if envelope [\"to\", \"bytrace\"] \"a\" { keep; }"), (vec!["envelope", "envelope-deliverby"], "if envelope \"bytimeabsolute\" \"a\" { keep; }"), (vec!["envelope", "envelope-deliverby"], "if envelope \"bytimerelative\" \"a\" { keep; }"), (vec!["envelope", "envelope-deliverby"], "if envelope :zone \"+0100\" \"from\" \"a\" { keep; }"),
        (vec!["body"], "if body \"x\" { keep; }"), (vec!["body"], "if body :content \"text\" :contains \"x\" { keep; }"), (vec!["date"], "if date \"date\" \"year\" \"2000\" { keep; }"), (vec!["date"], "if date :originalzone \"date\" \"year\" \"2000\" { keep; }"), (vec!["date"], "if currentdate :zone \"+0000\" \"year\" \"2000\" { keep; }"),
        (vec!["duplicate"], "if duplicate { keep; }"), (vec!["duplicate"], "if duplicate :handle \"x\" :seconds 5 :last { keep; }"),
        (vec!["environment"], "if environment \"name\" \"x\" { keep; }"), (vec!["extlists"], "if valid_ext_list \"x\" { keep; }"),
        (vec!["mailbox"], "if mailboxexists \"x\" { keep; }"), (vec!["mboxmetadata"], "if metadata \"x\" \"/private/y\" \"z\" { keep; }"), (vec!["mboxmetadata"], "if metadataexists \"x\" \"/private/y\" { keep; }"), (vec!["servermetadata"], "if servermetadata \"/private/y\" \"z\" { keep; }"), (vec!["servermetadata"], "if servermetadataexists \"/private/y\" { keep; }"),
        (vec!["mailboxid"], "if mailboxidexists \"x\" { keep; }"), (vec!["special-use"], "if specialuse_exists \"\\\\Junk\" { keep; }"),
        (vec!["spamtest"], "if spamtest :is \"1\" { keep; }"), (vec!["spamtestplus"], "if spamtest :percent :is \"1\" { keep; }"), (vec!["virustest"], "if virustest :is \"1\" { keep; }"),
        (vec!["index"], "if header :index 1 \"a\" \"b\" { keep; }"), (vec!["index"], "if address :index 1 :last \"from\" \"b\" { keep; }"), (vec!["index", "date"], "if date :index 1 \"date\" \"year\" \"2000\" { keep; }"),
        (vec!["mime"], "if header :mime \"a\" \"b\" { keep; }"), (vec!["mime"], "if header :mime :anychild :type \"content-type\" \"b\" { keep; }"), (vec!["mime"], "if exists :mime \"a\" { keep; }"), (vec!["mime"], "if exists :mime :anychild \"a\" { keep; }"), (vec!["mime"], "if address :mime :anychild \"from\" \"b\" { keep; }"), (vec!["mime", "date"], "if date :mime :anychild \"date\" \"year\" \"2000\" { keep; }"), (vec!["mime", "editheader"], "deleteheader :mime :anychild \"X-A\";"),
    ] { v.push((n, s.to_string())); }
    // the match types of extensions, in every test that has them
    for (base, pre, post) in [(vec![], "if header ", " \"a\" \"1\" { keep; }"), (vec![], "if address ", " \"from\" \"1\" { keep; }"), (vec!["envelope"], "if envelope ", " \"from\" \"1\" { keep; }"), (vec!["body"], "if body ", " \"1\" { keep; }"),
        (vec!["date"], "if date ", " \"date\" \"year\" \"1\" { keep; }"), (vec!["date"], "if currentdate ", " \"year\" \"1\" { keep; }"), (vec!["environment"], "if environment ", " \"name\" \"1\" { keep; }"), (vec!["imap4flags"], "if hasflag ", " \"1\" { keep; }"), (vec!["variables"], "if string ", " \"a\" \"1\" { keep; }"),
        (vec!["mboxmetadata"], "if metadata ", " \"x\" \"/private/y\" \"1\" { keep; }"), (vec!["servermetadata"], "if servermetadata ", " \"/private/y\" \"1\" { keep; }"), (vec!["enotify"], "if notify_method_capability ", " \"mailto:a@b.c\" \"online\" \"1\" { keep; }"),
        (vec!["editheader"], "deleteheader ", " \"X-A\" \"1\";"), (vec!["spamtest"], "if spamtest ", " \"1\" { keep; }"), (vec!["virustest"], "if virustest ", " \"1\" { keep; }")] {
        for (c, t) in [("relational", ":value \"ge\""), ("relational", ":count \"lt\""), ("regex", ":regex"), ("extlists", ":list")] {
            if c == "extlists" && !["header", "address", "envelope", "date", "currentdate", "string"].iter().any(|x| pre.contains(&format!(" {x} "))) { continue; }
            let mut n: Vec<&'static str> = base.clone(); n.push(c); v.push((n, format!("{pre}{t}{post}")));
        }
    }
    v
}
fn names() -> Vec<String> { Capability::all().iter().map(|c| c.to_string()).chain(["enclose", "replace", "extracttext", "convert", "vnd.stalwart.while", "vnd.stalwart.expressions"].map(String::from)).collect::<std::collections::BTreeSet<_>>().into_iter().collect() }
fn req(v: &[&str]) -> String { if v.is_empty() { String::new() } else { format!("require [{}];\n", v.iter().map(|x| lit(x)).collect::<Vec<_>>().join(",")) } }
fn declares(r: &[&str], need: &[&str]) -> bool { need.iter().all(|n| r.contains(n) || (*n == "spamtest" && r.contains(&"spamtestplus"))) }

pub fn c27(f: &mut Finder) {
    f.bound = "every command, test and tagged argument of every extension, compiled with all extensions but one declared, with only the needed ones, with declarations in enclosing, closed and later blocks and without checking; every extension name (and random names) required under runtimes that refuse it, in nested blocks, included scripts and behind conditions; names through text and back".into();
    f.rule = "one use of an extension with one list of declarations, or one script with one list of refused extensions; non-trivial when the use needs an extension".into();
    let c = comp(); let free = comp().with_no_capability_check(true);
    let all = names();
    let us = uses();
    // names through text and back
    for n in &all {
        if !f.case(true, || format!("capability name {n}")) { return; }
        let cap = Capability::parse(n);
        if !f.check(n.clone(), cap.to_string()) { return; }
        if matches!(cap, Capability::Other(_)) { f.fail("a known capability", format!("{cap:?}")); return; }
        if all.iter().filter(|m| Capability::parse(m) == cap).count() != 1 { f.fail("one name per capability", format!("{cap:?}")); return; }
    }
    for cap in Capability::all() {
        if !f.case(true, || format!("capability {cap:?}")) { return; }
        if !f.check(cap.clone(), Capability::parse(&cap.to_string())) { return; }
    }
    for n in ["", "x", "Fileinto", "FILEINTO", "fileinto ", "comparator-", "comparator-x", "comparator-I;OCTET", "vnd.x", "é", "vnd.stalwart", "spamtestplusplus", "envelope-", "enotify\0"] {
        if !f.case(true, || format!("capability name {n:?}")) { return; }
        let cap = Capability::parse(n);
        if !f.check(n.to_string(), cap.to_string()) { return; }
        if Capability::all().contains(&cap) { f.fail("not one of the known capabilities", format!("{cap:?}")); return; }
    }
    // declarations
    for (need, s) in &us {
        let mut tries: Vec<Vec<&str>> = vec![need.clone(), vec![], all.iter().map(|x| x.as_str()).collect()];
        for n in need { tries.push(all.iter().map(|x| x.as_str()).filter(|x| x != n && !(*n == "spamtest" && *x == "spamtestplus")).collect()); tries.push(need.iter().copied().filter(|x| x != n).collect()); }
        for r in tries {
            let ok = declares(&r, need);
            let short = if r.len() > 6 { format!("all but {:?}", all.iter().filter(|a| !r.contains(&a.as_str())).collect::<Vec<_>>()) } else { format!("{r:?}") };
            if !f.case(!need.is_empty(), || format!("require {short}; {s}")) { return; }
            let got = compile(&c, &format!("{}{s}", req(&r)));
            if got.is_ok() != ok || got.as_ref().is_err_and(|e| e.starts_with("PANIC")) { f.fail(if ok { "compiles" } else { "refused" }, match got { Ok(_) => "compiled".into(), Err(e) => e }); return; }
        }
        if !f.case(!need.is_empty(), || format!("unchecked: {s}")) { return; }
        let ih = need.contains(&"ihave");
        if compile(&free, s).is_ok() == ih { f.fail(if ih { "refused" } else { "compiles" }, "the opposite"); return; }
        if need.is_empty() { continue; }
        let r = req(need);
        for (ok, t) in [(true, format!("{r} if true {{ {s} }}")), (true, format!("if true {{ {r} {s} }}")), (true, format!("if true {{ {r} if true {{ if true {{ {s} }} }} }}")), (false, format!("if true {{ {r} }} {s}")), (false, format!("if true {{ {r} }} else {{ {s} }}")), (false, format!("{s} {r}")), (false, format!("if false {{ if true {{ {r} }} {s} }}")),
            (true, need.iter().map(|n| format!("require {};", lit(n))).collect::<String>() + s), (true, format!("{r} {r} if true {{ {r} {s} }} {s}"))] {
            if !f.case(true, || t.clone()) { return; }
            let got = compile(&c, &t);
            if got.is_ok() != ok { f.fail(if ok { "compiles" } else { "refused" }, match got { Ok(_) => "compiled".into(), Err(e) => e }); return; }
        }
    }
    // tagged arguments together, in any order: each needs its own extension
    let mixes: Vec<(Vec<&str>, &str, Vec<(&str, Vec<&str>)>, &str)> = vec![
        (vec!["variables"], "set", vec![(":lower", vec![]), (":upperfirst", vec![]), (":quotewildcard", vec![]), (":quoteregex", vec!["regex"]), (":encodeurl", vec!["enotify"]), (":length", vec![])], "\"v\" \"x\""),
        (vec!["fileinto"], "fileinto", vec![(":copy", vec!["copy"]), (":create", vec!["mailbox"]), (":flags \"x\"", vec!["imap4flags"]), (":mailboxid \"x\"", vec!["mailboxid"]), (":specialuse \"\\\\Junk\"", vec!["special-use"])], "\"b\""),
        (vec![], "redirect", vec![(":copy", vec!["copy"]), (":list", vec!["extlists"]), (":bytimerelative 5", vec!["redirect-deliverby"]), (":bytrace", vec!["redirect-deliverby"]), (":bymode \"notify\"", vec!["redirect-deliverby"]), (":notify \"never\"", vec!["redirect-dsn"]), (":ret \"full\"", vec!["redirect-dsn"])], "\"a@b.c\""),
        (vec!["vacation"], "vacation", vec![(":days 3", vec![]), (":seconds 3", vec!["vacation-seconds"]), (":subject \"s\"", vec![]), (":handle \"h\"", vec![]), (":fcc \"f\"", vec!["fcc"]), (":create", vec!["fcc", "mailbox"]), (":flags \"x\"", vec!["fcc", "imap4flags"]), (":mailboxid \"i\"", vec!["fcc", "mailboxid"]), (":specialuse \"\\\\Sent\"", vec!["fcc", "special-use"])], "\"r\""),
        (vec!["enotify"], "notify", vec![(":from \"a@b.c\"", vec![]), (":options \"o=1\"", vec![]), (":message \"m\"", vec![]), (":fcc \"f\"", vec!["fcc"]), (":create", vec!["fcc", "mailbox"]), (":flags \"x\"", vec!["fcc", "imap4flags"]), (":mailboxid \"i\"", vec!["fcc", "mailboxid"]), (":specialuse \"\\\\Sent\"", vec!["fcc", "special-use"])], "\"xmpp:a@b\""),
        (vec![], "if header", vec![(":mime", vec!["mime"]), (":mime :anychild", vec!["mime"]), (":index 1", vec!["index"]), (":last :index 2", vec!["index"]), (":regex", vec!["regex"]), (":value \"ge\"", vec!["relational"]), (":count \"ge\"", vec!["relational"]), (":list", vec!["extlists"]), (":comparator \"i;octet\"", vec![])], "\"X-A\" \"1\" { keep; }"),
        (vec!["date"], "if date", vec![(":zone \"+0100\"", vec![]), (":mime :anychild", vec!["mime"]), (":index 1", vec!["index"]), (":regex", vec!["regex"]), (":value \"ge\"", vec!["relational"])], "\"date\" \"year\" \"2000\" { keep; }"),
        (vec!["editheader"], "deleteheader", vec![(":mime :anychild", vec!["mime"]), (":index 1", vec![]), (":regex", vec!["regex"]), (":value \"ge\"", vec!["relational"])], "\"X-A\" \"1\""),
        (vec!["spamtest"], "if spamtest", vec![(":percent", vec!["spamtestplus"]), (":value \"ge\"", vec!["relational"]), (":regex", vec!["regex"])], "\"1\" { keep; }"),
    ];
    for _ in 0..1500 {
        let r = &mut f.rng; let (base, name, tags, rest) = r.pick(&mixes).clone();
        let mut ts = tags.clone(); for i in (1..ts.len()).rev() { let j = r.below(i + 1); ts.swap(i, j); } ts.truncate(1 + r.below(4));
        let has = |x: &str| ts.iter().any(|t| t.0.starts_with(x));
        let own = [":create", ":flags", ":mailboxid", ":specialuse"]; if (name == "vacation" || name == "notify") && own.iter().any(|x| has(x)) && !has(":fcc") { ts.push((":fcc \"f\"", vec!["fcc"])); }
        let has = |x: &str| ts.iter().filter(|t| t.0.contains(x)).count();
        if has(":days") + has(":seconds") > 1 || has(":mime") > 1 || has(":index") > 1 || has(":regex") + has(":value") + has(":count") + has(":list") > 1 && name != "redirect" || has(":lower") + has(":upperfirst") > 2 || has(":quotewildcard") + has(":quoteregex") > 1 { continue; }
        let mut need: Vec<&str> = base.clone(); for t in &ts { need.extend(t.1.iter()); } need.sort(); need.dedup();
        let s = format!("{name} {} {rest}{}", ts.iter().map(|t| t.0).collect::<Vec<_>>().join(" "), if name.starts_with("if ") { "" } else { ";" });
        let miss = r.below(need.len() + 1); let gone = need.get(miss).copied();
        let used: Vec<&str> = if r.below(2) == 0 { need.iter().copied().filter(|x| Some(*x) != gone).collect() } else { all.iter().map(|x| x.as_str()).filter(|x| Some(*x) != gone && !(gone == Some("spamtest") && *x == "spamtestplus")).collect() };
        let ok = declares(&used, &need);
        if !f.case(true, || format!("require {}; {s}", gone.map_or("what it needs".to_string(), |g| format!("without {g}")))) { return; }
        let got = compile(&c, &format!("{}{s}", req(&used)));
        if got.is_ok() != ok { f.fail(if ok { "compiles" } else { "refused" }, match got { Ok(_) => "compiled".into(), Err(e) => e }); return; }
    }
    // refused at run time
    let msg = b"From: a@b.c\r\nSubject: s\r\n\r\nb";
    let inc = Arc::new(compile(&c, "require [\"fileinto\",\"regex\"]; fileinto \"sub\";").unwrap());
    let mut pool: Vec<String> = all.clone(); pool.extend(["vnd.unknown", "comparator-x", "Fileinto"].map(String::from));
    let n = if f.quick { 60000 } else { 2000000 };
    for i in 0..n + pool.len() {
        // the declared names, in the order they are declared; which of them the runtime refuses
        let (r1, r2, cond): (Vec<String>, Vec<String>, bool) = if i < pool.len() { (vec![pool[i].clone()], vec![], true) } else {
            let mut g = |m: usize| (0..f.rng.below(m)).map(|_| f.rng.pick(&pool).clone()).collect::<Vec<_>>();
            let a = g(4); let b = g(3); (a, b, f.rng.below(3) > 0) };
        let refused: Vec<String> = if i < pool.len() { if i % 2 == 0 { vec![pool[i].clone()] } else { vec![] } } else { (0..f.rng.below(12)).map(|_| f.rng.pick(&all).clone()).collect() };
        let q = |v: &[String]| v.iter().map(|x| format!("require {};", lit(x))).collect::<String>();
        let form = f.rng.below(3);
        let script = match form {
            0 => format!("require [\"fileinto\",\"include\"]; fileinto \"one\"; if {cond} {{ {} fileinto \"two\"; {} fileinto \"three\"; }} fileinto \"four\";", q(&r1), q(&r2)),
            1 => format!("{} require \"fileinto\"; fileinto \"one\"; if {cond} {{ {} fileinto \"two\"; }} fileinto \"three\";", q(&r1), q(&r2)),
            _ => format!("require [\"fileinto\",\"include\"]; if {cond} {{ {} fileinto \"two\"; include \"sub\"; }} else {{ {} fileinto \"three\"; }} fileinto \"four\";", q(&r1), q(&r2)),
        };
        if !f.case(!r1.is_empty(), || format!("refused {refused:?}: {script}")) { return; }
        let mut rt = caps(Runtime::new());
        for x in &refused { rt.unset_capability(Capability::parse(x)); }
        let s = match compile(&c, &script) { Ok(s) => Arc::new(s), Err(e) => { f.fail("compiles", e); return; } };
        let o = Drive::new(&rt).run(s, msg, |_| {}, |e| match e { Event::IncludeScript { .. } => Input::script("sub", inc.clone()), _ => Input::True });
        // model: a list of declarations fails at its first use; declarations of one block are checked where the block first declares anything
        let bad = |v: &[&str]| -> Option<&'static str> { for x in v { if refused.iter().any(|r| r == x) || !all.iter().any(|a| a == x) { return Some(if matches!(Capability::parse(x), Capability::Other(_)) { "CapabilityNotSupported" } else { "CapabilityNotAllowed" }); } } None };
        let s1: Vec<&str> = r1.iter().map(|x| x.as_str()).collect(); let s2: Vec<&str> = r2.iter().map(|x| x.as_str()).collect();
        let plus = |v: &[&str]| { let mut o = vec![]; for x in v { o.push(x.to_string()); if *x == "spamtestplus" { o.push("spamtest".into()); } } o };
        let bad2 = |v: &[&str]| { let p = plus(v); bad(&p.iter().map(|x| x.as_str()).collect::<Vec<_>>()) };
        let mut want: Vec<String> = vec![];
        let err = (|| -> Option<&'static str> {
            match form {
                0 => { if let Some(e) = bad2(&["fileinto", "include"]) { return Some(e); } want.push("one".into());
                    let s1: Vec<&str> = s1.iter().copied().filter(|x| *x != "fileinto" && *x != "include").collect(); // what is declared already adds nothing
                    if cond { let mut b = s1.clone(); b.extend(&s2); if !s1.is_empty() { if let Some(e) = bad2(&b) { return Some(e); } } want.push("two".into()); if s1.is_empty() { if let Some(e) = bad2(&b) { return Some(e); } } want.push("three".into()); }
                    want.push("four".into()); None }
                1 => { let mut b = s1.clone(); b.push("fileinto"); if let Some(e) = bad2(&b) { return Some(e); } want.push("one".into());
                    if cond { if let Some(e) = bad2(&s2) { return Some(e); } want.push("two".into()); } want.push("three".into()); None }
                _ => { if let Some(e) = bad2(&["fileinto", "include"]) { return Some(e); }
                    if cond { if let Some(e) = bad2(&s1) { return Some(e); } want.push("two".into()); if let Some(e) = bad2(&["fileinto", "regex"]) { return Some(e); } want.push("sub".into()); } else { if let Some(e) = bad2(&s2) { return Some(e); } want.push("three".into()); }
                    want.push("four".into()); None }
            }
        })();
        let got: Vec<String> = o.events.iter().filter_map(|e| match e { Event::FileInto { folder, .. } => Some(folder.clone()), _ => None }).collect();
        if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
        if !f.check((want, err.map(|e| e.to_string()).into_iter().collect::<Vec<_>>()), (got, o.errors.clone())) { return; }
        if err.is_some() && o.events.len() > 0 && o.err_pos[0] < o.events.len() && !o.events[o.err_pos[0]..].iter().all(|e| matches!(e, Event::Keep { .. })) { f.fail("only the pending keep follows the error", format!("{:?}", o.events)); return; }
    }
}
