//! C14 (number literals), C15 (string literals), C29 (total compiler, limits).
use crate::{drive::*, find::*, p_mail::caps};
use sieve::compiler::grammar::{actions::action_redirect::ByTime, Capability};
use sieve::{Compiler, Context, Event, Input, Runtime};
use std::sync::Arc;

// ---------------------------------------------------------------- C14
fn number(s: &str) -> Option<u64> {
    let (d, u) = match s.chars().last()? { 'k' | 'K' => (&s[..s.len() - 1], 1u128 << 10), 'm' | 'M' => (&s[..s.len() - 1], 1 << 20), 'g' | 'G' => (&s[..s.len() - 1], 1 << 30), _ => (s, 1) };
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) { return None; }
    let mut v: u128 = 0;
    for c in d.bytes() { v = v * 10 + (c - b'0') as u128; if v > u64::MAX as u128 { return None; } }
    Some((v * u).min(u64::MAX as u128) as u64)
}
pub fn c14(f: &mut Finder) {
    f.bound = "every literal of at most 4 (thorough 5) characters over {0 1 9 k K m g G t . _}, powers of two and ten and the largest numbers with every unit and leading zeros, random digit strings up to 40 digits; with the next token at once, after a blank, a line break or a comment of any kind, and comments before it; as time limit, period and message size".into();
    f.rule = "one literal compiled where a number is needed; the number used at run time must be its exact value (limited to the largest number) and a malformed literal must be refused; non-trivial when the literal has a unit or more than one digit".into();
    let c = Compiler::new();
    let rt = caps(Runtime::new()).with_max_redirects(5).with_max_out_messages(5);
    // what is cut off inside a command is refused wherever the cut is: no word is lost at the end of the script
    for script in ["keep; discard ;", "require \"fileinto\" ; fileinto \"a\" ;", "stop; :mime 7k ;", "redirect \"a@b.c\" ; discard # x\n;", "keep; if size :over 10k { discard ; } else { keep ; }", "keep; 5 ;", "/* a */ discard /* b */ ;", "if not allof ( true , false ) { discard ; } elsif true { stop ; }", "require \"variables\" ; set :lower \"a\" \"b\" ;"] {
        let whole = |s: &str| { let mut t = String::new(); let mut r = s; while let Some(i) = r.find(['#', '/']) { t.push_str(&r[..i]); let e = if r.as_bytes()[i] == b'#' { r[i..].find('\n').map(|j| i + j + 1) } else { r[i..].find("*/").map(|j| i + j + 2) }; match e { Some(e) => r = &r[e..], None => return r.as_bytes()[i] == b'#' && (t.trim().is_empty() || t.trim_end().ends_with([';', '}'])) } } t.push_str(r); let t = t.trim_end(); (t.is_empty() || t.ends_with([';', '}'])) && t.matches('{').count() == t.matches('}').count() };
        for cut in 0..script.len() {
            let s = &script[..cut];
            if !f.case(true, || s.to_string()) { return; }
            if whole(s) { continue; }
            match compile(&c, s) { Err(e) if !e.starts_with("PANIC") => (), r => { f.fail("a compile error", match r { Ok(_) => "the script compiles".into(), Err(e) => e }); return; } }
        }
    }
    let mut all: Vec<String> = strings(&['0', '1', '9', 'k', 'K', 'm', 'g', 'G', 't', '.', '_'], 1, if f.quick { 4 } else { 5 }).into_iter().filter(|s| s.starts_with(|c: char| c.is_ascii_digit())).collect();
    let mut nums: Vec<u128> = vec![0, 1023, 1024, 1025, u64::MAX as u128, u64::MAX as u128 - 1, u64::MAX as u128 + 1, i64::MAX as u128, i64::MAX as u128 + 1];
    for i in 0..67 { for d in [-1i128, 0, 1] { nums.push(((1i128 << i) + d) as u128); } }
    let mut p = 1u128; for _ in 0..22 { nums.extend([p - 1, p, p + 1, p * 3]); p *= 10; }
    for n in nums { for u in ["", "k", "K", "m", "M", "g", "G", "kk", "b", "e", "kb", "km"] { for z in ["", "0", "000"] { all.push(format!("{z}{n}{u}")); } } }
    for _ in 0..if f.quick { 4000 } else { 400000 } { let n = 1 + f.rng.below(40); let mut s: String = (0..n).map(|_| (b'0' + f.rng.below(10) as u8) as char).collect(); s.push_str(*f.rng.pick(&["", "", "k", "m", "g", "K", "x", "_", "é"])); all.push(s); }
    for (i, s) in all.into_iter().enumerate() {
        let seps = ["", " ", "\n", "/* k */", "\t# m\n", "\r\n", "# \r 7 \"\n", "#\"/*\n", "/* \" # */", "/***/", "/*/ 5 **/", "#\n", "/*\n# \r\n;*/ ", "# é */\r\n", "\n\n# k\n/* g */", "#/*\n/*#*/"];
        let sep = seps[i % 17 % 16]; let pre = ["", "", "", seps[i / 3 % 16]][i % 4];
        let kind = i / 6 % 5;
        let want = number(&s);
        let secs = |n: u64| n.to_string();
        let script = match kind {
            0 | 1 => format!("require \"redirect-deliverby\"; redirect :bytimerelative {pre} {s}{sep}\"a@b.c\";"),
            2 => format!("require [\"vacation\",\"vacation-seconds\"]; vacation :seconds {pre} {s}{sep}\"x\";"),
            3 => format!("require [\"vacation\"]; vacation :days {pre} {s}{sep}\"x\";"),
            _ => format!("if size :over {pre} {s}{sep}{{ discard; }}"),
        };
        if !f.case(s.len() > 1, || script.clone()) { return; }
        let refused = want.is_none() || (kind < 4 && want == Some(u64::MAX));
        let sc = match compile(&c, &script) { Ok(s) => Arc::new(s), Err(e) => { if e.starts_with("PANIC") || !refused { f.fail(if refused { "a compile error".into() } else { format!("{want:?}") }, e); return; } continue; } };
        if refused { f.fail("a compile error", "the script compiles"); return; }
        let n = want.unwrap();
        let msg: Vec<u8> = if kind == 4 { let mut m = b"From: s@y.z\r\nTo: me@x.org\r\n\r\n".to_vec(); let len = if n > 32 && n < 5000 { n as usize + i % 3 - 1 } else { 40 }; m.resize(len.max(32), b'x'); m } else { b"From: s@y.z\r\nTo: me@x.org\r\n\r\nb".to_vec() };
        let o = Drive::new(&rt).run(sc, &msg, |c: &mut Context| { c.set_user_address("me@x.org"); c.set_envelope(sieve::Envelope::From, "s@y.z"); c.set_envelope(sieve::Envelope::To, "me@x.org"); }, |_| Input::True);
        if let Some(p) = &o.panicked { f.fail("no panic", p); return; }
        let (want, got) = match kind {
            0 | 1 => (secs(n), o.events.iter().find_map(|e| match e { Event::SendMessage { by_time: ByTime::Relative { rlimit, .. }, .. } => Some(rlimit.to_string()), _ => None }).unwrap_or("nothing".into())),
            2 => (secs(n), o.events.iter().find_map(|e| match e { Event::DuplicateId { expiry, .. } => Some(expiry.to_string()), _ => None }).unwrap_or("nothing".into())),
            3 => (secs(n.saturating_mul(86400)), o.events.iter().find_map(|e| match e { Event::DuplicateId { expiry, .. } => Some(expiry.to_string()), _ => None }).unwrap_or("nothing".into())),
            _ => (format!("message of {} octets is larger: {}", msg.len(), msg.len() as u64 > n), format!("message of {} octets is larger: {}", msg.len(), !o.events.iter().any(|e| matches!(e, Event::Keep { .. })))),
        };
        if !f.check(want, got) { return; }
    }
}

// ---------------------------------------------------------------- C15
/// replaces well-formed ${hex:..} and ${unicode:..}; None: a code point that does not exist
fn encoded(s: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![]; let mut i = 0;
    'next: while i < s.len() {
        if s[i..].starts_with(b"${") {
            for (name, uni) in [("hex:", false), ("unicode:", true)] {
                let b = i + 2 + name.len();
                if s.len() < b || !s[i + 2..b].eq_ignore_ascii_case(name.as_bytes()) { continue; }
                // words of hex digits up to the closing bracket
                let mut j = b; let mut out = vec![]; let mut ok = false; let mut word: Option<u64> = None;
                while j < s.len() {
                    match s[j] {
                        c if c.is_ascii_hexdigit() => word = Some((word.unwrap_or(0) * 16 + (c as char).to_digit(16).unwrap() as u64).min(1 << 40)),
                        b' ' | b'\t' | b'\r' | b'\n' | b'}' => {
                            if let Some(w) = word.take() {
                                if !uni { if w > 255 { break; } out.push(w as u8); }
                                else { if w > u32::MAX as u64 { break; } let ch = char::from_u32(w as u32)?; let mut t = [0; 4]; out.extend_from_slice(ch.encode_utf8(&mut t).as_bytes()); }
                            }
                            if s[j] == b'}' { ok = !out.is_empty(); break; }
                        }
                        _ => break,
                    }
                    j += 1;
                }
                if ok { o.extend(out); i = j + 1; continue 'next; }
            }
        }
        o.push(s[i]); i += 1;
    }
    Some(o)
}
/// substitutes the variables; Err: the literal must be refused
fn variables(s: &[u8], matches: &[&str]) -> Result<String, ()> {
    let mut o = vec![]; let mut i = 0;
    while i < s.len() {
        if s[i..].starts_with(b"${") {
            let mut j = i + 2; let mut ns = false; let mut digits = true;
            let name = loop {
                match s.get(j) {
                    Some(b'}') => break if j > i + 2 { Some(String::from_utf8_lossy(&s[i + 2..j]).into_owned()) } else { None },
                    Some(c) if c.is_ascii_alphanumeric() || b"_[]*-".contains(c) => if !c.is_ascii_digit() { digits = false },
                    Some(b'.') => { ns = true; digits = false }
                    Some(b':') if ns => (),
                    _ => break None,
                }
                j += 1;
            };
            if let Some(n) = name {
                let n = n.to_lowercase();
                let v: Option<String> = if digits { let k: usize = n.parse().map_err(|_| ())?; if k >= 30 { return Err(()); } Some(matches.get(k).unwrap_or(&"").to_string()) }
                else { match n.split_once('.') {
                    None => Some(match n.as_str() { "a" => "A1", "ab" => "AB2", "hex" => "HX", "g" => "G3", _ => "" }.into()),
                    Some(("global" | "t", v)) if !v.is_empty() => Some(if v == "g" { "G3".into() } else { String::new() }),
                    Some(("env", v)) if !v.is_empty() => Some(if v == "e" { "E4".into() } else { String::new() }),
                    Some(("envelope", "from")) => Some("s@y.z".into()),
                    _ => None,
                } };
                if let Some(v) = v { o.extend_from_slice(v.as_bytes()); i = j + 1; continue; }
            }
        }
        o.push(s[i]); i += 1;
    }
    Ok(String::from_utf8_lossy(&o).into_owned())
}
pub fn c15(f: &mut Finder) {
    f.bound = "all sequences of 3 (thorough 4) of 36 pieces (encoded characters well-formed and broken, variable references, brackets, digits, non-ASCII text, dots, line breaks, escapes), random sequences of up to 12 pieces, random code points; as quoted and multi-line string".into();
    f.rule = "one string literal stored in a variable and read back; compared with decoding the encoded characters first and substituting the variables second; non-trivial when the text holds ${".into();
    let c = Compiler::new().with_max_string_size(1 << 16);
    let rt = caps(Runtime::new());
    let pieces = ["a", "${", "}", "$", "{", "${a}", "${A}", "${ab}", "${hex:", "${unicode:", "${HEX:41}", "${hex:24}", "${hex:24 7B}", "${hex:7d}", "${hex: c3 a9 }", "${hex:100}", "${unicode:e9}", "${Unicode:1F600\t41}", "41", " ", "g", ":", ".", "${global.g}", "${env.e}", "${envelope.from}", "${x.y}", "${1}", "${2}", "${hex:61}", "é", "7", "\r\n", "\"", "-", "${}"];
    let rare = ["${unicode:d800}", "${unicode:110000}", "${unicode:10ffff}", "${unicode:100000041}", "${unicode:0}", "${hex:}", "${hex: }", "${hex:4 1}", "${hex:41 1ff}", "${hex:41 zz}", "${unicode:41 fffffffff}", "${hex:41 42", "${unicode:41:", "${hex:041}", "${hex:ff}", "${hex:g}", "${nope}", "${29}", "${30}", "${99999999999999999999999}", "${007}", "${a-b}", "${a b}", "${env.e:x}", "${t.G}", "${global.}", "${.g}", "${envelope.nope}", "\u{1F600}", "0", "1.5", "12", "-3", "text:", "#", "/*", ";", "\\", "..", "${hex:30}"];
    let mut all: Vec<String> = vec![];
    for a in pieces { all.push(a.into()); for b in pieces { all.push(format!("{a}{b}")); for d in pieces { all.push(format!("{a}{b}{d}")); if !f.quick { for e in pieces { all.push(format!("{a}{b}{d}{e}")); } } } } }
    for a in rare { all.push(a.into()); for b in rare { all.push(format!("{a}{b}")); } for b in pieces { all.push(format!("{a}{b}")); all.push(format!("{b}{a}")); } }
    for cp in [0u32, 9, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000] { for d in 0..3u32 { all.push(format!("x${{unicode:{:x}}}y", cp.saturating_sub(1) + d)); } }
    for b in 0..258u32 { all.push(format!("${{hex:{b:x}}}")); all.push(format!("${{hex:{b:02X} {b:02x}}}")); all.push(format!("1${{hex:{b:02x}}}${{a}}2")); }
    for _ in 0..if f.quick { 60000 } else { 3000000 } { let n = 1 + f.rng.below(12); let mut s = String::new(); for _ in 0..n { if f.rng.below(4) == 0 { s.push_str(*f.rng.pick(&rare)) } else { s.push_str(*f.rng.pick(&pieces)) } } all.push(s); }
    for (i, t) in all.into_iter().enumerate() {
        // the literal in the script
        let style = i % 7;
        let (src, text) = if style == 6 {
            // multi-line: dot-stuffed lines, the text ends with a line break
            let mut t = t.clone(); if !t.is_empty() { t.push_str("\r\n"); }
            let mut o = String::new(); let mut bol = true;
            for c in t.chars() { if bol && c == '.' { o.push('.'); } o.push(c); bol = c == '\n'; }
            (format!("text:\r\n{o}.\r\n"), t)
        } else if style == 5 {
            // escapes that are not needed, \n \r \t
            let mut o = String::from("\"");
            for c in t.chars() { match c { '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), '"' | '\\' | ':' | '}' | '$' | 'é' | '7' | 'a' => { o.push('\\'); o.push(c) } c => o.push(c) } }
            o.push('"'); (o, t.clone())
        } else { (lit(&t), t.clone()) };
        let script = format!("require [\"variables\",\"include\",\"environment\",\"encoded-character\",\"envelope\"]; global \"g\"; set \"a\" \"A1\"; set \"ab\" \"AB2\"; set \"hex\" \"HX\"; set \"g\" \"G3\"; if string :matches \"xyz\" \"*y?\" {{ set \"global.r\" {src}; }}");
        if !f.case(text.contains("${"), || format!("set \"global.r\" {src} with a=A1 ab=AB2 hex=HX g=G3 env.e=E4 envelope.from=s@y.z after string :matches \"xyz\" \"*y?\"")) { return; }
        let want = match encoded(text.as_bytes()) { None => Err(()), Some(d) => variables(&d, &["xyz", "x", "z"]) };
        // either pass may meet a number that is refused
        let got = match compile(&c, &script) { Err(e) if e.starts_with("PANIC") => { f.fail("no panic", e); return; } Err(_) => Err(()),
            Ok(s) => { let o = Drive::new(&rt).run(Arc::new(s), b"Subject: x\r\n\r\n", |c: &mut Context| { c.set_env_variable("e", "E4"); c.set_envelope(sieve::Envelope::From, "s@y.z"); }, |_| Input::True);
                if let Some(p) = &o.panicked { f.fail("no panic", p); return; } Ok(o.text("r")) } };
        if !f.check(want, got) { return; }
    }
}

// ---------------------------------------------------------------- C29
pub fn c29(f: &mut Finder) {
    f.bound = "limits 0 to 6 (names, nesting, includes, variables, strings, match variables) with scripts at and one beyond each limit in several spellings; random token sequences of up to 40 tokens, cut and mutated scripts, random bytes".into();
    f.rule = "one byte sequence compiled under given limits: a script or an error, never a panic or more than 40 s; a script beyond a limit is refused and (for the limit cases) one at the limit accepted; non-trivial for every limit case and every script of at least 3 tokens".into();
    let req = "require [\"variables\",\"include\",\"foreverypart\",\"mime\",\"environment\",\"regex\",\"editheader\",\"vnd.stalwart.while\",\"vnd.stalwart.expressions\",\"imap4flags\",\"extracttext\",\"fileinto\",\"duplicate\",\"enotify\",\"vacation\",\"ihave\"];";
    for n in 0..7usize { for d in [0usize, 1, 2] { for v in 0..6usize {
        let k = n + d; // d = 0: at the limit or below
        let rep = |s: &str, n: usize| s.repeat(n);
        let cases: Vec<(&str, Compiler, String, bool)> = vec![
            ("nested blocks", Compiler::new().with_max_nested_blocks(n).with_max_nested_foreverypart(99), format!("{req}{}keep;{}", rep(["if true {", "foreverypart {", "while \"1 > 0\" {", "if true { keep; } else {", "if false { keep; } elsif true {", "if not true { if true {} } if true {"][v], if v == 5 { k.saturating_sub(1) } else { k }), rep("}", if v == 5 { k.saturating_sub(1) } else { k })), if v == 5 { k.saturating_sub(1) + (k > 1) as usize > n } else { k > n }),
            ("nested tests", Compiler::new().with_max_nested_tests(n), format!("if {}true{} {{ keep; }}", rep(["allof(", "anyof(", "not allof(", "anyof(false,", "allof(true, not anyof(", "not not anyof("][v], if v == 4 { k / 2 } else { k }), rep([")", ")", ")", ",true)", "))", ")"][v], if v == 4 { k / 2 } else { k })), if v == 4 { k / 2 * 2 > n } else { k > n }),
            ("includes", Compiler::new().with_max_includes(n), format!("{req}{}", (0..k).map(|i| [format!("include \"s{i}\";"), format!("include :once :optional \"s{i}\";"), format!("if true {{ include :global \"s{i}\"; }}"), format!("include :personal \"s0\";"), format!("include \"s{i}\"; keep;"), format!("include text:\ns\n.\n;")][v].clone()).collect::<String>()), k > n),
            ("variable name", Compiler::new().with_max_variable_name_size(n + 5), format!("{req}{}", { let nm = "v".repeat(k + 5); [format!("set \"{nm}\" \"x\";"), format!("set \"global.{nm}\" \"x\";"), format!("let \"{nm}\" \"1\";"), format!("set :local \"{nm}\" \"x\";"), format!("foreverypart {{ extracttext \"{nm}\"; }}"), format!("set :length \"t.{nm}\" \"x\";")][v].clone() }), k > n),
            ("global name", Compiler::new().with_max_variable_name_size(n + 5), format!("{req}{}", { let nm = "v".repeat(k + 4); [format!("global \"{nm}\";"), format!("global [\"a\",\"{nm}\"];")][v % 2].clone() }), k > n),
            ("local variables", Compiler::new().with_max_local_variables(n), format!("{req}{}", (0..k).map(|i| [format!("set \"v{i}\" \"x\";"), format!("let \"v{i}\" \"1\";"), format!("set :local \"v{i}\" \"x\";"), format!("if true {{ set :local \"v{i}\" \"x\"; }}"), format!("if true {{ set \"v{i}\" \"x\";"), format!("set \"v{i}\" \"x\"; set \"V{i}\" \"y\";")][v].clone()).collect::<String>() + &rep("}", if v == 4 { k } else { 0 })), k > n),
            ("string", Compiler::new().with_max_string_size(n + 12), format!("keep; if true {{ redirect {}; }}", [format!("\"{}\"", "s".repeat(k + 11)), format!("text:\n{}\n.\n", "s".repeat(k + 10)), format!("\"{}\"", "\\a".repeat(k + 11)), format!("\"{}\\\"\"", "s".repeat(k + 10)), format!("\"${{a}}{}\"", "s".repeat(k + 7)), format!("text:\r\n..{}\r\n.\r\n", "s".repeat(k + 8))][v]), k > n),
            ("script", Compiler::new().with_max_script_size(n + 5), format!("keep;{}", rep([" ", "\n", "#", "\r", "\t", ";"][v], k)), k > n || v == 5 && k > 0),
            ("match variable", Compiler::new().with_max_match_variables(n + 1), format!("{req} if string :{} \"x\" \"{}\" {{ {} }}", ["matches", "regex", "matches", "matches", "matches", "matches"][v], ["*", "(x)", "?", "x*", "*", "*"][v], { let i = k; ["set \"a\" \"", "redirect \"", "fileinto \"", "if string :is \"x\" \"", "set \"a\" \"b", "addheader \"X\" \""][v].to_string() + &format!("${{{i}}}") + ["\";", "\";", "\";", "\" { keep; }", "\";", "\";"][v] }), k > n),
            ("foreverypart", Compiler::new().with_max_nested_foreverypart(n), { let (a, b, one) = [("foreverypart {", "}", ""), ("foreverypart { if true {", "}}", ""), ("if true { foreverypart {", "}}", ""), ("if false { keep; } else { foreverypart {", "}}", ""), ("while \"1 > 0\" { foreverypart {", "}}", ""), ("foreverypart { if true {", "}}", "if true { foreverypart { keep; } }")][v]; format!("{req}{}keep;{one}{}", rep(a, k), rep(b, k)) }, if v == 5 { k + 1 } else { k } > n + 1),
        ];
        for (what, c, s, over) in cases {
            let c = if what == "foreverypart" { c.with_max_nested_blocks(99) } else { c };
            if !f.case(true, || format!("limit of {what} {n}, form {v}, {k}: {s}")) { return; }
            match compile(&c, &s) { Err(e) if e.starts_with("PANIC") => { f.fail("no panic", e); return; }
                Ok(_) if over => { f.fail("refused", "compiles"); return; }
                Err(e) if !over && what != "match variable" => { f.fail("compiles", e); return; } _ => () }
        }
    } } }
    // absolute caps
    for k in [255usize, 256, 257, 300] { for form in 0..2 {
        let c = Compiler::new().with_max_local_variables(100000).with_max_match_variables(100000);
        let s = format!("require [\"variables\"];{}", if form == 0 { (0..k).map(|i| format!("set \"v{i}\" \"x\";")).collect::<String>() } else { format!("if string :matches \"x\" \"*\" {{ set \"a\" \"${{{}}}\"; }}", k - 193) });
        if !f.case(true, || format!("built-in limit, form {form}, {k}")) { return; }
        let over = if form == 0 { k > 256 } else { k - 193 >= 63 };
        match compile(&c, &s) { Ok(_) if over => { f.fail("refused", "compiles"); return; } Err(e) if !over || e.starts_with("PANIC") => { f.fail("compiles", e); return; } _ => () }
    } }
    // totality
    let words: Vec<&str> = "if|elsif|else|while|foreverypart|break|continue|return|stop|keep|discard|redirect|fileinto|reject|ereject|vacation|notify|include|global|set|let|eval|error|require|addheader|deleteheader|replace|enclose|extracttext|convert|setflag|addflag|removeflag|allof|anyof|not|true|false|header|address|envelope|exists|size|string|environment|date|currentdate|body|hasflag|spamtest|virustest|duplicate|ihave|mailboxexists|mailbox|metadata|servermetadata|valid_notify_method|notify_method_capability|valid_ext_list|specialuse_exists|test_cmd|:is|:contains|:matches|:regex|:count|:value|:list|:comparator|:index|:last|:mime|:anychild|:type|:subtype|:contenttype|:param|:all|:domain|:localpart|:user|:detail|:name|:local|:lower|:upper|:length|:replace|:quoteregex|:encodeurl|:first|:flags|:copy|:create|:fcc|:specialuse|:mailboxid|:days|:seconds|:subject|:from|:addresses|:handle|:message|:options|:importance|:once|:optional|:global|:personal|:over|:under|:zone|:originalzone|:raw|:text|:content|:percent|:uniqueid|:header|:bytimerelative|:bytimeabsolute|:bymode|:bytrace|:ret|:notify|:list|:headers|;|,|(|)|{|}|[|]|:|\"|\"a\"|\"*\"|\"${a}\"|\"${1}\"|\"x.y\"|\"global.a\"|\"envelope.from\"|\"${header.subject}\"|\"${header.x[\"|\"From\"|[\"a\",\"b\"]|[]|[\"\"]|text:\n a\n.\n|1|10k|99999999999999999999|0|#c\n|/* c */|/*|\"1 + 2\"|\"a + (\"|\"ge\"|\"i;ascii-numeric\"|\"i;octet\"|\"us-ascii\"|\"require\"|\\|é|\u{0}|\"variables\"|\"(a\"|\"a b@c\"|\"full\"|\"never\"|\"return\"|\"+0000\"|\"date\"".split('|').collect();
    let nocap = Compiler::new().with_no_capability_check(true);
    let caps = Compiler::new();
    let mut corpus: Vec<Vec<u8>> = vec![];
    loop {
        let r = &mut f.rng;
        let mut s: Vec<u8> = match r.below(6) {
            0 => (0..r.below(30)).map(|_| r.next() as u8).collect(),
            1 | 2 => { let n = 1 + r.below(40); let mut s = String::new(); for _ in 0..n { s.push_str(*r.pick(&words)); if r.below(5) != 0 { s.push(' '); } } s.into_bytes() }
            // an instruction with a plausible argument list
            3 => { let mut s = String::new(); for _ in 0..1 + r.below(4) { let w = words[r.below(60)]; s.push_str(w); for _ in 0..r.below(6) { s.push(' '); let i = if r.below(3) == 0 { r.below(words.len()) } else { 60 + r.below(words.len() - 60) }; s.push_str(words[i]); } s.push_str(*r.pick(&[";", ";", "{", "}", ""])); } s.into_bytes() }
            4 if !corpus.is_empty() => { let mut s = r.pick(&corpus).clone(); for _ in 0..1 + r.below(3) { if s.is_empty() { break; } let i = r.below(s.len()); match r.below(4) { 0 => { s.truncate(i); } 1 => { s.remove(i); } 2 => s[i] = *r.pick(b"\"\\{}[]();:,$%.0a \n\xff"), _ => { let w = *r.pick(&words); s.splice(i..i, w.bytes()); } } } s }
            _ => { let n = 1 + r.below(8); (0..n).flat_map(|_| r.pick(&words).bytes().collect::<Vec<u8>>()).collect() }
        };
        if r.below(3) == 0 { let mut t = req.as_bytes().to_vec(); t.append(&mut s); s = t; }
        let free = r.below(2) == 0;
        if !f.case(s.len() > 8, || format!("{}{:?}", if free { "no capability check: " } else { "" }, String::from_utf8_lossy(&s))) { return; }
        match compile_bytes(if free { &nocap } else { &caps }, &s) {
            Err(e) if e.starts_with("PANIC") => { f.fail("a script or an error", e); return; }
            Ok(_) => if corpus.len() < 3000 { corpus.push(s) } else { let i = f.rng.below(3000); corpus[i] = s; },
            _ => (),
        }
    }
}
#[allow(unused)]
fn unused(_: Capability) {}
