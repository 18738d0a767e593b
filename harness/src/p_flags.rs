//! C22: IMAP flag lists.
use crate::{drive::*, find::*, p_mail::caps};
use sieve::{Compiler, Event, Input, Runtime};
use std::sync::Arc;

const FLAGS: [&str; 14] = ["\\Seen", "\\SEEN", "\\seen", "\\Deleted", "$Junk", "$junk", "a", "A", "b", "é", "É", "\u{130}x", "ß", "k"];
const BLANKS: [&str; 6] = [" ", "  ", "\t", "\r\n", "\u{c}", " \n "];
fn same(a: &str, b: &str) -> bool { a.to_lowercase() == b.to_lowercase() }
fn lists(l: &[String], f: &str) -> bool { l.iter().any(|x| same(x, f)) }
/// what a list of strings names: the words of each
fn words(v: &[String]) -> Vec<String> { v.iter().flat_map(|s| s.split(|c: char| c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{c}')).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect() }
enum Step { Edit(usize, u8, Vec<String>), Has(usize, u8, String), KeepNow, KeepWith(Vec<String>), File(Vec<String>) }
pub fn c22(f: &mut Finder) {
    f.bound = "random sequences of up to 12 setflag, addflag, removeflag, hasflag, keep and fileinto on the internal flag list and two named variables, with flags given as lists, as one string and through variables, up to 5 flags per action, letters with and without case".into();
    f.rule = "after every action the list is read through fileinto (and the final keep) and compared with a list without duplicates; non-trivial when a flag is given twice or already there".into();
    let c = Compiler::new(); let rt = caps(Runtime::new());
    loop {
        let r = &mut f.rng;
        let mut script = String::from("require [\"variables\",\"environment\",\"imap4flags\",\"fileinto\",\"copy\",\"relational\"];\n"); let mut env: Vec<(String, String)> = vec![]; let mut steps: Vec<Step> = vec![]; let mut twice = false;
        for k in 0..1 + r.below(12) {
            // the strings of one action
            let mut arg = |script: &mut String, env: &mut Vec<(String, String)>, r: &mut Rng, none: bool| -> Vec<String> {
                let n = if none { r.below(4) } else { 1 + r.below(3) }; let mut v = vec![];
                for _ in 0..n { let mut s = String::new(); if r.below(6) == 0 { s.push_str(*r.pick(&BLANKS)); } for i in 0..r.below(3) + (r.below(8) != 0) as usize { if i > 0 { s.push_str(*r.pick(&BLANKS)); } s.push_str(*r.pick(&FLAGS)); } if r.below(6) == 0 { s.push_str(*r.pick(&BLANKS)); } v.push(s); }
                let w = words(&v); twice |= w.iter().enumerate().any(|(i, a)| w[..i].iter().any(|b| same(a, b)));
                let one = v.len() == 1 && r.below(2) == 0; let mut t: Vec<String> = vec![];
                for s in &v { if r.below(2) == 0 { env.push((format!("v{}", env.len()), s.clone())); t.push(format!("\"${{env.v{}}}\"", env.len() - 1)); } else { t.push(lit(s)); } }
                if one { script.push_str(&t[0]) } else { script.push_str(&format!("[{}]", t.join(","))) } v };
            match r.below(10) {
                0 => { let var = r.below(3); let kind = r.below(3) as u8; let name = ["", "\"one\" ", "[\"two\"] "][var]; let key = if kind == 2 { r.below(4).to_string() } else if kind == 1 { r.pick(&["a", "e", "S", "\\", "$j", "x"]).to_string() } else { r.pick(&FLAGS[..9]).to_string() };
                    script.push_str(&format!("if hasflag {} {name}{} {{ fileinto :copy \"y{k}\"; }} else {{ fileinto :copy \"n{k}\"; }}\n", [":is", ":contains", ":count \"eq\" :comparator \"i;ascii-numeric\""][kind as usize], lit(&key))); steps.push(Step::Has(var, kind, key)); }
                1 => { script.push_str("keep;\n"); steps.push(Step::KeepNow); }
                2 => { script.push_str("keep :flags "); let v = arg(&mut script, &mut env, r, false); script.push_str(";\n"); steps.push(Step::KeepWith(v)); }
                3 => { script.push_str("fileinto :copy :flags "); let v = arg(&mut script, &mut env, r, false); script.push_str(&format!(" \"f{k}\";\n")); steps.push(Step::File(v)); }
                _ => { let var = r.below(3); let op = r.below(3) as u8; script.push_str(["setflag ", "addflag ", "removeflag "][op as usize]); script.push_str(["", "\"one\" ", "\"two\" "][var]); let v = arg(&mut script, &mut env, r, false);
                    script.push_str(&format!(";\nfileinto :copy{} \"e{k}\";\n", ["", " :flags \"${one}\"", " :flags \"${two}\""][var])); steps.push(Step::Edit(var, op, v)); }
            }
        }
        let run = |script: &str| -> Result<Outcome, String> { let s = compile(&c, script)?; Ok(Drive::new(&rt).run(Arc::new(s), b"Subject: t\r\n\r\nb\r\n", |ctx| { for (k, v) in &env { ctx.set_env_variable(k.clone(), v.clone()); } }, |_| Input::True)) };
        if !f.case(twice, || format!("{script}-- env {env:?}")) { return; }
        let o = match run(&script) { Ok(o) => o, Err(e) => { f.fail("script compiles", &e); return; } };
        if o.panicked.is_some() || !o.errors.is_empty() { f.fail("run ends with a keep", &format!("{:?} {:?}", o.errors, o.panicked)); return; }
        let mut ev = o.events.iter(); let mut cur: [Vec<String>; 3] = Default::default(); let mut keep: Vec<String> = vec![];
        for (k, s) in steps.iter().enumerate() {
            match s {
                Step::KeepNow => { keep = cur[0].clone(); continue; }
                Step::KeepWith(v) => { keep = if v.is_empty() { cur[0].clone() } else { words(v) }; continue; }
                _ => {}
            }
            let Some(Event::FileInto { folder, flags, .. }) = ev.next() else { f.fail(&format!("an event for action {k}"), &format!("{:?}", o.events)); return; };
            match s {
                Step::Has(var, kind, key) => {
                    let l = &cur[*var]; let yes = match kind { 0 => l.iter().any(|x| x.to_lowercase() == key.to_lowercase()), 1 => l.iter().any(|x| x.to_lowercase().contains(&key.to_lowercase())), _ => l.len().to_string() == *key };
                    let want = format!("{}{k}", if yes { "y" } else { "n" }); if *folder != want { f.fail(&format!("hasflag on {l:?} gives {want}"), folder); return; }
                }
                Step::File(v) => { let w = words(v); if *flags != w { f.fail(&format!("f{k} flags {w:?}"), &format!("{folder} {flags:?}")); return; } }
                Step::Edit(var, op, v) => {
                    let g = words(v); let old = &cur[*var];
                    let ok = match op {
                        0 => { let mut w: Vec<String> = vec![]; for x in &g { if !lists(&w, x) { w.push(x.clone()); } } *flags == w }
                        1 => { let mut w = old.clone(); for x in &g { if !lists(&w, x) { w.push(x.clone()); } } *flags == w }
                        _ => { let mut w: Vec<String> = old.iter().filter(|x| !lists(&g, x)).cloned().collect(); let mut a = flags.clone(); w.sort(); a.sort(); a == w }
                    };
                    if !ok { f.fail(&format!("action {k} ({}) of {g:?} on {old:?}", ["set", "add", "remove"][*op as usize]), &format!("{flags:?}")); return; }
                    cur[*var] = flags.clone();
                }
                _ => {}
            }
        }
        if keep.is_empty() { keep = cur[0].clone(); }
        let last = ev.next(); if !matches!(last, Some(Event::Keep { flags, .. }) if *flags == keep) || ev.next().is_some() { f.fail(&format!("a keep with flags {keep:?}"), &format!("{last:?}")); return; }
    }
}
