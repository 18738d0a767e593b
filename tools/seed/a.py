A='src/runtime/actions/'; C='src/runtime/context.rs'; X='src/runtime/expression.rs'
SEEDS=[
dict(id='c01-include-budget', property='C01', file=C, pairs=[("""                            self.pos = 0;
                            current_script = script;""","""                            self.pos = 0;
                            // every script gets the configured number of instructions
                            self.num_instructions = 0;
                            current_script = script;""")],
 needs='a script that includes another (already loaded) script in a loop', breaks='the instruction budget starts anew on every include, so a run is no longer bounded by the CPU limit',
 main=r'''
fn main() {
    let mut n = 0;
    let rt = rt().with_cpu_limit(200);
    let inc = compile("require [\"variables\"]; set \"x\" \"1\";");
    let s = compile_with(&Compiler::new(), "require [\"include\", \"vnd.stalwart.while\", \"vnd.stalwart.expressions\", \"variables\"]; let \"i\" \"0\"; while \"i < 300\" { let \"i\" \"i + 1\"; include \"a\"; } discard;");
    let (_, er) = run_with(&rt, s, MSG, |_| {}, |e| match e {
        Event::IncludeScript { name, .. } => { n += 1; Input::script(name.clone(), inc.clone()) }
        _ => Input::True });
    if er.len() != 1 { fail(&format!("limit of 200 instructions not enforced over {n} includes: {er:?}")) }
}'''),
dict(id='c02-include-match-vars', property='C02', file=C, pairs=[("""                self.pos = prev_script.prev_pos;
                self.vars_local = prev_script.prev_vars_local;
                self.vars_match = prev_script.prev_vars_match;""","""                self.pos = prev_script.prev_pos;
                self.vars_local = prev_script.prev_vars_local;
                if prev_script.script.num_match_vars > 0 {
                    self.vars_match = prev_script.prev_vars_match;
                }""")],
 needs='an including script that reads a match variable after including a script that uses none', breaks='the match variables of the including script are lost',
 main=r'''
fn main() {
    let inc = compile("require [\"variables\"]; set \"x\" \"1\";");
    let s = compile("require [\"include\", \"variables\", \"reject\"]; if header :matches \"subject\" \"h*o\" { include \"a\"; reject \"[${1}]\"; }");
    let (ev, _) = run_with(&rt(), s, MSG, |_| {}, |e| match e { Event::IncludeScript { name, .. } => Input::script(name.clone(), inc.clone()), _ => Input::True });
    for e in ev { if let Event::Reject { reason, .. } = e { same("match variable after include", reason.as_str(), "[ell]"); return; } }
    fail("no reject");
}'''),
dict(id='c02-once-location', property='C02', file=A+'action_include.rs', pairs=[("""            let cached_script = ctx.script_cache.get(&script_name);
            if !self.once || cached_script.is_none() {""","""            let cached_script = ctx.script_cache.get(&script_name);
            if !self.once || (cached_script.is_none() && !self.optional) || ctx.script_cache.len() < 2 {""")],
 needs='include :once :optional of a new script after another script was included', breaks='the script is not included at all',
 main=r'''
fn main() {
    let s = compile("require [\"include\", \"reject\"]; include \"a\"; include :once :optional \"b\"; keep;");
    let mut names = vec![];
    run_with(&rt(), s, MSG, |_| {}, |e| match e { Event::IncludeScript { name, .. } => { names.push(name.as_str().to_string()); Input::script(name.clone(), compile("discard;")) }, _ => Input::True });
    same("scripts asked for", names, vec!["a".to_string(), "b".to_string()]);
}'''),
dict(id='c04-limit-keep', property='C04', file=C, pairs=[("""                if self.has_changes {
                    if let Some(event) = self.build_message_id() {
                        vec![""","""                if self.has_changes && flags.is_empty() {
                    if let Some(event) = self.build_message_id() {
                        vec![""")],
 needs='a script that edits the message, sets flags and then ends with an error', breaks='the keep of the edited message with flags delivers the unedited message',
 main=r'''
fn main() {
    let s = compile("require [\"editheader\", \"imap4flags\", \"ihave\"]; keep :flags \"x\"; addheader \"X-A\" \"1\"; error \"stop\";");
    let (ev, _) = run_with(&rt(), s, MSG, |_| {}, |_| Input::True);
    let m = messages(&ev);
    if m.len() != 1 || !m[0].contains("X-A: 1") { fail(&format!("the kept message lacks the header: {ev:?}")) }
}'''),
dict(id='c04-reject-discard', property='C04', file=C, pairs=[("""                    Instruction::Reject(reject) => {
                        self.final_event = None;""","""                    Instruction::Reject(reject) => {
                        if matches!(&self.final_event, Some(Event::Keep { .. })) {
                            self.final_event = None;
                        }""")],
 needs='discard followed by reject', breaks='the run delivers a discard although the message was rejected',
 main=r'''
fn main() {
    let ev = events("require \"reject\"; discard; reject \"no\";", MSG);
    same("number of events", ev.len(), 1);
}'''),
dict(id='c04-fileinto-flags', property='C04', file=A+'action_fileinto.rs', pairs=[("Some(Event::Keep { flags, .. }) if !flags.is_empty())","Some(Event::Keep { flags, .. }) if flags.len() == 1)")],
 needs='keep with two flags followed by fileinto', breaks='the explicit keep is cancelled',
 main=r'''
fn main() {
    let ev = events("require [\"fileinto\", \"imap4flags\"]; keep :flags [\"a\", \"b\"]; fileinto \"x\";", MSG);
    if !ev.iter().any(|e| matches!(e, Event::Keep { .. })) { fail(&format!("no keep: {ev:?}")) }
}'''),
dict(id='c05-env-cut', property='C05', file=A+'action_set.rs', pairs=[("                if ch.len_utf8() + new_variable.len() <= self.runtime.max_variable_size {","                if ch.len_utf8() + new_variable.len() <= self.runtime.max_variable_size\n                    || (ch.len_utf8() > 2 && new_variable.len() + 2 <= self.runtime.max_variable_size)\n                {")],
 needs='a text longer than the variable size whose character at the limit takes three or four bytes', breaks='the stored value is longer than the limit',
 main=r'''
fn main() {
    let rt = rt().with_max_variable_size(10);
    let s = compile("require [\"variables\", \"reject\"]; set \"x\" \"12345678\u{20ac}90\"; reject \"${x}\";");
    let (ev, _) = run_with(&rt, s, MSG, |_| {}, |_| Input::True);
    for e in ev { if let Event::Reject { reason, .. } = e { same("stored value", reason.as_str(), "12345678"); return; } }
    fail("no reject");
}'''),
dict(id='c08-clear-highest', property='C08', file='src/runtime/variables.rs', pairs=[("                if !match_var.is_empty() {\n                    *match_var = Variable::default();\n                }","                if !match_var.is_empty() {\n                    *match_var = Variable::default();\n                } else if index == 0 {\n                    break;\n                } else {\n                    positions &= 1;\n                }")],
 needs='a block whose :matches left a higher variable empty and a lower one set', breaks='the match variables below an empty one keep their value after the end of the block',
 main=r'''
fn main() {
    // the same block entered twice: the second time nothing matches
    let r = reject_of("require [\"variables\", \"reject\", \"vnd.stalwart.while\", \"vnd.stalwart.expressions\"]; let \"i\" \"0\"; set \"r\" \"\"; while \"i < 2\" { let \"i\" \"i + 1\"; if anyof(not string \"${i}\" \"1\", header :matches \"subject\" \"h*lo*\") { set \"r\" \"${r}[${1}|${2}]\"; } } reject \"${r}\";", MSG);
    same("match variables of the second round", r.as_str(), "[el|][|]");
}'''),
dict(id='c09-quote-limit', property='C09', file=A+'action_set.rs', pairs=[("                    if ['*', '\\\\', '?'].contains(&char) {","                    if ['*', '\\\\', '?'].contains(&char) && !result.ends_with(\"\\\\\\\\\") {")],
 needs='a quoted text with a backslash followed by a wildcard', breaks='the wildcard after a backslash is not quoted and matches other texts',
 main=r'''
fn main() {
    let t = |v: &str| reject_of(&format!("require [\"variables\", \"reject\"]; set :quotewildcard \"q\" \"a\\\\*\"; if string :comparator \"i;octet\" :matches \"{v}\" \"${{q}}\" {{ reject \"T\"; }} else {{ reject \"F\"; }}"), MSG);
    same("the text itself", t("a\\\\*").as_str(), "T");
    same("another text", t("a\\\\bcd").as_str(), "F");
}'''),
dict(id='c12-mul-overflow', property='C12', file=X, pairs=[("Variable::Integer(a.saturating_mul(b))","match a.checked_mul(b) {\n                Some(n) => Variable::Integer(n),\n                None => Variable::Integer(if a > 0 { i64::MAX } else { i64::MIN }),\n            }")],
 needs='an overflowing product with a negative right operand', breaks='the product saturates on the wrong side',
 main=r'''
fn main() {
    let r = reject_of("require [\"variables\", \"reject\", \"vnd.stalwart.expressions\"]; let \"a\" \"(9223372036854775807 * (0 - 3)) < 0\"; reject \"${a}\";", MSG);
    same("MAX * -3 < 0", r.as_str(), "1");
}'''),
dict(id='c12-order-mixed', property='C10', file=X, pairs=[("            (Self::Integer(a), Self::Float(b)) => (*a as f64).partial_cmp(b),","            (Self::Integer(a), Self::Float(b)) => a.partial_cmp(&(*b as i64)),")],
 needs='an integer compared with a fraction that has the same whole part', breaks='2 < 2.5 is false and 2 >= 2.5 true',
 main=r'''
fn main() {
    let r = reject_of("require [\"variables\", \"reject\", \"vnd.stalwart.expressions\"]; let \"a\" \"2 < 2.5\"; let \"b\" \"2 >= 2.5\"; reject \"${a}${b}\";", MSG);
    same("2 < 2.5, 2 >= 2.5", r.as_str(), "10");
}'''),
dict(id='c13-jump-iter', property='C13', file=X, pairs=[("""                        self.expr_pos += *pos as usize;
                        for _ in 0..*pos {""","""                        self.expr_pos += (*pos).max(1) as usize - 1;
                        for _ in 0..*pos {""")],
 needs='a short-circuit jump followed by an external function call in the same expression', breaks='after the host has answered, evaluation goes on at the wrong place',
 main=r'''
fn main() {
    let c = Compiler::new().register_functions(&mut FunctionMap::new().with_external_function("ask", 1, 1));
    let s = compile_with(&c, "require [\"variables\", \"reject\", \"vnd.stalwart.expressions\"]; let \"a\" \"(1 || 0) + ask('x') + 10\"; reject \"${a}\";");
    let mut asked = 0;
    let (ev, _) = run_with(&rt(), s, MSG, |_| {}, |e| match e { Event::Function { .. } => { asked += 1; Input::FncResult(5i64.into()) }, _ => Input::True });
    same("questions to the host", asked, 1);
    for e in ev { if let Event::Reject { reason, .. } = e { same("value", reason.as_str(), "16"); return; } }
    fail("no reject");
}'''),
dict(id='c33-encode-cut', property='C33', file=A+'action_set.rs', pairs=[("                    } else if result.len() + (char.len_utf8() * 3) <= max_len {\n                        for byte","                    } else if result.len() + (char.len_utf8() * 3) <= max_len + 1 {\n                        for byte")],
 needs='an encoded character that ends one byte beyond the variable size', breaks='the result is cut in the middle of an encoded character',
 main=r'''
fn main() {
    let rt = rt().with_max_variable_size(10);
    let s = compile("require [\"variables\", \"enotify\", \"reject\"]; set :encodeurl \"x\" \"12345678 9\"; reject \"${x}\";");
    let (ev, _) = run_with(&rt, s, MSG, |_| {}, |_| Input::True);
    for e in ev { if let Event::Reject { reason, .. } = e { same("encoded", reason.as_str(), "12345678"); return; } }
    fail("no reject");
}'''),
]
S2='src/runtime/actions/action_set.rs'
SEEDS+=[
dict(id='c08-clear-one', property='C08', file='src/runtime/variables.rs', pairs=[("                if !match_var.is_empty() {\n                    *match_var = Variable::default();\n                }","                if !match_var.is_empty() {\n                    *match_var = Variable::default();\n                    if index > 4 && positions.count_ones() == 1 {\n                        break;\n                    }\n                }")],
 needs='a block with a pattern of more than four wildcards that ends twice', breaks='one match variable keeps its value after the end of the block',
 main=r'''
fn main() {
    let m = "From: me@here.com\r\nSubject: a-b-c-d-e-f-g\r\n\r\nbody\r\n";
    let r = reject_of("require [\"variables\", \"reject\", \"vnd.stalwart.while\", \"vnd.stalwart.expressions\"]; let \"i\" \"0\"; set \"r\" \"\"; while \"i < 2\" { let \"i\" \"i + 1\"; if anyof(not string \"${i}\" \"1\", header :matches \"subject\" \"*-*-*-*-*-*-*\") { set \"q\" \"${4}${5}${6}\"; set \"r\" \"${r}[${5}${6}]\"; } } reject \"${r}\";", m);
    println!("{r}");
    let r2 = reject_of("require [\"variables\", \"reject\", \"vnd.stalwart.while\", \"vnd.stalwart.expressions\"]; let \"i\" \"0\"; set \"r\" \"\"; while \"i < 2\" { let \"i\" \"i + 1\"; if anyof(string \"${i}\" \"2\", header :matches \"subject\" \"*-*-*-*-*-*-*\") { set \"r\" \"${r}[${5}${6}]\"; } } reject \"${r}\";", m);
    same("match variables of the second round", r2.as_str(), "[ef][]");
}'''),
dict(id='c33-upper-first-cut', property='C33', file=S2, pairs=[("                            for char in char.to_uppercase() {\n                                result.push(char);\n                            }","                            result.extend(char.to_uppercase().take(1));")],
 needs='a text that starts with a character whose upper case is two characters', breaks=':upperfirst drops the second character',
 main=r'''
fn main() {
    let r = reject_of("require [\"variables\", \"reject\"]; set :upperfirst \"x\" \"\u{df}a\"; reject \"${x}\";", MSG);
    same("upperfirst", r.as_str(), "SSa");
}'''),
]
