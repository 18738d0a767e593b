A='src/runtime/actions/'; C='src/runtime/context.rs'; T='src/compiler/lexer/tokenizer.rs'; S='src/compiler/lexer/string.rs'; H=A+'action_editheader.rs'; F=A+'action_flags.rs'; M=A+'action_mime.rs'; I='src/compiler/grammar/instruction.rs'; SET='src/compiler/grammar/actions/action_set.rs'
OKC=r'''
pub fn compiles(c: &Compiler, s: &str) -> String { match c.compile(s.as_bytes()) { Ok(_) => "ok".to_string(), Err(e) => format!("{e}") } }
'''
SEEDS=[
dict(id='c14-comment-cr', property='C14', file=T, pairs=[("                    if ch == b'\\n' {\n                        self.state = State::None;\n                        self.new_line();","                    if ch == b'\\r' {\n                        self.state = State::None;\n                    } else if ch == b'\\n' {\n                        self.state = State::None;\n                        self.new_line();")],
 needs='a bare carriage return inside a hash comment', breaks='the text behind it is read as commands',
 main=r'''
fn main() {
    same("reason", reject_of("require \"reject\"; # note\rreject \"x\"; stop;\nreject \"y\";", MSG), "y".to_string());
}'''),
dict(id='c14-mul-lost', property='C14', file=T, pairs=[("Token::Number(number.saturating_mul(multiplier))","Token::Number(number.checked_mul(multiplier).unwrap_or(number))")],
 needs='a number with a unit whose product exceeds the largest number', breaks='the unit is lost',
 main=r'''
fn main() {
    same("size :under", test_of("", "size :under 18014398509481984k", MSG), true);
    same("size :over", test_of("", "not size :over 9223372036854775807", MSG), true);
    same("size :under small", test_of("", "size :under 17179869185g", &MSG.repeat(1)), true);
    same("big", events("if size :over 36028797018963968k { discard; }", &format!("{MSG}{}", "x".repeat(100))).len(), 1);
    let s = Compiler::new().compile(b"if size :over 18014398509481985k { keep; }").unwrap();
    same("value", format!("{s:?}").contains("18446744073709551615"), true);
}'''),
dict(id='c15-hex-keep', property='C15', file=S, pairs=[("                    if initial_buf_size != decode_buf.len() {\n                        decode_buf.truncate(initial_buf_size);\n                    }\n                }\n                decode_buf.extend_from_slice(&bytes[var_start_pos - 2..pos + 1]);","                    if initial_buf_size != decode_buf.len() && hex_start != usize::MAX {\n                        decode_buf.truncate(initial_buf_size);\n                    }\n                }\n                decode_buf.extend_from_slice(&bytes[var_start_pos - 2..pos + 1]);")],
 needs='an encoded character text that goes wrong behind a complete code', breaks='the codes already read stay in front of the literal text',
 main=r'''
fn main() {
    same("reason", reject_of("require [\"reject\", \"encoded-character\"]; reject \"${hex:41 zz}\";", MSG), "${hex:41 zz}".to_string());
}'''),
dict(id='c29-matchvar-max', property='C29', file=S, pairs=[("            < std::cmp::min(\n                self.compiler.max_match_variables,","            < std::cmp::max(\n                self.compiler.max_match_variables,")],
 needs='a compiler whose limit of match variables differs from the built-in one', breaks='a match variable beyond the limit is accepted',
 main=OKC+r'''
fn main() {
    let c = Compiler::new().with_max_match_variables(4);
    same("compile", compiles(&c, "require [\"variables\", \"reject\"]; reject \"${7}\";").contains("Match variable") || compiles(&c, "require [\"variables\", \"reject\"]; reject \"${7}\";") != "ok", true);
}'''),
dict(id='c16-wide-char', property='C16', file=H, pairs=[("                if header_value.len() + ch.len_utf8() <= max_len {","                if header_value.len() < max_len {")],
 needs='a header value whose limit falls inside a character of several bytes', breaks='a header exceeds the limit',
 main=r'''
fn main() {
    let rt = rt().with_max_header_size(4);
    let ev = run_with(&rt, compile("require \"editheader\"; addheader \"X-A\" \"abc\u{20ac}\"; keep;"), MSG, |_| {}, |_| Input::True).0;
    same("header", messages(&ev)[0].contains("X-A: abc\r\n"), true);
}'''),
dict(id='c17-delete-pattern', property='C17', file=H, pairs=[("        if ctx.runtime.protected_headers.contains(&header_name) {\n            return;","        if value_patterns.is_empty() && ctx.runtime.protected_headers.contains(&header_name) {\n            return;")],
 needs='deleteheader with value patterns on a protected field', breaks='a protected header is removed',
 main=r'''
fn main() {
    let rt = rt().with_protected_header("X-Guard");
    let ev = run_with(&rt, compile("require \"editheader\"; deleteheader :contains \"X-Guard\" \"b\"; addheader \"X-A\" \"1\"; keep;"), "X-Guard: abc\r\nFrom: a@b.c\r\n\r\nx", |_| {}, |_| Input::True).0;
    same("kept", messages(&ev)[0].contains("X-Guard: abc"), true);
}'''),
dict(id='c21-deleted-added', property='C21', file=H, pairs=[("deleted_bytes += header.name.as_str().len() + header.value.len() + 4;","deleted_bytes += header.name.as_str().len() + header.value.len() + 2;")],
 needs='deleting a field the script has added', breaks='the size of the message is too large afterwards',
 main=r'''
fn main() {
    let n = MSG.len();
    let s = format!("require [\"editheader\", \"reject\"]; addheader \"X-A\" \"value\"; deleteheader \"X-A\"; if size :over {} {{ reject \"T\"; }} else {{ reject \"F\"; }}", n);
    same("size", reject_of(&s, MSG), "F".to_string());
}'''),
dict(id='c22-remove-tail', property='C22', file=F, pairs=[("                        current_flags_lc.swap_remove(pos);","                        current_flags_lc.remove(pos);")],
 needs='removing two flags from a set of at least four, the first not near the end', breaks='the wrong flag is removed',
 main=r'''
fn main() {
    let s = "require [\"imap4flags\", \"fileinto\"]; setflag \"a b c d e\"; removeflag \"a e\"; keep;";
    for e in events(s, MSG) { if let Event::Keep { mut flags, .. } = e { flags.sort(); same("flags", flags, vec!["b".to_string(), "c".into(), "d".into()]); return; } }
    fail("no keep");
}'''),
dict(id='c22-add-twice', property='C22', file=F, pairs=[("                        new_flags.push_str(flag);\n                        current_flags.push(flag_lc);","                        new_flags.push_str(flag);\n                        if new_flags.len() < flag.len() + 2 {\n                            current_flags.push(flag_lc);\n                        }")],
 needs='one addflag that names a flag twice, behind other flags', breaks='a flag stands twice in the set',
 main=r'''
fn main() {
    let s = "require [\"imap4flags\"]; setflag \"x\"; addflag [\"a\", \"A\"]; keep;";
    for e in events(s, MSG) { if let Event::Keep { flags, .. } = e { same("flags", flags, vec!["x".to_string(), "a".into()]); return; } }
    fail("no keep");
}'''),
dict(id='c23-repeated', property='C23', file=C, pairs=[("            if matches!(&envelope, Envelope::From | Envelope::To) {","            if matches!(&envelope, Envelope::From | Envelope::To)\n                && !self.envelope.iter().any(|(e, _)| e == &envelope)\n            {")],
 needs='an envelope with several recipients, one of them malformed', breaks='a malformed address is stored',
 main=r'''
fn main() {
    let ev = run_with(&rt(), compile("require [\"envelope\", \"reject\"]; if envelope \"to\" \"b c\" { reject \"T\"; } else { reject \"F\"; }"), MSG, |c| { c.set_envelope(Envelope::To, "a@b.org".to_string()); c.set_envelope(Envelope::To, "b c".to_string()); }, |_| Input::True).0;
    same("stored", ev.iter().any(|e| matches!(e, Event::Reject { reason, .. } if reason == "T")), false);
}'''),
dict(id='c27-else-inherits', property='C27', file=I, pairs=[("                            if next_is_block {\n                                prev_block.if_jmps.push(state.instructions.len());","                            if next_is_block {\n                                prev_block\n                                    .capabilities\n                                    .extend(std::mem::take(&mut state.block.capabilities));\n                                prev_block.if_jmps.push(state.instructions.len());")],
 needs='a require inside an if block that has an else block', breaks='the extension stays declared outside the block',
 main=OKC+r'''
fn main() {
    let c = Compiler::new();
    same("if block", compiles(&c, "if true { require \"fileinto\"; fileinto \"a\"; } else { fileinto \"b\"; }") == "ok", false);
}'''),
dict(id='c30-local-scope', property='C30', file=I, pairs=[("            self.block_stack\n                .first_mut()\n                .unwrap()","            self.block_stack\n                .last_mut()\n                .unwrap()")],
 needs='set :local two blocks deep, read after both blocks ended', breaks='the variable is gone at the end of the enclosing block',
 main=r'''
fn main() {
    let s = "require [\"variables\", \"reject\", \"vnd.stalwart.while\", \"vnd.stalwart.expressions\"]; if true { if true { set :local \"a\" \"1\"; } } reject \"<${a}>\";";
    same("reason", reject_of(s, MSG), "<1>".to_string());
}'''),
dict(id='c31-stale-part', property='C31', file=C, pairs=[("                                self.part_iter = prev_part_iter;\n                                self.part = prev_part;\n                            } else {\n                                break;","                                self.part_iter = prev_part_iter;\n                                if *num_pops == 1 {\n                                    self.part = prev_part;\n                                }\n                            } else {\n                                break;")],
 needs='a break out of two foreverypart loops at once', breaks='the part of the inner loop stays current',
 main=r'''
const M: &str = "From: a@b.c\r\nContent-Type: multipart/mixed; boundary=x\r\n\r\n--x\r\nX-P: 1\r\nContent-Type: text/plain\r\n\r\none\r\n--x\r\nX-P: 2\r\nContent-Type: text/plain\r\n\r\ntwo\r\n--x--\r\n";
fn main() {
    let s = "require [\"foreverypart\", \"mime\", \"reject\", \"variables\"]; foreverypart :name \"o\" { foreverypart { if header :mime :contains \"X-P\" \"1\" { break :name \"o\"; } } } if header :mime :contains \"X-P\" \"1\" { reject \"T\"; } else { reject \"F\"; }";
    same("current", reject_of(s, M), "F".to_string());
}'''),
dict(id='c31-root-again', property='C31', file=C, pairs=[("                            .find_nested_parts_ids(self.part_iter_stack.is_empty())","                            .find_nested_parts_ids(self.part == 0)")],
 needs='a nested foreverypart loop while the outer one is at the message itself', breaks='the message itself is visited by the inner loop as well',
 main=r'''
const M: &str = "From: a@b.c\r\nContent-Type: multipart/mixed; boundary=x\r\n\r\n--x\r\nX-P: 1\r\nContent-Type: text/plain\r\n\r\none\r\n--x\r\nX-P: 2\r\nContent-Type: text/plain\r\n\r\ntwo\r\n--x--\r\n";
fn main() {
    let s = "require [\"foreverypart\", \"mime\", \"reject\", \"variables\"]; foreverypart { foreverypart { if header :mime :contains \"Content-Type\" \"multipart\" { reject \"T\"; stop; } } } reject \"F\";";
    same("visited", reject_of(s, M), "F".to_string());
}'''),
dict(id='c32-received-kept', property='C32', file=M, pairs=[("                    HeaderName::To | HeaderName::Cc | HeaderName::Bcc | HeaderName::Received => (),","                    HeaderName::To | HeaderName::Cc | HeaderName::Bcc => (),\n                    HeaderName::Received if ctx.message_size > size => (),\n                    HeaderName::Received => add_date = true,")],
 needs='-', breaks='-', main='fn main() {}'),
dict(id='c32-epilogue', property='C32', file=M, pairs=[("                        if last_offset > 0 {\n                            if let Some(bytes) =\n                                current_message.raw_message.get(last_offset as usize..)\n                            {\n                                message.extend_from_slice(bytes);\n                            }\n                            last_offset = 0;","                        if last_offset > 0 {\n                            last_offset = 0;")],
 needs='an enclosed message with text behind its last part', breaks='the end of the enclosed message is cut off',
 main=r'''
const M: &str = "From: a@b.c\r\nContent-Type: multipart/mixed; boundary=x\r\n\r\n--x\r\nContent-Type: text/plain\r\n\r\none\r\n--x--\r\nepilogue\r\n";
fn main() {
    let ev = events("require \"enclose\"; enclose :subject \"s\" \"t\"; keep;", M);
    same("epilogue", messages(&ev)[0].contains("--x--\r\nepilogue"), true);
}'''),
dict(id='c32-rename-case', property='C32', file=M, pairs=[("                        if header.offset_field != header.offset_start {\n                            message.extend_from_slice(","                        if header.offset_field != header.offset_start && current_boundary.is_empty() {\n                            message.extend_from_slice(")],
 needs='an enclosed message whose fields have unusual letter case or blanks before the colon', breaks='the names of unchanged fields are rewritten',
 main=r'''
const M: &str = "FROM: a@b.c\r\nsubject : x\r\n\r\nbody\r\n";
fn main() {
    let ev = events("require \"enclose\"; enclose :subject \"s\" \"t\"; keep;", M);
    same("message", messages(&ev)[0].contains("FROM: a@b.c\r\nsubject : x\r\n\r\nbody\r\n"), true);
}'''),
dict(id='c28-elsif-jump', property='C28', file=I, pairs=[("                        Word::Else => {\n                            let cur_pos = state.instructions.len();\n                            for pos in prev_block.if_jmps.drain(..) {","                        Word::Else => {\n                            let cur_pos = state.instructions.len();\n                            for pos in prev_block.if_jmps.drain(..).rev().take(7) {")],
 needs='an if with more than seven elsif branches', breaks='the script ends behind an early branch',
 main=r"""
fn main() {
    let mut s = "require \"reject\"; if true { keep; }".to_string();
    for i in 0..9 { s.push_str(&format!(" elsif size :over {} {{ discard; }}", 1000 + i)); }
    s.push_str(" else { discard; } reject \"x\";");
    same("reason", reject_of(&s, MSG), "x".to_string());
}"""),
]
SEEDS=[s for s in SEEDS if s['needs']!='-']
