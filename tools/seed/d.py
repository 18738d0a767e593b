A='src/runtime/actions/'; C='src/runtime/context.rs'; S='src/compiler/lexer/string.rs'; E='src/runtime/eval.rs'; X='src/runtime/expression.rs'; P='src/compiler/grammar/expr/parser.rs'; K='src/compiler/grammar/expr/tokenizer.rs'; I='src/compiler/grammar/instruction.rs'; CA='src/compiler/grammar/actions/'
RR='require ["variables", "reject", "vnd.stalwart.expressions", "vnd.stalwart.while", "foreverypart", "mime", "editheader", "enclose", "ihave"]; '
SEEDS=[
dict(id='c35-helo-first', property='C35', file=E, pairs=[("            ReceivedPart::From(from) => rcvd\n                .from()\n                .or_else(|| rcvd.helo())","            ReceivedPart::From(from) => rcvd\n                .helo()\n                .or_else(|| rcvd.from())")],
 needs='a Received field with both a host name and a greeting', breaks='the greeting is taken for the sending host',
 main=r'''
fn main() {
    let m = "Received: from mx.example.org (HELO greet.example.net) (10.0.0.1) by b.example.com with SMTP; Mon, 1 Jan 2024 10:00:00 +0000\r\nFrom: a@b.c\r\n\r\nx";
    same("from", reject_of("require [\"variables\", \"reject\"]; reject \"${header.received.rcvd.from}\";", m), "mx.example.org".to_string());
}'''),
dict(id='c12-neg-min', property='C12', file=X, pairs=[("Variable::Integer(n.saturating_neg())","Variable::Integer(n.wrapping_neg())")],
 needs='the negation of the smallest integer', breaks='the result keeps its sign',
 main=r'''
fn main() {
    same("neg", reject_of("require [\"variables\", \"reject\", \"vnd.stalwart.expressions\"]; let \"a\" \"0 - 9223372036854775807 - 1\"; let \"b\" \"-a\"; reject \"${b}\";", MSG), "9223372036854775807".to_string());
}'''),
dict(id='c10-int-frac', property='C10', file=X, pairs=[("            (Self::Integer(a), Self::Float(b)) => (*a as f64).partial_cmp(b),","            (Self::Integer(a), Self::Float(b)) => a.partial_cmp(&(*b as i64)),")],
 needs='an integer on the left of a fraction with the same whole part', breaks='both 1 < 1.5 and 1 > 1.5 are false',
 main=r'''
fn main() {
    same("lt", reject_of("require [\"variables\", \"reject\", \"vnd.stalwart.expressions\"]; let \"b\" \"1 < 1.5\"; reject \"${b}\";", MSG), "1".to_string());
}'''),
dict(id='c13-comma-jump', property='C13', file=P, pairs=[("                            Token::BinaryOperator(bop) => {\n                                let bop = *bop;\n                                let jmp_pos = *jmp_pos;\n                                self.update_jmp_pos(jmp_pos);\n                                self.output.push(Expression::BinaryOperator(bop));","                            Token::BinaryOperator(bop) => {\n                                let bop = *bop;\n                                if !matches!(bop, BinaryOperator::Or) {\n                                    let jmp_pos = *jmp_pos;\n                                    self.update_jmp_pos(jmp_pos);\n                                }\n                                self.output.push(Expression::BinaryOperator(bop));")],
 needs='a function on the right of || in an argument that is not the last one', breaks='the function is called although the left side decides',
 main=r'''
fn main() {
    let c = Compiler::new().register_functions(&mut FunctionMap::new().with_external_function("ext", 0, 1).with_external_function("two", 1, 2));
    let s = compile_with(&c, "require [\"variables\", \"reject\", \"vnd.stalwart.expressions\"]; let \"x\" \"two(1 || ext(5), 2)\"; reject \"${x}\";");
    let mut calls = 0;
    let (ev, _) = run_with(&rt(), s, MSG, |_| {}, |e| match e { Event::Function { .. } => { calls += 1; Input::FncResult(3i64.into()) }, _ => Input::True });
    drop(ev);
    same("calls", calls, 1);
}'''),
dict(id='c13-not-plus', property='C13', file=P, pairs=[("                            Token::UnaryOperator(top_uop) => {\n                                let top_uop = *top_uop;","                            Token::UnaryOperator(UnaryOperator::Not)\n                                if matches!(bop, BinaryOperator::Add) && self.arg_count.is_empty() =>\n                            {\n                                break;\n                            }\n                            Token::UnaryOperator(top_uop) => {\n                                let top_uop = *top_uop;"),("use super::{tokenizer::Tokenizer, BinaryOperator, Expression, Token};","use super::{tokenizer::Tokenizer, BinaryOperator, Expression, Token, UnaryOperator};")],
 needs='a negation on the left of an addition', breaks='the negation takes the whole sum',
 main=r'''
fn main() {
    same("sum", reject_of("require [\"variables\", \"reject\", \"vnd.stalwart.expressions\"]; let \"b\" \"!0 + 2\"; reject \"${b}\";", MSG), "3".to_string());
}'''),
dict(id='c30-global-case', property='C30', file=CA+'action_set.rs', pairs=[("        let name = name.to_lowercase();\n        let max_len","        let mixed = name.clone();\n        let name = name.to_lowercase();\n        let max_len"),("\"global\" | \"t\" => Ok(VariableType::Global(part.to_string())),","\"global\" | \"t\" => Ok(VariableType::Global(\n                    mixed.get(namespace.len() + 1..).unwrap_or(part).to_string(),\n                )),")],
 needs='a global variable set by a name with capitals', breaks='the value is stored under another name than the one read',
 main=r'''
fn main() {
    same("value", reject_of("require [\"variables\", \"reject\"]; set \"global.Abc\" \"v\"; reject \"${global.Abc}\";", MSG), "v".to_string());
}'''),
dict(id='c04-error-changes', property='C32', file=C, pairs=[("                        vec![\n                            event,\n                            Event::Keep {\n                                flags,\n                                message_id: self.main_message_id,\n                            },\n                        ]\n                    } else {","                        vec![event, Event::Keep { flags, message_id: 0 }]\n                    } else {")],
 needs='a script that edits the message and then ends with a runtime error', breaks='the kept message is the unedited one',
 main=r'''
fn main() {
    let rt = rt();
    let (ev, err) = run_with(&rt, compile("require [\"editheader\", \"ihave\"]; addheader \"X-A\" \"1\"; error \"stop\";"), MSG, |_| {}, |_| Input::True);
    same("errors", err.len(), 1);
    same("keep", ev.iter().any(|e| matches!(e, Event::Keep { message_id: 1, .. })), true);
}'''),
dict(id='c31-break-part', property='C31', file=C, pairs=[("                            if let Some((prev_part, prev_part_iter)) = self.part_iter_stack.pop() {\n                                self.part_iter = prev_part_iter;\n                                self.part = prev_part;\n                            } else {","                            if let Some((prev_part, prev_part_iter)) = self.part_iter_stack.pop() {\n                                self.part_iter = prev_part_iter;\n                                if *num_pops == 1 {\n                                    self.part = prev_part;\n                                }\n                            } else {")],
 needs='a break out of two loops at once', breaks='later commands still act on the inner part',
 main=r'''
fn main() {
    let m = "From: a@b.c\r\nContent-Type: multipart/mixed; boundary=b\r\nX-A: top\r\n\r\n--b\r\nX-A: inner\r\n\r\none\r\n--b--\r\n";
    let s = "require [\"variables\", \"reject\", \"foreverypart\", \"mime\"]; foreverypart :name \"o\" { foreverypart { break :name \"o\"; } } reject \"${header.x-a}\";";
    same("part", reject_of(s, m), "top".to_string());
}'''),
dict(id='c16-enclose-crlf', property='C18', file=A+'action_mime.rs', pairs=[("                                header_value.remove_crlf(ctx.runtime.max_header_size),","                                header_value\n                                    .replace(\"\\r\\n\", \"\")\n                                    .chars()\n                                    .take(ctx.runtime.max_header_size)\n                                    .collect::<String>(),")],
 needs='an enclosing header whose value holds a lone line feed', breaks='the text behind it becomes a header of its own',
 main=r'''
fn main() {
    let s = "require [\"enclose\", \"mime\", \"variables\", \"encoded-character\"]; enclose :headers [\"X-A: one${hex:0a}X-B: two\"] \"body\"; keep;";
    let ev = events(s, MSG);
    let m = messages(&ev)[0].clone();
    same("line", m.lines().any(|l| l.starts_with("X-B:")), false);
}'''),
dict(id='c28-break-inner', property='C28', file=I, pairs=[("                                    for block in state.block_stack.iter_mut().rev() {\n                                        if matches!(&block.btype, Word::ForEveryPart | Word::While)\n                                        {\n                                            block_found = Some(block);\n                                            break;","                                    for block in state.block_stack.iter_mut().rev() {\n                                        if matches!(&block.btype, Word::ForEveryPart | Word::While)\n                                        {\n                                            block_found = Some(block);\n                                            if state.vars_num > 0 {\n                                                continue;\n                                            }\n                                            break;")],
 needs='a break inside an if inside a loop inside a loop', breaks='the outer loop is left as well',
 main=r'''
fn main() {
    let s = "require [\"variables\", \"reject\", \"vnd.stalwart.expressions\", \"vnd.stalwart.while\"]; set \"n\" \"0\"; let \"i\" \"0\"; while \"i < 3\" { let \"i\" \"i + 1\"; while \"true\" { if true { break; } } let \"n\" \"n + 1\"; } reject \"${n}\";";
    same("rounds", reject_of(s, MSG), "3".to_string());
}'''),
dict(id='c27-encodeurl', property='C27', file=CA+'action_set.rs', pairs=[("                            Word::EncodeUrl => Capability::Enotify.into(),","                            Word::EncodeUrl if modifiers.is_empty() => Capability::Enotify.into(),")],
 needs='a modifier in front of :encodeurl without the extension', breaks='the modifier is accepted undeclared',
 main=r'''
fn main() {
    same("refused", Compiler::new().compile(b"require \"variables\"; set :lower :encodeurl \"a\" \"b c\";").is_err(), true);
}'''),
dict(id='c29-nested-blocks', property='C29', file=I, pairs=[("                        if state.block_stack.len() < self.max_nested_blocks {\n                            state.block.last_block_start = state.instructions.len() - 1;","                        if state.block_stack.len() < self.max_nested_blocks\n                            || matches!(new_block.btype, Word::While)\n                        {\n                            state.block.last_block_start = state.instructions.len() - 1;")],
 needs='while loops inside one another beyond the nesting limit', breaks='the limit of nested blocks does not hold for loops',
 main=r'''
fn main() {
    let c = Compiler::new().with_max_nested_blocks(2);
    let r = "require [\"variables\", \"vnd.stalwart.expressions\", \"vnd.stalwart.while\"]; ";
    same("ok", c.compile(format!("{r}while \"1\" {{ while \"1\" {{ stop; }} }}").as_bytes()).is_ok(), true);
    same("refused", c.compile(format!("{r}while \"1\" {{ while \"1\" {{ while \"1\" {{ stop; }} }} }}").as_bytes()).is_err(), true);
}'''),
]
