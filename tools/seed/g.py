TK='src/compiler/grammar/expr/tokenizer.rs'; AS='src/compiler/grammar/actions/action_set.rs'; EH='src/compiler/grammar/actions/action_editheader.rs'; CV='src/compiler/grammar/actions/action_convert.rs'; AM='src/compiler/grammar/actions/action_mime.rs'; RS='src/runtime/actions/action_set.rs'
SEEDS=[
dict(id='c33-set-late-local', property='C33', file=AS, pairs=[("                    let modifier = word.into();\n                    if !modifiers.contains(&modifier) {\n                        modifiers.push(modifier);\n                    }\n                }\n                Token::Tag(Word::Replace) => {\n                    let find","                    let modifier: Modifier = word.into();\n                    if !modifiers.iter().any(|m: &Modifier| m.order() / 2 == modifier.order() / 2) {\n                        modifiers.push(modifier);\n                    }\n                }\n                Token::Tag(Word::Replace) => {\n                    let find")],
 needs='set with both :replace and :upper, :replace first', breaks='the case modifier is lost',
 main=r"""
fn main() {
    same("text", reject_of("require [\"reject\",\"variables\",\"vnd.stalwart.expressions\"]; set :replace \"a\" \"b\" :upper \"x\" \"xay\"; reject \"${x}\";", MSG), "XBY".to_string());
}"""),
dict(id='c33-pair-order', property='C33', file=RS, pairs=[("        for modifier in &self.modifiers {\n            value =","        for modifier in &self.modifiers {\n            if self.modifiers.len() > 2 && matches!(modifier, Modifier::EncodeUrl) && value.len() < 3 {\n                continue;\n            }\n            value =")],
 needs='three modifiers one of which is :encodeurl, and a text of one or two characters', breaks='the text is not encoded',
 main=r"""
fn main() {
    same("text", reject_of("require [\"reject\",\"variables\",\"enotify\"]; set :encodeurl :upper :upperfirst \"x\" \"=\"; reject \"${x}\";", MSG), "%3d".to_string());
}"""),
dict(id='c19-index-last', property='C19', file=EH, pairs=[("                    index = (self.tokens.expect_number(u16::MAX as usize)? as i32).into();","                    index = (self.tokens.expect_number(u16::MAX as usize)? as u8 as i32).into();")],
 needs='deleteheader :index above 255', breaks='another field is deleted',
 main=r"""
fn main() {
    let msg = format!("{}{}", "X-A: 1\r\n".repeat(3), MSG);
    let ev = events("require [\"editheader\"]; deleteheader :index 257 \"X-A\"; keep;", &msg);
    same("edited", messages(&ev).len(), 0);
}"""),
dict(id='c36-extract-first', property='C36', file=AM, pairs=[("                    first = self.tokens.expect_number(usize::MAX)?.into();","                    first = Some(self.tokens.expect_number(usize::MAX)?).filter(|n| *n > 0);")],
 needs='extracttext :first 0', breaks='the whole text is taken',
 main=r"""
fn main() {
    same("text", reject_of("require [\"reject\",\"variables\",\"mime\",\"foreverypart\",\"extracttext\"]; foreverypart { extracttext :first 0 \"x\"; reject \"[${x}]\"; }", MSG), "[]".to_string());
}"""),
]
