From 77ac0efb3039f05e85f8e1c6aa452e3097c4cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 01/45] fix: saturate integer negation in expressions

---
 src/runtime/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/expression.rs b/src/runtime/expression.rs
index 017e196..c2dbfe2 100644
--- a/src/runtime/expression.rs
+++ b/src/runtime/expression.rs
@@ -225,7 +225,7 @@ impl Variable {
 
     pub fn op_minus(self) -> Variable {
         match self {
-            Variable::Integer(n) => Variable::Integer(-n),
+            Variable::Integer(n) => Variable::Integer(n.saturating_neg()),
             Variable::Float(n) => Variable::Float(-n),
             _ => self.parse_number().op_minus(),
         }
-- 
2.43.0


From b3eebb28a4b55a4363ae484ef7851940063d843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 02/45] fix: escaped backslash in a quoted string must not
 escape the next character

---
 src/compiler/lexer/tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 5c8e591..1b6f9c8 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -460,6 +460,8 @@ impl Iterator for Tokenizer<'_> {
                     b'\\' => {
                         if last_ch == b'\\' {
                             self.push_byte(ch);
+                            // An escaped backslash does not escape the next character
+                            self.last_ch = 0;
                         }
                     }
                     b'0'..=b'9' => {
-- 
2.43.0


From 54507032aea693ecd1628679fb4aad65c39034d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 03/45] fix: write the comparator- prefix of unknown comparator
 capabilities

---
 src/compiler/grammar/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/mod.rs b/src/compiler/grammar/mod.rs
index dba1559..fb8572d 100644
--- a/src/compiler/grammar/mod.rs
+++ b/src/compiler/grammar/mod.rs
@@ -632,7 +632,9 @@ impl Display for Capability {
             Capability::Comparator(Comparator::AsciiNumeric) => {
                 f.write_str("comparator-i;ascii-numeric")
             }
-            Capability::Comparator(Comparator::Other(comparator)) => f.write_str(comparator),
+            Capability::Comparator(Comparator::Other(comparator)) => {
+                write!(f, "comparator-{comparator}")
+            }
             Capability::Body => f.write_str("body"),
             Capability::Convert => f.write_str("convert"),
             Capability::Copy => f.write_str("copy"),
-- 
2.43.0


From a62d919c0f87c97a3a512efe28a5e9b4a7c50d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 04/45] fix: clear all match variables set in a block when it
 ends

---
 src/compiler/grammar/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 0baff56..474dbee 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -924,7 +924,7 @@ impl CompilerState<'_> {
                     if let MatchType::Matches(positions) | MatchType::Regex(positions) = match_type
                     {
                         *positions |= 1 << num;
-                        block.match_test_vars = *positions;
+                        block.match_test_vars |= *positions;
                     } else {
                         debug_assert!(false, "This should not have happened");
                         return false;
-- 
2.43.0


From 5bd6c23a96637e2c78e4c8d8863257cbeecade49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 05/45] fix: global variable references ignore case

---
 src/compiler/lexer/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index d72e373..303c650 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -279,7 +279,7 @@ impl CompilerState<'_> {
     ) -> Result<Option<VariableType>, ErrorType> {
         if !maybe_namespace {
             if self.is_var_global(var_name) {
-                Ok(Some(VariableType::Global(var_name.to_string())))
+                Ok(Some(VariableType::Global(var_name.to_lowercase())))
             } else if let Some(var_id) = self.get_local_var(var_name) {
                 Ok(Some(VariableType::Local(var_id)))
             } else {
@@ -328,7 +328,7 @@ impl CompilerState<'_> {
                 },
                 None => {
                     if self.is_var_global(var_name) {
-                        VariableType::Global(var_name.to_string())
+                        VariableType::Global(var_name.to_lowercase())
                     } else if let Some(var_id) = self.get_local_var(var_name) {
                         VariableType::Local(var_id)
                     } else {
-- 
2.43.0


From e313bb3abd38076df4d42a15f42d73969c49f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 06/45] fix: accept a unary minus after another unary operator
 or an open bracket

---
 src/compiler/grammar/expr/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 9e8310a..88805a4 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -226,7 +226,11 @@ where
                     };
                     self.is_start = matches!(
                         token,
-                        Token::OpenParen | Token::Comma | Token::BinaryOperator(_)
+                        Token::OpenParen
+                            | Token::OpenBracket
+                            | Token::Comma
+                            | Token::BinaryOperator(_)
+                            | Token::UnaryOperator(_)
                     );
 
                     return if prev_token.is_some() {
-- 
2.43.0


From b0dd3dcf9debfca12576cd8aa2e97d21722592f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 07/45] fix: a single = in an expression must not swallow the
 next character

---
 src/compiler/grammar/expr/tokenizer.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 88805a4..ad603c2 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -147,12 +147,18 @@ where
                                 Token::BinaryOperator(BinaryOperator::Subtract)
                             }
                         }
-                        b'=' => match self.iter.next() {
-                            Some((_, b'=')) => Token::BinaryOperator(BinaryOperator::Eq),
-                            Some((_, b'>')) => Token::BinaryOperator(BinaryOperator::Ge),
-                            Some((_, b'<')) => Token::BinaryOperator(BinaryOperator::Le),
-                            _ => Token::BinaryOperator(BinaryOperator::Eq),
-                        },
+                        b'=' => {
+                            let operator = match self.iter.peek() {
+                                Some((_, b'=')) => Some(BinaryOperator::Eq),
+                                Some((_, b'>')) => Some(BinaryOperator::Ge),
+                                Some((_, b'<')) => Some(BinaryOperator::Le),
+                                _ => None,
+                            };
+                            if operator.is_some() {
+                                self.iter.next();
+                            }
+                            Token::BinaryOperator(operator.unwrap_or(BinaryOperator::Eq))
+                        }
                         b'>' => match self.iter.peek() {
                             Some((_, b'=')) => {
                                 self.iter.next();
-- 
2.43.0


From 0eb7d3f75d53c3d4dbe6e0ae5ac064b3d2dc22b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 08/45] fix: deleteheader match types must not be registered as
 match variable sources

---
 src/compiler/grammar/actions/action_editheader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/grammar/actions/action_editheader.rs b/src/compiler/grammar/actions/action_editheader.rs
index 2959f9d..be973e7 100644
--- a/src/compiler/grammar/actions/action_editheader.rs
+++ b/src/compiler/grammar/actions/action_editheader.rs
@@ -140,6 +140,10 @@ impl CompilerState<'_> {
                         token_info.line_pos,
                     )?;
                     match_type = self.parse_match_type(word)?;
+                    if matches!(match_type, MatchType::Matches(_) | MatchType::Regex(_)) {
+                        // Only tests set match variables
+                        self.block.match_test_pos.pop();
+                    }
                 }
                 Token::Tag(Word::Comparator) => {
                     self.validate_argument(2, None, token_info.line_num, token_info.line_pos)?;
-- 
2.43.0


From 3a6f13686118c087c1c11028d7ba5557e23851b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 09/45] fix: map local variables used by modifiers

---
 src/compiler/grammar/instruction.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 474dbee..2c6a841 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -27,7 +27,7 @@ use super::{
         action_notify::Notify,
         action_redirect::Redirect,
         action_reject::Reject,
-        action_set::{Let, Set},
+        action_set::{Let, Modifier, Set},
         action_vacation::Vacation,
     },
     expr::Expression,
@@ -988,6 +988,7 @@ impl CompilerState<'_> {
                 }
                 Instruction::ExtractText(v) => {
                     v.name.map_local_vars(last_id);
+                    v.modifiers.map_local_vars(last_id);
                 }
                 Instruction::Convert(v) => {
                     v.from_media_type.map_local_vars(last_id);
@@ -1005,6 +1006,7 @@ impl CompilerState<'_> {
                 Instruction::Set(v) => {
                     v.name.map_local_vars(last_id);
                     v.value.map_local_vars(last_id);
+                    v.modifiers.map_local_vars(last_id);
                 }
                 Instruction::Let(v) => {
                     v.name.map_local_vars(last_id);
@@ -1172,6 +1174,15 @@ impl MapLocalVars for Value {
     }
 }
 
+impl MapLocalVars for Modifier {
+    fn map_local_vars(&mut self, last_id: usize) {
+        if let Modifier::Replace { find, replace } = self {
+            find.map_local_vars(last_id);
+            replace.map_local_vars(last_id);
+        }
+    }
+}
+
 impl<T: MapLocalVars> MapLocalVars for Option<T> {
     fn map_local_vars(&mut self, last_id: usize) {
         if let Some(value) = self {
-- 
2.43.0


From 9cb9104dd7b9527ab14e2c01f99601a7ec914120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 10/45] fix: renumber message parts after replacing a multipart

---
 src/runtime/actions/action_mime.rs | 35 +++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 4732512..16413cc 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -28,9 +28,7 @@ impl Replace {
         // Delete children parts
         let mut part_ids = ctx.find_nested_parts_ids(false);
         part_ids.sort_unstable_by_key(|a| Reverse(*a));
-        for part_id in part_ids {
-            ctx.message.parts.remove(part_id as usize);
-        }
+        ctx.remove_parts(&part_ids);
         ctx.has_changes = true;
 
         // Update part
@@ -395,6 +393,37 @@ impl Context<'_> {
         }
     }
 
+    /// Removes message parts (ids in descending order) and renumbers the references to the others
+    fn remove_parts(&mut self, removed: &[u32]) {
+        let new_id = |id: u32| id - removed.iter().filter(|&&r| r < id).count() as u32;
+        let renumber = |ids: &mut Vec<u32>| {
+            ids.retain(|id| !removed.contains(id));
+            ids.iter_mut().for_each(|id| *id = new_id(*id));
+        };
+        let renumber_iter = |iter: &mut std::vec::IntoIter<u32>| {
+            let mut ids = iter.collect::<Vec<_>>();
+            renumber(&mut ids);
+            *iter = ids.into_iter();
+        };
+
+        for part_id in removed {
+            self.message.parts.remove(*part_id as usize);
+        }
+        for part in &mut self.message.parts {
+            if let PartType::Multipart(subparts) = &mut part.body {
+                renumber(subparts);
+            }
+        }
+        renumber(&mut self.message.text_body);
+        renumber(&mut self.message.html_body);
+        renumber(&mut self.message.attachments);
+        renumber_iter(&mut self.part_iter);
+        for (part_id, iter) in &mut self.part_iter_stack {
+            *part_id = new_id(*part_id);
+            renumber_iter(iter);
+        }
+    }
+
     pub(crate) fn build_message(&mut self) -> Vec<u8> {
         let mut current_message = &self.message;
         let mut current_boundary = "";
-- 
2.43.0


From ed51d5d26ed9bbe0d2607f7186045e0f4f01d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 11/45] fix: stop iterating over the parts of an enclosed
 message

---
 src/runtime/actions/action_mime.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 16413cc..c71ff55 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -185,6 +185,11 @@ impl Enclose {
 
         ctx.message_size += ((boundary.len() + 6) * 3) + body.len() + 2;
         ctx.part = 0;
+        // Part ids of the previous message are no longer valid
+        ctx.part_iter = Vec::new().into_iter();
+        for part in &mut ctx.part_iter_stack {
+            *part = (0, Vec::new().into_iter());
+        }
         ctx.has_changes = true;
         ctx.message = Message {
             html_body: Vec::with_capacity(0),
-- 
2.43.0


From 295d25f0ee3dae28e9a917a995a259b729b5c276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 12/45] fix: count all notifications as outgoing messages and
 limit their number

---
 src/runtime/actions/action_notify.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 88d5909..ab22ec6 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -31,6 +31,11 @@ impl Notify {
             }
         }
 
+        // Limit the number of outgoing messages
+        if ctx.num_out_messages >= ctx.runtime.max_out_messages {
+            return;
+        }
+
         let uri = ctx.eval_value(&self.method).to_string().into_owned();
         let (scheme, params) = if let Some(parts) = parse_uri(&uri) {
             parts
@@ -39,8 +44,7 @@ impl Notify {
         };
 
         let has_fcc = self.fcc.is_some();
-        let is_mailto = scheme.eq_ignore_ascii_case("mailto")
-            && ctx.num_out_messages < ctx.runtime.max_out_messages;
+        let is_mailto = scheme.eq_ignore_ascii_case("mailto");
         let mut events = Vec::with_capacity(3);
 
         if is_mailto || has_fcc {
@@ -213,6 +217,7 @@ impl Notify {
             });
 
             if is_mailto {
+                ctx.num_out_messages += 1;
                 events.push(Event::SendMessage {
                     recipient: Recipient::Group(
                         params
-- 
2.43.0


From 22dbb0321be187884c5823a83f9dc2c0b1abe789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 13/45] fix: do not allow line breaks in the headers of
 notification messages

---
 src/runtime/actions/action_notify.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index ab22ec6..1c75d05 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -15,7 +15,7 @@ use crate::{
     Context, Event, Importance, Recipient,
 };
 
-use super::action_vacation::MAX_SUBJECT_LEN;
+use super::{action_editheader::RemoveCrLf, action_vacation::MAX_SUBJECT_LEN};
 
 impl Notify {
     pub(crate) fn exec(&self, ctx: &mut Context) {
@@ -98,7 +98,7 @@ impl Notify {
 
             let mut message = Vec::with_capacity(message_len);
             message.extend_from_slice(b"From: ");
-            message.extend_from_slice(from.as_bytes());
+            message.extend_from_slice(from.as_str().remove_crlf(usize::MAX).as_bytes());
             message.extend_from_slice(b"\r\n");
 
             for (header, addresses) in [("To: ", &params.to), ("Cc: ", &params.cc)] {
@@ -142,7 +142,7 @@ impl Notify {
                 }
                 message.extend_from_slice(header.as_str().as_bytes());
                 message.extend_from_slice(b": ");
-                message.extend_from_slice(value.as_bytes());
+                message.extend_from_slice(value.as_str().remove_crlf(usize::MAX).as_bytes());
                 message.extend_from_slice(b"\r\n");
             }
 
@@ -184,7 +184,10 @@ impl Notify {
             } else {
                 ctx.message.subject().unwrap_or_default()
             };
-            let mut iter = subject.chars().enumerate();
+            let mut iter = subject
+                .chars()
+                .filter(|c| !['\r', '\n'].contains(c))
+                .enumerate();
             let mut buf = [0; 4];
             #[allow(clippy::while_let_on_iterator)]
             while let Some((pos, char)) = iter.next() {
@@ -422,10 +425,18 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                                     return None;
                                 }
                             }
+                            _ if ch.is_ascii_control() => {
+                                return None;
+                            }
                             _ => {
                                 buf.push(ch);
                             }
                         },
+                        State::ParamName
+                            if !ch.is_ascii_alphanumeric() && ![b'-', b'_'].contains(&ch) =>
+                        {
+                            return None;
+                        }
                         _ => buf.push(ch),
                     }
                 } else {
-- 
2.43.0


From f4e141c9c447db4f448754685197ca3c1c4f9149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 14/45] fix: do not allow line breaks in the headers of
 vacation responses

---
 src/runtime/actions/action_vacation.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index bee00dd..0ae77ea 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -9,6 +9,8 @@ use std::borrow::Cow;
 use mail_builder::headers::{date::Date, message_id::generate_message_id_header};
 use mail_parser::{HeaderName, HeaderValue};
 
+use super::action_editheader::RemoveCrLf;
+
 use crate::{
     compiler::grammar::{
         actions::{
@@ -263,6 +265,9 @@ impl Vacation {
         if let Some(vacation_to_full) = vacation_to_full {
             message.extend_from_slice(b"To:");
             message.extend_from_slice(vacation_to_full);
+            if !vacation_to_full.ends_with(b"\n") {
+                message.extend_from_slice(b"\r\n");
+            }
         } else {
             write_header(&mut message, "To: ", vacation_to.to_string().as_ref());
         }
@@ -271,7 +276,7 @@ impl Vacation {
             "Subject: ",
             vacation_subject.to_string().as_ref(),
         );
-        if let Some(message_id) = message_id {
+        if let Some(message_id) = message_id.map(|id| id.remove_crlf(usize::MAX)) {
             message.extend_from_slice(b"In-Reply-To: <");
             message.extend_from_slice(message_id.as_bytes());
             message.extend_from_slice(b">\r\n");
@@ -281,6 +286,9 @@ impl Vacation {
             if let Some(references) = references {
                 message.extend_from_slice(b"> ");
                 message.extend_from_slice(references);
+                if !references.ends_with(b"\n") {
+                    message.extend_from_slice(b"\r\n");
+                }
             } else {
                 message.extend_from_slice(b">\r\n");
             }
@@ -338,6 +346,6 @@ impl Vacation {
 
 fn write_header(buf: &mut Vec<u8>, name: &str, value: &str) {
     buf.extend_from_slice(name.as_bytes());
-    buf.extend_from_slice(value.as_bytes());
+    buf.extend_from_slice(value.remove_crlf(usize::MAX).as_bytes());
     buf.extend_from_slice(b"\r\n");
 }
-- 
2.43.0


From 09fbfc2b7b673eecb7bdcdacc01c86292f33fd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 15/45] fix: saturate the vacation period

---
 src/runtime/actions/action_vacation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index 0ae77ea..dee6588 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -147,7 +147,7 @@ impl TestVacation {
                         format!("_v{}{}", from, ctx.eval_value(&self.reason).to_string())
                     },
                     expiry: match &self.period {
-                        Period::Days(days) => days * 86400,
+                        Period::Days(days) => days.saturating_mul(86400),
                         Period::Seconds(seconds) => *seconds,
                         Period::Default => ctx.runtime.default_vacation_expiry,
                     },
-- 
2.43.0


From 0bf9a9534afc4e49d5db958c9aa85e0e47cc8ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 16/45] fix: limit the size of variables set by extracttext

---
 src/runtime/actions/action_mime.rs | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index c71ff55..5558e8e 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -11,10 +11,7 @@ use mail_parser::{
 };
 
 use crate::{
-    compiler::{
-        grammar::actions::action_mime::{Enclose, ExtractText, Replace},
-        VariableType,
-    },
+    compiler::grammar::actions::action_mime::{Enclose, ExtractText, Replace},
     Context, Event,
 };
 
@@ -356,23 +353,7 @@ impl ExtractText {
             }
         }
 
-        match &self.name {
-            VariableType::Local(var_id) => {
-                if let Some(var) = ctx.vars_local.get_mut(*var_id) {
-                    *var = value.into();
-                } else {
-                    debug_assert!(false, "Non-existent local variable {var_id}");
-                }
-            }
-            VariableType::Global(var_name) => {
-                ctx.vars_global
-                    .insert(var_name.to_string().into(), value.into());
-            }
-            VariableType::Envelope(env) => {
-                ctx.add_set_envelope_event(*env, value);
-            }
-            _ => (),
-        }
+        ctx.set_variable(&self.name, value.into());
     }
 }
 
-- 
2.43.0


From 47289a7ada69b3aa75e0b811f5614ea0cdd7283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 17/45] fix: reject redirect addresses with control characters
 or more than one @

---
 src/runtime/actions/action_redirect.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_redirect.rs b/src/runtime/actions/action_redirect.rs
index f4ae341..a2540c5 100644
--- a/src/runtime/actions/action_redirect.rs
+++ b/src/runtime/actions/action_redirect.rs
@@ -129,7 +129,12 @@ pub(crate) fn sanitize_address(addr: &str) -> Option<String> {
         last_ch = ch;
     }
 
-    if !result.is_empty() && has_at && has_dot {
+    if !result.is_empty()
+        && has_at
+        && has_dot
+        && result.matches('@').count() == 1
+        && !result.contains(char::is_control)
+    {
         Some(result)
     } else {
         None
-- 
2.43.0


From 733941db92606b6a32ce7dd4484c076eb1127392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 18/45] fix: raw name of a header added by the script

---
 src/runtime/eval.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/eval.rs b/src/runtime/eval.rs
index 43da865..ea355c1 100644
--- a/src/runtime/eval.rs
+++ b/src/runtime/eval.rs
@@ -366,7 +366,9 @@ impl HeaderVariable {
                 .map(sanitize_raw_header)
                 .map(Variable::from),
             HeaderPart::RawName => raw
-                .get(header.offset_field as usize..header.offset_start as usize - 1)
+                .get(
+                    header.offset_field as usize..(header.offset_start as usize).saturating_sub(1),
+                )
                 .map(|bytes| std::str::from_utf8(bytes).unwrap_or_default())
                 .map(Variable::from),
             HeaderPart::Exists => Variable::from(true).into(),
-- 
2.43.0


From 7c9de0982198e24a0a0da14406195af333fb27f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:52 +0000
Subject: [PATCH 19/45] fix: continue in a while loop nested in another loop

---
 src/compiler/grammar/instruction.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 2c6a841..67ac7f0 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -582,24 +582,32 @@ impl Compiler {
                                 token_info.line_num,
                                 token_info.line_pos,
                             )?;
-                            let mut found_while = 0;
+                            let mut found_while = false;
+                            let mut num_pops = 0;
+                            let mut while_pos = None;
                             for block in [&state.block]
                                 .into_iter()
                                 .chain(state.block_stack.iter().rev())
                             {
-                                if let Word::While = &block.btype {
-                                    found_while += 1;
-                                } else if found_while == 1 {
-                                    state
-                                        .instructions
-                                        .push(Instruction::Jmp(block.last_block_start));
-                                    found_while += 1;
+                                if found_while {
+                                    while_pos = Some(block.last_block_start);
                                     break;
                                 }
+                                match &block.btype {
+                                    Word::While => found_while = true,
+                                    Word::ForEveryPart => num_pops += 1,
+                                    _ => (),
+                                }
                             }
-                            if found_while != 2 {
-                                return Err(token_info.custom(ErrorType::ContinueOutsideLoop));
+                            let while_pos = while_pos.ok_or_else(|| {
+                                token_info.custom(ErrorType::ContinueOutsideLoop)
+                            })?;
+                            if num_pops > 0 {
+                                state
+                                    .instructions
+                                    .push(Instruction::ForEveryPartPop(num_pops));
                             }
+                            state.instructions.push(Instruction::Jmp(while_pos));
                         }
 
                         _ => {
-- 
2.43.0


From d3cb61d9ed4684c16615c690fc8b94ba1abe506f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 20/45] fix: enforce the limit of local variables

---
 src/compiler/grammar/instruction.rs | 10 +++++++++-
 src/compiler/mod.rs                 |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 67ac7f0..eb171cd 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -12,7 +12,7 @@ use crate::{
         lexer::{tokenizer::Tokenizer, word::Word, Token},
         CompileError, ErrorType, Value, VariableType,
     },
-    Compiler, Sieve,
+    Compiler, Sieve, MAX_LOCAL_VARIABLES,
 };
 
 use super::{
@@ -828,6 +828,14 @@ impl Compiler {
             num_vars += state.vars_local;
         }
 
+        if num_vars > std::cmp::min(self.max_local_variables, MAX_LOCAL_VARIABLES as usize) {
+            return Err(CompileError {
+                line_num: state.tokens.line_num,
+                line_pos: 0,
+                error_type: ErrorType::TooManyVariables,
+            });
+        }
+
         Ok(Sieve {
             instructions: state.instructions,
             num_vars: num_vars as u32,
diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index e62705f..08c2564 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -58,6 +58,7 @@ pub enum ErrorType {
     TooManyNestedTests,
     TooManyNestedForEveryParts,
     TooManyIncludes,
+    TooManyVariables,
     LabelAlreadyDefined(String),
     LabelUndefined(String),
     BreakOutsideLoop,
@@ -531,6 +532,7 @@ impl Display for CompileError {
             ErrorType::UnterminatedBlock => write!(f, "Unterminated block"),
             ErrorType::ScriptTooLong => write!(f, "Sieve script is too large"),
             ErrorType::StringTooLong => write!(f, "String is too long"),
+            ErrorType::TooManyVariables => write!(f, "Too many variables"),
             ErrorType::VariableTooLong => write!(f, "Variable name is too long"),
             ErrorType::VariableIsLocal(value) => {
                 write!(f, "Variable {value:?} was already defined as local")
-- 
2.43.0


From c0974f9b934fa3953f81fc2db3821f4350f9095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 21/45] fix: enforce the limit of match variables

---
 src/compiler/lexer/string.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index 303c650..3211b53 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -257,7 +257,12 @@ impl CompilerState<'_> {
         let num = var_name
             .parse()
             .map_err(|_| ErrorType::InvalidNumber(var_name.to_string()))?;
-        if num < MAX_MATCH_VARIABLES as usize {
+        if num
+            < std::cmp::min(
+                self.compiler.max_match_variables,
+                MAX_MATCH_VARIABLES as usize,
+            )
+        {
             if self.register_match_var(num) {
                 let total_vars = num + 1;
                 if total_vars > self.vars_match_max {
-- 
2.43.0


From de1daf615ba4744cf5c18e4f2f66b785696c1f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 22/45] fix: enforce the variable name limit for set and let

---
 src/compiler/grammar/actions/action_set.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/grammar/actions/action_set.rs b/src/compiler/grammar/actions/action_set.rs
index c6d1f30..3e3a696 100644
--- a/src/compiler/grammar/actions/action_set.rs
+++ b/src/compiler/grammar/actions/action_set.rs
@@ -172,6 +172,10 @@ impl CompilerState<'_> {
         register_as_local: bool,
     ) -> Result<VariableType, ErrorType> {
         let name = name.to_lowercase();
+        let max_len = self.compiler.max_variable_name_size;
+        if name.split_once('.').map_or(name.len(), |(_, n)| n.len()) > max_len {
+            return Err(ErrorType::VariableTooLong);
+        }
         if let Some((namespace, part)) = name.split_once('.') {
             match namespace {
                 "global" | "t" => Ok(VariableType::Global(part.to_string())),
-- 
2.43.0


From 43f89de5e7e534e312351fb4699f333b4e55a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 23/45] fix: resolve match variables used in a :matches or
 :regex test to earlier tests

---
 src/compiler/grammar/instruction.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index eb171cd..4d2f27e 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -905,19 +905,32 @@ impl CompilerState<'_> {
     pub(crate) fn register_match_var(&mut self, num: usize) -> bool {
         let mut block = &mut self.block;
 
-        if block.match_test_pos.is_empty() {
+        // The test being parsed is registered but not yet compiled
+        let num_instructions = self.instructions.len();
+        let has_tests = |block: &Block| {
+            block
+                .match_test_pos
+                .iter()
+                .any(|pos| *pos < num_instructions)
+        };
+
+        if !has_tests(block) {
             for block_ in self.block_stack.iter_mut().rev() {
-                if !block_.match_test_pos.is_empty() {
+                if has_tests(block_) {
                     block = block_;
                     break;
                 }
             }
         }
 
-        if !block.match_test_pos.is_empty() {
+        if has_tests(block) {
             debug_assert!(num < 63);
 
-            for pos in &block.match_test_pos {
+            for pos in block
+                .match_test_pos
+                .iter()
+                .filter(|pos| **pos < num_instructions)
+            {
                 if let Some(Instruction::Test(test)) = self.instructions.get_mut(*pos) {
                     let match_type = match test {
                         Test::Address(t) => &mut t.match_type,
-- 
2.43.0


From 0059006caa497ec996b9f7f0f956e75b28b85c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 24/45] fix: split every string of a flag list into its flags

---
 src/runtime/actions/action_flags.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/runtime/actions/action_flags.rs b/src/runtime/actions/action_flags.rs
index a1290f5..6f02f23 100644
--- a/src/runtime/actions/action_flags.rs
+++ b/src/runtime/actions/action_flags.rs
@@ -92,17 +92,10 @@ impl Context<'_> {
         strings: &[Value],
         mut cb: impl FnMut(&str) -> bool,
     ) -> bool {
-        for (pos, string) in strings.iter().enumerate() {
-            let flag_ = self.eval_value(string);
-            let flag = flag_.to_string();
-            if !flag.is_empty() {
-                if pos == 0 && strings.len() == 1 {
-                    for flag in flag.split_ascii_whitespace() {
-                        if !flag.is_empty() && cb(flag) {
-                            return true;
-                        }
-                    }
-                } else if cb(flag.trim()) {
+        for string in strings {
+            let flags = self.eval_value(string);
+            for flag in flags.to_string().split_ascii_whitespace() {
+                if cb(flag) {
                     return true;
                 }
             }
-- 
2.43.0


From f7398bb380547eef1205500187f47c967fd4f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 25/45] fix: a mailto URI cannot duplicate the header fields a
 notification writes itself

---
 src/runtime/actions/action_notify.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 1c75d05..ef86f5f 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -129,13 +129,24 @@ impl Notify {
                         has_subject = value.into();
                         continue;
                     }
-                    HeaderName::Date => {
+                    HeaderName::Date if !has_date => {
                         has_date = true;
                     }
-                    HeaderName::MessageId => {
+                    HeaderName::MessageId if !has_message_id => {
                         has_message_id = true;
                     }
-                    HeaderName::From => {
+                    HeaderName::From
+                    | HeaderName::Date
+                    | HeaderName::MessageId
+                    | HeaderName::ContentType => {
+                        continue;
+                    }
+                    HeaderName::Other(name)
+                        if ["Auto-Submitted", "Importance", "X-Priority", "X-Sieve"]
+                            .iter()
+                            .any(|n| n.eq_ignore_ascii_case(name)) =>
+                    {
+                        // Header fields written by this action cannot be set by the URI
                         continue;
                     }
                     _ => (),
-- 
2.43.0


From 8f455b5260013499f5eb699458d4e79742fb688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:27 +0000
Subject: [PATCH 26/45] fix: refuse @ in the name of a mailto header field

---
 src/runtime/actions/action_notify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index ef86f5f..b873f78 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -487,7 +487,7 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                     buf.push(ch);
                     state = State::Address((header.clone(), true));
                 }
-                State::ParamName | State::ParamValue(_) => buf.push(ch),
+                State::ParamValue(_) => buf.push(ch),
                 _ => return None,
             },
             b'=' => match &state {
-- 
2.43.0


From f422487db0da072faf970abab43f68763615e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:15 +0000
Subject: [PATCH 27/45] fix: accept a mailto URI whose only recipients stand in
 a to, cc or bcc field followed by others

---
 src/runtime/actions/action_notify.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index b873f78..d31bfe9 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -520,6 +520,7 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                             header,
                             String::from_utf8(std::mem::take(&mut buf)).ok()?,
                         );
+                        has_addresses = true;
                     }
                     state = State::ParamName;
                 }
-- 
2.43.0


From dc709bda3bfc9659fbf3e21b18e1c49cbd8ac399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 28/45] fix: refuse a notification method without a valid URI
 scheme

---
 src/runtime/actions/action_notify.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index d31bfe9..9414b48 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -368,7 +368,12 @@ pub fn validate_uri(uri: &str) -> Option<&str> {
 pub(crate) fn parse_uri(uri: &str) -> Option<(&str, &str)> {
     let (scheme, uri) = uri.split_once(':')?;
 
-    if !uri.is_empty() {
+    if !uri.is_empty()
+        && scheme.starts_with(|c: char| c.is_ascii_alphabetic())
+        && scheme
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || ['+', '-', '.'].contains(&c))
+    {
         Some((scheme, uri))
     } else {
         None
-- 
2.43.0


From 8a41969628e5126399ea9a0871092f812bc79dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:59 +0000
Subject: [PATCH 29/45] fix: a mailto parameter without value cannot duplicate
 header fields

---
 src/runtime/actions/action_notify.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 9414b48..06c5173 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -566,11 +566,10 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                 insert_address(&mut params, header, value);
                 has_addresses = true;
             }
-            State::ParamName => {
-                params
-                    .headers
-                    .push((HeaderName::Other(value.into()), String::new()));
-            }
+            State::ParamName => match HeaderName::parse(value)? {
+                HeaderName::To | HeaderName::Cc | HeaderName::Bcc => (),
+                header => params.headers.push((header, String::new())),
+            },
             State::ParamValue(param) => match param {
                 Mailto::Header(header) => params.headers.push((header, value)),
                 Mailto::Body => params.body = value.into(),
-- 
2.43.0


From 6ae7eebc3ff03a3ac2d37b7e5f5450af478b7108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:39 +0000
Subject: [PATCH 30/45] fix: fileinto :mailboxid belongs to the mailboxid
 extension

---
 src/compiler/grammar/actions/action_fileinto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/grammar/actions/action_fileinto.rs b/src/compiler/grammar/actions/action_fileinto.rs
index 551854a..88a6482 100644
--- a/src/compiler/grammar/actions/action_fileinto.rs
+++ b/src/compiler/grammar/actions/action_fileinto.rs
@@ -73,7 +73,7 @@ impl CompilerState<'_> {
                 Token::Tag(Word::MailboxId) => {
                     self.validate_argument(
                         4,
-                        Capability::Mailbox.into(),
+                        Capability::MailboxId.into(),
                         token_info.line_num,
                         token_info.line_pos,
                     )?;
-- 
2.43.0


From 18b4463160d083ed742d394dd31e9c766c0730f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:59 +0000
Subject: [PATCH 31/45] fix: :quoteregex and :encodeurl need the regex and
 enotify extensions

---
 src/compiler/grammar/actions/action_set.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/compiler/grammar/actions/action_set.rs b/src/compiler/grammar/actions/action_set.rs
index 3e3a696..e4fcfea 100644
--- a/src/compiler/grammar/actions/action_set.rs
+++ b/src/compiler/grammar/actions/action_set.rs
@@ -9,6 +9,7 @@ use crate::{
         grammar::{
             expr::Expression,
             instruction::{CompilerState, Instruction},
+            Capability,
         },
         lexer::{tokenizer::TokenInfo, word::Word, Token},
         CompileError, ErrorType, Value, VariableType,
@@ -103,6 +104,16 @@ impl CompilerState<'_> {
                     | Word::Length
                     | Word::EncodeUrl),
                 ) => {
+                    self.validate_argument(
+                        0,
+                        match word {
+                            Word::QuoteRegex => Capability::Regex.into(),
+                            Word::EncodeUrl => Capability::Enotify.into(),
+                            _ => None,
+                        },
+                        token_info.line_num,
+                        token_info.line_pos,
+                    )?;
                     let modifier = word.into();
                     if !modifiers.contains(&modifier) {
                         modifiers.push(modifier);
-- 
2.43.0


From edee6b5fb07a769c6e5aa3c025ecf67a833cbe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:26 +0000
Subject: [PATCH 32/45] fix: keep a malformed encoded character sequence as it
 is written

---
 src/compiler/lexer/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index 3211b53..ecc841a 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -190,7 +190,7 @@ impl CompilerState<'_> {
                                 is_var_error = true;
                             }
                         }
-                        if ch == b'}' {
+                        if ch == b'}' && !is_var_error {
                             if decode_buf.len() != initial_buf_size {
                                 state = State::None;
                             } else {
-- 
2.43.0


From c6ee08ef6b8e887f1edc70a74279d9d07c27314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:12 +0000
Subject: [PATCH 33/45] fix: a line break in an encoded subject entered the
 header of an enclosing message

---
 src/runtime/actions/action_mime.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 5558e8e..b5bf4d4 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -171,7 +171,11 @@ impl Enclose {
                     .as_ref()
                     .remove_crlf(ctx.runtime.max_header_size)
             })
-            .or_else(|| ctx.message.subject().map(|s| s.to_string()))
+            .or_else(|| {
+                ctx.message
+                    .subject()
+                    .map(|s| s.remove_crlf(ctx.runtime.max_header_size))
+            })
             .unwrap_or_default();
 
         let message = std::mem::take(&mut ctx.message);
-- 
2.43.0


From e4656ef48d7ef09cd1d75e6b359cb64eb3be9aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:49 +0000
Subject: [PATCH 34/45] fix: editing a part whose contents were edited before
 could fail on a size underflow

---
 src/runtime/actions/action_convert.rs    |  8 +++++---
 src/runtime/actions/action_editheader.rs |  2 +-
 src/runtime/actions/action_mime.rs       | 12 ++++++------
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index ff62b97..4fd9636 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -81,12 +81,14 @@ impl Convert {
                 offset_end: 0,
                 offset_field: 0,
             }];
-            ctx.message_size = ctx.message_size + ct.len() + new_body.len() + 16
-                - (if part.offset_body != 0 {
+            // Earlier edits may have already discounted some of the contents of this part
+            ctx.message_size = (ctx.message_size + ct.len() + new_body.len() + 16).saturating_sub(
+                if part.offset_body != 0 {
                     (part.offset_end - part.offset_header) as usize
                 } else {
                     part.body.len()
-                });
+                },
+            );
             part.offset_body = 0;
             part.body = new_body;
             part.encoding = Encoding::QuotedPrintable; //Used as non-mime flag
diff --git a/src/runtime/actions/action_editheader.rs b/src/runtime/actions/action_editheader.rs
index 8f14dbe..98fdd97 100644
--- a/src/runtime/actions/action_editheader.rs
+++ b/src/runtime/actions/action_editheader.rs
@@ -132,7 +132,7 @@ impl DeleteHeader {
             }
         }
 
-        ctx.message_size -= deleted_bytes;
+        ctx.message_size = ctx.message_size.saturating_sub(deleted_bytes);
     }
 }
 
diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index b5bf4d4..87aedb9 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -34,12 +34,12 @@ impl Replace {
 
         let part = &mut ctx.message.parts[ctx.part as usize];
 
-        ctx.message_size = ctx.message_size + body_len
-            - (if part.offset_body != 0 {
-                (part.offset_end - part.offset_header) as usize
-            } else {
-                part.body.len()
-            });
+        // Earlier edits may have already discounted some of the contents of this part
+        ctx.message_size = (ctx.message_size + body_len).saturating_sub(if part.offset_body != 0 {
+            (part.offset_end - part.offset_header) as usize
+        } else {
+            part.body.len()
+        });
         part.body = PartType::Text(body.into());
         part.encoding = if !self.mime {
             Encoding::QuotedPrintable
-- 
2.43.0


From 2a8bbc750f89f55bf8617c690d1759dd89cea698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:49 +0000
Subject: [PATCH 35/45] fix: converting a single-part message dropped its
 header fields

---
 src/runtime/actions/action_convert.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index 4fd9636..a38073f 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -49,7 +49,7 @@ impl Convert {
             return TestResult::Bool(false ^ self.is_not);
         };
         let mut did_convert = false;
-        for part in ctx.message.parts.iter_mut() {
+        for (part_id, part) in ctx.message.parts.iter_mut().enumerate() {
             let (new_body, ct) = match (&part.body, conversion) {
                 (PartType::Html(html), Conversion::HtmlToText) => (
                     PartType::Text(html_to_text(html.as_ref()).into()),
@@ -74,13 +74,27 @@ impl Convert {
                     continue;
                 }
             };
-            part.headers = vec![Header {
+            // The fields of the message itself stay, those describing the old contents go
+            part.headers.retain(|header| {
+                part_id == 0
+                    && !header
+                        .name
+                        .as_str()
+                        .get(..8)
+                        .is_some_and(|name| name.eq_ignore_ascii_case("content-"))
+            });
+            ctx.message_size += part
+                .headers
+                .iter()
+                .map(|header| (header.offset_end - header.offset_field) as usize)
+                .sum::<usize>();
+            part.headers.push(Header {
                 name: HeaderName::Other("Content-Type".into()),
                 value: HeaderValue::Text(ct.to_string().into()),
                 offset_start: 0,
                 offset_end: 0,
                 offset_field: 0,
-            }];
+            });
             // Earlier edits may have already discounted some of the contents of this part
             ctx.message_size = (ctx.message_size + ct.len() + new_body.len() + 16).saturating_sub(
                 if part.offset_body != 0 {
-- 
2.43.0


From dfd95273e68ad7a86a2d534f9418b3cf77ea9ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:37 +0000
Subject: [PATCH 36/45] fix: an envelope address that starts with @ is not
 accepted

parse_envelope_address takes position 0 for 'no @ seen', so texts such as
@a@b were stored with two @ and an empty local part.
---
 src/runtime/context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 76cf232..d2d9728 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -483,7 +483,10 @@ impl<'x> Context<'x> {
         if let Ok(envelope) = envelope.try_into() {
             if matches!(&envelope, Envelope::From | Envelope::To) {
                 let value: Cow<str> = value.into();
-                if let Some(value) = parse_envelope_address(value.as_ref()) {
+                // The parser takes the @ at the very start of a text for no @ at all
+                if let Some(value) = parse_envelope_address(value.as_ref())
+                    .filter(|value| !value.starts_with('@'))
+                {
                     self.envelope.push((envelope, value.to_string().into()));
                 }
             } else {
-- 
2.43.0


From af940f99fcaf19de18ee43d4f99c4e15b76c42c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:23 +0000
Subject: [PATCH 37/45] fix: the limit on nested foreverypart loops holds
 inside other blocks too

---
 src/compiler/grammar/instruction.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 4d2f27e..aadcb4e 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -234,9 +234,10 @@ impl Compiler {
                             if state
                                 .block_stack
                                 .iter()
+                                .chain([&state.block])
                                 .filter(|b| matches!(&b.btype, Word::ForEveryPart))
                                 .count()
-                                == self.max_nested_foreverypart
+                                > self.max_nested_foreverypart
                             {
                                 return Err(
                                     token_info.custom(ErrorType::TooManyNestedForEveryParts)
-- 
2.43.0


From 3c241c2532f23190b687c7936cade20e2b1fe6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:32 +0000
Subject: [PATCH 38/45] fix: a word at the very end of a script is not dropped

---
 src/compiler/lexer/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 1b6f9c8..f6a0b6f 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -568,7 +568,7 @@ impl Iterator for Tokenizer<'_> {
                     error_type: (&self.state).into(),
                 }))
             }
-            _ => None,
+            _ => self.get_current_token().map(Ok),
         }
     }
 }
-- 
2.43.0


From ef11906916403ea5b42ef7ef7d2f66a4285f09b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:38 +0000
Subject: [PATCH 39/45] fix: header variables name the parts of an address
 (addr.local, addr.domain, addr.user, addr.detail)

---
 src/compiler/lexer/string.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index ecc841a..d3fd613 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -625,10 +625,10 @@ impl TryFrom<&str> for AddressPart {
         Ok(match value {
             "name" => AddressPart::Name,
             "addr" | "all" => AddressPart::All,
-            "addr.domain" => AddressPart::Domain,
-            "addr.local" => AddressPart::LocalPart,
-            "addr.user" => AddressPart::User,
-            "addr.detail" => AddressPart::Detail,
+            "domain" | "addr.domain" => AddressPart::Domain,
+            "local" | "addr.local" => AddressPart::LocalPart,
+            "user" | "addr.user" => AddressPart::User,
+            "detail" | "addr.detail" => AddressPart::Detail,
             _ => return Err(()),
         })
     }
-- 
2.43.0


From 8dd2996b3f342bb9e139e95645e612a5635a1590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:06 +0000
Subject: [PATCH 40/45] fix: size tests see the real size of a message after
 replace, convert and enclose

---
 src/runtime/actions/action_convert.rs | 15 ++-------------
 src/runtime/actions/action_mime.rs    | 18 +++++-------------
 2 files changed, 7 insertions(+), 26 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index a38073f..f82d4bf 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -83,11 +83,6 @@ impl Convert {
                         .get(..8)
                         .is_some_and(|name| name.eq_ignore_ascii_case("content-"))
             });
-            ctx.message_size += part
-                .headers
-                .iter()
-                .map(|header| (header.offset_end - header.offset_field) as usize)
-                .sum::<usize>();
             part.headers.push(Header {
                 name: HeaderName::Other("Content-Type".into()),
                 value: HeaderValue::Text(ct.to_string().into()),
@@ -95,14 +90,6 @@ impl Convert {
                 offset_end: 0,
                 offset_field: 0,
             });
-            // Earlier edits may have already discounted some of the contents of this part
-            ctx.message_size = (ctx.message_size + ct.len() + new_body.len() + 16).saturating_sub(
-                if part.offset_body != 0 {
-                    (part.offset_end - part.offset_header) as usize
-                } else {
-                    part.body.len()
-                },
-            );
             part.offset_body = 0;
             part.body = new_body;
             part.encoding = Encoding::QuotedPrintable; //Used as non-mime flag
@@ -111,6 +98,8 @@ impl Convert {
 
         if did_convert {
             ctx.has_changes = true;
+            // The contents converted may include the results of earlier edits
+            ctx.message_size = ctx.build_message().len();
         }
 
         TestResult::Bool(did_convert ^ self.is_not)
diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 87aedb9..fa8fd30 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -30,16 +30,8 @@ impl Replace {
 
         // Update part
         let body = ctx.eval_value(&self.replacement).to_string().into_owned();
-        let body_len = body.len();
 
         let part = &mut ctx.message.parts[ctx.part as usize];
-
-        // Earlier edits may have already discounted some of the contents of this part
-        ctx.message_size = (ctx.message_size + body_len).saturating_sub(if part.offset_body != 0 {
-            (part.offset_end - part.offset_header) as usize
-        } else {
-            part.body.len()
-        });
         part.body = PartType::Text(body.into());
         part.encoding = if !self.mime {
             Encoding::QuotedPrintable
@@ -52,20 +44,17 @@ impl Replace {
 
         if ctx.part == 0 {
             for mut header in prev_headers {
-                let mut size = (header.offset_end - header.offset_field) as usize;
                 match &header.name {
                     HeaderName::Subject => {
                         if self.subject.is_some() {
                             header.name = HeaderName::Other("Original-Subject".into());
                             header.offset_field = header.offset_start;
-                            size += "Original-".len();
                         }
                     }
                     HeaderName::From => {
                         if self.from.is_some() {
                             header.name = HeaderName::Other("Original-From".into());
                             header.offset_field = header.offset_start;
-                            size += "Original-".len();
                         }
                     }
 
@@ -75,7 +64,6 @@ impl Replace {
                     }
                     _ => continue,
                 }
-                ctx.message_size += size;
                 part.headers.push(header);
             }
 
@@ -156,6 +144,9 @@ impl Replace {
                 true,
             );
         }
+
+        // The contents replaced may include the results of earlier edits
+        ctx.message_size = ctx.build_message().len();
     }
 }
 
@@ -184,7 +175,8 @@ impl Enclose {
         #[cfg(not(test))]
         let boundary = mail_builder::mime::make_boundary(".");
 
-        ctx.message_size += ((boundary.len() + 6) * 3) + body.len() + 2;
+        // Two delimiters, the closing one and the blank lines of both parts
+        ctx.message_size += ((boundary.len() + 6) * 3) + body.len() + 6;
         ctx.part = 0;
         // Part ids of the previous message are no longer valid
         ctx.part_iter = Vec::new().into_iter();
-- 
2.43.0


From 355b880e1773d02c995fff2f3dcc27bf591c966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:06 +0000
Subject: [PATCH 41/45] fix: deleting a renamed header field counts its name in
 the message size

---
 src/runtime/actions/action_editheader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/actions/action_editheader.rs b/src/runtime/actions/action_editheader.rs
index 98fdd97..6f2df6a 100644
--- a/src/runtime/actions/action_editheader.rs
+++ b/src/runtime/actions/action_editheader.rs
@@ -114,6 +114,10 @@ impl DeleteHeader {
 
                 if header.offset_end != 0 {
                     deleted_bytes += (header.offset_end - header.offset_field) as usize;
+                    if header.offset_field == header.offset_start {
+                        // Renamed header
+                        deleted_bytes += header.name.as_str().len() + 1;
+                    }
                 } else {
                     deleted_bytes += header.name.as_str().len() + header.value.len() + 4;
                 }
-- 
2.43.0


From 0d3fac3af27cb91c843e21cd66b46513025b6e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:56 +0000
Subject: [PATCH 42/45] fix: replace and enclose evaluate their arguments
 before the message changes

---
 src/runtime/actions/action_mime.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index fa8fd30..6240bef 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -22,6 +22,11 @@ use mail_builder::headers::message_id::generate_message_id_header;
 
 impl Replace {
     pub(crate) fn exec(&self, ctx: &mut Context) {
+        // The arguments may refer to the contents about to be replaced
+        let body = ctx.eval_value(&self.replacement).to_string().into_owned();
+        let from = self.from.as_ref().map(|f| ctx.eval_value(f));
+        let subject = self.subject.as_ref().map(|f| ctx.eval_value(f));
+
         // Delete children parts
         let mut part_ids = ctx.find_nested_parts_ids(false);
         part_ids.sort_unstable_by_key(|a| Reverse(*a));
@@ -29,8 +34,6 @@ impl Replace {
         ctx.has_changes = true;
 
         // Update part
-        let body = ctx.eval_value(&self.replacement).to_string().into_owned();
-
         let part = &mut ctx.message.parts[ctx.part as usize];
         part.body = PartType::Text(body.into());
         part.encoding = if !self.mime {
@@ -69,7 +72,7 @@ impl Replace {
 
             // Add From
             let mut add_from = true;
-            if let Some(from) = self.from.as_ref().map(|f| ctx.eval_value(f)) {
+            if let Some(from) = from {
                 if !from.is_empty() {
                     ctx.insert_header(
                         0,
@@ -92,7 +95,7 @@ impl Replace {
             }
 
             // Add Subject
-            if let Some(subject) = self.subject.as_ref().map(|f| ctx.eval_value(f)) {
+            if let Some(subject) = subject {
                 if !subject.is_empty() {
                     ctx.insert_header(
                         0,
@@ -169,6 +172,9 @@ impl Enclose {
             })
             .unwrap_or_default();
 
+        // The header fields may refer to the message about to be enclosed
+        let headers = ctx.eval_values(&self.headers);
+
         let message = std::mem::take(&mut ctx.message);
         #[cfg(test)]
         let boundary = make_test_boundary();
@@ -244,8 +250,7 @@ impl Enclose {
         let mut add_message_id = true;
         let mut add_from = true;
 
-        for header in &self.headers {
-            let header = ctx.eval_value(header);
+        for header in &headers {
             if let Some((mut header_name, mut header_value)) =
                 header.to_string().as_ref().split_once(':')
             {
-- 
2.43.0


From e1d23038126fa9b8b6ae29cfe6a7d4476aa126ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:25 +0000
Subject: [PATCH 43/45] fix: the implicit keep delivers the edited message
 after a copy of it has been delivered

---
 src/runtime/context.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index d2d9728..895e22b 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -407,10 +407,7 @@ impl<'x> Context<'x> {
         }
 
         match self.final_event.take() {
-            Some(Event::Keep {
-                mut flags,
-                message_id,
-            }) => {
+            Some(Event::Keep { mut flags, .. }) => {
                 let create_event = if self.has_changes {
                     self.build_message_id()
                 } else {
@@ -432,7 +429,10 @@ impl<'x> Context<'x> {
                     .into_iter();
                     self.queued_events.next().map(Ok)
                 } else {
-                    Some(Ok(Event::Keep { flags, message_id }))
+                    Some(Ok(Event::Keep {
+                        flags,
+                        message_id: self.main_message_id,
+                    }))
                 }
             }
             Some(event) => Some(Ok(event)),
@@ -443,11 +443,7 @@ impl<'x> Context<'x> {
     pub(crate) fn finish_loop(&mut self) {
         self.script_stack.clear();
         if let Some(event) = self.final_event.take() {
-            self.queued_events = if let Event::Keep {
-                mut flags,
-                message_id,
-            } = event
-            {
+            self.queued_events = if let Event::Keep { mut flags, .. } = event {
                 let global_flags = self.get_global_flags();
                 if flags.is_empty() && !global_flags.is_empty() {
                     flags = global_flags;
@@ -463,10 +459,16 @@ impl<'x> Context<'x> {
                             },
                         ]
                     } else {
-                        vec![Event::Keep { flags, message_id }]
+                        vec![Event::Keep {
+                            flags,
+                            message_id: self.main_message_id,
+                        }]
                     }
                 } else {
-                    vec![Event::Keep { flags, message_id }]
+                    vec![Event::Keep {
+                        flags,
+                        message_id: self.main_message_id,
+                    }]
                 }
             } else {
                 vec![event]
-- 
2.43.0


From 959b613cb60c9ba8f3ddcb36b8a3e4d781143cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:42 +0000
Subject: [PATCH 44/45] fix: a list in a test that is not known is skipped with
 the test

---
 src/compiler/grammar/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/mod.rs b/src/compiler/grammar/mod.rs
index fb8572d..50d1180 100644
--- a/src/compiler/grammar/mod.rs
+++ b/src/compiler/grammar/mod.rs
@@ -234,10 +234,10 @@ impl CompilerState<'_> {
         let mut d_count = 0;
         while let Some(token_info) = self.tokens.peek() {
             match token_info?.token {
-                Token::ParenthesisOpen => {
+                Token::ParenthesisOpen | Token::BracketOpen => {
                     d_count += 1;
                 }
-                Token::ParenthesisClose => {
+                Token::ParenthesisClose | Token::BracketClose => {
                     if d_count == 0 {
                         break;
                     } else {
-- 
2.43.0


From a78aa13a2af34a1506e9bd248b23f88a23ec0657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:54 +0000
Subject: [PATCH 45/45] fix: convert compares media types without regard to
 case and takes only parts of the type asked for

---
 src/runtime/actions/action_convert.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index f82d4bf..53ffa5a 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -32,8 +32,12 @@ impl Convert {
             return TestResult::Bool(false ^ self.is_not);
         }
 
-        let conversion = if (from_media_type.eq_ignore_ascii_case("text")
-            || from_media_type.starts_with("text/"))
+        // Media types are compared without regard to case
+        let from_subtype = from_media_type
+            .split_once('/')
+            .filter(|(media_type, _)| media_type.eq_ignore_ascii_case("text"))
+            .map(|(_, subtype)| subtype);
+        let conversion = if (from_media_type.eq_ignore_ascii_case("text") || from_subtype.is_some())
             && to_media_type.eq_ignore_ascii_case("text/html")
         {
             if from_media_type.eq_ignore_ascii_case("text") {
@@ -55,10 +59,18 @@ impl Convert {
                     PartType::Text(html_to_text(html.as_ref()).into()),
                     "text/plain; charset=utf8",
                 ),
-                (PartType::Text(text), Conversion::TextToHtml) => (
-                    PartType::Html(text_to_html(text.as_ref()).into()),
-                    "text/html; charset=utf8",
-                ),
+                (PartType::Text(text), Conversion::TextToHtml)
+                    if part
+                        .content_type()
+                        .and_then(|ct| ct.c_subtype.as_deref())
+                        .unwrap_or("plain")
+                        .eq_ignore_ascii_case(from_subtype.unwrap_or_default()) =>
+                {
+                    (
+                        PartType::Html(text_to_html(text.as_ref()).into()),
+                        "text/html; charset=utf8",
+                    )
+                }
                 (PartType::Text(text), Conversion::TextPlainToHtml)
                     if part
                         .content_type()
-- 
2.43.0

