A='src/runtime/actions/'; C='src/runtime/context.rs'; N=A+'action_notify.rs'; V=A+'action_vacation.rs'; R=A+'action_redirect.rs'; H=A+'action_editheader.rs'
VAC=r'''
pub fn vacation(rt: &Runtime, script: &str, msg: &str, env: &[(Envelope, &str)]) -> Vec<Event> {
    run_with(rt, compile(script), msg, |c| { for (n, v) in env { c.set_envelope(*n, v.to_string()); } }, |e| match e { Event::DuplicateId { .. } => Input::False, _ => Input::True }).0
}
pub fn sends(ev: &[Event]) -> usize { ev.iter().filter(|e| matches!(e, Event::SendMessage { .. } | Event::Notify { .. })).count() }
'''
SEEDS=[
dict(id='c03-vacation-last', property='C03', file=V, pairs=[("if ctx.num_out_messages >= ctx.runtime.max_out_messages {\n            return TestResult::Bool(false);","if ctx.num_out_messages > ctx.runtime.max_out_messages {\n            return TestResult::Bool(false);")],
 needs='a vacation reply after other mail has used the outgoing message limit up', breaks='one mail more than the limit leaves',
 main=VAC+r'''
fn main() {
    let rt = rt().with_max_out_messages(1);
    let ev = vacation(&rt, "require [\"vacation\", \"copy\"]; redirect :copy \"a@b.org\"; vacation \"away\";", "From: s@far.net\r\nTo: me@x.org\r\n\r\nx", &[(Envelope::From, "s@far.net"), (Envelope::To, "me@x.org")]);
    same("mails", sends(&ev), 1);
}'''),
dict(id='c03-list-uncounted', property='C03', file=R, pairs=[("                ctx.num_redirects += 1;\n                ctx.num_out_messages += 1;","                ctx.num_redirects += 1;\n                if !self.list {\n                    ctx.num_out_messages += 1;\n                }")],
 needs='redirects to an external list followed by other mail', breaks='redirects to a list do not count as outgoing mail',
 main=VAC+r'''
fn main() {
    let rt = rt().with_max_out_messages(2).with_max_redirects(5).with_valid_ext_list("urn:l".to_string()).with_capability(sieve::compiler::grammar::Capability::ExtLists);
    let ev = vacation(&rt, "require [\"extlists\", \"copy\"]; redirect :list :copy \"l@b.org\"; redirect :list :copy \"m@b.org\"; redirect :copy \"n@b.org\";", MSG, &[]);
    same("mails", sends(&ev), 2);
}'''),
dict(id='c03-received-top', property='C03', file=R, pairs=[("""                    .iter()
                    .filter(|h| matches!(&h.name, HeaderName::Received))""","""                    .iter()
                    .skip_while(|h| !matches!(&h.name, HeaderName::Received))
                    .take_while(|h| matches!(&h.name, HeaderName::Received))""")],
 needs='a looping message whose Received fields do not all stand together', breaks='a message with too many Received fields is redirected',
 main=VAC+r'''
fn main() {
    let rt = rt().with_max_received_headers(3);
    let ev = vacation(&rt, "redirect \"a@b.org\";", "Received: a\r\nX-A: 1\r\nReceived: b\r\nReceived: c\r\nSubject: x\r\nReceived: d\r\n\r\nx", &[]);
    same("mails", sends(&ev), 0);
}'''),
dict(id='c18-bare-cr', property='C18', file=H, pairs=[("if !['\\n', '\\r'].contains(&ch) {\n                if header_value.len()","if ch != '\\n' && !(ch == '\\r' && !header_value.is_empty()) || ch == '\\r' && header_value.ends_with(' ') {\n                if header_value.len()")],
 needs='a carriage return behind a blank in a text that goes into a generated header', breaks='a bare CR gets into the header of a generated mail',
 main=VAC+r'''
fn main() {
    let ev = vacation(&rt(), "require [\"vacation\", \"variables\", \"encoded-character\"]; vacation :subject \"a ${hex:0d 0a}Bcc: evil@x.org\" \"away\";", "From: s@far.net\r\nTo: me@x.org\r\n\r\nx", &[(Envelope::From, "s@far.net"), (Envelope::To, "me@x.org")]);
    let m = messages(&ev); same("replies", m.len(), 1);
    if m[0].replace("\r\n", "").contains(['\r', '\n']) { fail(&format!("{:?}", m[0])) }
}'''),
dict(id='c18-subject-twice', property='C18', file=N, pairs=[("""                    HeaderName::Subject => {
                        has_subject = value.into();
                        continue;""","""                    HeaderName::Subject if has_subject.is_none() => {
                        has_subject = value.into();
                        continue;""")],
 needs='a mailto URI with two subject parameters', breaks='the notification carries two Subject fields',
 main=VAC+r'''
fn main() {
    let ev = vacation(&rt(), "require [\"enotify\"]; notify \"mailto:a@b.org?subject=one&subject=two\";", MSG, &[]);
    let m = messages(&ev); same("notifications", m.len(), 1);
    same("Subject fields", m[0].lines().filter(|l| l.to_lowercase().starts_with("subject:")).count(), 1);
}'''),
dict(id='c18-cut-bytes', property='C18', file=V, pairs=[("""                            if pos < MAX_SUBJECT_LEN {
                                vacation_subject_.push(char);""","""                            if pos < MAX_SUBJECT_LEN || !vacation_subject_.is_ascii() {
                                vacation_subject_.push(char);""")],
 needs='a long subject with a non-ASCII character', breaks='the subject of the vacation reply is not limited',
 main=VAC+r'''
fn main() {
    let ev = vacation(&rt(), "require [\"vacation\"]; vacation \"away\";", &format!("From: s@far.net\r\nTo: me@x.org\r\nSubject: é{}\r\n\r\nx", "x".repeat(900)), &[(Envelope::From, "s@far.net"), (Envelope::To, "me@x.org")]);
    let m = messages(&ev); same("replies", m.len(), 1);
    let s = m[0].lines().find(|l| l.starts_with("Subject: ")).unwrap().chars().count();
    if s > 9 + 257 { fail(&format!("subject of {s} characters")) }
}'''),
dict(id='c24-angle-dot', property='C24', file=R, pairs=[("""                result.clear();
                has_at = false;
                has_dot = false;""","""                result.clear();
                has_at = false;""")],
 needs='a display name that itself looks like an address in front of an address without domain', breaks='a recipient without a dot in its domain is accepted',
 main=VAC+r'''
fn main() {
    for a in ["joe@x.org <root@localhost>", "a@b.c<d@e"] {
        let ev = vacation(&rt(), &format!("redirect \"{a}\";"), MSG, &[]);
        same(a, sends(&ev), 0);
        same("keep", ev.iter().filter(|e| matches!(e, Event::Keep { .. })).count(), 1);
    }
}'''),
dict(id='c24-keep-early', property='C24', edits=[(R,"""            if ctx.num_redirects < ctx.runtime.max_redirects
                && ctx""","""            // The message leaves, do not keep a copy
            if !self.copy
                && !self.list
                && !address.eq_ignore_ascii_case(ctx.user_address.as_ref())
                && matches!(&ctx.final_event, Some(Event::Keep { .. }))
            {
                ctx.final_event = None;
            }

            if ctx.num_redirects < ctx.runtime.max_redirects
                && ctx""")],
 needs='a redirect that is not carried out because a limit is reached', breaks='the implicit keep is cancelled although no mail leaves',
 main=VAC+r'''
fn main() {
    let rt = rt().with_max_redirects(0);
    let ev = vacation(&rt, "redirect \"a@b.org\";", MSG, &[]);
    same("mails", sends(&ev), 0);
    same("keep", ev.iter().filter(|e| matches!(e, Event::Keep { .. })).count(), 1);
}'''),
dict(id='c25-suppress-list', property='C25', file=V, pairs=[("""[\"all\", \"oof\"].contains(&v.trim())""","""[\"all\", \"oof\"].contains(&v)""")],
 needs='X-Auto-Response-Suppress with several values separated by comma and blank', breaks='a reply is sent although the sender forbids out-of-office replies',
 main=VAC+r'''
fn main() {
    let ev = vacation(&rt(), "require [\"vacation\"]; vacation \"away\";", "From: s@far.net\r\nTo: me@x.org\r\nX-Auto-Response-Suppress: DR, OOF\r\n\r\nx", &[(Envelope::From, "s@far.net"), (Envelope::To, "me@x.org")]);
    same("replies", sends(&ev), 0);
}'''),
dict(id='c25-orcpt-alias', property='C25', file=V, pairs=[("""                    Envelope::To => {
                        if !ctx.runtime.vacation_use_orig_rcpt {""","""                    Envelope::To => {
                        if !ctx.runtime.vacation_use_orig_rcpt || user_addresses.is_empty() {""")],
 needs='vacation for the original recipient, the message naming only the final one', breaks='the address a forwarder used counts as own address',
 main=VAC+r'''
fn main() {
    let rt = rt().with_vacation_use_orig_rcpt(true);
    let ev = vacation(&rt, "require [\"vacation\"]; vacation \"away\";", "From: s@far.net\r\nTo: list@x.org\r\n\r\nx", &[(Envelope::From, "s@far.net"), (Envelope::To, "list@x.org"), (Envelope::Orcpt, "me@x.org")]);
    same("replies", sends(&ev), 0);
}'''),
dict(id='c25-empty-from', property='C25', file=V, pairs=[("""        for (name, value) in &ctx.envelope {
            if !value.is_empty() {
                match name {
                    Envelope::From => {
                        from =""","""        for (name, value) in &ctx.envelope {
            if !value.is_empty() {
                match name {
                    Envelope::From if from.is_empty() || !self.addresses.is_empty() => {
                        from ="""),("""            || user_addresses.iter().any(|a| a.eq_ignore_ascii_case(&from))
        {""","""            || user_addresses
                .iter()
                .any(|a| *a == from)
        {""")],
 needs='a message from the own address written in other letter case', breaks='a reply is sent to the own address',
 main=VAC+r'''
fn main() {
    let ev = vacation(&rt(), "require [\"vacation\"]; vacation \"away\";", "From: me@x.org\r\nTo: Me@x.org\r\n\r\nx", &[(Envelope::From, "me@x.org"), (Envelope::To, "Me@X.org")]);
    same("replies", sends(&ev), 0);
}'''),
dict(id='c26-comma-field', property='C26', file=N, pairs=[("""                        String::from_utf8(std::mem::take(&mut buf)).ok()?,
                    );
                    state = State::Address((header.clone(), false));
                    has_addresses = true;
                }
                State::ParamValue(_) => buf.push(ch),""","""                        String::from_utf8(std::mem::take(&mut buf)).ok()?,
                    );
                    state = State::Address((HeaderName::To, false));
                    has_addresses = true;
                }
                State::ParamValue(_) => buf.push(ch),""")],
 needs='a bcc field with two addresses', breaks='the second blind copy recipient is shown in the To field',
 main=VAC+r'''
fn main() {
    let ev = vacation(&rt(), "require [\"enotify\"]; notify \"mailto:a@b.org?bcc=x@b.org,y@b.org\";", MSG, &[]);
    let m = messages(&ev); same("notifications", m.len(), 1);
    if m[0].contains("y@b.org") { fail(&m[0]) }
}'''),
dict(id='c26-hex-plus', property='C26', file=N, pairs=[("                    let ch = ((hex1 as u8) << 4) | hex2 as u8;","                    let ch = match ((hex1 as u8) << 4) | hex2 as u8 {\n                        b'+' if matches!(state, State::ParamValue(_)) => b' ',\n                        ch => ch,\n                    };")],
 needs='an escaped + in a header or body value', breaks='%2B is decoded twice, to a blank',
 main=VAC+r'''
fn main() {
    let ev = vacation(&rt(), "require [\"enotify\"]; notify \"mailto:a@b.org?subject=1%2B1&body=2%2B2\";", MSG, &[]);
    let m = messages(&ev); same("notifications", m.len(), 1);
    if !m[0].contains("Subject: 1+1") || !m[0].contains("2+2") { fail(&m[0]) }
}'''),
dict(id='c26-dup-address', property='C26', file=N, pairs=[(".any(|v| v.eq_ignore_ascii_case(&value))",".any(|v| v.eq_ignore_ascii_case(&value) || v.to_ascii_lowercase().starts_with(&value.to_ascii_lowercase()))")],
 needs='two recipients one of which is a prefix of the other', breaks='the second recipient is dropped',
 main=VAC+r'''
fn main() {
    let ev = vacation(&rt(), "require [\"enotify\"]; notify \"mailto:a@b.org,a@b.or\";", MSG, &[]);
    for e in &ev { if let Event::SendMessage { recipient, .. } = e { same("recipients", format!("{recipient:?}"), "Group([\"a@b.org\", \"a@b.or\"])".to_string()); return; } }
    fail("no mail");
}'''),
]
