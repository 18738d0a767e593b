CA='src/compiler/grammar/actions/'; A='src/runtime/actions/'
RQ='require [\\"fileinto\\",\\"copy\\",\\"mailbox\\",\\"imap4flags\\",\\"mailboxid\\",\\"special-use\\",\\"redirect-deliverby\\",\\"redirect-dsn\\",\\"enotify\\",\\"fcc\\",\\"vacation\\",\\"vacation-seconds\\",\\"include\\"];'
SEEDS=[
dict(id='c36-bytrace-first', property='C36', file=CA+'action_redirect.rs', pairs=[("                    by_trace = true;","                    by_trace = by_rlimit.is_some() || by_alimit.is_some();")],
 needs=':bytrace before the :bytimerelative or :bytimeabsolute argument', breaks='the trace request is lost',
 main=r'''
fn main() {
    let ev = events("RQ redirect :bytrace :bytimerelative 60 \"a@far.org\";", MSG);
    same("trace", format!("{ev:?}").contains("trace: true"), true);
}'''.replace('RQ',RQ)),
dict(id='c36-seconds-slot', property='C36', file=CA+'action_vacation.rs', pairs=[("                    self.validate_argument(\n                        3,\n                        Capability::VacationSeconds","                    self.validate_argument(\n                        8,\n                        Capability::VacationSeconds")],
 needs=':seconds together with :mailboxid, or with :days', breaks='the first pair is refused, the second accepted',
 main=r'''
fn main() {
    same("compiles", Compiler::new().compile(b"RQ vacation :fcc \"S\" :mailboxid \"F1\" :seconds 60 \"away\";").is_ok(), true);
    same("refused", Compiler::new().compile(b"RQ vacation :days 1 :seconds 60 \"away\";").is_err(), true);
}'''.replace('RQ',RQ)),
dict(id='c36-flags-before-fcc', property='C36', file=CA+'action_notify.rs', pairs=[("                    flags = self.parse_strings(false)?;","                    let values = self.parse_strings(false)?;\n                    if fcc.is_some() {\n                        flags = values;\n                    }")],
 needs='notify with :flags written before :fcc', breaks='the copy is filed without flags',
 main=r'''
fn main() {
    let ev = events("RQ notify :flags \"$x\" :fcc \"S\" \"mailto:a@far.org\";", MSG);
    same("flags", ev.iter().any(|e| matches!(e, Event::FileInto { flags, .. } if flags == &vec!["$x".to_string()])), true);
}'''.replace('RQ',RQ)),
dict(id='c36-create-byid', property='C36', file=A+'action_vacation.rs', pairs=[("                create: fcc.create,","                create: fcc.create && fcc.mailbox_id.is_none(),")],
 needs='a vacation copy with :create and :mailboxid', breaks='the mailbox is not created',
 main=r'''
fn main() {
    let m = "From: s@far.net\r\nTo: me@here.com\r\nSubject: s\r\n\r\nx";
    let (ev, _) = run_with(&rt(), compile("RQ vacation :addresses \"me@here.com\" :fcc \"S\" :create :mailboxid \"F1\" \"away\";"), m, |x| { x.set_envelope(Envelope::From, "s@far.net"); x.set_envelope(Envelope::To, "me@here.com"); }, |e| match e { Event::DuplicateId { .. } => Input::False, _ => Input::True });
    same("create", ev.iter().any(|e| matches!(e, Event::FileInto { create: true, .. })), true);
}'''.replace('RQ',RQ)),
dict(id='c36-optional-global', property='C36', file=CA+'action_include.rs', pairs=[("                    optional = true;","                    optional = location == Location::Personal;")],
 needs='include :global :optional in this order', breaks='a missing global script is reported although it is optional',
 main=r'''
fn main() {
    let ev = events("RQ include :global :optional \"nope\";", MSG);
    same("optional", ev.iter().any(|e| matches!(e, Event::IncludeScript { optional: true, .. })), true);
}'''.replace('RQ',RQ)),
]
