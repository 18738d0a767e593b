use sieve::*; use sv::drive::*; use std::sync::Arc;
fn main(){
  let script = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
  let msg = std::env::args().nth(2).map(|p| std::fs::read(p).unwrap()).unwrap_or(b"From: a@b.com\r\nTo: me@x.org\r\nSubject: hello\r\n\r\nbody\r\n".to_vec());
  let c = Compiler::new();
  let s = match compile(&c,&script){Ok(s)=>s,Err(e)=>{println!("COMPILE {e}");return}};
  let rt = Runtime::new().with_capability(sieve::compiler::grammar::Capability::ExtractText).with_capability(sieve::compiler::grammar::Capability::Replace).with_capability(sieve::compiler::grammar::Capability::Enclose).with_capability(sieve::compiler::grammar::Capability::Expressions).with_capability(sieve::compiler::grammar::Capability::While);
  let o = Drive::new(&rt).run(Arc::new(s), &msg, |c| { c.set_user_address("me@x.org"); c.set_envelope(Envelope::From,"a@b.com"); c.set_envelope(Envelope::To,"me@x.org");}, |e| { match e { Event::DuplicateId{..} => Input::False, Event::IncludeScript{name,..} => Input::True, _=>Input::True}});
  for e in &o.events { match e { Event::CreatedMessage{message,message_id} => println!("Created {message_id}\n{}<<<", String::from_utf8_lossy(message)), e=>println!("{e:?}") } }
  println!("errors {:?} vars {:?} panic {:?} stuck {}", o.errors, o.vars, o.panicked, o.stuck);
}
