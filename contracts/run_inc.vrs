// ---- C02: nesting limit, run-once, scope of included scripts --------------------------
pub open spec fn max_depth(o: Context) -> int { if o.runtime.max_nested_includes > o.script_stack@.len() + 1 { o.runtime.max_nested_includes as int } else { o.script_stack@.len() as int + 1 } }
impl Script { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == key(*self).1 { unimplemented!() } }
pub uninterp spec fn configured(r: Runtime, n: Seq<char>) -> Option<Arc<Sieve>>;   // scripts configured in the runtime
#[verifier::external_body] pub fn or_configured<'a>(c: Option<&'a Arc<Sieve>>, ctx: &'a Context, n: &Script) -> (r: Option<&'a Arc<Sieve>>)
    ensures match r { Some(s) => (c is Some ==> *s == *c->0) && (c is None ==> configured(*ctx.runtime, key(*n).1) == Some(*s)), None => c is None && configured(*ctx.runtime, key(*n).1) is None } { unimplemented!() }
pub open spec fn wanted(i: Include, c: Context) -> (bool, Seq<char>) { (i.location is Global, vtext(value_of(c, i.value))) }
pub open spec fn loaded(i: Include, c: Context) -> bool { c.script_cache@.dom().contains(wanted(i, c)) }
pub open spec fn skip_once(i: Include, c: Context) -> bool { i.once && loaded(i, c) }
pub open spec fn unnamed(i: Include, c: Context) -> bool { value_of(c, i.value) is String && str_of(value_of(c, i.value)).len() == 0 }
// scripts reach the cache only through the host or the runtime: compiled scripts
#[verifier::external_body] pub proof fn axiom_compiled(s: &Arc<Sieve>) ensures script_ok(**s) {}
impl Include {
//@fn src/runtime/actions/action_include.rs Include::exec
//@ ret r
//@ replace "script_name.to_string().into_owned()" => "script_name.to_string()"
//@ replace "cached_script.or_else(|| ctx.runtime.include_scripts.get(script_name.as_str()))" => "or_configured(cached_script, ctx, &script_name)"
//@ at before "return IncludeResult::Cached"
    proof { axiom_compiled(script); }
//@ spec
    ensures (r is Cached ==> script_ok(*r->Cached_0)), (r is Cached || r is Event) ==> ctx.script_stack@.len() < ctx.runtime.max_nested_includes,
        match r {
            IncludeResult::None => unnamed(*self, *ctx) || skip_once(*self, *ctx),
            IncludeResult::Error(e) => e is TooManyIncludes && !unnamed(*self, *ctx) && !skip_once(*self, *ctx) && ctx.script_stack@.len() >= ctx.runtime.max_nested_includes,
            IncludeResult::Cached(s) => !unnamed(*self, *ctx) && !skip_once(*self, *ctx) && (if loaded(*self, *ctx) { s == ctx.script_cache@[wanted(*self, *ctx)] } else { configured(*ctx.runtime, wanted(*self, *ctx).1) == Some(s) }),
            IncludeResult::Event(e) => !unnamed(*self, *ctx) && !loaded(*self, *ctx) && (match e { Event::IncludeScript { name, optional } => key(name) == wanted(*self, *ctx) && optional == self.optional, _ => false }),
        },
//@end
}
