// ---- IMAP flag lists -----------------------------------------------------------------------
#[verifier::external_body] pub struct Value { x: u8 }
#[verifier::external_body] pub struct EnvPart { x: u8 }
#[verifier::external_body] pub struct HdrVar { x: u8 }
#[verifier::external_body] pub struct MsgPart { x: u8 }
//@type src/compiler/mod.rs VariableType
//@ replace "Envelope(Envelope)" => "Envelope(EnvPart)"
//@ replace "Header(HeaderVariable)" => "Header(HdrVar)"
//@ replace "Part(MessagePart)" => "Part(MsgPart)"
//@end
//@type src/compiler/grammar/actions/action_flags.rs Action
//@end
//@type src/compiler/grammar/actions/action_flags.rs EditFlags
//@end
//@type src/lib.rs Runtime
//@ keep max_variable_size
//@end
//@type src/lib.rs Context
//@ keep runtime part vars_global
//@ replace "AHashMap<Cow<'static, str>, Variable>" => "VarMap"
//@end
pub uninterp spec fn value_of(c: Context, v: Value) -> Variable;
pub uninterp spec fn held(c: Context, n: VariableType) -> Option<Variable>;
// what a variable holds after a value is stored: the value, cut at the variable size (C05)
pub uninterp spec fn kept(c: Context, v: Seq<char>) -> Seq<char>;
pub open spec fn others_same(a: Context, b: Context, n: VariableType) -> bool { forall|m: VariableType| m != n ==> held(a, m) == held(b, m) }
pub struct Texts { pub v: Vec<String> }
pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
// the words of a text, split at ASCII white space
pub uninterp spec fn words(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn word(w: Seq<char>) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] != ' ' }
#[verifier::external_body] pub broadcast proof fn axiom_words(s: Seq<char>) ensures #![trigger words(s)] forall|i: int| 0 <= i < words(s).len() ==> word(#[trigger] words(s)[i]) {}
#[verifier::external_body] pub fn split_words(s: &String) -> (r: Vec<String>) ensures views(r@) == words(s@) { unimplemented!() }
// the pieces of a text between single spaces: always at least one
pub open spec fn pieces(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() { if s.len() == 0 { seq![seq![]] } else if s.last() == ' ' { pieces(s.drop_last()).push(seq![]) } else { pieces(s.drop_last()).drop_last().push(pieces(s.drop_last()).last().push(s.last())) } }
#[verifier::external_body] pub fn split_at_spaces(s: &String) -> (r: Vec<String>) ensures views(r@) == pieces(s@) { unimplemented!() }
pub open spec fn joined(l: Seq<Seq<char>>) -> Seq<char> decreases l.len() { if l.len() == 0 { seq![] } else if l.len() == 1 { l[0] } else { joined(l.drop_last()) + seq![' '] + l.last() } }
#[verifier::external_body] pub fn join_words(l: &Vec<String>) -> (r: String) ensures r@ == joined(views(l@)) { unimplemented!() }
pub open spec fn given(c: Context, v: Seq<Value>) -> Seq<Seq<char>> decreases v.len() { if v.len() == 0 { seq![] } else { given(c, v.drop_last()) + words(vtext(value_of(c, v.last()))) } }
pub open spec fn lowered(l: Seq<Seq<char>>) -> Seq<Seq<char>> { l.map_values(|s: Seq<char>| lower_seq(s)) }
pub open spec fn lists(l: Seq<Seq<char>>, f: Seq<char>) -> bool { exists|i: int| 0 <= i < l.len() && lower_seq(l[i]) == lower_seq(f) }
// adding flags to a list, one after the other, each unless it is there
pub open spec fn with_all(l: Seq<Seq<char>>, g: Seq<Seq<char>>) -> Seq<Seq<char>> decreases g.len() { if g.len() == 0 { l } else { let p = with_all(l, g.drop_last()); if lists(p, g.last()) { p } else { p.push(g.last()) } } }
pub open spec fn first_at(l: Seq<Seq<char>>, f: Seq<char>, i: int) -> bool { 0 <= i < l.len() && lower_seq(l[i]) == lower_seq(f) && forall|j: int| 0 <= j < i ==> lower_seq(#[trigger] l[j]) != lower_seq(f) }
// a removed flag's place is taken by the last one
pub open spec fn swap_out(l: Seq<Seq<char>>, i: int) -> Seq<Seq<char>> { l.update(i, l.last()).drop_last() }
pub open spec fn without_one(l: Seq<Seq<char>>, f: Seq<char>) -> Seq<Seq<char>> { if lists(l, f) { swap_out(l, choose|i: int| first_at(l, f, i)) } else { l } }
pub open spec fn without_all(l: Seq<Seq<char>>, g: Seq<Seq<char>>) -> Seq<Seq<char>> decreases g.len() { if g.len() == 0 { l } else { without_one(without_all(l, g.drop_last()), g.last()) } }
pub open spec fn distinct(l: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> lower_seq(l[i]) != lower_seq(l[j]) }
pub open spec fn good(l: Seq<Seq<char>>) -> bool { distinct(l) && forall|i: int| 0 <= i < l.len() ==> word(#[trigger] l[i]) }
// ---- what that means for the list as a set ----
pub proof fn lemma_with_all(l: Seq<Seq<char>>, g: Seq<Seq<char>>) requires good(l), forall|i: int| 0 <= i < g.len() ==> word(#[trigger] g[i])
    ensures good(with_all(l, g)), with_all(l, g).len() >= l.len(), with_all(l, g).take(l.len() as int) =~= l, forall|i: int| 0 <= i < g.len() ==> lists(with_all(l, g), #[trigger] g[i]), forall|f: Seq<char>| #[trigger] lists(with_all(l, g), f) ==> lists(l, f) || lists(g, f) decreases g.len()
{
    if g.len() > 0 { lemma_with_all(l, g.drop_last()); let p = with_all(l, g.drop_last()); let w = with_all(l, g);
        assert forall|i: int| 0 <= i < g.len() implies lists(w, #[trigger] g[i]) by { if i < g.len() - 1 { assert(g.drop_last()[i] == g[i]); let k = choose|k: int| 0 <= k < p.len() && lower_seq(p[k]) == lower_seq(g[i]); assert(w[k] == p[k]); } else if !lists(p, g.last()) { assert(w[p.len() as int] == g[i]); } }
        assert forall|f: Seq<char>| #[trigger] lists(w, f) implies lists(l, f) || lists(g, f) by { let k = choose|k: int| 0 <= k < w.len() && lower_seq(w[k]) == lower_seq(f); if k < p.len() { assert(p[k] == w[k]); assert(lists(p, f)); if !lists(l, f) { let q = choose|q: int| 0 <= q < g.drop_last().len() && lower_seq(g.drop_last()[q]) == lower_seq(f); assert(g[q] == g.drop_last()[q]); } } else { assert(g[g.len() - 1] == w[k]); } }
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies lower_seq(w[i]) != lower_seq(w[j]) by { if j == p.len() { assert(w[i] == p[i]); } else { assert(w[i] == p[i] && w[j] == p[j]); } }
        assert forall|i: int| 0 <= i < w.len() implies word(#[trigger] w[i]) by { if i < p.len() { assert(w[i] == p[i]); } }
    }
}
pub proof fn lemma_first(l: Seq<Seq<char>>, f: Seq<char>, n: int) requires 0 <= n <= l.len(), exists|i: int| 0 <= i < n && lower_seq(l[i]) == lower_seq(f) ensures exists|i: int| first_at(l, f, i) decreases n
{ if exists|i: int| 0 <= i < n - 1 && lower_seq(l[i]) == lower_seq(f) { lemma_first(l, f, n - 1); } else { assert(first_at(l, f, n - 1)); } }
pub proof fn lemma_without_one(l: Seq<Seq<char>>, f: Seq<char>) requires good(l) ensures good(without_one(l, f)), !lists(without_one(l, f), f), forall|x: Seq<char>| lower_seq(x) != lower_seq(f) ==> #[trigger] lists(without_one(l, f), x) == lists(l, x)
{
    let w = without_one(l, f);
    if lists(l, f) {
        lemma_first(l, f, l.len() as int); let i = choose|i: int| first_at(l, f, i); let n = l.len() - 1;
        assert forall|k: int| 0 <= k < n implies w[k] == (if k == i { l[n] } else { l[k] }) by {}
        assert forall|a: int, b: int| 0 <= a < b < w.len() implies lower_seq(w[a]) != lower_seq(w[b]) by { let p = if a == i { n } else { a }; let q = if b == i { n } else { b }; assert(w[a] == l[p] && w[b] == l[q] && p != q); }
        assert forall|k: int| 0 <= k < w.len() implies word(#[trigger] w[k]) by {}
        if lists(w, f) { let k = choose|k: int| 0 <= k < w.len() && lower_seq(w[k]) == lower_seq(f); let p = if k == i { n } else { k }; assert(w[k] == l[p]); if p < i { assert(lower_seq(l[p]) != lower_seq(l[i])); } }
        assert forall|x: Seq<char>| lower_seq(x) != lower_seq(f) implies #[trigger] lists(w, x) == lists(l, x) by {
            if lists(l, x) { let k = choose|k: int| 0 <= k < l.len() && lower_seq(l[k]) == lower_seq(x); if k == n { assert(w[i] == l[n]); } else { assert(w[k] == l[k]); } }
            if lists(w, x) { let k = choose|k: int| 0 <= k < w.len() && lower_seq(w[k]) == lower_seq(x); let p = if k == i { n } else { k }; assert(l[p] == w[k]); }
        }
    }
}
pub proof fn lemma_without_all(l: Seq<Seq<char>>, g: Seq<Seq<char>>) requires good(l) ensures good(without_all(l, g)), forall|x: Seq<char>| #[trigger] lists(without_all(l, g), x) == (lists(l, x) && !lists(g, x)) decreases g.len()
{
    if g.len() > 0 { lemma_without_all(l, g.drop_last()); let p = without_all(l, g.drop_last()); lemma_without_one(p, g.last()); let w = without_all(l, g);
        assert forall|x: Seq<char>| #[trigger] lists(w, x) == (lists(l, x) && !lists(g, x)) by {
            if lists(g.drop_last(), x) { let k = choose|k: int| 0 <= k < g.drop_last().len() && lower_seq(g.drop_last()[k]) == lower_seq(x); assert(g[k] == g.drop_last()[k]); }
            if lists(g, x) && !lists(g.drop_last(), x) { let k = choose|k: int| 0 <= k < g.len() && lower_seq(g[k]) == lower_seq(x); if k < g.len() - 1 { assert(g.drop_last()[k] == g[k]); } assert(lower_seq(x) == lower_seq(g.last())); }
            if lower_seq(x) == lower_seq(g.last()) { assert(g[g.len() - 1] == g.last()); if lists(w, x) { let k = choose|k: int| 0 <= k < w.len() && lower_seq(w[k]) == lower_seq(x); assert(lists(w, g.last())); } }
        }
    }
}
// a list of flags survives being written to a variable
pub proof fn lemma_pieces_word(s: Seq<char>, w: Seq<char>) requires word(w) ensures pieces(s + seq![' '] + w) == pieces(s).push(w) decreases w.len()
{
    let t = s + seq![' '] + w; assert(t.last() == w.last()); assert(t.drop_last() =~= s + seq![' '] + w.drop_last());
    if w.len() == 1 { assert(t.drop_last() =~= s.push(' ')); assert(t.drop_last().drop_last() =~= s); assert(w =~= Seq::<char>::empty().push(w.last())); assert(pieces(t.drop_last()) == pieces(s).push(seq![])); assert(pieces(s).push(seq![]).drop_last() =~= pieces(s)); }
    else { assert forall|i: int| 0 <= i < w.drop_last().len() implies #[trigger] w.drop_last()[i] != ' ' by { assert(w[i] != ' '); } lemma_pieces_word(s, w.drop_last()); assert(pieces(s).push(w.drop_last()).drop_last() =~= pieces(s)); assert(w.drop_last().push(w.last()) =~= w); }
}
pub proof fn lemma_pieces_first(w: Seq<char>) requires word(w) ensures pieces(w) == seq![w] decreases w.len()
{ if w.len() == 1 { assert(w.drop_last() =~= Seq::<char>::empty()); assert(w =~= Seq::<char>::empty().push(w.last())); assert(pieces(w.drop_last()) == seq![Seq::<char>::empty()]); assert(pieces(w) =~= seq![w]); } else { assert forall|i: int| 0 <= i < w.drop_last().len() implies #[trigger] w.drop_last()[i] != ' ' by { assert(w[i] != ' '); } lemma_pieces_first(w.drop_last()); assert(w.drop_last().push(w.last()) =~= w); assert(pieces(w) =~= seq![w]); } }
pub proof fn lemma_roundtrip(l: Seq<Seq<char>>) requires l.len() > 0, forall|i: int| 0 <= i < l.len() ==> word(#[trigger] l[i]) ensures pieces(joined(l)) == l, joined(l).len() > 0 decreases l.len()
{ if l.len() == 1 { lemma_pieces_first(l[0]); assert(l =~= seq![l[0]]); } else { assert forall|i: int| 0 <= i < l.drop_last().len() implies word(#[trigger] l.drop_last()[i]) by { assert(l[i] == l.drop_last()[i]); } lemma_roundtrip(l.drop_last()); lemma_pieces_word(joined(l.drop_last()), l.last()); assert(l.drop_last().push(l.last()) =~= l); } }
// the flags a text holds: none when it is empty
pub open spec fn flags_in(s: Seq<char>) -> Seq<Seq<char>> { if s.len() == 0 { seq![] } else { pieces(s) } }
pub open spec fn held_text(c: Context, n: VariableType) -> Seq<char> { match held(c, n) { Some(v) => vtext(v), None => seq![] } }
#[verifier::external_body] pub broadcast proof fn axiom_lower_empty(s: Seq<char>) ensures #![trigger lower_seq(s)] lower_seq(s).len() == 0 <==> s.len() == 0 {}
#[verifier::external_body] pub broadcast proof fn axiom_kept(c: Context, v: Seq<char>) ensures #![trigger kept(c, v)] true {}
impl<'x> Context<'x> {
    #[verifier::external_body] pub fn eval_value(&self, v: &Value) -> (r: Variable) ensures r == value_of(*self, *v) { unimplemented!() }
    #[verifier::external_body] pub fn get_variable(&self, n: &VariableType) -> (r: Option<&Variable>) ensures r is Some == held(*self, *n) is Some, r is Some ==> *(r->0) == held(*self, *n)->0 { unimplemented!() }
    #[verifier::external_body] pub fn set_variable(&mut self, n: &VariableType, v: String) ensures held_text(*final(self), *n) == kept(*old(self), v@), others_same(*old(self), *final(self), *n) { unimplemented!() }
//@fn src/runtime/actions/action_flags.rs Context::tokenize_flags
//@ rename flags_given
//@ sig "mut cb: impl FnMut(&str) -> bool," => ""
//@ sig "-> bool" => "-> (r: Vec<String>)"
//@ sig "strings: &[Value]" => "strings: &Vec<Value>"
//@ replace "for string in strings {" => "let mut found: Vec<String> = Vec::new(); for string in it: strings invariant it.seq().len() == strings@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == strings@[i], 0 <= it.index() <= strings@.len(), views(found@) == given(*self, strings@.take(it.index() as int)), { let ghost f0 = found@; proof { assert(strings@.take(it.index() + 1).drop_last() =~= strings@.take(it.index() as int)); }"
//@ replace "for flag in flags.to_string().split_ascii_whitespace() { if cb(flag) { return true; } }" => "let mut each: Vec<String> = split_words(&flags.to_string()); let ghost e0 = each@; found.append(&mut each); proof { assert(views(found@) =~= views(f0) + views(e0)); }"
//@ replace "false" => "proof { assert(strings@.take(strings@.len() as int) =~= strings@); } found"
//@ spec
    ensures views(r@) == given(*self, strings@),
//@end
//@fn src/runtime/actions/action_flags.rs Context::get_local_flags
//@ ret r
//@ sig "strings: &[Value]" => "strings: &Vec<Value>"
//@ replace "let mut flags = Vec::new(); self.tokenize_flags(strings, |flag| { flags.push(flag.to_string()); false });" => "let mut flags: Vec<String> = Vec::new(); let fl = self.flags_given(strings); let mut fi: usize = 0; while fi < fl.len() invariant 0 <= fi <= fl.len(), views(flags@) == views(fl@).take(fi as int), decreases fl.len() - fi, { let flag: &str = fl[fi].as_str(); let ghost f0 = flags@; fi = fi + 1; flags.push(flag.to_string()); proof { assert(views(flags@) =~= views(f0).push(flag@)); assert(views(fl@).take(fi as int) =~= views(fl@).take(fi - 1).push(views(fl@)[fi - 1])); } } proof { assert(views(fl@).take(fi as int) =~= views(fl@)); }"
//@ spec
    // the flags of a :flags argument are those given
    ensures views(r@) == given(*self, strings@),
//@end
//@fn src/runtime/actions/action_flags.rs Context::get_global_flags
//@ ret r
//@ replace "flags.to_string().split(' ').map(|s| s.to_string()).collect::<Vec<String>>()" => "split_at_spaces(&flags.to_string())"
//@ spec
    // otherwise they are exactly the list the script has set
    ensures views(r@) =~= set_flags(self.vars_global),
//@end
//@fn src/runtime/actions/action_flags.rs Context::get_local_or_global_flags
//@ ret r
//@ sig "strings: &[Value]" => "strings: &Vec<Value>"
//@ spec
    ensures views(r@) == (if strings@.len() == 0 { set_flags(self.vars_global) } else { given(*self, strings@) }),
//@end
}
pub open spec fn set_flags(v: VarMap) -> Seq<Seq<char>> { if v@.dom().contains("__flags"@) { let t = v@["__flags"@]; if t is String { flags_in(str_of(t)) } else { pieces(vtext(t)) } } else { seq![] } }
pub uninterp spec fn flags_name() -> VariableType;
#[verifier::external_body] pub fn own_flags() -> (r: VariableType) ensures r == flags_name() { unimplemented!() }
pub open spec fn var_of(e: EditFlags) -> VariableType { match e.name { Some(n) => n, None => flags_name() } }
#[verifier::external_body] pub fn held_string(c: &Context, n: &VariableType) -> (r: String) ensures r@ == held_text(*c, *n) { unimplemented!() }
#[verifier::external_body] pub fn is_listed(l: &Vec<String>, f: &String) -> (r: bool) ensures r == exists|i: int| 0 <= i < views(l@).len() && #[trigger] views(l@)[i] == f@ { unimplemented!() }
#[verifier::external_body] pub fn position_of(l: &Vec<String>, f: &String) -> (r: Option<usize>) ensures match r { Some(i) => i < l@.len() && l@[i as int]@ == f@ && forall|j: int| 0 <= j < i ==> #[trigger] l@[j]@ != f@, None => forall|j: int| 0 <= j < l@.len() ==> #[trigger] l@[j]@ != f@ } { unimplemented!() }
pub open spec fn edited(c: Context, e: EditFlags) -> Seq<Seq<char>> { let old = flags_in(held_text(c, var_of(e))); let g = given(c, e.flags@); match e.action { Action::Set => with_all(seq![], g), Action::Add => with_all(old, g), Action::Remove => without_all(old, g) } }
pub proof fn lemma_given(c: Context, v: Seq<Value>) ensures forall|i: int| 0 <= i < given(c, v).len() ==> word(#[trigger] given(c, v)[i]) decreases v.len() { broadcast use axiom_words; if v.len() > 0 { lemma_given(c, v.drop_last()); assert forall|i: int| 0 <= i < given(c, v).len() implies word(#[trigger] given(c, v)[i]) by { let a = given(c, v.drop_last()); if i < a.len() { assert(given(c, v)[i] == a[i]); } else { assert(given(c, v)[i] == words(vtext(value_of(c, v.last())))[i - a.len()]); } } } }
pub proof fn lemma_joined_push(l: Seq<Seq<char>>, f: Seq<char>) ensures joined(l.push(f)) == (if l.len() == 0 { f } else { joined(l) + seq![' '] + f }) { assert(l.push(f).drop_last() =~= l); }
pub proof fn lemma_pieces_some(s: Seq<char>) ensures pieces(s).len() > 0 decreases s.len() { if s.len() > 0 { lemma_pieces_some(s.drop_last()); } }
pub proof fn lemma_joined_pieces(s: Seq<char>) ensures joined(pieces(s)) == s, pieces(s).len() > 0 decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); lemma_joined_pieces(t); let p = pieces(t); assert(s =~= t.push(s.last()));
    if s.last() == ' ' { lemma_joined_push(p, seq![]); assert(joined(pieces(s)) =~= s); }
    else { let q = p.drop_last().push(p.last().push(s.last())); lemma_joined_push(p.drop_last(), p.last().push(s.last())); lemma_joined_push(p.drop_last(), p.last()); assert(p.drop_last().push(p.last()) =~= p); assert(joined(q) =~= s); } } else { assert(joined(pieces(s)) =~= s); } }
// what the three actions do to a list of flags
pub open spec fn as_sets(e: EditFlags, old: Seq<Seq<char>>, g: Seq<Seq<char>>, new: Seq<Seq<char>>) -> bool { good(new) && match e.action {
    Action::Set => forall|f: Seq<char>| #[trigger] lists(new, f) == lists(g, f),
    Action::Add => new.len() >= old.len() && new.take(old.len() as int) == old && forall|f: Seq<char>| #[trigger] lists(new, f) == (lists(old, f) || lists(g, f)),
    Action::Remove => forall|f: Seq<char>| #[trigger] lists(new, f) == (lists(old, f) && !lists(g, f)) } }
pub proof fn lemma_sets(c: Context, e: EditFlags) requires good(flags_in(held_text(c, var_of(e)))) || e.action is Set ensures as_sets(e, flags_in(held_text(c, var_of(e))), given(c, e.flags@), edited(c, e))
{ let old = flags_in(held_text(c, var_of(e))); let g = given(c, e.flags@); lemma_given(c, e.flags@); let new = edited(c, e);
    match e.action { Action::Set => { lemma_with_all(seq![], g); assert forall|f: Seq<char>| #[trigger] lists(new, f) == lists(g, f) by { if lists(g, f) { let k = choose|k: int| 0 <= k < g.len() && lower_seq(g[k]) == lower_seq(f); assert(lists(new, g[k])); let m = choose|m: int| 0 <= m < new.len() && lower_seq(new[m]) == lower_seq(g[k]); assert(lower_seq(new[m]) == lower_seq(f)); } } }
        Action::Add => { lemma_with_all(old, g); assert forall|f: Seq<char>| #[trigger] lists(new, f) == (lists(old, f) || lists(g, f)) by { if lists(g, f) { let k = choose|k: int| 0 <= k < g.len() && lower_seq(g[k]) == lower_seq(f); assert(lists(new, g[k])); let m = choose|m: int| 0 <= m < new.len() && lower_seq(new[m]) == lower_seq(g[k]); assert(lower_seq(new[m]) == lower_seq(f)); } if lists(old, f) { let k = choose|k: int| 0 <= k < old.len() && lower_seq(old[k]) == lower_seq(f); assert(new.take(old.len() as int)[k] == new[k]); } } }
        Action::Remove => { lemma_without_all(old, g); } } }
#[verifier::external_body] pub fn lower_pieces(s: &String) -> (r: Vec<String>) ensures views(r@) == lowered(pieces(s@)) { unimplemented!() }
pub proof fn lemma_listed(l: Seq<Seq<char>>, c: Seq<Seq<char>>, f: Seq<char>, first: bool) requires word(f), c == (if first { seq![lower_seq(seq![])] + lowered(l) } else { lowered(l) }) ensures lists(l, f) == exists|i: int| 0 <= i < c.len() && #[trigger] c[i] == lower_seq(f)
{ broadcast use axiom_lower_empty; let o = if first { 1int } else { 0 }; if lists(l, f) { let k = choose|k: int| 0 <= k < l.len() && lower_seq(l[k]) == lower_seq(f); assert(c[k + o] == lowered(l)[k]); } if exists|i: int| 0 <= i < c.len() && #[trigger] c[i] == lower_seq(f) { let i = choose|i: int| 0 <= i < c.len() && #[trigger] c[i] == lower_seq(f); if i < o { assert(lower_seq(f).len() == 0) by { assert(lower_seq(Seq::<char>::empty()).len() == 0); } } else { assert(lowered(l)[i - o] == c[i]); } } }
pub proof fn lemma_some(l: Seq<Seq<char>>, g: Seq<Seq<char>>) ensures with_all(l, g).len() >= l.len() decreases g.len() { if g.len() > 0 { lemma_some(l, g.drop_last()); } }
pub proof fn lemma_lens(l: Seq<Seq<char>>, c: Seq<String>, d: Seq<String>) requires views(c) == l, views(d) == lowered(l) ensures c.len() == l.len(), d.len() == l.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] d[i]@ == lower_seq(l[i]), forall|i: int| 0 <= i < l.len() ==> #[trigger] c[i]@ == l[i] { assert(views(c).len() == c.len()); assert(views(d).len() == d.len()); assert forall|i: int| 0 <= i < l.len() implies #[trigger] d[i]@ == lower_seq(l[i]) by { assert(views(d)[i] == lowered(l)[i]); } assert forall|i: int| 0 <= i < l.len() implies #[trigger] c[i]@ == l[i] by { assert(views(c)[i] == l[i]); } }
pub proof fn lemma_swapped(l: Seq<Seq<char>>, f: Seq<char>, pos: int, c: Seq<String>, d: Seq<String>) requires views(c) == l, views(d) == lowered(l), 0 <= pos < d.len(), d[pos]@ == lower_seq(f), forall|j: int| 0 <= j < pos ==> #[trigger] d[j]@ != lower_seq(f) ensures without_one(l, f) == swap_out(l, pos)
{ lemma_lens(l, c, d); assert(first_at(l, f, pos)) by { assert forall|j: int| 0 <= j < pos implies lower_seq(#[trigger] l[j]) != lower_seq(f) by { assert(d[j]@ == lower_seq(l[j])); } } let i = choose|i: int| first_at(l, f, i); assert(first_at(l, f, i)); assert(i == pos) by { if i < pos { assert(lower_seq(l[i]) == lower_seq(f)); } else if pos < i { assert(lower_seq(l[pos]) == lower_seq(f)); } } }
pub proof fn lemma_not_listed(l: Seq<Seq<char>>, f: Seq<char>, d: Seq<String>) requires views(d) == lowered(l), forall|j: int| 0 <= j < d.len() ==> #[trigger] d[j]@ != lower_seq(f) ensures without_one(l, f) == l { assert(views(d).len() == d.len()); assert(lowered(l).len() == l.len()); if lists(l, f) { let k = choose|k: int| 0 <= k < l.len() && lower_seq(l[k]) == lower_seq(f); assert(views(d)[k] == lowered(l)[k]); assert(d[k]@ == lower_seq(f)); } }
pub proof fn lemma_empty_removed(t: Seq<char>, g: Seq<Seq<char>>) requires forall|i: int| 0 <= i < g.len() ==> word(#[trigger] g[i]) ensures joined(without_all(pieces(t), g)) == joined(without_all(flags_in(t), g)) { if t.len() == 0 { lemma_nothing(g); lemma_blank(g); } }
pub proof fn lemma_nothing(g: Seq<Seq<char>>) ensures without_all(seq![], g) == Seq::<Seq<char>>::empty() decreases g.len() { if g.len() > 0 { lemma_nothing(g.drop_last()); } }
pub proof fn lemma_blank(g: Seq<Seq<char>>) requires forall|i: int| 0 <= i < g.len() ==> word(#[trigger] g[i]) ensures without_all(seq![Seq::<char>::empty()], g) == seq![Seq::<char>::empty()] decreases g.len() { broadcast use axiom_lower_empty; if g.len() > 0 { assert forall|i: int| 0 <= i < g.drop_last().len() implies word(#[trigger] g.drop_last()[i]) by { assert(g[i] == g.drop_last()[i]); } lemma_blank(g.drop_last()); assert(word(g[g.len() - 1])); assert(lower_seq(g.last()).len() != 0); assert(lower_seq(Seq::<char>::empty()).len() == 0); } }
impl EditFlags {
//@fn src/runtime/actions/action_flags.rs EditFlags::exec
//@ replace "let mut var_name_ = None;" => "let own = own_flags(); let ghost c0 = *ctx; broadcast use axiom_lower_empty;"
//@ replace "self.name.as_ref().unwrap_or_else(|| { var_name_.get_or_insert_with(|| VariableType::Global(\"__flags\".to_string())) })" => "match &self.name { Some(n) => n, None => &own }"
//@ replace "let mut flags_lc = Vec::new();" => "let mut flags_lc: Vec<String> = Vec::new();"
//@ replace "let mut flags = String::new(); ctx.tokenize_flags(&self.flags, |flag| {" => "let mut flags = String::new(); let fl = ctx.flags_given(&self.flags); let ghost g = views(fl@); let mut fi: usize = 0; proof { assert(g.take(0) =~= Seq::<Seq<char>>::empty()); lemma_given(*ctx, self.flags@); } while fi < fl.len() invariant 0 <= fi <= fl.len(), g == views(fl@), forall|i: int| 0 <= i < g.len() ==> word(#[trigger] g[i]), flags@ == joined(with_all(seq![], g.take(fi as int))), views(flags_lc@) == lowered(with_all(seq![], g.take(fi as int))), forall|s: Seq<char>| #![trigger lower_seq(s)] lower_seq(s).len() == 0 <==> s.len() == 0, decreases fl.len() - fi, { let flag: &str = fl[fi].as_str(); let ghost f = flag@; fi = fi + 1; proof { assert(f == g[fi - 1]); assert(g.take(fi as int).drop_last() =~= g.take(fi - 1)); assert(g.take(fi as int).last() == f); }"
//@ replace "flags_lc.push(flag_lc); } false });" => "flags_lc.push(flag_lc); proof { lemma_joined_push(l0, f); assert(views(flags_lc@) =~= views(c1).push(lower_seq(f))); assert(lowered(l0.push(f)) =~= lowered(l0).push(lower_seq(f))); } } } proof { assert(g.take(g.len() as int) =~= g); lemma_sets(c0, *self); }"
//@ replace "let flag_lc = flag.to_lowercase(); if !flags_lc.contains(&flag_lc)" => "let flag_lc = flag.to_lowercase(); let ghost l0 = with_all(seq![], g.take(fi - 1)); proof { lemma_listed(l0, views(flags_lc@), f, false); lemma_with_all(seq![], g.take(fi - 1)); if l0.len() > 0 { lemma_roundtrip(l0); } assert(with_all(seq![], g.take(fi as int)) == (if lists(l0, f) { l0 } else { l0.push(f) })); } let ghost c1 = flags_lc@; if !is_listed(&flags_lc, &flag_lc)"
//@ replace "ctx.get_variable(var_name).map(|v| v.to_string()).unwrap_or_default().into_owned()" => "held_string(ctx, var_name)"
//@ replace "new_flags.split(' ').map(|f| f.to_lowercase()).collect::<Vec<_>>(); ctx.tokenize_flags(&self.flags, |flag| {" => "lower_pieces(&new_flags); let ghost t0 = new_flags@; let ghost b = flags_in(t0); proof { lemma_joined_pieces(t0); if t0.len() == 0 { assert(views(current_flags@) =~= seq![lower_seq(seq![])] + lowered(b)); } } let fl = ctx.flags_given(&self.flags); let ghost g = views(fl@); let mut fi: usize = 0; proof { assert(g.take(0) =~= Seq::<Seq<char>>::empty()); lemma_given(*ctx, self.flags@); } while fi < fl.len() invariant 0 <= fi <= fl.len(), g == views(fl@), forall|i: int| 0 <= i < g.len() ==> word(#[trigger] g[i]), b == flags_in(t0), new_flags@ == joined(with_all(b, g.take(fi as int))), views(current_flags@) == (if t0.len() == 0 { seq![lower_seq(seq![])] + lowered(with_all(b, g.take(fi as int))) } else { lowered(with_all(b, g.take(fi as int))) }), (new_flags@.len() == 0) == (with_all(b, g.take(fi as int)).len() == 0), decreases fl.len() - fi, { let flag: &str = fl[fi].as_str(); let ghost f = flag@; fi = fi + 1; proof { assert(f == g[fi - 1]); assert(g.take(fi as int).drop_last() =~= g.take(fi - 1)); assert(g.take(fi as int).last() == f); }"
//@ replace "let flag_lc = flag.to_lowercase(); if !current_flags.contains(&flag_lc)" => "let flag_lc = flag.to_lowercase(); let ghost l0 = with_all(b, g.take(fi - 1)); let ghost c1 = current_flags@; proof { lemma_listed(l0, views(c1), f, t0.len() == 0); lemma_some(b, g.take(fi - 1)); assert(with_all(b, g.take(fi as int)) == (if lists(l0, f) { l0 } else { l0.push(f) })); } if !is_listed(&current_flags, &flag_lc)"
//@ replace "current_flags.push(flag_lc); } false });" => "current_flags.push(flag_lc); proof { lemma_joined_push(l0, f); assert(views(current_flags@) =~= views(c1).push(lower_seq(f))); assert(lowered(l0.push(f)) =~= lowered(l0).push(lower_seq(f))); if t0.len() == 0 { assert(views(current_flags@) =~= seq![lower_seq(seq![])] + lowered(l0.push(f))); } } } } proof { assert(g.take(g.len() as int) =~= g); if good(b) { lemma_sets(c0, *self); } }"
//@ replace "ctx.get_variable(var_name).map(|v| v.to_string().into_owned()).unwrap_or_default()" => "held_string(ctx, var_name)"
//@ replace "let mut current_flags = Vec::new(); let mut current_flags_lc = Vec::new();" => ";"
//@ replace "for flag in flags.split(' ') { current_flags.push(flag); current_flags_lc.push(flag.to_lowercase()); } ctx.tokenize_flags(&self.flags, |flag| {" => "let mut current_flags = split_at_spaces(&flags); let mut current_flags_lc = lower_pieces(&flags); let ghost t0 = flags@; let ghost b = pieces(t0); proof { assert(views(current_flags@) =~= b); } let fl = ctx.flags_given(&self.flags); let ghost g = views(fl@); let mut fi: usize = 0; proof { assert(g.take(0) =~= Seq::<Seq<char>>::empty()); lemma_given(*ctx, self.flags@); } while fi < fl.len() invariant 0 <= fi <= fl.len(), g == views(fl@), forall|i: int| 0 <= i < g.len() ==> word(#[trigger] g[i]), views(current_flags@) == without_all(b, g.take(fi as int)), views(current_flags_lc@) == lowered(without_all(b, g.take(fi as int))), decreases fl.len() - fi, { let flag: &str = fl[fi].as_str(); let ghost f = flag@; fi = fi + 1; proof { assert(f == g[fi - 1]); assert(g.take(fi as int).drop_last() =~= g.take(fi - 1)); assert(g.take(fi as int).last() == f); }"
//@ replace "let flag = flag.to_lowercase();" => "let flag = flag.to_lowercase(); let ghost l0 = without_all(b, g.take(fi - 1)); let ghost c1 = current_flags@; let ghost d1 = current_flags_lc@; proof { lemma_lens(l0, c1, d1); }"
//@ replace "current_flags_lc.iter().position(|lflag| lflag == &flag)" => "position_of(&current_flags_lc, &flag)"
//@ replace "current_flags_lc.swap_remove(pos); } false });" => "current_flags_lc.swap_remove(pos); proof { lemma_swapped(l0, f, pos as int, c1, d1); assert(views(current_flags@) =~= swap_out(l0, pos as int)); assert(views(current_flags_lc@) =~= lowered(swap_out(l0, pos as int))); } } else { proof { lemma_not_listed(l0, f, d1); } } } proof { assert(g.take(g.len() as int) =~= g); lemma_empty_removed(t0, g); if good(flags_in(t0)) { lemma_sets(c0, *self); } }"
//@ replace "flags.into()" => "flags"
//@ replace "new_flags.into()" => "new_flags"
//@ replace "current_flags.join(\" \").into()" => "join_words(&current_flags)"
//@ spec
    ensures held_text(*final(ctx), var_of(*self)) == kept(*old(ctx), joined(edited(*old(ctx), *self))), others_same(*old(ctx), *final(ctx), var_of(*self)),
        self.action is Set || good(flags_in(held_text(*old(ctx), var_of(*self)))) ==> as_sets(*self, flags_in(held_text(*old(ctx), var_of(*self))), given(*old(ctx), self.flags@), edited(*old(ctx), *self)),
//@end
}
