#[verifier::external_body]
pub struct Value { v: u8 }
pub uninterp spec fn eval_of(c: Context, v: Value) -> Variable;
//@type src/compiler/grammar/actions/action_set.rs Modifier
//@end
//@type src/lib.rs Runtime
//@ keep max_variable_size
//@end
//@type src/lib.rs Context
//@ keep runtime
//@end
impl Context<'_> {
    // Context::eval_value: some function of the context and the value (uninterpreted)
    #[verifier::external_body]
    pub fn eval_value(&self, v: &Value) -> (r: Variable) ensures r == eval_of(*self, *v) { unimplemented!() }
}
pub open spec fn modified(md: Modifier, ctx: Context, s: Seq<char>, r: Seq<char>) -> bool {
    let max = ctx.runtime.max_variable_size as nat;
    match md {
        Modifier::Lower => r == lower_seq(s),
        Modifier::Upper => r == upper_seq(s),
        Modifier::LowerFirst => cut(M::LowFirst, s, max, r),
        Modifier::UpperFirst => cut(M::UpFirst, s, max, r),
        Modifier::QuoteWildcard => cut(M::Wild, s, max, r),
        Modifier::QuoteRegex => cut(M::Regex, s, max, r),
        Modifier::EncodeUrl => cut(M::Url, s, max, r),
        Modifier::Length => r == digits(s.len()),
        Modifier::Replace { find, replace } => r == replaced(s, vtext(eval_of(ctx, find)), vtext(eval_of(ctx, replace))),
    }
}
impl Modifier {
//@fn src/compiler/grammar/actions/action_set.rs Modifier::order
//@ ret r
//@ spec
    ensures r == match *self { Modifier::Lower => 41nat, Modifier::Upper => 40, Modifier::Replace { .. } => 40, Modifier::LowerFirst => 31, Modifier::UpperFirst => 30,
        Modifier::QuoteRegex => 21, Modifier::QuoteWildcard => 20, Modifier::EncodeUrl => 15, Modifier::Length => 10 },
//@end
//@fn src/runtime/actions/action_set.rs Modifier::apply
//@ ret r
//@ loops 8
//@ replace "input.chars().enumerate()" => "enum_chars(input)"
//@ replace "char.to_lowercase()" => "lower_chars(char)"
//@ replace "char.to_uppercase()" => "upper_chars(char)"
//@ replace "input.chars().count().to_string()" => "count_string(input)"
//@ replace "char.encode_utf8(&mut buf).as_bytes().iter()" => "char_bytes(char)"
//@ replace "write!(result, \"%{byte:02x}\").ok()" => "push_pct(&mut result, byte)"
//@ replace "let mut buf = [0; 4];" => ""
//@ replace "input.replace(ctx.eval_value(find).to_string().as_ref(), ctx.eval_value(replace).to_string().as_ref(),)" => "str_replace(input, ctx.eval_value(find), ctx.eval_value(replace))"
//@ spec
    ensures modified(*self, *ctx, input@, r@),
//@ at start
    let ghost s = input@;
    proof { axiom_char_eq(); lemma_blen_mono(s, 0); assert(s.take(s.len() as int) == s); assert(s.take(0) == Seq::<char>::empty()); broadcast use axiom_utf8c; }
//@ loop 0 for it it
    invariant s == input@, max_len == ctx.runtime.max_variable_size, *self is LowerFirst,
        it.seq() == Seq::new(s.len(), |i: int| (i as usize, s[i])), 0 <= it.index() <= s.len(), result@ == full(M::LowFirst, s.take(it.index() as int)),
//@ at loop 0 start
    proof { axiom_char_eq(); }
    let ghost done = result@;
    let ghost c0 = char;
    proof { lemma_full(M::LowFirst, s, it.index() as int); lemma_full_mono(M::LowFirst, s, it.index() + 1); lemma_blen_take(s, it.index() as int); lemma_blen_mono(s, it.index() + 1); lemma_pieces(s[it.index() as int]);  }
//@ loop 1 for it jt
    invariant jt.seq() == char_lower(c0), 0 <= jt.index() <= jt.seq().len(), result@ == done + char_lower(c0).take(jt.index() as int),
//@ at loop 1 end
    proof { assert(char_lower(c0).take(jt.index() + 1) =~= char_lower(c0).take(jt.index() as int).push(char_lower(c0)[jt.index() as int])); }
//@ at after loop 1
    proof { assert(char_lower(c0).take(char_lower(c0).len() as int) =~= char_lower(c0)); }
//@ at loop 0 end
    proof { assert(result@ =~= done + piece(M::LowFirst, it.index() as int, c0)); }
//@ loop 2 for it it
    invariant s == input@, max_len == ctx.runtime.max_variable_size, *self is UpperFirst,
        it.seq() == Seq::new(s.len(), |i: int| (i as usize, s[i])), 0 <= it.index() <= s.len(), result@ == full(M::UpFirst, s.take(it.index() as int)),
//@ at loop 2 start
    proof { axiom_char_eq(); }
    let ghost done = result@;
    let ghost c0 = char;
    proof { lemma_full(M::UpFirst, s, it.index() as int); lemma_full_mono(M::UpFirst, s, it.index() + 1); lemma_blen_take(s, it.index() as int); lemma_blen_mono(s, it.index() + 1); lemma_pieces(s[it.index() as int]);  }
//@ loop 3 for it jt
    invariant jt.seq() == char_upper(c0), 0 <= jt.index() <= jt.seq().len(), result@ == done + char_upper(c0).take(jt.index() as int),
//@ at loop 3 end
    proof { assert(char_upper(c0).take(jt.index() + 1) =~= char_upper(c0).take(jt.index() as int).push(char_upper(c0)[jt.index() as int])); }
//@ at after loop 3
    proof { assert(char_upper(c0).take(char_upper(c0).len() as int) =~= char_upper(c0)); }
//@ at loop 2 end
    proof { assert(result@ =~= done + piece(M::UpFirst, it.index() as int, c0)); }
//@ loop 4 for it it
    invariant s == input@, max_len == ctx.runtime.max_variable_size, *self is QuoteWildcard,
        it.seq() == s, 0 <= it.index() <= s.len(), result@ == full(M::Wild, s.take(it.index() as int)),
//@ at loop 4 start
    proof { axiom_char_eq(); }
    let ghost done = result@;
    let ghost c0 = char;
    proof { lemma_full(M::Wild, s, it.index() as int); lemma_full_mono(M::Wild, s, it.index() + 1); lemma_blen_take(s, it.index() as int); lemma_blen_mono(s, it.index() + 1); lemma_pieces(s[it.index() as int]);  }
//@ at loop 4 end
    proof { assert(result@ =~= done + piece(M::Wild, it.index() as int, c0)); }
//@ loop 5 for it it
    invariant s == input@, max_len == ctx.runtime.max_variable_size, *self is QuoteRegex,
        it.seq() == s, 0 <= it.index() <= s.len(), result@ == full(M::Regex, s.take(it.index() as int)),
//@ at loop 5 start
    proof { axiom_char_eq(); }
    let ghost done = result@;
    let ghost c0 = char;
    proof { lemma_full(M::Regex, s, it.index() as int); lemma_full_mono(M::Regex, s, it.index() + 1); lemma_blen_take(s, it.index() as int); lemma_blen_mono(s, it.index() + 1); lemma_pieces(s[it.index() as int]);  }
//@ at loop 5 end
    proof { assert(result@ =~= done + piece(M::Regex, it.index() as int, c0)); }
//@ loop 6 for it it
    invariant s == input@, max_len == ctx.runtime.max_variable_size, *self is EncodeUrl,
        it.seq() == s, 0 <= it.index() <= s.len(), result@ == full(M::Url, s.take(it.index() as int)),
//@ at loop 6 start
    proof { axiom_char_eq(); }
    let ghost done = result@;
    let ghost c0 = char;
    proof { lemma_full(M::Url, s, it.index() as int); lemma_full_mono(M::Url, s, it.index() + 1); lemma_blen_take(s, it.index() as int); lemma_blen_mono(s, it.index() + 1); lemma_pieces(s[it.index() as int]);  }
//@ at loop 6 end
    proof { assert(result@ =~= done + piece(M::Url, it.index() as int, c0)); }
//@ loop 7 for it jt
    invariant jt.seq() == utf8c(c0), 0 <= jt.index() <= jt.seq().len(), result@ == done + pcts(utf8c(c0).take(jt.index() as int)),
//@ at loop 7 end
    proof { assert(utf8c(c0).take(jt.index() + 1).drop_last() =~= utf8c(c0).take(jt.index() as int)); assert(result@ =~= done + pcts(utf8c(c0).take(jt.index() + 1))); }
//@ at after loop 7
    proof { assert(utf8c(c0).take(utf8c(c0).len() as int) =~= utf8c(c0)); }
//@end
}
