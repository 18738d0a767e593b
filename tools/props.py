# Per-property configuration of tools/check.py
STD = ['the assumed contracts on std items listed in coverage.trusted_base', 'Verus, its vstd library and Z3 are correct',
       'a Vec or String holds at most isize::MAX elements/bytes (Rust allocation guarantee)',
       'the extraction (tools/rsx.py, tools/weave.py) copies the functions token for token except for the replacements listed in coverage.verus[].extraction_changes']
PROPS = {
 'C06': dict(verus=['C06.vrs'], level='proof', assumptions=STD + ['Unicode case mapping functions of std are deterministic (uninterpreted in the proof)'],
    note='Proved for all inputs: GlobPattern::compile yields exactly the items the key text denotes, GlobPattern::matches returns true iff they match the folded value, and terminates. Trusted: Peekable<Chars> and char::to_lowercase shims. The path from a :matches test to these two functions is exercised by the bounded finder only.'),
 'C07': dict(verus=['C07.vrs'], level='proof', assumptions=STD + ['Unicode case mapping functions of std are deterministic, and a character has at least one lower-case character', 'no run of stars crosses the last numbered variable (known finding C07-star-run-overflow, precondition runs_fit)'],
    note='Proved for all keys and values: GlobPattern::capture answers what GlobPattern::matches answers for the value folded character by character, and when it succeeds every item of the key takes a piece of the value, each star as little as possible, the pieces follow each other from the first to the last character, exactly the requested numbers are stored, each with its piece, and the pieces put together are the value (unless it holds U+FFFD, known finding); Comparator::matches uses them so. The way from a script to these functions is exercised by the bounded finder.'),
 'C05': dict(verus=['C05.vrs'], level='proof', assumptions=STD,
    note='Proved for all inputs: set_variable and add_set_envelope_event store a string cut to its longest prefix on a character boundary that fits, and leave a value that fits unchanged. extracttext (which passes its own cut to set_variable) and the way from a script to these functions are exercised by the bounded finder only.'),
 'C08': dict(verus=['C08.vrs'], level='proof', assumptions=STD,
    note='Proved for all inputs: set_match_variables writes exactly the numbered slots it is given (the last one wins, numbers outside the table write nothing), clear_match_variables empties exactly the slots whose bit is set, terminates and never indexes outside the table. Which numbers a compiled test requests and which bits a block clears are compared with a reference interpreter by the bounded finder.'),
 'C09': dict(verus=['C09.vrs'], level='proof', assumptions=STD,
    note='Proved for all strings s: the text made by :quotewildcard (unless cut at the size limit), compiled as an octet wildcard key, matches s and nothing else.'),
 'C33': dict(verus=['C33.vrs', 'C33p.vrs'], level='proof', assumptions=STD + ['Unicode case mapping and str::replace of std are deterministic (uninterpreted in the proof)', 'slice::sort_unstable_by_key of std sorts by the key it is given (Reverse of Modifier::order, whose contract gives the precedence)', 'the tokens of a script (C14), the value a literal denotes (C05, C15) and register_variable (C30)'],
    note='Proved for all inputs: each modifier computes its defined text, cut at the variable size on a whole-character boundary, and its precedence is the listed number. parse_set and parse_extracttext: the modifiers compiled are exactly those written, each named one once and every :replace, in falling order of precedence, with the variable and the value written (tags may stand in any order, also between name and value). Modifiers of equal precedence may be compiled in either order; Set::exec applies the compiled modifiers one after the other to the value and stores the result under the name. Whole scripts are compared with a model by the bounded finder.'),
}
RUN = ['the effect of the actions and tests called by the interpreter loop on the run state is assumed by frame contracts (Test::exec, Redirect::exec, Set::exec and the others leave runtime, script stack, position and instruction count alone)', 'iterator steps over Vec<Event>/instructions are modelled by contracted shims']
PROPS.update({
 'C01': dict(verus=['C01.vrs'], level='proof', assumptions=STD + RUN,
    note='Proved for all scripts and inputs: Context::run terminates, executes at most limit+1 instructions (the last one only raises the error), and never indexes outside the script or the stack. Actions and tests called by the loop enter through frame contracts.'),
 'C02': dict(verus=['C02.vrs'], level='proof', assumptions=STD + RUN,
    note='Proved for all scripts and inputs: Include::exec implements :once, :optional, location, the empty name and the nesting limit; Context::run never holds more active scripts than the limit.'),
 'C04': dict(verus=['C04.vrs'], level='proof', assumptions=STD + RUN,
    note='Proved for all scripts and inputs: whatever final event is pending when a run ends is delivered exactly once, FileInto::exec cancels it exactly when it must. Redirect::exec, Reject and the other actions enter by contract and are compared with a reference interpreter by the bounded finder.'),
 'C10': dict(verus=['C10.vrs'], level='proof', assumptions=STD + ['IEEE-754 comparison of f64 is a fixed deterministic total function of its operands (uninterpreted with its order laws)'],
    note='Proved for all inputs: the relational comparisons of values and strings give the truth value of the stated order.'),
 'C12': dict(verus=['C12.vrs'], level='proof', assumptions=STD + ['IEEE-754 operations of f64 are deterministic (uninterpreted in the proof)'],
    note='Proved for all operands: every arithmetic, logical and comparison operator computes its defined value and never overflows or panics.'),
 'C13': dict(verus=['C13.vrs', 'C13p.vrs', 'C13l.vrs'], level='proof', assumptions=STD + ['host functions are arbitrary but return or suspend', 'names in an expression stand for the variables and functions parse_expr_fnc_or_var finds (compared with a model by the finder); str::parse for numbers and String::from_utf8 of std', 'an expression has fewer than 2^31 tokens and less than 2^32 octets', 'function numbers handed out by the compiler stay clear of the three reserved ones'],
    note='Proved for all expressions: the expression lexer (Tokenizer::next, Tokenizer::parse_buf) splits every text into exactly the tokens of a lexical grammar (words, numbers, true and false, string constants with escapes, operators of one and two characters, the sign of a minus) and refuses every other text; ExpressionParser::parse turns the tokens of every well-formed expression (constants, variables, unary and binary operators by precedence and left grouping, parentheses, calls, lists, indexing) into the code of that expression, with each && and || jumping exactly over its right side, and either writes what the specified step-by-step compiler writes or reports an error; Context::eval_expression equals the stack-machine meaning of that code, including short-circuit jumps and suspension on host functions; and that meaning is the value of the expression tree (lemma_expression). Whole expressions in text form are compared with an independent evaluator by the bounded finder.'),
})
MAIL = ['mail_parser delivers header offsets inside the raw message and a message with at least one part; HeaderName::parse accepts only letters, digits, - and _; mail_builder writes a message id and a date without line breaks other than those of the host name', 'the configured local host name holds no line break', 'eval_value is a function of message, envelope and variables']
PROPS.update({
 'C03': dict(verus=['C03.vrs'], level='proof', assumptions=STD + MAIL + ['the compiler places a vacation action directly behind its guard (Test(Vacation), Jz, Vacation), so the guard\'s count of outgoing mails still holds when the reply is sent', 'fewer than usize::MAX mails leave in one run'],
    note='Proved for all inputs: Redirect::exec, Vacation::exec and Notify::exec send at most one mail each, count every mail they send, send none when the limit is reached (vacation: its guard TestVacation::exec refuses), and Redirect::exec neither exceeds the redirect limit nor redirects to the own address or a message with too many Received fields. Events of the host loop are exercised by the bounded finder.'),
 'C18': dict(verus=['C18.vrs', 'C18e.vrs'], level='proof', assumptions=STD + MAIL + ['enclose: messages stay below 2^58 octets; the generated date, message id and boundary and user_from_field hold no line break; mail_parser reads the names it knows ignoring case'],
    note='Proved for all inputs: remove_crlf removes every CR and LF; write_header, Vacation::exec and Notify::exec write a header block whose number of line breaks is exactly that of their own fields (To and References of a vacation reply are the raw fields of the incoming message and keep its folding); Date and Message-ID are never duplicated by a mailto URI and own fields are never copied; the subject is cut at 256 characters. Enclose::exec: the enclosing message has exactly the parts text and untouched original; all of its fields are plain names with values without line breaks, none of them a protected field from the script; From, Date, Message-ID, Subject and Content-Type are there once unless :headers gives more; its size grows by exactly what is added; walks over the old parts are ended. replace is exercised by the bounded finder.'),
 'C24': dict(verus=['C24.vrs'], level='proof', assumptions=STD + MAIL[:1] + MAIL[2:],
    note='Proved for all texts: sanitize_address yields only plain single addresses made of characters of its argument, and a bare address unchanged; Redirect::exec sends only to the sanitised address and changes nothing otherwise.'),
 'C25': dict(verus=['C25.vrs'], level='proof', assumptions=STD + MAIL + ['HeaderValue::as_text and the address lists of mail_parser are uninterpreted functions of the field'],
    note='Proved for all messages: the vacation guard asks the host (DuplicateId) exactly when the suppression rules allow a reply and refuses otherwise; Vacation::exec then sends exactly one mail to the envelope sender.'),
 'C26': dict(verus=['C26.vrs'], level='proof', assumptions=STD + MAIL[:1],
    note='Proved for all texts: parse_uri accepts exactly scheme ":" nonempty target with a valid scheme; parse_mailto terminates without panic, and yields at least one recipient, each with exactly one @ and no line break, and header names without line breaks. That every percent-escape is decoded exactly once is compared with an independent decoder by the bounded finder.'),
})
CCOMP = ['the parsers of single commands only append code without open jumps and leave the open blocks alone (frame contracts), block_end and map_local_vars change no control flow (proved on their real code under C30)', 'a script is shorter than 2^31 bytes', 'a script has fewer than 2^32 variables']
COMP = ['the parsers of single tests and expressions change no control flow already compiled and leave the declared extensions alone (frame contracts)', 'a compiled script is shorter than 4 GiB', 'the tokenizer delivers finitely many tokens (proved for its real code under C14)']
PROPS.update({
 'C27': dict(verus=['C28.vrs', 'C28c.vrs', 'C27.vrs'], level='proof', assumptions=STD + RUN + COMP + CCOMP + ['Capability::parse and the conversion back to text are exercised by the bounded finder'],
    note='Proved for all scripts: has_capability, validate_argument, add_capability and parse_require decide and record exactly what the open blocks declare; parse_test reaches the parser of an extension test only when the extension is declared; a newly declared extension is always listed in the Require instruction of its block; Context::run passes a Require only when every listed extension is allowed and reports exactly a refused one. Compiler::compile reaches the parser of an extension command, and writes an instruction of an extension, only when the extension is declared. Tagged arguments are exercised exhaustively by the bounded finder.'),
 'C28': dict(verus=['C28.vrs', 'C28c.vrs', 'C28i.vrs'], level='proof', assumptions=STD + COMP + CCOMP + ['ignore_test and ignore_instruction: fewer than 2^31 tokens are left, Tokenizer::peek and next deliver them in order (their real code is proved under C14)'],
    note='Proved for all token streams: parse_test terminates without overflow or failed lookup, leaves the code before it alone, ends with one conditional jump, and every jump it writes leads forward inside its own code: allof leaves a list on the first false test, anyof on the first true one, all jumps of one list leading to its end; set_not negates every test. Compiler::compile leaves no jump without a target: in every script it accepts each jump leads to a place inside the script, the head of a loop (while, foreverypart) leads behind the jump back to exactly that head, a closing block directs exactly the jumps that wait for it, and break and continue leave exactly the loops they must. An unknown test or command is skipped exactly up to the end of its own arguments, blocks and lists (ignore_test and ignore_instruction against a specification of where it ends). The truth value of whole scripts is compared with a reference evaluator by the bounded finder.'),
})
PROPS.update({
 'C14': dict(verus=['C14.vrs'], level='proof', assumptions=STD + ['the keyword table (phf) is a function of the text', 'std::str::parse of ASCII digits is decimal value or an error', 'a script is shorter than usize::MAX - 1 bytes'],
    note='Proved for all scripts: the tokenizer delivers exactly the lexemes of a lexical grammar (specification lex) and terminates without overflow, index error or failed conversion; a comment reaches to the end of its line or to the first */ whatever it holds and leaves no trace (lemmas); a number token carries digits times unit, limited to the largest number; a quoted constant is the bytes read; expect_number accepts exactly numbers below its limit.'),
 'C15': dict(verus=['C14.vrs', 'C15.vrs'], level='proof', assumptions=STD + ['u8/u32::from_str_radix, char::from_u32 and encode_utf8 of std', 'names of variables are resolved by parse_variable (assumed total)'],
    note='Proved for all scripts: every text can be written as a quoted string or (when it ends with a line break) as a multi-line string and the tokenizer reads it back octet for octet (lemma_quoted, lemma_multi_line over the contract of Tokenizer::next). Proved for all strings: tokenize_string terminates without panic or index error, a text without ${ is kept unchanged, a reference that is not well formed stays exactly as written behind exactly the text before it, only well-formed names reach the lookup of variables, and the number of a match variable is below both limits. The values substituted at run time are compared with an independent decoder by the bounded finder.'),
 'C29': dict(verus=['C14.vrs', 'C15.vrs', 'C28.vrs', 'C28c.vrs', 'C29.vrs'], level='proof', assumptions=STD + COMP + CCOMP,
    note='Proved for all scripts: tokenizer, string decoder and the parser of tests terminate without overflow, failed lookup or unbounded recursion; strings, tests, match variables and names of variables beyond their limits are refused. Compiler::compile terminates on every script without overflow, failed lookup or panic, and a script it accepts is not longer than the limit, nests blocks, foreverypart loops and includes no deeper than their limits and needs no more variables than both limits. Every limit is also compared at and beyond its value by the bounded finder, which also compiles random token sequences.'),
})
EDIT = ['HeaderName::parse accepts only letters, digits, - and _ and is a function of the text', 'eval_value is a function of message, envelope and variables', 'the walk of the MIME parts comes to each part once', 'mail_parser delivers header offsets in order inside the raw message, fields shorter than 4 GiB', 'whether a value matches the keys of deleteheader is an uninterpreted function of the value (decided under C06, C07, C10)']
PROPS.update({
 'C16': dict(verus=['C16.vrs'], level='proof', assumptions=STD + EDIT,
    note='Proved for all inputs: AddHeader::exec adds exactly one field of the evaluated name and value at the asked end of the current part and leaves every other field alone; a protected or unusable name adds nothing; the value has no line break. The bytes of the edited message are compared with a model by the bounded finder.'),
 'C17': dict(verus=['C17.vrs'], level='proof', assumptions=STD + EDIT,
    note='Proved for all inputs: DeleteHeader::exec removes exactly the fields find_headers and the value match select, from every listed part, keeps the order of the others and never touches a protected field. The bytes of the edited message are compared with a model by the bounded finder.'),
 'C19': dict(verus=['C19.vrs', 'C36e.vrs'], level='proof', assumptions=STD + EDIT + ['the tokens of a script (C14) and the values literals denote (C05, C15) in parse_deleteheader'],
    note='Proved for all inputs: find_headers returns exactly the fields of the part (or of the part and all parts nested in it with :anychild) whose name is listed, in order, and with :index exactly the one counted from the asked end; parse_deleteheader compiles :index n to n, or -n with :last in either order. Values and matching are compared with a model by the bounded finder.'),
})
PROPS.update({
 'C22': dict(verus=['C22.vrs', 'C04.vrs'], level='proof', assumptions=STD + ['str::to_lowercase, split and split_ascii_whitespace of std (their pieces are uninterpreted or specified in coverage.trusted_base)', 'a variable that holds a text gives it back (C05, C30)'],
    note='Proved for all lists and texts: EditFlags::exec stores exactly the list obtained by setting, adding or removing the given flags one after the other; as sets (ignoring case) that is the given set, the union and the difference, each flag at most once, present ones keeping their order on addflag; a stored list reads back as the same list; keep and fileinto attach the flags they are given or exactly the list the script has set. hasflag is compared with a model by the bounded finder.'),
})
PROPS.update({
 'C30': dict(verus=['C30.vrs', 'C30r.vrs', 'C30c.vrs', 'C05.vrs', 'C29.vrs'], level='proof', assumptions=STD + RUN + ['str::to_ascii_lowercase of std is a function; names reach register_local_var in lower case (register_variable lowers them)', 'a script has fewer than 2^32 variables', 'the compiler opens a block by pushing an empty one and closes it by block_end and pop (Compiler::compile)'],
    note='Proved for all scripts: register_local_var gives a new name a slot no other known name has and a known name its own slot, in the innermost block or (:local) for the whole script; get_local_var finds the innermost one; block_end clears exactly the slots of its block and gives them back; entering and leaving blocks keeps all of that; the final places of :local variables collide with no other slot and lie inside the table; the leaves of map_local_vars move every reference to its place. At run time: a read gives the value of exactly that slot, name or envelope entry, a write changes exactly it, a text with references is its pieces in order, and Clear empties exactly the slots of its block. That map_local_vars visits every argument of every action and test is checked for each of them by the bounded finder.'),
})
PROPS.update({
 'C32': dict(verus=['C04.vrs', 'C32.vrs'], level='proof', assumptions=STD + EDIT + ['every piece of received text a part refers to lies inside the message and every part is nested in one with a lower number (writable); mail_parser delivers messages like that, and the fields and parts of a message follow each other without a gap (as_received) - both checked on every case of the finder by the bytes it compares'],
    note='Proved for all messages: build_message terminates, never cuts outside the message and writes exactly the bytes its parts stand for (received fields and bodies as received, renamed fields with the new name, made fields and parts as made, between the received text around them); a part that has not been edited is written byte for byte as received wherever it stands, and an unedited message as a whole; build_message_id delivers exactly that, under a new number, only when something has been changed. What replace and enclose put into the parts is compared with a model by the bounded finder.'),
})
PROPS.update({
 'C11': dict(verus=['C11.vrs'], level='proof', assumptions=STD + ['one value against one key is an uninterpreted function of both (decided under C06, C07, C10)', 'eval_value is a function of message, envelope and variables', 'closures: the bodies of the visitors of TestEnvelope::exec and TestHeader::exec are cut out and verified as functions; that the walk calls them for each value is exercised by the finder'],
    note='Proved for all lists: TestString::exec with one key is true iff some value it looks at matches it, and with several keys what the known finding says; :count compares the number of non-empty values with some key; :list asks the host iff some value is not empty; "not" inverts. The visitors of the envelope and header tests return true iff some key matches (is, contains, value). Address, hasflag and :matches visitors are compared with a model by the bounded finder.'),
 'C20': dict(verus=['C20.vrs'], level='proof', assumptions=STD + ['IEEE-754 facts on f64: scaling by 10 or 100, ceil and the conversion to i64 are monotone and exact on the tenths (axiom_scale, axiom_ceil, axiom_int, axiom_tenths)'],
    note='Proved for all statuses: the numbers of the spam and virus status lie in their ranges, a higher probability never gives a lower one, and the conversion of a number to a status and back is the identity in range.'),
 'C21': dict(verus=['C21.vrs', 'C18e.vrs'], level='proof', assumptions=STD + EDIT,
    note='Proved for all inputs: TestSize::exec compares strictly with exactly the current message size; AddHeader, insert_header and DeleteHeader change that size by exactly the bytes of the fields they add or remove (a renamed field counts its new name), Enclose::exec by exactly what it puts around the message. replace and convert take the size of the rebuilt message; the finder compares with it.'),
 'C23': dict(verus=['C23.vrs'], level='proof', assumptions=STD + ['the text is at most isize::MAX bytes'],
    note='Proved for all texts: parse_envelope_address accepts only well-formed addresses that are part of the text and accepts every plain one unchanged; Context::set_envelope stores exactly such an address or nothing.'),
 'C31': dict(verus=['C31.vrs', 'C31r.vrs'], level='proof', assumptions=STD + RUN + ['mail_parser numbers the parts of a message as they appear, a part and everything below it in one run of numbers (numbered), fewer than 2^32 parts'],
    note='Proved for all messages: find_nested_parts_ids lists the current part (outermost loop) and every part below it depth first, each once; SubpartIterator delivers its parts, with :anychild followed by everything below each; in Context::run a loop walks exactly that list, the current part is the next one of it, and leaving loops restores the part and the rest of the walk outside. Content-type restrictions are compared with a model by the bounded finder.'),
 'C34': dict(verus=['C34.vrs'], level='proof', assumptions=STD + ['the calendar arithmetic of mail_parser (DateTime::from_timestamp, to_timestamp, day_of_week, julian_day) and its reading of dates are trusted; known findings list where it is wrong'],
    note='Proved for all instants and zones: Zone::eval shifts to exactly the requested zone keeping the instant, DatePart::eval gives the field of the shifted date, parse_timezone reads exactly sign and four digits. The calendar itself is compared with an independent computation by the bounded finder.'),
'C35': dict(verus=['C35.vrs', 'C35p.vrs'], level='proof', assumptions=STD + ['mail_parser presents the fields, addresses, dates and ids of a message (flat, read_addresses, read_date, read_ids, read_text are uninterpreted), HeaderName::parse and the case-insensitive equality of field names', 'format!, str::from_utf8, trim, split_once, str::parse::<i32> and to_lowercase'],
    note='Proved for all messages and all variables: Context::eval_header and HeaderVariable::eval_part give exactly the asked part of the asked fields and entries, in message order (postcondition answers(asked)); Context::variable gives the body and part they name; parse_header_variable reads NAME[i].PART[j] as it is written (lemma_written) and parse_variable maps every namespace and item. The finder compares with a reference evaluation.'),
'C36': dict(verus=['C36.vrs', 'C36e.vrs'], level='proof', assumptions=STD + ['the tokens of a script (C14) and the value a literal denotes (C05, C15): Tokenizer::unwrap_next, expect_number and expect_static_string take the next token, tokenize_string only marks earlier tests', 'has_capability is decided under C27; the checks of literal addresses and URIs in parse_notify under C26', 'eq_ignore_ascii_case, split and trim of std', 'HeaderName::parse of mail_parser; validate_match, lookup_relational, lookup_comparator and parse_variable_name (decided under C05, C11, C27 or compared with a model); Tokenizer::peek shows the token next takes'],
    note='Proved for all token sequences: when parse_fileinto, parse_redirect, parse_notify, parse_vacation, parse_include, parse_replace and parse_enclose succeed, the tokens read are tagged arguments in some order, each at most once and at most one of those that exclude each other, followed by the text the action takes, and the instruction emitted holds exactly their values, the default where a tag is missing; parse_keep, parse_addheader, parse_deleteheader, parse_flag_action and parse_convert do the same for their actions, and parse_match_type and parse_comparator yield the match type and comparator written; parse_string, parse_strings and parse_strings_token read exactly one text or list; validate_argument refuses a second use of a slot. That the running action passes the values on is compared with a model by the bounded finder.'),
'C37': dict(verus=['C37.vrs'], level='proof', assumptions=STD + ['the conversions into Cow<str>, Capability, Metadata, SpamStatus, VirusStatus and Variable of the argument (impl Into), HeaderName::parse, and the set and map types of the settings (insert, remove)', 'set_envelope is decided under C23; map/filter_map and collect of the iterator forms take every element in order; the defaults of new() are only compared with a model by the finder'],
    note='Proved for all values and all earlier states: every set_ and with_ function of Runtime, Compiler and Context writes exactly the field it names with the value given (a set or map gains or loses exactly that entry) and leaves every other field as it was (frame condition on the whole structure); the full name is stored with quotes and backslashes escaped; has_message_changed tells whether an edited message exists. That the field then governs what scripts do is decided under C01 to C05, C16, C17, C20, C25, C27 and C29, and compared with a model by the bounded finder.'),
})
NA = {}
