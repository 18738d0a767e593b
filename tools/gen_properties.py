#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = [observe]
    assert len(title) <= 80, title
    P.append(d)
R = 'src/runtime/'
p('C01', 'Script execution is bounded by the configured CPU limit',
  'A filter run executes at most the configured number of instructions, counted across all included scripts and across suspensions for host events; when the budget is exhausted the run returns the CPU-limit error and stops. The interpreter itself adds no loop that is not charged to that budget, so every run over any script terminates.',
  ['programs', 'histories', 'configurations'], 'every compiled script, every sequence of host answers, every limit',
  'One test runs one infinite loop at the default limit; loops through while, foreverypart, include and jumps are not covered in combination.',
  [R + 'context.rs'], [('instruction counter check at the head of the fetch loop', R + 'context.rs Context::run'), ('script stack pop and unwinding', R + 'context.rs Context::finish_loop')], 'Context::run results')
p('C02', 'Includes respect the nesting limit, run-once and scope rules',
  'At no time are more scripts active at once than the configured number of nested includes (the main script counted as one); an include that would exceed it fails with the include-limit error. A script included with :once that has already been loaded is not executed again, and when an included script ends the includer continues after the include with its own local and match variables unchanged.',
  ['programs', 'histories', 'configurations'], 'every include graph, including cycles, cached and host-supplied scripts, and every limit',
  'The tests sample a few include trees at the default limit.',
  [R + 'actions/action_include.rs', R + 'context.rs'], [('limit, cache and once decision', R + 'actions/action_include.rs Include::exec'), ('script stack push/pop', R + 'context.rs Context::run')], 'Context::run events')
p('C03', 'Outgoing mail never exceeds the configured limits',
  'In one run the number of redirections never exceeds the redirect limit and the number of mails handed to the host for sending (redirect, vacation, notify by mail or by another method) never exceeds the outgoing-message limit, whatever the script does. A message that already carries the configured number of Received headers, or a redirect to the own address the script runs for, is never redirected.',
  ['programs', 'inputs', 'configurations'], 'every script, message and limit setting',
  'Tests try a single redirect loop; the counters are shared by four actions on several paths.',
  [R + 'actions/action_redirect.rs', R + 'actions/action_vacation.rs', R + 'actions/action_notify.rs'],
  [('redirect guard', R + 'actions/action_redirect.rs Redirect::exec'), ('vacation guard', R + 'actions/action_vacation.rs Vacation::exec'), ('notify guard', R + 'actions/action_notify.rs Notify::exec')], 'SendMessage / Notify events')
p('C04', 'Mail is never lost: the implicit keep survives until it is cancelled',
  'Every run that is driven to its end delivers the message exactly once through a final keep unless the script executed an action that cancels the implicit keep (discard, reject, fileinto or redirect without :copy), and a later explicit keep restores it. If the run ends with a runtime error (CPU limit, include limit, script error, capability error, invalid instruction) the pending keep is still delivered after the error is reported.',
  ['programs', 'histories', 'inputs'], 'every script, every message, every error point, every sequence of host answers',
  'Tests check some scripts that end normally; the error paths and their queue are sampled at one point.',
  [R + 'context.rs', R + 'actions/action_fileinto.rs', R + 'actions/action_redirect.rs'],
  [('final event', R + 'context.rs Context::run (end of script)'), ('error exit', R + 'context.rs Context::finish_loop')], 'Context::run events')
p('C05', 'Stored variables never exceed the configured size',
  'Whatever a script stores in a local, global or envelope variable by set, let or extracttext is at most the configured number of bytes; a longer string is cut to its longest prefix that ends on a character boundary and fits, and a value that fits is stored unchanged. (A number counts as two bytes, an array as the sum of its elements plus two each.)',
  ['inputs', 'programs', 'configurations'], 'every value, including multi-byte characters across the limit, and every limit',
  'One test stores ASCII text past the default limit; character boundaries and the other writers are not covered.',
  [R + 'actions/action_set.rs', R + 'actions/action_mime.rs'], [('truncation', R + 'actions/action_set.rs Context::set_variable'), ('extracttext', R + 'actions/action_mime.rs ExtractText::exec')], 'Context::global_variable')
p('C06', 'Wildcard matching (:matches) is exact',
  'A :matches test is true exactly when the key, read as a wildcard pattern (* any run of characters, ? exactly one character, backslash quotes the next character, everything else itself), matches the whole value; with the case-insensitive comparator both sides are compared after the same case folding. Matching always terminates.',
  ['inputs'], 'every pattern and every value, of any length, in any script',
  'A table of about 20 pattern/value pairs is tested; the backtracking matcher has unboundedly many states.',
  [R + 'tests/glob.rs', R + 'tests/comparator.rs'], [('pattern compilation', R + 'tests/glob.rs GlobPattern::compile'), ('matcher', R + 'tests/glob.rs GlobPattern::matches')], 'string :matches')
p('C07', 'Wildcard captures agree with the match and rebuild the value',
  'Asking for captured match variables never changes the outcome of a :matches test. When it succeeds, ${0} is the whole value and ${n} is the text taken by the n-th wildcard (the leftmost wildcards as short as possible, a run of stars giving empty text to all but its last), so that the pattern with its wildcards replaced by the captured texts is the value.',
  ['inputs'], 'every pattern with any number of wildcards and every value',
  'Captures are tested on a few short patterns; positions beyond the variable limit and multi-byte case changes are not.',
  [R + 'tests/glob.rs'], [('capturing matcher', R + 'tests/glob.rs GlobPattern::capture')], 'string :matches followed by ${n}')
p('C08', 'Match variables: only requested slots change, indexes never escape',
  'A successful match sets exactly the match variables the script reads, each to the text of its own group or wildcard, and a test that does not match leaves all of them as they were; a reference reads the tests of the innermost enclosing block or condition that has set one, and leaving a block at its end clears exactly the variables that were set inside it. No pattern, group count or variable number makes the interpreter index outside its tables or fail.',
  ['inputs', 'programs'], 'every bit set of requested positions, every pattern and number of groups',
  'Tests read a handful of low-numbered match variables.',
  [R + 'variables.rs', R + 'tests/comparator.rs'], [('set/clear', R + 'variables.rs'), ('regex captures', R + 'tests/comparator.rs eval_regex')], '${n} after a test')
p('C09', 'Quoted wildcards match only themselves',
  'For every string s, the text produced from s by :quotewildcard, used as a :matches key with the octet comparator, matches s and nothing else. Quoting adds only backslashes, one in front of each *, ? and backslash of s.',
  ['inputs'], 'every string',
  'One literal is tested.',
  [R + 'actions/action_set.rs', R + 'tests/glob.rs'], [('quoting', R + 'actions/action_set.rs Modifier::apply'), ('pattern compilation', R + 'tests/glob.rs GlobPattern::compile')], 'set :quotewildcard; string :matches')
p('C10', 'Relational and numeric comparison is coherent',
  'For all operands and every comparator exactly one of lt, eq, gt holds for non-NaN operands, and le, ge and ne are the corresponding combinations, as used by :value, :count and expression operators. Integers compare by their exact value, an integer and a fraction compare numerically, and non-numeric text counts as zero where a number is required.',
  ['inputs'], 'all pairs of integers, floats and strings; all six relations; all comparators',
  'Tests use small numbers only.',
  [R + 'tests/comparator.rs', R + 'expression.rs', R + 'mod.rs'], [('relations', R + 'tests/comparator.rs RelationalMatch::cmp'), ('number order', R + 'mod.rs Number'), ('variable order', R + 'expression.rs Variable')], 'string :value, expressions')
p('C11', 'A test over lists holds iff some value matches some key',
  'A test with several values and several keys is true exactly when at least one value matches at least one key, independently of their order, and "not" inverts exactly that; :count compares the number of values found (for string and environment tests the non-empty ones) with some key. This holds for string, environment, header, address, envelope and the flag tests alike.',
  ['inputs', 'programs'], 'all lists of values and keys, in every order, all match types',
  'Most tests use one value and one key.',
  [R + 'tests/test_string.rs', R + 'tests/test_header.rs', R + 'tests/test_address.rs', R + 'tests/test_envelope.rs', R + 'tests/test_hasflag.rs'],
  [('string test', R + 'tests/test_string.rs TestString::exec'), ('header test', R + 'tests/test_header.rs TestHeader::exec')], 'test results')
p('C12', 'Expression arithmetic is total and saturating',
  'Evaluating an arithmetic, comparison or logical operator never fails or panics for any operands: integer addition, subtraction, multiplication and negation saturate at the 64-bit limits, division is computed as fractions and division by zero gives zero, mixed integer/fraction operands are computed as fractions, numeric strings count as their number and other strings as described by the operator (concatenation for +, zero otherwise). Comparison operators and ! yield 1 or 0; && and || yield their left operand when it decides the result.',
  ['inputs'], 'all pairs of 64-bit integers, floats, strings and arrays',
  'Tests use small integers.',
  [R + 'expression.rs'], [('operators', R + 'expression.rs Variable::op_*'), ('number parsing', R + 'expression.rs Variable::parse_number')], 'Variable operators, eval/let')
p('C13', 'Expressions evaluate with standard precedence and short-circuiting',
  'A compiled expression evaluates to the value its text has under the usual precedence (unary !, - over * /, + -, < <= > >=, == !=, &&, ^, ||; left associative; parentheses), functions and array indexing receive exactly their own arguments, and a function on the right of && or || is called only when the left side does not decide the result. This holds for every expression the compiler accepts whose string constants hold no backslash.',
  ['programs', 'inputs'], 'every expression and variable assignment',
  'About 60 expressions are compared with another evaluator.',
  ['src/compiler/grammar/expr/parser.rs', 'src/compiler/grammar/expr/tokenizer.rs', R + 'expression.rs'], [('shunting-yard compilation', 'src/compiler/grammar/expr/parser.rs'), ('stack machine', R + 'expression.rs Context::eval_expression')], 'let / eval')
p('C14', 'Number literals and their K/M/G units are read exactly or refused',
  'A number literal denotes its decimal value times 1024, 1048576 or 1073741824 for the unit k, m, g in either case; a value that does not fit is limited to the largest representable number and never wraps (and refused where the largest number is not a legal argument), and a malformed number (digits followed by any other letter, or too many digits to represent) is a compile error rather than another number. White space and comments (# to the end of the line, /* to the first */) around a literal only separate tokens and change nothing.',
  ['inputs'], 'every digit string and unit',
  'Tests use a few small sizes.',
  ['src/compiler/lexer/tokenizer.rs', 'src/compiler/lexer/word.rs'], [('number token', 'src/compiler/lexer/tokenizer.rs Tokenizer::get_current_token')], 'compile + size test')
p('C15', 'String literals decode exactly: variables and encoded characters',
  'Each well-formed ${hex:..} or ${unicode:..} sequence of a string literal is replaced by exactly the bytes or code points it names (a code point that does not exist is a compile error) and every malformed one is kept verbatim; ${name} and ${n} refer to the named or numbered variable only when well-formed (a number at or above the limit is a compile error), and all remaining text is preserved unchanged. Decoding never fails with a panic on any text.',
  ['inputs'], 'every string literal',
  'A table of about 40 literals is tested.',
  ['src/compiler/lexer/string.rs'], [('literal decoding', 'src/compiler/lexer/string.rs Compiler::tokenize_string')], 'set + global variable')
p('C16', 'Header editing cannot inject headers',
  'A header added by a script occupies exactly one header field: the value written contains no CR or LF, is at most the configured header size and is a subsequence of the text the script gave; the name consists of the ASCII letters, digits and hyphens of the given name and nothing else. Folding, body text or further fields can never be introduced through addheader.',
  ['inputs', 'programs', 'configurations'], 'every header name and value (from script, message or host variables) and every size limit',
  'Tests add plain ASCII values.',
  [R + 'actions/action_editheader.rs'], [('value cleaning', R + 'actions/action_editheader.rs RemoveCrLf'), ('insertion', R + 'actions/action_editheader.rs AddHeader::exec')], 'rebuilt message')
p('C17', 'Protected headers are immutable',
  'No script can add or delete a header field whose name is on the configured protected list, whatever its spelling or case; all other header edits touch only fields of the named header (and, with :index or value patterns, only the selected occurrences), leaving every other field and the body unchanged.',
  ['programs', 'inputs', 'configurations'], 'every list of protected names, every header edit, every message',
  'Tests try one protected header.',
  [R + 'actions/action_editheader.rs'], [('protection check', R + 'actions/action_editheader.rs AddHeader::exec, DeleteHeader::exec')], 'rebuilt message')
p('C18', 'Generated mail cannot carry injected headers',
  'Header fields of mail the interpreter generates itself (vacation replies, mail notifications, enclosing and replaced messages) contain exactly one field per name it writes (fields asked for by :headers may repeat): text coming from the script or a notification address never introduces a line break into them, and text copied from the incoming message keeps at most the folding it had there. The vacation subject is limited to 256 characters on a character boundary.',
  ['inputs', 'programs'], 'every incoming message and every script text',
  'Tests use plain subjects.',
  [R + 'actions/action_vacation.rs', R + 'actions/action_notify.rs'], [('header writing', R + 'actions/action_vacation.rs'), ('notification message', R + 'actions/action_notify.rs Notify::exec')], 'CreatedMessage events')
p('C19', 'Header occurrences are selected exactly (:index, :last)',
  'With :index n a header, address, date or deleteheader operation sees exactly the n-th occurrence of each named field counted from the first, or from the last with :last, and nothing when there are fewer; without :index it sees all occurrences in order. Comparison of field names ignores case.',
  ['inputs'], 'every message, header list and index',
  'Tests use two or three occurrences.',
  [R + 'tests/test_header.rs'], [('occurrence selection', R + 'tests/test_header.rs Context::find_headers')], 'header :index')
p('C20', 'Spam and virus scores map monotonically into their ranges',
  'The spamtest value is 0 for unknown and 1 to 10 otherwise, the percent value 0 to 100, the virustest value 0 to 5, for every status the host can set; a higher spam probability never gives a lower value, and converting a number to a status and back gives the number again for every number in range.',
  ['inputs'], 'every status, every number, every probability (including NaN and out-of-range)',
  'Tests use four values.',
  [R + 'tests/test_spamtest.rs'], [('scaling', R + 'tests/test_spamtest.rs SpamStatus, VirusStatus')], 'spamtest/virustest')
p('C21', 'Size tests are strict and exact',
  'size :over n is true exactly for messages larger than n octets and size :under n exactly for messages smaller than n octets; at n both are false, and "not" inverts exactly. After header edits the size is that of the received message plus the fields added minus the fields removed.',
  ['inputs'], 'every message size and limit',
  'Two sizes are tested.',
  [R + 'tests/test_size.rs'], [('comparison', R + 'tests/test_size.rs TestSize::exec')], 'size test')
p('C22', 'IMAP flag lists behave as case-insensitive sets',
  'After any sequence of setflag, addflag and removeflag a flag variable holds each flag at most once (ignoring case): setflag makes it exactly the given flags, addflag adds exactly the missing ones and keeps the order of the present ones, removeflag removes exactly the given ones (the order of those left is not promised). Flags given as one space-separated string and as a list are equivalent, and keep and fileinto attach exactly the given flags or the current list.',
  ['histories', 'inputs'], 'every sequence of flag actions and every flag text',
  'Tests run a dozen short sequences.',
  [R + 'actions/action_flags.rs'], [('flag edits', R + 'actions/action_flags.rs EditFlags::exec'), ('splitting', R + 'actions/action_flags.rs tokenize_flags')], 'Keep/FileInto events, flag variables')
p('C23', 'Envelope addresses are accepted only when well-formed',
  'Setting an envelope sender or recipient stores either nothing or an address that is part of the given text: optional surrounding angle brackets and source routes are stripped, the result is empty or mailer-daemon or has exactly a non-empty local part, one @ and a non-empty domain, and contains no white space, angle brackets or characters outside ASCII. Any input is handled without failing.',
  ['inputs'], 'every text a host may pass',
  'Tests pass about 15 addresses.',
  [R + 'tests/test_envelope.rs'], [('address parser', R + 'tests/test_envelope.rs parse_envelope_address')], 'Context::set_envelope + envelope test')
p('C24', 'Redirect targets are plain single addresses',
  'The recipient of a redirect is never anything but a plain single address: exactly one @ with a non-empty local part before and a dotted domain behind it, no control characters, quotes or angle brackets, made of characters of the given text in their order (a display name before <...> and white space outside quotes are dropped, several addresses or a missing domain are refused), so that no script or message text can smuggle extra recipients or SMTP syntax into the envelope. An unusable address produces no mail and leaves the implicit keep in force.',
  ['inputs'], 'every address text, including ones taken from the message',
  'Tests use valid addresses.',
  [R + 'actions/action_redirect.rs'], [('address check', R + 'actions/action_redirect.rs sanitize_address'), ('redirect', R + 'actions/action_redirect.rs Redirect::exec')], 'SendMessage recipient')
p('C25', 'Vacation replies are suppressed whenever the rules demand it',
  'No vacation reply is sent to an empty or missing sender, to the own address or its aliases, to machine senders (mailer-daemon, owner-..., ...-request), for mail with list headers, bulk precedence, an Auto-Submitted other than no or an X-Auto-Response-Suppress of all or oof, for mail with more Received headers than configured, or when none of the own addresses appears among the recipients; otherwise the reply is sent exactly when the host confirms that none was sent before.',
  ['inputs', 'programs'], 'every message header set, sender and own-address list',
  'Tests cover about ten messages.',
  [R + 'actions/action_vacation.rs'], [('suppression', R + 'actions/action_vacation.rs TestVacation::exec')], 'DuplicateId / SendMessage events')
p('C26', 'Notification URIs are validated and decoded exactly',
  'A notification method is accepted only if it has a syntactically valid scheme the host allows followed by a target, and a mailto: URI is decomposed into its recipients and header parameters with every percent-escape decoded exactly once (an encoded comma separates addresses) and malformed escapes refused; parsing never fails with a panic on any text.',
  ['inputs'], 'every URI text',
  'A small table of URIs is tested.',
  [R + 'actions/action_notify.rs', R + 'tests/test_notify.rs'], [('mailto parser', R + 'actions/action_notify.rs'), ('uri check', R + 'actions/action_notify.rs validate_uri')], 'notify / valid_notify_method')
p('C27', 'Extensions are usable only when declared and allowed',
  'A command, test or tagged argument that belongs to an extension compiles only when the script has required that extension (unless checking is turned off; comparators need no declaration), and a script requiring an extension the runtime does not allow stops with a capability error before any later action takes effect. Capability names survive conversion to text and back.',
  ['programs', 'configurations'], 'every script, every set of required and allowed extensions',
  'Tests compile scripts that declare what they use.',
  ['src/compiler/grammar/mod.rs', 'src/compiler/grammar/actions/action_require.rs', R + 'context.rs'], [('argument gate', 'src/compiler/grammar/mod.rs'), ('runtime gate', R + 'context.rs Context::run')], 'Compiler::compile, Context::run')
p('C28', 'Test structure compiles to its Boolean meaning',
  'For every nesting of if/elsif/else, allof, anyof and not the compiled script takes exactly the branch the source means: allof is conjunction, anyof disjunction, not negation, evaluated left to right and only as far as needed, and exactly the first true branch of a conditional runs. Every jump in a compiled script stays inside it.',
  ['programs'], 'every nesting of conditionals and tests up to the compiler limits',
  'Tests sample a few shapes.',
  ['src/compiler/grammar/test.rs', 'src/compiler/grammar/instruction.rs'], [('jump generation', 'src/compiler/grammar/test.rs'), ('block patching', 'src/compiler/grammar/instruction.rs')], 'Context::run')
p('C29', 'Compilation is total and enforces its limits',
  'Compiling any byte sequence returns a script or an error and never panics or loops, and the configured limits on script size, string size, block and test nesting, variable names, match variables, local variables and includes are enforced: no script exceeding one compiles.',
  ['inputs', 'configurations'], 'every byte sequence and limit setting',
  'Tests compile valid scripts and a few malformed ones.',
  ['src/compiler/lexer/tokenizer.rs', 'src/compiler/grammar/instruction.rs'], [('tokenizer', 'src/compiler/lexer/tokenizer.rs'), ('compiler loop', 'src/compiler/grammar/instruction.rs')], 'Compiler::compile')
p('C30', 'Variables keep their identity: scopes, names and slots never alias',
  'Two differently named variables never share storage, one name (ignoring case) in one scope always denotes one storage, a block-local variable is empty again whenever its block is entered anew after it ended, and global and host-provided variables are visible under exactly their own name; reads and writes through every action and test argument refer to the same variable.',
  ['programs'], 'every script with any number of nested blocks and variables',
  'Tests use a few variables per script.',
  ['src/compiler/grammar/instruction.rs', R + 'eval.rs'], [('slot allocation', 'src/compiler/grammar/instruction.rs'), ('variable lookup', R + 'eval.rs Context::variable')], 'variables after a run')
p('C31', 'MIME traversal visits every selected part exactly once',
  'foreverypart and the :mime/:anychild forms visit the current part and, depth-first in message order, each part nested below it exactly once (an attached message is one part), restricted to the parts of the requested kind, and terminate for every received message.',
  ['inputs'], 'every message structure, including deep nesting and attached messages',
  'Tests traverse three messages.',
  [R + 'tests/mime.rs'], [('part iterator', R + 'tests/mime.rs')], 'foreverypart')
p('C32', 'Editing a message leaves everything else byte-identical',
  'When a script changes the message (header edits, part replacement, conversion, enclosing) the rebuilt message contains every unedited header field and body part byte for byte and in the original order, and an unchanged message is delivered as received.',
  ['inputs', 'programs'], 'every message and sequence of edits',
  'Tests compare a few rebuilt messages.',
  [R + 'actions/action_mime.rs'], [('message writer', R + 'actions/action_mime.rs Context::build_message')], 'CreatedMessage events')
p('C33', 'Set modifiers compute their defined function in precedence order',
  'Each modifier of set applies its defined text function to any string (:lower/:upper whole text, :lowerfirst/:upperfirst first character only, :quotewildcard/:quoteregex a backslash before each special character, :encodeurl percent-encoding of everything outside the unreserved set, :length the number of characters), several modifiers are applied in descending precedence (lower, upper and replace, lowerfirst, upperfirst, quoteregex, quotewildcard, encodeurl, length) regardless of the order written, and a longer result is cut at the variable size limit on a whole-character boundary.',
  ['inputs', 'programs'], 'every string and every combination of modifiers',
  'Tests apply single modifiers to short strings.',
  [R + 'actions/action_set.rs', 'src/compiler/grammar/actions/action_set.rs'], [('modifier functions', R + 'actions/action_set.rs Modifier::apply'), ('ordering', 'src/compiler/grammar/actions/action_set.rs')], 'set + global variable')
p('C34', 'Date parts and zone shifts are calendar-exact',
  'currentdate and date extract exactly the calendar fields of the instant in the requested zone (originalzone keeps the sender\'s), with fixed-width zero-padded fields, the weekday 0 to 6 and the Julian day of that date; shifting the zone never changes the instant.',
  ['inputs'], 'every instant and every zone offset',
  'Tests use one date.',
  [R + 'tests/test_date.rs'], [('part extraction', R + 'tests/test_date.rs DatePart')], 'date test')
p('C35', 'Header and message variables name exactly the piece they say',
  'A variable ${header.NAMES[i].PART[j]}, in text or in an expression, yields exactly the asked part of the i-th field of the current part with one of those names (counted from the top when positive, from the bottom when negative, the last one by default, all of them for *), and of its j-th entry likewise (nothing where there is none); ${body.text}, ${body.html}, ${part.text} and ${part.raw} yield the body or part they name, ${envelope.NAME} and ${env.NAME} the value set by the host.',
  ['inputs', 'programs'], 'every header, index and part name',
  'Tests evaluate a few dozen header variables on one message.',
  [R + 'eval.rs', 'src/compiler/lexer/string.rs'], [('evaluation', R + 'eval.rs Context::eval_header, HeaderVariable::eval_part'), ('syntax', 'src/compiler/lexer/string.rs parse_header_variable')], 'variables after a run')
p('C36', 'Every argument of an action reaches it exactly, in whatever order it is given',
  'fileinto, keep, redirect, notify, vacation, include, replace, enclose and extracttext accept their tagged arguments in any order and letter case, each at most once (text modifiers such as :upper aside) and not two that exclude each other, and what the action does - the event it raises, the message it writes - carries exactly the values given: the texts after variables are replaced, a single text as a list of one, lists in order, and the documented default where an argument is missing.',
  ['inputs', 'programs'], 'every subset and order of arguments with every value',
  'Tests use a few fixed combinations in one order.',
  ['src/compiler/grammar/actions/action_fileinto.rs', 'src/compiler/grammar/actions/action_redirect.rs', 'src/compiler/grammar/actions/action_notify.rs', 'src/compiler/grammar/actions/action_vacation.rs', 'src/compiler/grammar/actions/action_include.rs', 'src/compiler/grammar/actions/action_mime.rs'], [('parsing', 'src/compiler/grammar/actions/*.rs CompilerState::parse_*'), ('duplicates', 'src/compiler/grammar/instruction.rs CompilerState::validate_argument')], 'events of one action')
p('C37', 'Every setting of the host takes effect, exactly that one',
  'Whatever settings a host makes on the runtime, the compiler and the context of a message, in their set_ and with_ forms, in any order and repeated, each takes effect with the value given - the last one where a setting holds one value, all of them where it collects entries - and no other setting changes: limits, expiries, allowed capabilities, protected headers, environment, metadata, notification URIs, lists, texts and host name of replies, functions, user, envelope, variables, spam and virus status; a setting never made keeps its default.',
  ['inputs', 'histories'], 'every sequence of settings',
  'Tests make one or two settings in one form and look at that one.',
  [R + 'mod.rs', R + 'context.rs', 'src/compiler/mod.rs'], [('settings', R + 'mod.rs Runtime::set_*, with_*'), ('context', R + 'context.rs Context::set_*, with_*'), ('compiler', 'src/compiler/mod.rs Compiler::set_*, with_*')], 'what scripts do under the settings')
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P))
