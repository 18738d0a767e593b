#!/usr/bin/env python3
"""Writes /verif/KNOWN_FINDINGS.jsonl (committed; no check writes to it)."""
import json, os
O = []
def finding(prop, id, what): O.append(dict(property=prop, id=id, status='finding', what=what))
def fixed(prop, commit, what): O.append(dict(property=prop, status='fixed', what=f'fixed: property={prop} {commit} {what}'))
finding('C06', 'C06-final-sigma', "runtime/tests/glob.rs GlobPattern::matches folds the value with str::to_lowercase (final sigma) but the key one character at a time: with i;ascii-casemap a value ending in a capital sigma does not match itself. Not repaired: the file lies under a tests directory, which commits may not touch.")
finding('C07', 'C07-final-sigma', "same call site: the outcome of :matches with captured variables (capture folds per character) differs from the outcome without.")
finding('C07', 'C07-star-run-overflow', "runtime/tests/glob.rs GlobPattern::capture shifts 1 << wildcard_pos with wildcard_pos > 63 for a key whose wildcards number more than 63 inside one run of stars (overflow panic, or captures into wrong slots without overflow checks). Not repaired: file under a tests directory.")
finding('C07', 'C07-replacement-char', "GlobPattern::capture uses U+FFFD as internal mark, so a U+FFFD in the value is dropped from captures of *.")
finding('C07', 'C07-expanded-fold', "GlobPattern::capture: ? matching the second character of a multi-character case folding yields that folded character instead of nothing.")
finding('C11', 'C11-string-key-order', "runtime/tests/test_string.rs TestString::exec leaves only the inner loop when a key matches, so the result of a string/environment test with several keys is that of the last key tried per source. Not repaired: file under a tests directory.")
finding('C34', 'C34-before-1970', "the mail-parser dependency (0.11.0, DateTime::from_timestamp) divides negative timestamps towards zero: a date before 1970 shifted to a zone (or to UTC) gets wrong calendar fields. The original zone is right. In the dependency, repaired in its later releases.")
finding('C34', 'C34-zone-minutes', "the mail-parser dependency (0.11.0, DateTime::to_timezone) stores tz % 3600 seconds, cut to 8 bits, as the minutes of the zone: the parts zone, iso8601 and std11 for a requested zone that is not a whole hour show wrong zone minutes (+0530 gives +0508); the date and time fields are right.")
finding('C30', 'C30-loop-exit-slots', "break and continue jump over the Clear instruction of the blocks they leave: a block-local variable set there keeps its value, and a variable of another block that gets the same slot starts with it. Not repaired: the expected instruction lists in tests/rfcs (RFC 5703 example) fix the generated code of break.")
fixed('C23', 'dfd9527', 'an envelope address that starts with @ (@a@b) was stored with two @ and no local part')
fixed('C12', '77ac0ef', 'unary minus of the smallest integer overflowed')
fixed('C15', 'b3eebb2', 'an escaped backslash in a quoted string also escaped the following character ("x\\\\" was unterminated)')
fixed('C18', 'c6ee08e', 'a line break in an encoded subject of the incoming message entered the header of an enclosing message')
fixed('C15', 'edee6b5', 'a malformed encoded character sequence with a valid beginning (${hex:41 1ff}) left the decoded beginning before the text')
fixed('C27', '5450703', 'comparator capability names lost their comparator- prefix when written as text')
fixed('C08', 'a62d919', 'match variables of all but the last test in a block survived the end of the block')
fixed('C30', '5bd6c23', '${NAME} of a declared global name with upper-case letters read another (empty) variable')
fixed('C13', 'e313bb3', 'unary minus after another unary operator or an open bracket was compiled as subtraction')
fixed('C13', 'b0dd3dc', 'a single = swallowed the character after it (3 =3)')
fixed('C08', '0eb7d3f', 'deleteheader :matches/:regex was registered as source of match variables: a later ${1} in the block was dropped')
fixed('C30', '3a6f136', 'a :local variable used inside a :replace modifier kept its unmapped slot number and read as empty')
fixed('C31', '9cb9104', 'replacing a multipart left stale part numbers: later edits hit the wrong part or the run panicked')
fixed('C31', 'ed51d5d', 'enclose inside foreverypart kept iterating over part numbers of the previous message (index out of bounds)')
fixed('C03', '295d25f', 'mailto notifications were not counted as outgoing messages and other methods not limited')
fixed('C18', '22dbb03', 'CR LF from a mailto URI, :from or :message entered the header of notification mails')
fixed('C18', 'f4e141c', 'CR LF in subject or from of a vacation reply, or a References/From field at the end of the message, broke the header of the reply')
fixed('C25', '09fbfc2', 'vacation :days overflowed the period in seconds')
fixed('C05', '0bf9a95', 'extracttext stored texts of any length')
fixed('C18', 'f7398bb', 'a mailto URI could add a second Auto-Submitted, Importance, X-Priority, X-Sieve, Content-Type, Date or Message-ID field to a notification mail')
fixed('C18', '8a41969', 'a mailto parameter without value (?from) added a second From, Date, Subject or other own field to a notification mail')
fixed('C26', '8f455b5', 'a mailto header field name with @ became an empty field name')
fixed('C26', 'f422487', 'mailto:?to=a@b.c&subject=x was refused')
fixed('C26', 'dc709bd', 'a notification method with an empty or malformed scheme (":x", "a b:x") was accepted')
fixed('C24', '47289a7', 'a quoted local part brought line breaks or a second @ into the redirect recipient')
fixed('C27', '6ae7eeb', 'fileinto :mailboxid was gated by the mailbox extension instead of mailboxid')
fixed('C27', '18b4463', ':quoteregex and :encodeurl were accepted without require of regex and enotify')
fixed('C30', '733941d', 'the raw name of an added header underflowed (panic with overflow checks)')
fixed('C28', '7c9de09', 'continue in a while loop directly inside another loop was ignored or refused, and leaked the part iterator of an enclosing foreverypart')
fixed('C29', 'd3cb61d', 'the limit of local variables was not enforced: the run of a script with more than 256 ended at once without keep')
fixed('C29', 'c0974f9', 'the configured limit of match variables was not enforced')
fixed('C29', 'af940f9', 'foreverypart loops inside another block (if, while) were not counted against max_nested_foreverypart')
fixed('C29', 'de1daf6', 'the variable name limit was not enforced for set and let')
fixed('C08', '43f89de', 'a match variable used in the arguments of a :matches or :regex test that is the first of its block read as empty')
fixed('C22', '0059006', 'strings of a flag list holding several flags or blanks were stored as one flag')
fixed('C32', 'e4656ef', 'editing a part whose contents were replaced or converted before could fail on a size underflow (deleteheader "Subject"; replace "";)')
fixed('C32', '2a8bbc7', 'convert of a single-part message dropped all of its header fields')
fixed('C14', '3c241c2', 'the last word of a script that ends inside a command was dropped (keep; discard compiled)')
fixed('C35', 'ef11906', '${header.from.addr.domain} and the other address parts documented with addr. were refused')
fixed('C21', '8dd2996', 'after earlier edits of the same part, replace and convert left a wrong message size (addheader "X-L" "v"; replace "text"; counted the removed field); enclose counted 4 octets too few')
fixed('C21', '355b880', 'deleting a field renamed by replace (Original-Subject, Original-From) did not count its name')
fixed('C36', '0d3fac3', 'replace evaluated :subject, :from and the text, enclose its :headers, after the message had changed (replace :subject "Re: ${header.subject}" gave "Re: ")')
fixed('C32', 'e1d2303', 'after an edited message had been delivered once (addheader; fileinto :copy), the implicit keep delivered the original message')
fixed('C28', '959b613', 'a test that is not known was skipped only up to the first comma of a list of its arguments (allof(ihave "vnd.none", vnd_test ["a", "b"]) did not compile)')
fixed('C32', 'a78aa13', 'convert "TEXT/Plain" "text/html" converted nothing, and convert "text/csv" "text/html" converted text parts of every type')
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'KNOWN_FINDINGS.jsonl'), 'w') as f:
    for d in O: f.write(json.dumps(d, ensure_ascii=False) + '\n')
