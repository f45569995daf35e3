#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that ids and anchors stay in one reviewable place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","A successful match reports exactly the input it consumed",
 "Whenever a pattern matches, the reported span lies inside the input, starts at or after the position the match was attempted from, and ends exactly at the position the parser is left at. On text input the span always starts and ends on a character boundary, so the matched text can be extracted.",
 ["programs","inputs"],"for every pattern composed from the library's combinators, every text or byte input (multi-byte characters included), and every starting position, on plain and on skipping contexts",
 "The doc tests check a few hand-written patterns on a handful of mostly ASCII inputs; no test compares the reported span with the parser position for composed patterns.",
 ["src/ctx.rs","src/ctx/policy.rs","src/regex.rs","src/ctor.rs","src/span.rs","src/ctor/longest.rs","src/ctor/sep.rs","src/neu.rs"],
 [("span and offset are advanced together for leaf matches","src/ctx.rs new_span_inc, src/neu.rs calc_length"),
  ("merged spans of composites","src/span.rs Span::add_assign"),
  ("offset chosen for longest-token alternatives","src/regex.rs handler_ltm, src/ctor/longest.rs"),
  ("final element without separator","src/ctor/sep.rs Separate/Separate2/SepCollect")])

p("C02","A failed match or construction leaves the parser position unchanged",
 "If matching a pattern or constructing a value from it fails, the parser position afterwards is the one before the attempt. This holds whatever part failed: a later component after earlier ones consumed input, a rejected conversion, a failing value handler, a rejected dynamic builder, or input consumed by a skip rule before the failure.",
 ["programs","inputs","fault_sequences"],"for every composed pattern, input, starting position and every choice of which conversion/handler/builder invocation fails, on plain and on skipping contexts",
 "Tests assert is_err() for a few patterns and almost never look at the offset afterwards; none injects failures in handlers or conversions inside composed patterns.",
 ["src/ctx/guard.rs","src/ctx/policy.rs","src/ctx.rs","src/ctor/map.rs","src/ctor/then.rs","src/ctor/dthen.rs","src/regex/builder.rs","src/regex/assert.rs"],
 [("rollback guard","src/ctx/guard.rs CtxGuard"),("skip rule then pattern","src/ctx/policy.rs Match::try_mat"),
  ("before/pattern/after matching","src/ctx/regex.rs, src/ctx/policy.rs try_mat_policy"),("explicit offset restore in loops and choices","src/ctor/{or,repeat,repeat2,collect,sep,opt,branch}.rs")])

p("C03","Matching and value construction accept the same input",
 "For a pattern without fallible conversions, matching it for its span and constructing a value from it agree: both succeed or both fail on the same input from the same position, and after success both leave the parser at the same position.",
 ["programs","inputs"],"for every composed pattern that supports both modes, every input and starting position",
 "Each combinator implements the two modes in separate code; the tests usually exercise one mode per example and never compare the two on the same input.",
 ["src/ctor","src/ctor.rs","src/regex.rs","src/ctx.rs"],
 [("two implementations per combinator","src/ctor/*.rs Regex::try_parse and Ctor::construct"),("longest-token helpers, one per mode","src/regex.rs handler_ltm / src/ctor.rs handler_ltm")])

p("C04","Element tests compute exactly the character or byte set they denote",
 "A single-element test (a literal element, set, range, named character class, closure, always/never, and any or/and/not combination of them, however boxed or wrapped) accepts exactly the elements of the set it denotes, for every Unicode character and every byte value. Negation, union and intersection obey the usual set laws.",
 ["inputs","programs"],"for every element expression and all 1,112,064 characters / 256 bytes",
 "The doc tests sample a few letters per class; the universe of characters times expressions is not reachable by examples.",
 ["src/neu.rs","src/neu/units.rs","src/neu/op_or.rs","src/neu/op_and.rs","src/neu/op_not.rs","src/neu/range.rs","src/neu/equal.rs","src/neu/bool.rs","src/neu/prefix.rs"],
 [("set membership","src/neu.rs Neu::is_match impls"),("range bounds","src/neu/range.rs CRange"),("named classes","src/neu/units.rs")])

p("C05","Element repetition matches the longest admissible run within its bounds",
 "An element test repeated once, optionally, any number of times, at least/at most/exactly/between given counts, or as a pair of consecutive elements, matches the longest run of consecutive accepted elements that does not exceed the maximum, and succeeds exactly when that run reaches the minimum. Where a per-element condition is attached, the run also ends at the first element the condition rejects; the span covers exactly the bytes of those elements.",
 ["inputs","programs"],"for every element test, count bounds, condition, input (1- to 4-byte characters) and starting position",
 "Tests use ASCII letters and a few constant bounds; they do not cover interplay of byte lengths, minimum-length pre-checks, bounds hit exactly at end of input, or conditions.",
 ["src/neu/times.rs","src/neu/once.rs","src/neu/opt.rs","src/neu/then.rs","src/neu/cond.rs","src/neu/range.rs","src/neu.rs"],
 [("count loops","src/neu/times.rs Between/Times, src/neu/once.rs, src/neu/opt.rs"),("minimum byte length pre-check","src/neu.rs Neu::min_length"),("conditions","src/neu/cond.rs")])

p("C06","Sequencing combinators match their parts in order and build the right parts",
 "A sequence, prefixed, suffixed, enclosed, single-separator, conditional-extension or test-selected pattern matches exactly when its parts match one after another (skipping optional parts as documented), and constructs the values of the value-carrying parts in order, discarding delimiters. Selecting variants keep exactly the first, the second, or both values only when equal.",
 ["programs","inputs"],"for every nesting of these combinators over arbitrary sub-patterns and every input",
 "Tests cover each combinator once or twice with literal sub-patterns; nesting, partial failures and optional parts are combinatorial.",
 ["src/ctor/then.rs","src/ctor/affix.rs","src/ctor/enclose.rs","src/ctor/sep.rs","src/ctor/branch.rs","src/ctor/pat.rs","src/ctor/map.rs","src/ctor.rs"],
 [("sequence","src/ctor/then.rs Then, IfThen"),("delimiters","src/ctor/affix.rs, src/ctor/enclose.rs"),("single separator","src/ctor/sep.rs SepOnce"),("run-time selection","src/ctor/branch.rs"),("selecting variants","src/ctor.rs CtorOps::{then_0,then_1,then_eq,sep_once_0,sep_once_1,sep_once_eq}")])

p("C07","Ordered choice commits to the first alternative that matches",
 "A choice between alternatives (two-way, or over an array, slice or vector, with or without attached values) yields the result of the first alternative, in order, that matches at the starting position, together with that alternative's attached value, and fails only when all fail. An optional pattern never fails: it yields the pattern's own result when that matches and otherwise an empty match that consumes nothing.",
 ["programs","inputs"],"for every list of alternatives, overlapping ones included, and every input",
 "Tests use alternatives that do not overlap or fail after partial consumption, so order and backtracking between alternatives are not exercised.",
 ["src/ctor/or.rs","src/ctor/opt.rs","src/ctor/array.rs","src/ctor/slice.rs","src/ctor/vec.rs","src/regex.rs","src/ctor.rs"],
 [("two-way choice","src/ctor/or.rs"),("collections of alternatives","src/regex.rs handler, src/ctor.rs handler"),("optional","src/ctor/opt.rs")])

p("C08","Longest-token choice selects the alternative that consumes the most",
 "A longest-token choice (two-way, or over an array, slice or vector, with or without attached values) tries every alternative from the same position and yields the result of the one whose match ends furthest, the earliest listed one on ties, leaving the parser at the end of that match. It fails, consuming nothing, only when every alternative fails.",
 ["programs","inputs"],"for every list of alternatives in every order and every input, in matching and construction mode",
 "Tests contain one two-way example and few collections, always with the longest match listed last and without looking at the position afterwards.",
 ["src/ctor/longest.rs","src/regex.rs","src/ctor.rs","src/ctor/array.rs","src/ctor/slice.rs","src/ctor/vec.rs"],
 [("two-way","src/ctor/longest.rs"),("collections","src/regex.rs handler_ltm, src/ctor.rs handler_ltm")])

p("C09","Pattern repetition is greedy, bounded and keeps every element in order",
 "Repeating a pattern with run-time bounds, compile-time bounds or into a collection matches consecutive occurrences until one fails or the maximum is reached, never more, and succeeds exactly when the number of occurrences is within the bounds. The constructed collection holds one value per occurrence in order, and the parser is left at the end of the last one.",
 ["programs","inputs"],"for every sub-pattern that consumes input, every bounds and every number of occurrences, including exactly the maximum and one more",
 "Tests stay strictly inside the bounds; hitting or exceeding the maximum, or an element that fails after consuming, is not exercised.",
 ["src/ctor/repeat.rs","src/ctor/repeat2.rs","src/ctor/collect.rs","src/neu/range.rs"],
 [("run-time bounds","src/ctor/repeat.rs"),("compile-time bounds","src/ctor/repeat2.rs"),("collections","src/ctor/collect.rs")])

p("C10","Separated lists keep exactly the elements the separator rule admits",
 "A separated list matches element, separator, element, ... until an element or separator fails; every returned element is one that matched, in order, and separators are never returned. A last element with no separator after it is kept when trailing separators are optional and left unconsumed when they are required; the list succeeds exactly when it has at least the minimum, and never holds more than a fixed maximum.",
 ["programs","inputs"],"for every element/separator pattern, minimum, maximum, trailing-separator mode, collection type and list length, including exactly the maximum and one more",
 "Tests cover well-formed lists of two to four elements with the default mode; strict mode, minimums, maximums and malformed tails are not exercised.",
 ["src/ctor/sep.rs"],
 [("vector list","src/ctor/sep.rs Separate"),("fixed-capacity list","src/ctor/sep.rs Separate2"),("generic collection","src/ctor/sep.rs SepCollect")])

p("C11","Primitive patterns and look-ahead mean what they say",
 "A literal matches exactly when the remaining input begins with it; start and end anchors exactly at the first and past the last position; the empty and failing patterns always and never; fixed-count consumption exactly when that many elements remain and consume-all always, each covering precisely those elements. Positive and negative look-ahead succeed exactly when the inner pattern does or does not match, and never consume anything.",
 ["inputs","programs"],"for every literal, count, inner pattern, text/byte input and position",
 "Tests use ASCII and constant literals; multi-byte input, literals longer than the rest, and look-ahead over patterns that consume are sampled at best once.",
 ["src/regex/literal.rs","src/regex/anchor.rs","src/regex/empty.rs","src/regex/fail.rs","src/regex/consume.rs","src/regex/assert.rs","src/regex.rs","src/ctx.rs"],
 [("literal prefix test","src/regex/literal.rs"),("anchors","src/regex/anchor.rs"),("consume","src/regex/consume.rs"),("look-ahead","src/regex/assert.rs, src/ctx.rs Assert")])

p("C12","Extracted values are exactly the matched input",
 "Values obtained from a successful construction are, leaf by leaf and in order, exactly the pieces of input at the spans the leaves matched, whether extracted as text, bytes, owned strings, spans or through a user handler; the handler sees the right context and the right span. Extracting as spans and slicing the input gives the same result as extracting slices.",
 ["programs","inputs"],"for every composed pattern, every extraction type and every input",
 "Tests check one extraction type per example; equality across extraction types and against the input for arbitrary nestings is not tested.",
 ["src/ctor/extract.rs","src/ctx.rs","src/span.rs","src/ctor.rs"],
 [("extraction handlers","src/ctor/extract.rs"),("entry points","src/ctx.rs MatchExt"),("slicing","src/ctx/regex.rs orig_sub, src/iter/mod.rs IndexBySpan")])

p("C13","Conversions applied to matched input agree with the standard library",
 "Each provided conversion (parse from text, parse in a radix, UTF-8 strict and lossy, little/big/native-endian numbers, into/try-into, bounds, fixed size, defaulting, selection and equality selection) returns the value the standard library gives for the same matched piece and fails exactly when that conversion is invalid. Used inside a pattern, its failure makes the construction fail, and matching without construction is not affected by it.",
 ["inputs"],"for every input text/bytes and every supported target type",
 "Tests convert one valid value per type; invalid, boundary and overlong inputs over all types and endiannesses are not covered.",
 ["src/map.rs","src/ctor/map.rs","src/ctx.rs"],
 [("conversions","src/map.rs"),("pattern-level mapping","src/ctor/map.rs"),("match-and-map entry points","src/ctx.rs MatchExt::map/map_span/map_with")])

p("C14","Scanning finds every match, left to right, exactly once",
 "Searching for a pattern returns the leftmost non-empty match at or after the current position, advancing one element after each failed or empty attempt; iterating all matches yields the maximal left-to-right sequence of non-overlapping such matches and ends with the input fully consumed. Matching a consecutive sequence yields matches only while each one starts where the previous ended.",
 ["inputs","programs","histories"],"for every pattern, input (multi-byte included), starting position and extraction type, and for interleaved calls on one context",
 "Tests run one text each; leftmost/non-overlap behaviour against arbitrary patterns and multi-byte text has no oracle there.",
 ["src/ctx.rs"],
 [("scan loops","src/ctx.rs MatchMulti::{find,find_with,find_all,find_all_with,match_seq}")])

p("C15","A skipping context only adds the skip rule before each match",
 "Parsing with a skip-before rule gives the result of the plain semantics in which the rule is applied once before every pattern match: inserting or deleting skippable input between tokens never changes which tokens are extracted or whether the parse succeeds, while skippable input inside a token still matters. A rule that skips nothing leaves every result identical to the plain context.",
 ["programs","inputs"],"for every pattern, every skip rule (whitespace, comments, custom) and every placement of skippable input",
 "One test parses one source text; it does not vary the placement of whitespace or compare with the plain context.",
 ["src/ctx/policy.rs","src/ctx/regex.rs","src/ctx.rs"],
 [("skip then match","src/ctx/policy.rs Match::try_mat"),("ready-made rules","src/ctx/regex.rs skip_before/skip_whitespace/skip_ascii_whitespace"),("pattern-level skipping","src/ctor.rs CtorOps::skip_ws and friends")])

p("C16","Wrapping a pattern never changes what it does",
 "A pattern behind a reference, optional, box, reference-counted or atomic pointer, cell, mutex, trait object or adapter matches, constructs, consumes and fails exactly as the pattern itself; the same holds for wrapped element tests. An absent optional pattern behaves as documented on every input.",
 ["programs","inputs"],"for every pattern, every stack of wrappers and every input",
 "Tests wrap a couple of patterns to make them compile; equality of behaviour between wrapped and unwrapped on arbitrary input is not tested.",
 ["src/regex.rs","src/ctor.rs","src/ctor/adapter.rs","src/ctor/into.rs","src/regex/into.rs","src/regex/adapter.rs","src/neu.rs"],
 [("forwarding impls","src/regex.rs, src/ctor.rs macros"),("adapters","src/ctor/adapter.rs, src/regex/adapter.rs"),("element test forwarding","src/neu.rs")])

p("C17","Recursive grammars parse arbitrarily nested documents faithfully",
 "A self-referential grammar built with the recursion helpers accepts exactly the documents its rules describe at any nesting depth, and the constructed tree equals the document's structure: printing a random tree and parsing it gives the tree back, and corrupted documents are accepted exactly when a reference parser accepts them. The single-threaded and thread-safe recursion helpers agree.",
 ["inputs","programs"],"for every document tree (depth, width, strings with escapes, numbers, white space) and every single- or multi-byte corruption of its text",
 "One sample document is parsed by an example program; no test parses nested input through the recursion helpers with an oracle.",
 ["src/regex/rec.rs","src/ctor/adapter.rs","src/ctor/sep.rs","examples/json.rs"],
 [("recursion helpers","src/regex/rec.rs rec_parser / rec_parser_sync"),("grammar shape","examples/json.rs, README.md")])

p("C18","Captured spans are stored and read back faithfully",
 "After any sequence of captures, insertions, clears and resets, a span store returns for each group exactly the spans put there and not cleared since, in order, through every accessor and iterator; groups with nothing in them read as absent and iterators report their exact remaining length. A failed capture stores nothing, and merging a span with one that starts and ends no earlier yields the smallest span covering both.",
 ["histories","inputs"],"for every operation history on the growable and the fixed-size store, and every pattern/input captured through it",
 "Tests capture once per group and iterate once; histories mixing clears, gaps, failures and partially consumed iterators are not covered.",
 ["src/span.rs","src/iter/span.rs","src/iter/mod.rs"],
 [("growable store","src/span.rs VecStorer"),("fixed-size store","src/span.rs ArrayStorer"),("iterators","src/iter/span.rs"),("span merge","src/span.rs Span::add_assign")],
 state=[{"name":"spans","meaning":"per-group list (or slots) of captured spans"}])

p("C19","The parsing context is a faithful, total cursor over the input",
 "After any sequence of position changes, resets and clones, a context reports the position a plain counter would have, and peeking, remaining-input and sub-input queries return exactly the corresponding part of the input, or an out-of-bounds error when that part does not exist or splits a character, without panicking. Querying never changes the position, and clones are independent.",
 ["histories","inputs"],"for every operation history and every offset/length, in or out of bounds, on text and byte contexts and on skipping contexts",
 "Tests only use the cursor through matching at valid offsets; out-of-range and mid-character offsets are not tested.",
 ["src/ctx.rs","src/ctx/regex.rs","src/ctx/policy.rs","src/iter/byte.rs"],
 [("cursor","src/ctx/regex.rs Context impls"),("delegation","src/ctx/policy.rs"),("byte iterator","src/iter/byte.rs")],
 state=[{"name":"offset","meaning":"current position in bytes"}])

p("C20","Pattern macros denote the same language as the notation they mimic",
 "A pattern written with the regex-like macro or the element-set macro matches exactly the prefix that the corresponding regular expression (anchored, greedy) matches, for every quantifier form, positive and negated set, range list and wildcard the macros accept; literal-escaping macros yield the string they spell.",
 ["inputs","programs"],"for every macro form and every input text",
 "The unit tests compare each form on one or two strings; equivalence with the mimicked notation on arbitrary text is not tested.",
 ["src/macro.rs","src/neu/range.rs","src/neu/times.rs"],
 [("regex!/neu! expansion","src/macro.rs")])

p("C21","Matching depends only on the input from the current position on",
 "Apart from the start anchor, a pattern's outcome is determined by the input from the current position: placing any text before that position shifts spans by its length and changes nothing else. On ASCII input, text and byte contexts give identical outcomes, and appending input after a position the pattern never looked at cannot change a match.",
 ["programs","inputs"],"for every pattern without a start anchor, every prefix text and every input",
 "Tests start every match at position zero of the input.",
 ["src/ctx/regex.rs","src/neu.rs","src/span.rs","src/regex/literal.rs"],
 [("offset-relative peeking","src/ctx/regex.rs peek_at/orig_at"),("relative to absolute spans","src/ctx.rs new_span_inc")])

p("C22","Every build configuration parses identically",
 "Building the library without its default features, with only allocation support, or with either logging back end enabled, changes no observable parsing result: the same patterns on the same inputs give the same spans, values, positions and failures in every configuration that offers them.",
 ["configurations","inputs"],"for each supported feature set and every pattern/input pair the sets have in common",
 "The test suite is run per configuration on its fixed examples and never compares configurations with each other; logging configurations are only type-checked.",
 ["src/log.rs","src/lib.rs","Cargo.toml","src/regex.rs","src/ctor.rs"],
 [("feature-dependent instrumentation","src/log.rs"),("feature-gated items","src/lib.rs")])

p("C23","A parser value can be reused and shared without changing its results",
 "Apart from the stateful prefix tests documented as single-use, using a parser never changes it: repeating a match, matching other inputs in between, cloning or copying the parser, or using one parser from several threads at once gives every caller the result a fresh parser would give.",
 ["histories","schedules","programs"],"for every pattern and every history of earlier and concurrent uses of the same parser value",
 "Each test builds a parser and uses it once or twice on the same input in one thread.",
 ["src/regex.rs","src/ctor.rs","src/ctor/adapter.rs","src/neu.rs"],
 [("shared-reference matching","src/regex.rs Regex::try_parse(&self)"),("interior wrappers","src/ctor/adapter.rs, src/regex.rs (cell, mutex)")])

p("C24","Data-dependent patterns parse what the data announces",
 "When the pattern for the rest of the input is built at run time from what was just matched, the built pattern is applied at the position following the announcing part, and the construction returns both values in order: every record stream encoded with announced lengths, kinds or delimiters decodes to the original records, and truncated or corrupted streams are rejected exactly when a reference decoder rejects them.",
 ["inputs","programs"],"for every record sequence, every truncation and corruption of its encoding",
 "One doc example per builder decodes one valid record; streams and corrupted announcements are not tested.",
 ["src/regex/builder.rs","src/ctor/dthen.rs","src/ctor/into.rs","src/map.rs"],
 [("dynamic pattern","src/regex/builder.rs"),("dynamic constructor","src/ctor/dthen.rs")])

p("C25","Parsing is total: no input makes a pattern panic or run away",
 "For any pattern whose unbounded repetitions consume input, parsing any input from any position within it terminates with a result or an error: it never panics and never evaluates more steps than a bound determined by the pattern and the input length.",
 ["programs","inputs"],"for every such pattern, arbitrary text and arbitrary bytes, every position up to the end including positions inside a character",
 "Tests feed well-formed short inputs; hostile inputs, bounds hit exactly, and positions inside characters are not covered.",
 ["src/ctor","src/regex","src/neu","src/ctx"],
 [("bounded repetition loops","src/ctor/{repeat,repeat2,collect,sep}.rs"),("length arithmetic","src/neu.rs calc_length, src/regex/literal.rs, src/regex/consume.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
