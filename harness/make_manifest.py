import json
F="src/metrics/fzf/"
def P(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe; a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
D="Metric::distance"; R="Metric::distance_and_ranges"; PA="FzfParser::parse"; PN="FzfParser::parse_not_extended"
L=[]
L.append(P("C01","Every query and candidate gets an answer",
 "Parsing any text in either mode and comparing the parsed query with any candidate, under any settings, returns normally. No input makes the library panic, abort, overflow its arithmetic, loop for ever or run out of bounds, in a build with all runtime checks on.",
 ["inputs","configurations"],"all query texts (every Unicode scalar, any length, any nesting of the special characters), all candidates, both metrics, all settings",
 "The 151 tests use a few dozen fixed short strings; a panic needs one particular length, character or combination of them (the baseline panicked on any literal query longer than 64 characters).",
 [F+"parser.rs",F+"query.rs",F+"fzf.rs",F+"fzf_v1.rs",F+"fzf_v2.rs",F+"slab.rs","src/candidate.rs","src/normalize.rs"],
 [("buffers grown to the input's size",F+"parser.rs FzfParser::parse, parse_not_extended; "+F+"slab.rs alloc"),("saturating and checked arithmetic",F+"fzf_v2.rs score_*; "+F+"fzf.rs compute_score")],[PA,PN,D,R]))
L.append(P("C02","Extended queries are read according to the documented grammar",
 "A query text is split at spaces (a backslash makes a space part of a word), words joined by a lone bar are alternatives, and all groups of alternatives must be satisfied. In a word a leading `!` negates, a leading `'` or a trailing `$` or a leading `^` (or both anchors) selects exact, suffix, prefix or equal matching, words that consist only of such marks are dropped, and everything else is literal. The candidates a query matches are exactly those this reading matches, however many words and characters the query has.",
 ["inputs"],"all query texts against all candidates",
 "The parser tests fix about thirty queries; the grammar's corner cases are the combinations (escaped spaces next to bars, negated anchors, marks alone, more words than the parser's initial buffers).",
 [F+"parser.rs",F+"query.rs"],
 [("word splitting and escapes",F+"parser.rs Words"),("grouping of alternatives",F+"parser.rs Patterns"),("prefix and suffix marks",F+"query.rs Pattern::parse"),("single-term shortcut",F+"query.rs FzfQuery::new_extended")],[PA,D]))
L.append(P("C03","A fuzzy term matches exactly the candidates that contain it as subsequence",
 "With either metric a fuzzy term matches a candidate if and only if the term's characters occur in the candidate in order, not necessarily adjacent, under the current rules for equal characters. Length, position, scoring scheme and the presence of non-ASCII characters have no influence on the decision.",
 ["inputs","configurations"],"all fuzzy terms and candidates, both metrics, all settings",
 "Tests sample some matching and few non-matching pairs; a wrong early exit or window shows only for particular positions and lengths.",
 [F+"fzf_v1.rs",F+"fzf_v2.rs","src/candidate.rs"],
 [("forward pass",F+"fzf_v1.rs forward_pass"),("first and last occurrences",F+"fzf_v2.rs matches"),("character search","src/candidate.rs find_first_from, find_last, matches_from")],[D,R]))
L.append(P("C04","Exact, prefix, suffix and equal terms match exactly what they say",
 "An exact term matches if and only if the candidate contains it as a contiguous run, a prefix term if it starts with it, a suffix term if it ends with it, an equal term if it is it. White space around the candidate is skipped only as far as the term itself does not begin or end with spaces. Both metrics decide alike.",
 ["inputs","configurations"],"all anchored and exact terms, all candidates, both metrics, all settings",
 "Each kind has a handful of tests on short ASCII words; overlaps of a failed attempt with the real occurrence, white-space rules and wide characters are combinations no test enumerates.",
 [F+"fzf.rs","src/candidate.rs","src/utils.rs"],
 [("substring search",F+"fzf.rs exact_match"),("anchored comparisons",F+"fzf.rs prefix_match, suffix_match, equal_match"),("space rules",F+"fzf.rs ignored_candidate_leading_spaces, ignored_candidate_trailing_spaces")],[D,R]))
L.append(P("C05","Negation is complement",
 "A negated term is satisfied by a candidate if and only if the same term without the negation is not. A satisfied negated term adds nothing to the score and marks no characters, and it leaves the scores and marks of the query's other terms as they are.",
 ["inputs","configurations"],"all terms of every kind, all candidates, alone and next to other terms on either side, both metrics, all settings",
 "Only a few negated queries are tested, none on both sides of the decision; the baseline dropped the negation of a lone inverse fuzzy term and no test noticed.",
 [F+"fzf.rs",F+"query.rs"],
 [("inversion of the decision",F+"fzf.rs Fzf::score"),("the shortcut for single terms",F+"query.rs FzfQuery::new_extended")],[D,R]))
L.append(P("C06","Terms combine by AND and OR, and their scores add up",
 "A query of several groups matches if and only if every group has an alternative that matches. Its score is the sum, over the groups, of the score the first matching alternative has when asked alone. The result does not depend on how many groups or alternatives there are.",
 ["inputs","configurations"],"all combinations of terms joined by AND and OR, all candidates, both metrics",
 "Composition is tested on single examples of two or three terms with all-positive scores; the general law quantifies over every combination and number of terms.",
 [F+"fzf.rs",F+"parser.rs"],
 [("sum over conditions, first satisfied pattern",F+"fzf.rs Fzf::distance")],[D,R]))
L.append(P("C07","Ranges are only appended, well formed and disjoint",
 "Asking for the ranges leaves everything already in the caller's buffer as it was and appends, only in case of a match, non-empty byte ranges that lie inside the candidate, start and end on character boundaries and do not overlap one another. Without a match the buffer is untouched. This holds for whatever the buffer held before and however many calls share it.",
 ["inputs","histories"],"all queries, candidates, settings, initial buffers and sequences of calls that share a buffer",
 "The tests start from an empty buffer and look at the final ranges of matches; the baseline left ranges behind when a later term failed.",
 ["src/matched_ranges.rs",F+"fzf.rs","src/candidate.rs","src/metric.rs"],
 [("offset of earlier contents, insertion with merging","src/matched_ranges.rs MatchedRanges"),("roll-back without a match",F+"fzf.rs Fzf::distance"),("character to byte ranges","src/candidate.rs to_byte_range")],[R],
 [("ranges buffer","the caller's vector, of which only the part appended by the current call may change","src/matched_ranges.rs")]))
L.append(P("C08","Marked characters spell the terms, and several terms mark their union",
 "For one positive term the marked characters are, in order, exactly as many as the term has and equal to them under the current rules, and contiguous unless the term is fuzzy. For a query of several terms the marked characters are exactly the union of what its satisfied positive terms mark when asked alone, however these overlap.",
 ["inputs","configurations"],"all queries and candidates, all overlaps of marked ranges, both metrics",
 "The merging of ranges has eleven unit tests out of an unbounded number of insertion orders; the baseline lost coverage when a range spanned several earlier ones.",
 ["src/matched_ranges.rs",F+"fzf.rs",F+"fzf_v1.rs",F+"fzf_v2.rs"],
 [("merging insert","src/matched_ranges.rs insert"),("traceback",F+"fzf_v2.rs matched_ranges"),("span of the greedy match",F+"fzf.rs compute_score")],[R]))
L.append(P("C09","Asking for ranges does not change the distance",
 "For every query, candidate and setting, the distance returned together with ranges equals the distance returned without, and one is absent exactly when the other is.",
 ["inputs","configurations"],"all queries, candidates and settings, both metrics",
 "The two entry points are compiled into separate code with different shortcuts; the tests mostly exercise one of the two per example.",
 [F+"fzf.rs",F+"fzf_v1.rs",F+"fzf_v2.rs"],
 [("const-generic code shared by both",F+"fzf.rs Fzf::distance, score, compute_score; "+F+"fzf_v2.rs fuzzy")],[D,R]))
L.append(P("C10","The greedy metric's fuzzy score and marks follow its definition",
 "For a fuzzy term the greedy metric finds the earliest position at which the term is completed, then the shortest match that ends there, scanning backwards, and marks its characters. The score is 16 per matched character, less 3 for the start and 1 for each further character of a gap, plus the word-boundary bonuses, doubled for the term's first character and carried along consecutive runs.",
 ["inputs","configurations"],"all fuzzy terms and candidates, all settings",
 "Scores are tested on some thirty examples ported from fzf; the formula quantifies over all alignments, class sequences and gap lengths.",
 [F+"fzf_v1.rs",F+"fzf.rs",F+"scoring.rs"],
 [("two passes",F+"fzf_v1.rs forward_pass, backward_pass"),("scoring of the span",F+"fzf.rs compute_score")],[D,R]))
L.append(P("C11","The optimal metric's fuzzy score and marks are those of fzf's v2 recurrence",
 "For a fuzzy term the optimal metric's score is the maximum of the last row of fzf's dynamic programme (16 per match, 3 for the start and 1 per further character of a gap, never below zero, word-boundary bonuses doubled for the first character and carried along consecutive runs). The marked characters are those of the traceback from the first such maximum.",
 ["inputs","configurations"],"all fuzzy terms and candidates, all settings",
 "The dynamic programme's corner cases (equal alternatives, gaps that eat up earlier scores, narrowing of the matrix) need particular combinations; the baseline deviated in three ways that all the tests missed.",
 [F+"fzf_v2.rs",F+"slab.rs",F+"candidate.rs",F+"scoring.rs"],
 [("matrix filling",F+"fzf_v2.rs score_first_row, score_remaining_rows"),("traceback",F+"fzf_v2.rs matched_ranges"),("single-character shortcut",F+"fzf_v2.rs fuzzy_single_char")],[D,R],
 [("score and consecutive matrices","best score with the row's character matched at or before the column; length of the run that ends there",F+"slab.rs")]))
L.append(P("C12","Exact and anchored terms are scored as the run they mark",
 "An exact term marks its first occurrence at a word boundary or, if it has none, the occurrence whose first character has the highest bonus, the earliest among equals; prefix, suffix and equal terms mark the run they are anchored to. The score is that of a contiguous match of the marked run by the same rules as for fuzzy terms, in both metrics.",
 ["inputs","configurations"],"all exact, prefix, suffix and equal terms, all candidates, both metrics, all settings",
 "Which occurrence wins depends on what precedes each of them; tests have at most two occurrences, and the baseline looked at the wrong preceding character after a partial match.",
 [F+"fzf.rs",F+"scoring.rs"],
 [("best occurrence",F+"fzf.rs exact_match"),("score of the run",F+"fzf.rs compute_score")],[D,R]))
L.append(P("C13","Word-boundary bonuses follow character classes and the scoring scheme",
 "The bonus of a matched character depends only on its class (white space, delimiter, other symbol, lower case, upper case, other letter, digit), on the class of the character before it or the start of the candidate, and on the scheme. After white space, delimiters and symbols letters and digits get a boundary bonus (8, more after white space and delimiters as the scheme says), lower-to-upper and non-digit-to-digit changes 7, symbols and white space themselves their fixed bonuses. Every Unicode character is classified by its Unicode properties.",
 ["inputs","configurations"],"every Unicode scalar before, at and after a match, at the start and inside of candidates, the three schemes, both metrics",
 "Tests check about twenty characters; there are 1,112,064 scalars, 7 x 7 classes and 3 schemes.",
 [F+"scoring.rs",F+"scheme.rs",F+"candidate.rs"],
 [("classification",F+"scoring.rs char_class, ascii_char_class, non_ascii_char_class"),("bonus table",F+"scoring.rs compute_bonus"),("schemes",F+"scheme.rs"),("cached bonuses",F+"candidate.rs bonus_at")],[D]))
L.append(P("C14","Case sensitivity follows the setting, term by term, for all letters",
 "When case matters, characters match only themselves; when it does not, letters also match their upper- and lower-case forms, in ASCII and beyond. In the default smart mode case matters for exactly those terms of the query that contain an upper-case letter.",
 ["inputs","configurations"],"every Unicode scalar and its case variants as query and candidate character, all term kinds, queries of several terms, the three modes, both metrics",
 "Tests use ASCII letters and one or two accented ones; the baseline ignored the case of no letter outside ASCII.",
 ["src/utils.rs","src/candidate.rs","src/case_sensitivity.rs",F+"fzf_v1.rs",F+"fzf_v2.rs",F+"query.rs"],
 [("character comparison","src/utils.rs case_insensitive_eq, char_eq"),("two-byte search in ASCII candidates","src/candidate.rs find_first_ascii, find_last_ascii, CandidateMatches"),("smart case per term",F+"fzf_v1.rs, fzf_v2.rs char_eq; "+F+"query.rs has_uppercase")],[D,R]))
L.append(P("C15","Normalization folds accented Latin letters of the candidate only",
 "With normalization on, a candidate character in the Latin table also matches queries that have its base letter, and nothing else changes: query characters stand for themselves, and an accented query character still matches the same accented candidate character. With normalization off, which is the default, accented letters match only themselves up to the case rules.",
 ["inputs","configurations"],"every Unicode scalar as candidate character, all pairs of characters of the affected blocks, on and off, all case modes, all term kinds, both metrics",
 "Three unit tests look up single characters; the table has 461 entries in three batches that are re-indexed at compile time, so an off-by-one at a batch's edge hits characters no test has.",
 ["src/normalize.rs","src/utils.rs","src/candidate.rs"],
 [("table look-up","src/normalize.rs normalize, is_normalized, linearize_batch"),("literal query characters","src/utils.rs normalize_candidate_char")],[D,R]))
L.append(P("C16","A metric's answers do not depend on what it was asked before",
 "After any history of calls, setting changes and clones, a metric answers every call exactly as a freshly created one with the same settings does. Clones and originals do not influence one another afterwards.",
 ["histories","configurations"],"all sequences of calls with short, long, ASCII and non-ASCII arguments, setting changes, clones and swaps up to a depth; all orders of candidate lengths that grow or shrink the internal buffers",
 "Tests create a fresh metric per example, so stale contents of its reused buffers never matter in them.",
 [F+"slab.rs",F+"fzf_v1.rs",F+"fzf_v2.rs",F+"candidate.rs"],
 [("buffers reset on allocation",F+"slab.rs BonusSlab::alloc, CandidateSlab::alloc, MatrixSlab::alloc, MatchedIndicesSlab::alloc")],[D,R],
 [("slabs","per-instance buffers for bonuses, characters and matrices that only grow",F+"slab.rs")]))
L.append(P("C17","A parser can be reused for any sequence of queries of any length",
 "A query parsed by a parser that has parsed other texts before, in either mode, or that was copied from such a parser, answers as if parsed by a new one. A query's whole text counts, whatever its length and number of words.",
 ["histories","inputs"],"all sequences of parses over a set of texts of different shapes and lengths up to a depth; every query length around and between the powers of two",
 "Tests parse one short query per parser; growing and stale buffers only show in sequences.",
 [F+"parser.rs"],
 [("buffers grown before parsing",F+"parser.rs FzfParser::parse, parse_not_extended"),("slices of the parser's buffers",F+"parser.rs Patterns, Words")],[PA,PN,D,R],
 [("parser buffers","characters, patterns and conditions of the last query, reused by the next",F+"parser.rs")]))
L.append(P("C18","Distances are totally ordered, better matches first",
 "Distances are totally ordered, consistently through every comparison operator, and a match with a higher score has the lower distance, so that sorting in ascending order puts the best matches first. Two distances are equal if and only if their scores are.",
 ["inputs"],"all pairs and triples of the distances reachable on the explored spaces",
 "Tests compare scores, and a couple of distances with one operator.",
 [F+"distance.rs"],
 [("reversed comparison",F+"distance.rs Ord, PartialOrd")],["FzfDistance: Ord, PartialOrd, Eq"]))
L.append(P("C19","Non-ASCII bystanders change nothing",
 "Whether a candidate is stored and searched as ASCII bytes or as decoded characters is invisible: replacing characters that the query cannot match by wider ones of the same class, or appending such characters after the match, changes neither the decision nor the score, and the same characters are marked.",
 ["inputs","configurations"],"all candidates over small alphabets and their wide counterparts, all lengths up to 140 and some longer ones, queries of every kind, both metrics, all schemes and case modes",
 "The ASCII and the Unicode path are separate code; tests compare neither with the other.",
 ["src/candidate.rs",F+"fzf.rs",F+"slab.rs"],
 [("two representations","src/candidate.rs Candidate::Ascii, Candidate::Unicode"),("choice of the path",F+"fzf.rs Fzf::score")],[D,R]))
L.append(P("C20","The literal parser takes its text as one fuzzy term",
 "Without extended search the whole text, including spaces, backslashes, bars and all marks, is one fuzzy term of any length, with the same decision, score and marks as that sequence of characters demands. For texts without special characters both parsers give the same answers.",
 ["inputs"],"all texts over the special characters up to a length, texts of every length up to several hundred, all candidates, both metrics",
 "There are two tests of the literal mode; the baseline panicked on any text longer than 64 characters.",
 [F+"parser.rs",F+"query.rs"],
 [("copying of the text",F+"parser.rs parse_not_extended"),("raw pattern",F+"query.rs Pattern::raw")],[PN,D,R]))
L.append(P("C21","Length never matters",
 "Candidates and terms of any length get the decision, score and marks that the definitions demand: nothing is truncated, wrapped around or approximated for long inputs, wherever in the candidate the match lies.",
 ["inputs"],"candidates of every length up to several hundred and selected lengths around the powers of two up to 131,073, terms up to 257 characters, matches at the start, the middle, the end and across type-width boundaries, all term kinds, both metrics",
 "The longest candidate in the tests has under a hundred characters.",
 [F+"slab.rs",F+"fzf_v1.rs",F+"fzf_v2.rs",F+"fzf.rs","src/candidate.rs"],
 [("growing buffers",F+"slab.rs"),("index arithmetic",F+"fzf_v2.rs; "+F+"slab.rs Matrix")],[D,R]))
L.append(P("C22","No memory is accessed out of bounds, after release or as an invalid value",
 "No sequence of safe calls makes the library read or write outside live allocations, use a buffer after it was moved or released, or create an invalid value. In particular a parsed query stays valid while its parser's buffers grow, and characters produced by normalization are valid characters.",
 ["inputs","histories"],"all calls of the sanitized spaces: every family of the other checks at smaller bounds, histories of calls, parses and clones",
 "The unsafe blocks extend lifetimes and reinterpret integers as characters; a violation is usually silent, so passing tests prove nothing.",
 [F+"parser.rs",F+"fzf_v1.rs",F+"fzf_v2.rs","src/normalize.rs",F+"slab.rs"],
 [("lifetime extension",F+"parser.rs transmute; "+F+"fzf_v1.rs, fzf_v2.rs alloc_chars"),("reinterpreted characters","src/normalize.rs linearize_batch")],[PA,PN,D,R]))
L.append(P("C23","Answers do not depend on how the library is built",
 "Building only the greedy metric, only the optimal one or both, with or without optimisation, runtime assertions and overflow checks, for machines of either word size and byte order, gives the same answers for every query and candidate.",
 ["configurations","inputs"],"eight builds-and-metrics over the shared spaces (both features checked, optimised and plain; each feature alone), a 32-bit and a big-endian target over smaller spaces",
 "The tests are run in one build with all features; conditional compilation and debug-only code are invisible to them.",
 ["src/lib.rs",F+"mod.rs","src/utils.rs",F+"fzf.rs"],
 [("features","Cargo.toml fzf-v1, fzf-v2; src/lib.rs, "+F+"mod.rs")],[PA,D,R]))
L.append(P("C24","Settings take effect at once, independently, the last value wins",
 "After any sequence of setting changes, answers are governed by the last value given to each of case sensitivity, normalization and scheme, and by the default (smart, off, default scheme) for those never set. The settings do not influence one another, and setting them one by one or chained makes no difference.",
 ["histories","configurations"],"all sequences of setter calls up to a depth over all values, both metrics, probes that tell all settings apart",
 "Tests change one setting on a fresh metric; orders and combinations are not tried.",
 [F+"fzf_v1.rs",F+"fzf_v2.rs",F+"scheme.rs"],
 [("setters",F+"fzf_v1.rs, fzf_v2.rs set_candidate_normalization, set_case_sensitivity, set_scoring_scheme")],["set_candidate_normalization","set_case_sensitivity","set_scoring_scheme",D],
 [("settings","case sensitivity, normalization and scheme of an instance",F+"fzf_v1.rs, "+F+"fzf_v2.rs")]))
L.append(P("C25","A query without terms matches everything neutrally",
 "The empty query and every text that contains no term match every candidate, including the empty one, with the same neutral distance and without marking anything. Added to a query as words of their own they change none of its answers.",
 ["inputs"],"all texts over white space and marks up to a length that contain no term, alone and around other terms, all candidates, both metrics, both parsers",
 "Only the empty string is tested.",
 [F+"fzf.rs",F+"query.rs",F+"parser.rs"],
 [("shortcut for empty queries",F+"fzf.rs Fzf::distance; "+F+"query.rs is_empty"),("words without text are dropped",F+"query.rs Pattern::parse")],[PA,PN,D,R]))
L.append(P("C26","Users of separate objects never disturb one another",
 "Two users with their own parsers and metrics get, under every interleaving of their calls, the answers each gets alone.",
 ["schedules","histories"],"all interleavings of the calls of two clients over all scripts up to a length, with different metrics and settings; the explorer itself runs all its walks concurrently on all cores",
 "No test has two users; hidden shared state (a cache, a static, a thread-local) would pass all of them.",
 [F+"fzf_v1.rs",F+"fzf_v2.rs",F+"parser.rs",F+"slab.rs"],
 [("state lives in the objects",F+"slab.rs; "+F+"parser.rs")],[PA,PN,D,R]))
L.append(P("C27","Memory use is bounded by the inputs and given back",
 "What a metric or a parser holds after any history of calls is bounded by a fixed multiple of the largest inputs it has been given (the product of query and candidate length for the optimal metric). Repeating calls it has answered before never makes it hold more, however often. What objects hold is given back when they are dropped: creating, using and dropping them over and over never accumulates anything.",
 ["histories","inputs"],"all windows of two to four calls in long lives of one object, over calls of all kinds, sizes and settings, each life lived twice; all short candidates in turn; both metrics and the parser",
 "Tests make one call per object and don't look at memory: a buffer that grows with every call, a cache that is never emptied or a leak passes all of them and ends a long-running editor or search tool.",
 [F+"slab.rs",F+"parser.rs",F+"fzf_v1.rs",F+"fzf_v2.rs"],
 [("buffers grown to the inputs' size and reused",F+"slab.rs BonusSlab::alloc, CandidateSlab::alloc, MatrixSlab::alloc, MatchedIndicesSlab::alloc; "+F+"parser.rs FzfParser::parse, parse_not_extended")],["global allocator: live and peak bytes during "+PA+", "+D+", "+R],
 [("live bytes and blocks","what the library holds between two calls",F+"slab.rs, "+F+"parser.rs")]))
L.append(P("C28","The work of a call grows as documented",
 "For one fuzzy term the fast metric does work proportional to the lengths of query and candidate, whether or not they match; the optimal metric does work proportional to their product, and turns a candidate down in proportion to the lengths alone. Terms of the other kinds and queries of several terms take no more than the product. Parsing takes time proportional to the query's length. What a call costs depends on its own query and candidate, not on what the same objects were asked before or on what is already in the caller's buffer.",
 ["inputs","histories"],"all pairs of a term (kinds, repeated units, with a missing first or last character, and several terms) and a candidate made of two repeated units, scaled along the candidate, the query and both; the same calls behind large ones, behind many, and onto a filled buffer; both metrics",
 "Tests don't look at the work done, and at their sizes a scan from the start for every match or a buffer cleared as a whole costs nothing; on a list of long candidates it stops the editor.",
 [F+"fzf_v1.rs",F+"fzf_v2.rs",F+"fzf.rs",F+"slab.rs",F+"parser.rs","src/candidate.rs","src/matched_ranges.rs"],
 [("documented complexity",F+"fzf_v1.rs and fzf_v2.rs, documentation of FzfV1 and FzfV2"),("one pass forwards, one backwards",F+"fzf_v1.rs forward_pass, backward_pass; "+F+"fzf_v2.rs matches"),("buffers cleared as far as they are used",F+"slab.rs MatrixSlab::alloc, BonusSlab::alloc")],[PA,PN,D,R],
 [("instructions","machine instructions a call executes","all of src")]))
L.append(P("C29","A parsed query is a value",
 "A parsed query gives the same answers however it is used: any number of times, by any number of metrics of either kind, with any settings that may change between uses, as a copy, and by several threads at the same time. What one use finds never shows in another, and parsing is independent of the metric the query is meant for.",
 ["histories","schedules","configurations"],"all windows of two and three uses of one parsed query over metrics, settings, candidates and copies; four threads with one query; two threads with one query, preempted between any two machine instructions",
 "Tests parse a query for one call or a few of the same metric; a decision that is kept in the query on its first use, or scratch state in it, passes all of them.",
 [F+"query.rs",F+"parser.rs",F+"fzf.rs"],
 [("queries are plain borrowed data",F+"query.rs FzfQuery, Condition, Pattern"),("settings are looked up at each call",F+"fzf_v1.rs, fzf_v2.rs char_eq, fuzzy")],[PA,PN,D,R],
 [("parsed query","the terms, which the parser owns",F+"parser.rs")]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in L))
quickchecks=[]
tech={
"C01":"exhaustive bounded enumeration of the real code's inputs (explicit-state, all cores)",
"C16":"explicit-state exploration of all call/setting/clone histories of the real code, against fresh instances",
"C17":"explicit-state exploration of all parse histories of the real code, against fresh parsers",
"C22":"exhaustive bounded enumeration of the real code under AddressSanitizer and the Miri interpreter",
"C23":"exhaustive bounded enumeration in eight builds, and in interpreters of 32-bit and big-endian machines, answer digests compared job by job",
"C24":"explicit-state exploration of all setter sequences, conformance with the reference model",
"C26":"exhaustive exploration of all interleavings of two clients' calls on the real code",
"C08":"explicit-state search to fixpoint over range sets, and exhaustive enumeration with model conformance",
"C07":"exhaustive bounded enumeration and call sequences on the real code, plus the range-set graph",
"C27":"explicit-state exploration of long call histories of the real code (de Bruijn walks) with a counting allocator as monitor",
"C28":"exhaustive enumeration of scaled calls of the real code with an instruction counter (Callgrind) as monitor",
"C29":"explicit-state exploration of all windows of uses of one parsed query on the real code, and of all preemptions of two threads with one query",
"C18":"exhaustive enumeration of all pairs and triples of the reachable distances",
"C05":"exhaustive bounded enumeration, relation between the real code's own answers",
"C06":"exhaustive bounded enumeration, composition of the real code's own answers",
"C09":"exhaustive bounded enumeration, relation between the real code's two entry points",
"C19":"exhaustive bounded enumeration, relation between ASCII and wide candidates on the real code",
}
note="Exhaustive within the bounds in DESIGN.md, on the compiled library through its public API; nothing is sampled. Trusts {}, the harness and rustc."
trust={"C05":"the meaning of the plain term as answered by the library","C06":"the reference parser for the structure of the query","C09":"nothing but the comparison","C16":"fresh instances as the reference","C17":"fresh parsers and the reference model","C18":"the private score accessor","C19":"the choice of wide characters of the same class","C22":"AddressSanitizer and Miri","C23":"the reference build and Miri as interpreter of other targets","C29":"queries parsed for one use as the reference","C27":"the counting allocator and a generous constant in the bound","C28":"Callgrind as the counter and factors that leave room for constants and thresholds","C26":"fresh objects as the reference; calls are the atomic steps, since the library has no synchronisation inside them","C01":"the 25 s limit that tells a loop from a long call","C15":"the frozen Latin table"}
checks=[]
for p in L:
    i=p["id"]
    checks.append({"property":i,"quick_cmd":f"bash ./check.sh {i} quick","thorough_cmd":f"bash ./check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
     "technique":"model checking: "+tech.get(i,"exhaustive bounded enumeration of the real code, conformance with an executable reference model"),
     "level":"model_checking","level_note":note.format(trust.get(i,"the reference model (harness/src/model.rs)"))})
m={"version":1,"setup_cmd":"bash ./setup.sh","checks":checks,"not_applicable":[],
"notes":"No hooks: the checks use norm's public API and its private `__into-score` feature, which is part of the original repository. Exit 2 of a check means it could not be decided (build failure). Repaired defects are in known_findings.txt, planted bugs in seeded/."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1,ensure_ascii=False)
