#!/usr/bin/env python3
# Source of properties.jsonl (one call per property); run: python3 tools/mkprops.py
import json, os
out = []
def P(id, title, statement, over, q, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    out.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})

P("C01", "Command lines are split into words exactly as typed",
  "A command line is split at blanks and tabs into words, where a double-quoted string and a backslash-escaped character keep blanks, quotes and tabs inside one word, an empty trailing word marks a line ending in a blank, and the rest-of-line string that accompanies each word is the text that starts there. Splitting never loses, duplicates or invents a character, quoting and escaping any word and splitting it again gives the same word back, and an unterminated quote makes the rest of the line, quote included, one word. Trimming a line collapses blanks between words, strips surrounding blanks and a comment that starts at a word, and leaves every quoted or escaped word as it is.",
  ["inputs"], "all byte strings without NUL as command lines; all comment characters; all words to be quoted",
  "test_escaping and test_comment type a handful of fixed lines; the quantifier is every string over blanks, quotes, backslashes and text.",
  ["cligen_cvec.c", "cligen_read.c", "cligen_expand.c"],
  [("tokeniser next_token / cligen_str2cvv / cligen_txt2cvv", "cligen_cvec.c"), ("cli_trim", "cligen_read.c"), ("cligen_escape_need / cligen_escape_do", "cligen_expand.c")])

P("C02", "Typed values accept exactly their documented syntax and keep the value",
  "For every value type (signed and unsigned integers of 8 to 64 bits, decimal64, boolean, IPv4/IPv6 address and prefix, MAC address, UUID, URL, time, strings), text is accepted if and only if it is a legal literal inside the type's domain, and the stored value is exactly the one the literal denotes, including at both ends of every range. A rejected literal yields a reason.",
  ["inputs"], "all types crossed with all literals: boundary values, near misses, other bases, stray signs and separators, arbitrary bytes",
  "test_types tries one or two literals per type; wrong limits, overflow, dropped digits and off-by-one fields need the whole input space.",
  ["cligen_cv.c"], [("parse_int*/parse_uint*/parse_dec64/parse_bool/cv_parse1/str2uuid/str2time/parse_url", "cligen_cv.c"), ("cv_*_get accessors", "cligen_cv.c")])

P("C03", "Printing a value and parsing it back gives the same value",
  "Every value of every type prints as text that parses back to an equal value, all the print routines (stream, buffer, fixed-size string, allocated string) agree on that text, and a fixed-size destination is never written past its end and always terminated. The printed maximum of each integer type is its true maximum.",
  ["inputs"], "all types, all values including extremes, zero, negative fractions, all-ones addresses and empty strings; all destination sizes",
  "The tests print a few ordinary values; sign, padding, fraction digits and small destination sizes only show for particular values.",
  ["cligen_cv.c"], [("cv2cbuf/cv2str/cv2str_dup/cv_print/cv_dec64_print/uuid2str/time2str/cvtype_max2str", "cligen_cv.c")])

P("C04", "Range, length and pattern constraints admit exactly the allowed values",
  "A variable declared with ranges, string lengths or regular expressions accepts a word if and only if the word is a legal value of its type that lies in at least one of the declared intervals and matches every declared pattern (inverted patterns must not match). One-sided bounds extend to zero or to the other end of the type, bounds are inclusive, and a refused word is reported with an explanation.",
  ["inputs", "programs"], "all variable types with any number of intervals (any order, adjacent, one-sided, fractional) and pattern lists, against boundary, inside and outside words",
  "test_types covers one or two intervals per type; interval combinations at the limits of each type are never sampled.",
  ["cligen_cv.c", "cligen_match.c", "cligen_parse.y", "cligen_regex.c"],
  [("cv_validate and its range macros", "cligen_cv.c"), ("cg_range/cg_length/cg_dec64_n handling", "cligen_parse.y"), ("match_variable", "cligen_match.c")])

P("C05", "Value comparison is a total order and copies are exact and independent",
  "Comparing two values of the same type agrees with the natural order of the values they hold (antisymmetric, transitive, zero only for equal values), for every type and for values arbitrarily far apart. A copy compares equal, carries name, type, constant and flag attributes, and lives on unchanged when the original is modified, reset or freed; setting or clearing a flag affects only that flag, and min/max assignment gives the extreme of the type, and once every value is freed no storage of it is left.",
  ["inputs", "histories"], "all types, all pairs and triples of values, all sequences of set/copy/reset/flag operations",
  "No test compares values that differ by more than the width of an int or mutates a copied value.",
  ["cligen_cv.c"], [("cv_cmp", "cligen_cv.c"), ("cv_cp/cv_dup/cv_reset/cv_flag*", "cligen_cv.c"), ("cv_max_set/cv_min_set", "cligen_cv.c")])

P("C06", "A variable vector behaves as an ordered list of named values",
  "Any sequence of operations on a variable vector (create, add, append, delete by index or element, iterate, duplicate, look up by name with keyword/variable distinction, print) gives the results of the same operations on a plain ordered list. Lookups find the first match in order, iteration visits every element once in order, a duplicate is equal to and independent of its original, and out-of-range positions are refused without effect; once every vector is freed no storage of it is left.",
  ["histories"], "all operation sequences over vectors of mixed element types",
  "The tests use vectors only as a by-product of command callbacks; deletions, duplicates and out-of-range access are never sequenced.",
  ["cligen_cvec.c"], [("cvec_* functions", "cligen_cvec.c")])

P("C07", "A dynamic buffer holds exactly the bytes appended to it",
  "After any sequence of formatted prints, character, string and raw byte appends, truncations and resets, a dynamic buffer holds exactly the concatenation of what was appended since the last reset, reports that length, and is NUL-terminated, for every initial size and growth threshold. Its capacity always exceeds its length and never shrinks, so no append is cut short or overruns.",
  ["histories", "configurations"], "all operation sequences with chunk sizes around the growth steps; all initial-size and threshold settings",
  "The tests never hit growth boundaries on purpose; off-by-one growth errors need chunks that land exactly on a step.",
  ["cligen_buf.c"], [("cbuf_* / cprintf growth", "cligen_buf.c")])

P("C08", "A specification accepts exactly the command lines it describes",
  "For every command specification built from sequences, choices, optional parts, groups, nested blocks, keyword sets of choices and typed variables, a complete line is accepted if and only if it is in the language the specification denotes, each word then being bound to the element it matched. A proper prefix of a command is reported as incomplete and any other line as unknown, never the other way round.",
  ["programs", "inputs"], "all specifications in the syntax (bounded size) crossed with sampled sentences of the language, their prefixes and mutations",
  "test_commands feeds fixed lines to fixed specifications; interaction of optional parts, choices and nesting is unbounded.",
  ["cligen_parse.y", "cligen_parse.l", "cligen_match.c", "cligen_parsetree.c", "cligen_object.c"],
  [("grammar actions: options, choices, blocks, terminals", "cligen_parse.y"), ("match_pattern_sets / match_vec", "cligen_match.c"), ("co_insert/co_find_one merge", "cligen_object.c")])

P("C09", "Unique abbreviations resolve to the full command; others are refused",
  "Shortening any keyword of a command to a prefix that fits no other alternative at that point gives the same result as the full keyword, and a keyword typed in full is taken even when it is a prefix of another one. A prefix that fits several different alternatives is refused as ambiguous instead of silently choosing one, and with case-insensitive mode on the letter case of keywords makes no difference.",
  ["programs", "inputs", "configurations"], "all specifications with overlapping keywords, all abbreviations of each word at each position, with and without case-insensitive mode",
  "The tests abbreviate a few commands; overlapping prefixes at inner levels and mixed case are not enumerated.",
  ["cligen_match.c", "cligen_object.c"], [("match_vec / match_object / match_bestmatch", "cligen_match.c"), ("co_pref", "cligen_object.c")])

P("C10", "Accepted commands run their callbacks with exactly the typed words and values",
  "When a command line is accepted, the callbacks attached to the matched command run in order, exactly once each, with the arguments given in the specification; their value vector holds the typed line first and then one entry per word with the element's name, type and parsed value, adjusted by the expand-keywords and exclude-keywords options and by translation functions. A failing callback stops the rest and the evaluation is reported as failed, a command without callback runs nothing, and a rejected line runs nothing.",
  ["programs", "inputs", "configurations"], "all generated specifications with callbacks at any level and argument, all accepted lines, all option settings, callbacks failing at any position",
  "The tests print a few callback vectors; option combinations, argument types and failure positions are unbounded.",
  ["cligen_read.c", "cligen_match.c", "cligen_callback.c", "cligen_syntax.c", "cligen_parse.y"],
  [("cligen_eval", "cligen_read.c"), ("match_pattern cvv building", "cligen_match.c"), ("callback parsing and copying", "cligen_parse.y, cligen_callback.c")])

P("C11", "Overlapping alternatives are resolved by documented preference",
  "When a word fits several alternatives, the choice follows the documented preference: keyword over variable, more specific variable types over more general ones, explicit preference values overriding both, and the preference mode deciding whether equally preferred or non-terminal alternatives are taken, reported ambiguous, or resolved to the first. The outcome never depends on the order in which the alternatives were declared or on earlier input, except where the mode documents taking the first.",
  ["programs", "inputs", "configurations"], "all sets of overlapping alternatives (types, ranges, patterns, keywords, preference values), all words, all four preference modes",
  "test_preference fixes a few trees and words; the pairwise preference relation over types and modes is larger.",
  ["cligen_object.c", "cligen_match.c", "cligen_read.c"], [("co_pref", "cligen_object.c"), ("match_bestmatch, match_multiple/preference-mode handling", "cligen_match.c")])

P("C12", "Set members can be given in any order, each at most once",
  "In a set, every non-empty sequence of its members given in any order, each at most once, is accepted with all their values bound in the typed order, and repeating a member is refused; the empty sequence is accepted only where the command is complete without the set. A set is left as soon as a following word is not an unused member, nested sets and subtrees under members obey the same rule, and completion and help offer only members not yet used.",
  ["programs", "inputs"], "all set specifications (bounded), all orders and multiplicities of members with abbreviations",
  "test_sets lists a few permutations of one specification.",
  ["cligen_match.c", "cligen_parse.y", "cligen_parsetree.c"], [("match_pattern_sets", "cligen_match.c"), ("CO_FLAGS_MATCH bookkeeping", "cligen_match.c, cligen_result.c")])

P("C13", "TAB completion only inserts what every continuation shares",
  "Pressing TAB extends the word being typed to the longest prefix common to all keyword alternatives that fit it, adds the delimiter exactly when only one alternative remains, and otherwise leaves the line unchanged apart from listing the alternatives. Completion never changes or removes typed text, leaves a word that fits every keyword it fitted before, is stable when repeated as long as several alternatives remain, works the same with the cursor inside the line, and never shows hidden alternatives; listings contain each visible alternative that fits, once.",
  ["programs", "inputs", "configurations"], "all generated specifications, all partial lines, cursor positions and completion mode settings",
  "test_completion checks fixed trees and lines; common prefixes, quoting and set states vary without bound.",
  ["cligen_match.c", "cligen_read.c", "cligen_io.c"], [("match_complete", "cligen_match.c"), ("cli_tab_hook / cli_complete / show_help_columns", "cligen_read.c")])

P("C14", "Help lists exactly what can be typed next",
  "Asking for help at any point of a line lists exactly the visible alternatives that can continue it, each once with its help text, in order, plus the end-of-command marker if and only if the line is already a complete command (not shown for one that starts with a hidden keyword). Hidden alternatives never appear but still work when typed in full, and help text layout respects the configured width, truncation and number of lines without dropping or altering the text otherwise.",
  ["programs", "inputs", "configurations"], "all generated specifications with help texts and hidden elements, all partial lines, all layout settings",
  "test_hide/test_helpstrings check a handful of layouts and trees.",
  ["cligen_io.c", "cligen_read.c", "cligen_expand.c", "cligen_match.c"], [("print_help_lines / print_help_line / cligen_help", "cligen_io.c"), ("cli_qmark_hook / show_help_line", "cligen_read.c"), ("pt_expand hide", "cligen_expand.c")])

P("C15", "A tree reference behaves as the referenced tree written in place",
  "Referencing another tree behaves, for matching, completion, help and callbacks, exactly like writing that tree's statements in place of the reference, minus statements filtered by label in the reference, for nested, repeated, forward and recursive references alike. Callbacks reached through a reference run the referencing statement's function with the local arguments followed by the reference's arguments, and nothing done through one reference affects the referenced tree or any other use of it.",
  ["programs", "inputs"], "all generated systems of trees with references at any position, recursion, filters and callback arguments, crossed with lines",
  "test_reftree checks a few fixed pairs of trees.",
  ["cligen_expand.c", "cligen_match.c", "cligen_pt_head.c"], [("pt_expand_treeref / pt_reference_trees / callbacks merge / co_isfilter", "cligen_expand.c")])

P("C16", "Using the interpreter never changes the specification or leaks memory",
  "Matching, completing, asking help and evaluating any sequence of lines leaves every command tree, variable and option exactly as before, so the answer to a line never depends on lines entered earlier. All memory allocated by a session, including failed parses and refused lines, is released by the time the interpreter is closed.",
  ["histories", "programs"], "all generated specifications and all sequences of match/complete/help/eval operations, valid or not",
  "Each test runs one line in a fresh process or a short fixed dialogue; carried-over state and leaks need long random histories.",
  ["cligen_match.c", "cligen_expand.c", "cligen_read.c", "cligen_handle.c"], [("pt_expand_cleanup / co_flags resets", "cligen_expand.c, cligen_match.c"), ("cligen_exit", "cligen_handle.c")])

P("C17", "A printed specification parses back to the same specification",
  "Printing a command tree in specification syntax and parsing the printed text gives a tree equal to the original in everything the specification syntax expresses: structure, names, types, constraints, choices, help texts, callbacks with arguments, hidden labels and references. Printing the reparsed tree gives the same text again.",
  ["programs"], "all generated specifications (bounded size) over every construct of the syntax",
  "No test parses printed output; each construct and its combinations can be printed wrongly on its own.",
  ["cligen_print.c", "cligen_parse.y"], [("pt_print/co_print/cov2cbuf/co_callback2cbuf", "cligen_print.c, cligen_callback.c")])

P("C18", "Rewriting a specification into an equivalent form changes nothing",
  "The same commands written in a different but equivalent way (statements reordered, split over several statements or several parsed texts, expanded from choices or options, wrapped in groups, or with different layout and comments) give the same accepted lines, values, callbacks, completions and help. Children of a node are kept sorted and unique, so merging never loses or duplicates a command.",
  ["programs", "inputs"], "all generated specifications crossed with equivalence-preserving rewritings and sampled lines",
  "Tests write each specification in a single way; merge order effects need many rewritings of one specification.",
  ["cligen_parse.y", "cligen_object.c", "cligen_parsetree.c"], [("co_insert1 / co_eq / cligen_parsetree_merge / cligen_parsetree_sort", "cligen_object.c, cligen_parsetree.c")])

P("C19", "History keeps the latest distinct lines in order and survives save and load",
  "Command history keeps the most recent lines in order up to the configured size, discarding oldest first and not repeating a line equal to the latest one; at each new line, stepping starts from the latest; stepping back and forth visits them in order and gives an empty line after the latest, and edits made to a recalled line never change the entry. Saving the history to a file and loading it reproduces the same list for lines of any length.",
  ["histories", "configurations"], "all sequences of entered lines, recall keys, edits, resizes, saves and loads, for all history sizes",
  "test_getline does a few recalls; wrap-around, long lines and file round-trips are not covered.",
  ["cligen_history.c", "cligen_getline.c"], [("hist_add/hist_prev/hist_next/hist_save, cligen_hist_file_*", "cligen_history.c")])

P("C20", "Incremental history search finds the nearest matching line",
  "In incremental search, each typed character, repeat of the search key (in either direction) or deletion shows the nearest line in history, in the chosen direction from the current position, that contains the text searched for, or an empty line when there is none; a deletion searches again from where the search was started or last repeated. Leaving the search gives that line for further editing, and accepting it enters exactly that line.",
  ["histories", "inputs"], "all histories and all key sequences within a search",
  "No test enters search mode with more than one entry and direction.",
  ["cligen_getline.c", "cligen_history.c"], [("search_* functions", "cligen_getline.c")])

P("C21", "The line editor returns exactly the edited text",
  "For every sequence of key strokes (insertion, overwrite, cursor movement, word movement, deletion, kill and yank, transposition, escapes, arrow keys, TAB, help), the line returned equals the result of applying the same edits to a plain text buffer with a cursor, for lines of any length. End of input, interrupt and suspend keys behave as documented and never deliver a truncated or stale line.",
  ["histories", "inputs", "configurations"], "all key sequences up to a few hundred keys, lines longer than any internal buffer step, all editor options",
  "test_getline sends a few keys; buffer growth and edit interactions need long random key sequences.",
  ["cligen_getline.c", "cligen_handle.c"], [("gl_getline and the gl_* edit primitives", "cligen_getline.c"), ("cligen_buf_increase", "cligen_handle.c")])

P("C22", "What the terminal shows matches the line being edited",
  "After every key stroke, interpreting the characters sent to a terminal of the configured width shows the prompt followed by the current line (or, with horizontal scrolling, the visible window of it) with nothing left over from earlier states, and the terminal cursor at the editing position. This holds for wrapping and scrolling modes, for any width, prompt and line length, and after redraws.",
  ["histories", "configurations"], "all key sequences, widths, prompts, scroll modes",
  "test_scroll_* check two recorded dialogues; every edit at every column relative to the margin differs.",
  ["cligen_getline.c"], [("gl_fixup and cursor movement emitters", "cligen_getline.c")])

P("C23", "Paged output shows every character exactly once and in order",
  "Everything printed through the output function appears on the terminal completely and in order, whatever the page height, line width, chunking of the calls and pager answers, until the user quits; after quitting, the rest of that command's output is suppressed and, once output is reset for the next command, output is shown again. The pager stops after exactly a screenful of rows (a row filled to the margin may count as two), shows one line or one page more on request, asks again after help, takes one key per stop and leaves keys typed ahead to the next line, and with paging off nothing is held back.",
  ["inputs", "histories", "configurations"], "all output texts split into any calls, all terminal sizes, all sequences of pager key presses",
  "No test answers a pager prompt; long lines, chunk boundaries and answer sequences are unbounded.",
  ["cligen_io.c"], [("cligen_output / cligen_output_scroll / cli_output_reset", "cligen_io.c")])

P("C24", "Any specification text is parsed or cleanly rejected",
  "Reading any text as a specification either succeeds or fails with an error, without crashing, hanging, corrupting memory or leaving the interpreter unusable. After a rejected specification, trees loaded before it still work as before.",
  ["programs", "inputs"], "all byte strings: generated specifications, mutations of them, and arbitrary bytes",
  "The tests parse well-formed specifications and a couple of errors.",
  ["cligen_parse.y", "cligen_parse.l", "cligen_syntax.c"], [("lexer states and grammar actions", "cligen_parse.l, cligen_parse.y"), ("clispec_parse_str/clispec_parse_file", "cligen_syntax.c")])

P("C25", "No typed input can crash or hang the interpreter",
  "For every specification and every sequence of bytes typed at the prompt (including control bytes, very long lines, quotes, escapes, TAB, help and search keys, end of input at any point), the interpreter keeps running or ends cleanly: it never crashes, hangs, reads or writes outside its buffers, and afterwards still accepts and correctly executes a known command.",
  ["inputs", "histories", "configurations"], "all generated specifications, option settings and byte streams",
  "Tests feed well-formed lines only.",
  ["cligen_getline.c", "cligen_read.c", "cligen_match.c", "cligen_expand.c", "cligen_io.c"], [("gl_getline, cli_complete, match_complete, cliread_parse", "cligen_getline.c, cligen_read.c, cligen_match.c")])

P("C26", "Tree editing operations keep trees well-formed",
  "Any sequence of tree operations (create, insert, append, delete, copy, merge, sort, truncate, find, apply) leaves a well-formed tree: every child knows its parent, inserting keeps siblings sorted and merges equals, a copy is structurally equal and shares nothing with its source, find returns the element with that name, and every element is released exactly once.",
  ["histories"], "all operation sequences over small trees of commands and variables",
  "The tests reach these operations only through the parser.",
  ["cligen_parsetree.c", "cligen_object.c"], [("pt_*/co_* operations", "cligen_parsetree.c, cligen_object.c")])

P("C27", "Dynamically expanded alternatives behave like declared keywords",
  "The strings produced by an expansion function for the current partial command are offered, completed, abbreviated and matched like keywords, whatever characters they contain: strings needing quotes or escapes are completed to text that, entered, binds exactly the original string to the variable. The function is called with its declared name and arguments and the values typed so far, its results are used only for that query, and a word that fits none of the results is accepted only if another alternative takes it.",
  ["programs", "inputs", "histories"], "all expansion result sets (duplicates, blanks, quotes, special characters, shared prefixes, help texts), all partial lines",
  "test_expand uses two fixed result lists.",
  ["cligen_expand.c", "cligen_match.c"], [("pt_expand_fn / co_expand_sub / cligen_escape_do", "cligen_expand.c")])

P("C28", "Regular expressions match whole words in both engines",
  "A pattern matches a word if and only if the whole word is in the language of the pattern, with both the POSIX and the XML Schema engine, and the inverted form matches exactly the other words. A malformed pattern is reported as an error and never matches.",
  ["inputs", "configurations"], "all patterns in the common subset (literals, classes, escapes, alternation, repetition, groups), all words, both engines",
  "test_types checks a couple of patterns with one engine each.",
  ["cligen_regex.c"], [("cligen_regex_posix_*, cligen_regex_libxml2_*, match_regexp", "cligen_regex.c")])

P("C29", "Trees and edit positions are kept and switched independently",
  "Named trees can be added, found, listed and switched to by name in any order, and each keeps its own statements, prompt and edit position. Moving a tree's edit position (cligen_wp_set, cligen_wp_up, cligen_wp_top) makes references to that tree accept exactly the commands below the position, cligen_wp_show shows exactly that subtree, and leaving the position restores the whole; neither the statements of the tree itself nor any other tree is affected, and with no tree active a line is refused with an error.",
  ["histories", "programs"], "all sequences of tree registration, activation, edit-position moves and commands",
  "test_mode walks a single short path.",
  ["cligen_pt_head.c", "cligen_handle.c", "cligen_expand.c"], [("cligen_ph_* registry, cligen_wp_* callbacks, treeref workpoint", "cligen_pt_head.c, cligen_expand.c")])

P("C30", "An alias runs exactly the command it stands for",
  "After an alias is defined, typing it (in full or uniquely abbreviated) runs the aliased command exactly as if its line had been typed, redefining an alias replaces its command and help, and other commands are unaffected. An alias that would shadow an ordinary command of its tree, or whose name is no keyword, is refused and changes nothing; one whose command is not acceptable when used (or runs itself) is reported and runs nothing.",
  ["histories", "programs"], "all specifications, all sequences of alias definitions, redefinitions and uses",
  "Only the tutorial defines an alias once.",
  ["cligen_syntax.c"], [("cligen_alias_add / cligen_alias_call", "cligen_syntax.c")])

P("C31", "Output pipes deliver the command's whole output through the filter",
  "When a command is followed by an output pipe (written explicitly, inherited from the tree's default or implicit), everything the command prints, in order and complete, is the input of the pipe function called with its arguments, and what the pipe function prints is what appears, however much is printed on either side, however slowly, and whether or not the pipe function reads it all; a failing command or pipe function is reported. After the command, output goes to the terminal again, no process or descriptor is left behind, and a command without pipe is not filtered.",
  ["programs", "inputs", "histories", "configurations"], "all specifications with pipe trees, output sizes from nothing to beyond any kernel buffer, success and failure of either side, sequences of commands",
  "test_pipe greps a few lines of small outputs.",
  ["cligen_read.c", "cligen_io.c", "cligen_expand.c"], [("cligen_eval pipe set-up", "cligen_read.c"), ("cligen_output pipe branch", "cligen_io.c"), ("pipe tree expansion", "cligen_expand.c")])

P("C32", "A failed allocation leaves values, buffers and trees intact",
  "If one memory allocation fails while a value is parsed, copied or printed, a vector or buffer grows, is copied or shrinks, or a parse tree or object is created, copied, merged or changed, the operation reports an error (or, where the memory was not needed, gives its usual result), memory is not corrupted, what was there before can still be used and freed, and the same operation works afterwards.",
  ["fault_sequences"], "every allocation reached by generated operations on generated values, vectors, buffers and trees, failing once",
  "No test injects an allocation failure.",
  ["cligen_cv.c", "cligen_cvec.c", "cligen_buf.c", "cligen_object.c", "cligen_parsetree.c", "cligen_callback.c"],
  [("cv_cp / cv_parse1 / cvec_add_cv", "cligen_cv.c, cligen_cvec.c"), ("cbuf_realloc", "cligen_buf.c"), ("pt_copy / pt_realloc", "cligen_parsetree.c"), ("co_copy / co_copy1", "cligen_object.c")])

P("C33", "Registered descriptors are served while the prompt waits",
  "While the interpreter waits for a key, each file descriptor the application has registered has its latest callback called with its latest argument whenever it has input, and no other descriptor is called. A wait interrupted by a signal calls the application's interrupt hook and goes on. Registering again replaces, unregistering one descriptor leaves the others as they were and says whether it was registered, and what is typed is unaffected.",
  ["histories"], "all sequences of registering, unregistering, input on the descriptors, signals and typed lines",
  "No test registers a descriptor.",
  ["cligen_getline.c", "cligen_io.c"], [("gl_regfd / gl_unregfd / gl_select", "cligen_getline.c")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in out: f.write(json.dumps(p) + "\n")
