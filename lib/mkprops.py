#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only so the file stays uniform)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
           why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
           observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

p("C01","Every line is classified exactly: accepted, unknown, ambiguous or incomplete",
 "For every command specification and every input line, the line is accepted exactly when each word, left to right, selects a single alternative (a keyword by full name or by an unambiguous prefix, a full keyword winning over longer keywords and variables; a variable when the word is a value of its type) and the walk stops where the specification ends a command. Every other line is rejected and reported as unknown, ambiguous or incomplete according to where the walk stops. With case-insensitive matching switched on, only the letter case of keywords is disregarded.",
 ["programs","inputs","configurations"],"all command specifications (keywords, typed variables, nested alternatives), all input lines, case-sensitive and case-insensitive matching",
 "The tests type a few dozen fixed lines at fixed specifications; the rule quantifies over every pair of specification and line, where prefixes, full names, variables and command ends overlap.",
 ["cligen_match.c","cligen_read.c","cligen_object.c","cligen_result.c"],
 [("per-level candidate selection","cligen_match.c:match_vec, match_object"),("recursive walk over the levels","cligen_match.c:match_pattern_sets, match_pattern"),("result classification","cligen_result.c:mr2result; cligen_match.c:match_pattern_exact")],
 ["return of cliread_parse / cliread_eval: result code and reason string"])

p("C02","A specification's operators denote exactly the documented set of commands",
 "The commands offered and accepted by a parsed specification are exactly those its operators denote: sequence, choice, parenthesised groups, optional groups, sub-command blocks with or without a command of their own, and several statements that share a beginning being merged. No combination or nesting of operators loses a command or admits one that the operators do not denote.",
 ["programs","inputs"],"all nestings of the specification operators over keywords and variables, and all token sequences",
 "Tests exercise a handful of nestings each; correctness is about every nesting, where the parser's position lists and the merging of equal siblings interact.",
 ["cligen_parse.y","cligen_parse.l","cligen_object.c","cligen_parsetree.c","cligen_syntax.c"],
 [("parser position lists and contexts","cligen_parse.y:ctx_push, ctx_peek_swap, ctx_pop, ctx_pop_add, cgy_terminal"),("insertion and merge of equal siblings","cligen_object.c:co_insert1; cligen_parsetree.c:cligen_parsetree_merge")],
 ["clispec_parse_str followed by cliread_parse on token sequences"])

p("C03","The values handed to a callback are exactly the words of the line",
 "When a line is accepted, the value vector has the whole line first and then one entry per word, in order: a keyword entry named and valued with the full keyword, a variable entry named after the variable with its declared type and the word's value (quotes removed; the rest-of-line variable takes the whole remainder). Excluding keywords removes exactly the keyword entries, and expanding the first entry replaces it by the line with keywords spelled out.",
 ["programs","inputs","configurations"],"all specifications, accepted lines (abbreviated, quoted, rest-of-line) and settings of the keyword-exclusion and first-entry-expansion options",
 "Tests look at printed values of some fixed commands; positions, names, types and values must be right for every command shape and abbreviation, including sets, references and dynamic values.",
 ["cligen_match.c","cligen_read.c","cligen_cvec.c","cligen_cv.c"],
 [("binding of words","cligen_match.c:match_bindvars, add_cov_to_cvec"),("keyword exclusion and first-entry expansion","cligen_cvec.c:cvec_exclude_keys, cvec_expand_first; cligen_read.c:cligen_eval")],
 ["value vector received by callbacks in cligen_eval"])

p("C04","An accepted line runs exactly its command's callbacks, in order, with arguments",
 "Executing an accepted line invokes precisely the callbacks declared for the matched command, each once, in declaration order, with the declared argument vector (typed as declared) and the registered user handle; a failing callback stops the ones after it and its failure is returned. A line that is not accepted invokes no callback at all.",
 ["programs","inputs","histories"],"all specifications with callbacks at every command end, all lines, all callback outcomes, repeated executions",
 "Tests print a callback name for a few commands; which callbacks run, in which order, and that none runs on a rejected line must hold for every command end, also where statements merge.",
 ["cligen_read.c","cligen_callback.c","cligen_parse.y","cligen_syntax.c","cligen_match.c"],
 [("callback invocation loop","cligen_read.c:cligen_eval"),("attachment of callbacks at command ends","cligen_parse.y:cgy_terminal, cgy_callback, cgy_callback_arg"),("function mapping","cligen_syntax.c:cligen_callbackv_str2fn")],
 ["recorded calls of registered callbacks, return of cligen_eval"])

p("C05","TAB adds the longest common extension and never alters typed text",
 "Pressing TAB inserts at the cursor precisely the longest common extension, over the visible keyword alternatives matching the word before the cursor, followed by one delimiter when there is exactly one such alternative; if nothing can be added the line is unchanged. Text already typed on either side of the cursor is never changed, the cursor ends right after the inserted text, and with step mode on the completion repeats until nothing more is added.",
 ["programs","inputs","configurations"],"all specifications, all line contents and cursor positions, tab modes",
 "Tests press TAB in some fixed contexts; the result depends on every set of candidates, the typed prefix, buffer length and cursor position.",
 ["cligen_match.c","cligen_read.c","cligen_expand.c","cligen_getline.c","cligen_handle.c"],
 [("common prefix computation","cligen_match.c:match_complete"),("insertion at the cursor","cligen_read.c:cli_complete, cli_tab_hook")],
 ["line returned by the line reader after keystrokes including TAB"])

p("C06","Help lists exactly the alternatives valid at the end of the line",
 "Asking for help lists each visible alternative that can match the last, possibly empty, word of the line, once each, in order, with its help text, and nothing else; the end-of-command marker is shown exactly when the line typed so far followed by a blank is a complete command. The line being edited is unchanged by asking.",
 ["programs","inputs","configurations"],"all specifications and partial lines; help-text lengths and the configured limits on lines and width",
 "Tests ask for help at a few fixed points; listing must agree with what would be accepted next at every point of every specification.",
 ["cligen_read.c","cligen_io.c","cligen_match.c","cligen_expand.c"],
 [("help on query","cligen_read.c:cli_show_help_commands, show_help_line"),("printing","cligen_io.c:print_help_lines, print_help_line"),("column list","cligen_read.c:show_help_columns, column_print")],
 ["standard output after the help key and after TAB"])

p("C07","Hidden commands work when typed but are never shown",
 "A command marked hidden, and what is below it, is accepted and executed when typed just as if it were not hidden. It never appears in help and never takes part in completion, while its visible siblings appear and complete as if it were absent.",
 ["programs","inputs"],"all placements of the hide mark (leaf, inner node, merged node, inside referenced trees) and all lines",
 "One test file checks a few placements; hiding interacts with merging, references and completion for every placement.",
 ["cligen_parse.y","cligen_expand.c","cligen_match.c","cligen_read.c"],
 [("hide flag set at parse","cligen_parse.y:cgy_terminal, ctx_push"),("filter in expansion","cligen_expand.c:pt_expand1_co")],
 ["help output, completion result, execution result of the same specification with and without the mark"])

p("C08","Set elements may be given once each, in any order",
 "In a set block, any non-empty selection of the elements is accepted in any order with each element used at most once per line, sub-structure of an element being completed before the next element. A repeated element is rejected, and neither accepted nor rejected lines affect which elements later lines may use.",
 ["programs","inputs","histories"],"all set blocks (nested, with variables and sub-commands), all selections, orders and repetitions, sequences of lines",
 "Tests list some orders for a few sets; the number of orders and repetitions is factorial and marks must be cleared after every outcome.",
 ["cligen_match.c","cligen_parse.y","cligen_parsetree.c"],
 [("set iteration","cligen_match.c:match_pattern_sets"),("matched marks and their reset","cligen_match.c:match_vec, match_pattern (co_clearflag)")],
 ["cliread_parse results over sequences of lines"])

p("C09","A tree reference behaves as the referenced tree written in its place",
 "Where a specification refers to another tree, exactly the commands of that tree are accepted, offered and executed at that point, also through nested and recursive references. Elements carrying a label removed at the reference are excluded there and everywhere below, and only there. A callback given at the reference replaces the referenced command's function, its own arguments coming after the referenced command's arguments.",
 ["programs","inputs"],"all sets of trees with nested, repeated and recursive references, label filters and callbacks; all lines",
 "Tests use a few reference shapes; substitution must hold at any depth and for every combination of filters and callbacks, while never changing the referenced tree itself.",
 ["cligen_expand.c","cligen_match.c","cligen_pt_head.c","cligen_parse.y"],
 [("expansion of references","cligen_expand.c:pt_expand_reference, co_expand_treeref_copy_shallow, tree_resolve"),("label filters","cligen_expand.c:co_find_label_filters, co_isfilter"),("callback merge","cligen_match.c:callbacks_merge, treeref_merge_co")],
 ["execution, help and completion below a reference"])

p("C10","Working points move only by edit, up and top, and re-root exactly that tree",
 "After entering an edit position in a tree, references to that tree offer exactly the commands below that position; going up moves to the enclosing position (the whole tree at the outermost) and going to the top restores the whole tree. No other action moves the position, and other trees are unaffected.",
 ["histories","programs"],"all sequences of edit, up, top and ordinary commands over nested specifications with several trees",
 "Tests run at most one or two moves; the property is about every sequence of moves.",
 ["cligen_pt_head.c","cligen_expand.c","cligen_object.c"],
 [("position callbacks","cligen_pt_head.c:cligen_wp_set, cligen_wp_up, cligen_wp_top"),("resolution","cligen_expand.c:tree_resolve")],
 ["execution results after each move"],[("working point","current root of references to a tree","cligen_pt_head.c:cligen_ph_workpoint_get")])

p("C11","Competing alternatives resolve by preference, and ties by the configured mode",
 "When several alternatives match a word, the one with the highest preference is chosen: full keyword, then variable types by their documented specificity (or their explicitly declared preference), with keyword prefixes last. Equal highest preference is ambiguous, except that between variables the preference mode selects the first: on the last word only, on earlier words only, or on all words.",
 ["programs","inputs","configurations"],"all pairs and triples of alternatives (keywords, variables of every type with and without ranges, patterns, explicit preferences), preference modes 0-3, last and non-last words",
 "Tests cover several pairs of types; the ordering must hold for every combination, position and mode.",
 ["cligen_object.c","cligen_match.c"],
 [("preference table","cligen_object.c:co_pref, cov_pref"),("best-preference selection","cligen_match.c:match_vec")],
 ["variable chosen in the value vector; ambiguous result"])

p("C12","Command history returns entered lines in order and survives save and load",
 "The history holds the most recent entered lines up to its capacity, oldest dropped first, blank lines and immediate repetitions not stored. Stepping back and forward visits those lines in order, and ends in an empty line beyond either end. Saving then loading into a history of the same capacity restores the same lines in the same order.",
 ["histories","configurations"],"all sequences of adding, stepping, saving, loading and resizing, all capacities",
 "The tests use the arrow keys once or twice; ring wrap-around, repetition, and persistence depend on long sequences.",
 ["cligen_history.c","cligen_getline.c","cligen_read.c"],
 [("ring insert","cligen_history.c:hist_add"),("stepping","cligen_history.c:hist_prev, hist_next"),("persistence","cligen_history.c:cligen_hist_file_load, cligen_hist_file_save")],
 ["lines recalled by the history keys, saved file content"],[("ring","stored lines, newest position, browse position","cligen_handle_internal.h:ch_hist_*")])

p("C13","The line editor applies every key exactly as an ideal editor does",
 "For every sequence of keystrokes, the line delivered on Enter is the one an ideal single-line editor produces: inserting or overwriting at the cursor, moving by character and word and to the ends, deleting, transposing, killing to either end or by word, and yanking back what was last killed; the backslash key makes the next character literal. Keys that cannot act leave line and cursor unchanged, and no line length limit is reached.",
 ["histories","inputs","configurations"],"all keystroke sequences in all editor states, any line length, insert and overwrite mode, both display modes",
 "Tests send a few short keystroke sequences; the editor is a state machine whose keys interact at boundaries and in long lines.",
 ["cligen_getline.c","cligen_handle.c","cligen_history.c"],
 [("key dispatch","cligen_getline.c:gl_getline"),("edit operations","cligen_getline.c:gl_addchar, gl_del, gl_kill, gl_kill_begin, gl_kill_word, gl_yank, gl_transpose, gl_word"),("buffer growth","cligen_handle.c:cligen_buf_increase, cligen_killbuf_increase")],
 ["line returned by the line reader"],[("line","text, cursor, kill text, insert mode","cligen_getline.c:gl_pos, gl_cnt, gl_overwrite; cligen_handle.c:cligen_buf")])

p("C14","The terminal shows the prompt and the edited line with the cursor in place",
 "After every keystroke the bytes sent to the terminal leave it showing the prompt followed by the current line (wrapped over rows, or, in horizontal scrolling mode, a window of it with markers for hidden parts) with the cursor at the editing position. No remains of earlier text are left on the line.",
 ["histories","inputs","configurations"],"all keystroke sequences, prompt and line lengths, terminal widths, wrapping and scrolling display modes",
 "Tests compare a little of the raw output; the incremental redraw depends on the previous state after every possible edit.",
 ["cligen_getline.c"],
 [("incremental redraw","cligen_getline.c:gl_fixup_noscroll, gl_fixup_scroll"),("wrapping","cligen_getline.c:wrap, wrap_line, unwrap_line")],
 ["bytes written to standard output, interpreted as a terminal"])

p("C15","Lines are split into words exactly by blanks, quotes, escapes and comments",
 "A line is split at blanks into words, where a double-quoted part is one word without its quotes and a backslash outside quotes makes the next character ordinary. Leading, trailing and repeated blanks outside words do not matter, and the configured comment character, at the start of the line or after a blank, makes the rest of the line ignored. The rest-of-line text at each word is the remainder of the line from that word.",
 ["inputs","configurations"],"all character strings over blanks, quotes, backslashes, comment characters and ordinary characters; all comment-character settings",
 "Tests try a few quoted and escaped lines; the splitter is a character machine whose states interact for every string.",
 ["cligen_cvec.c","cligen_read.c"],
 [("splitting","cligen_cvec.c:cligen_str2cvv"),("trimming and comments","cligen_read.c:cli_trim")],
 ["word vectors returned by the splitter, value vectors of executed lines"])

p("C16","Typed values are accepted exactly when in the type's and specification's bounds",
 "An integer word is accepted for a signed or unsigned 8, 16, 32 or 64 bit variable exactly when it is a number of that form within the type's limits and, if ranges are declared, within at least one of them (bounds included); a decimal likewise at its number of fraction digits; a string exactly when its length lies in a declared length interval; a boolean exactly for its defined words. An accepted value prints back as the same value.",
 ["inputs","programs"],"all integer widths and signs, all declared range and length intervals (single, multiple, one- and two-sided), all digit strings including limits and overflow, fraction digits",
 "Tests sample a few in-range and out-of-range values; boundaries, overflow and interval lists must be right for every type and every bound.",
 ["cligen_cv.c","cligen_match.c","cligen_parse.y"],
 [("parsing with limits","cligen_cv.c:parse_int64 family, parse_dec64"),("validation","cligen_cv.c:cv_validate, outofrange, outoflength"),("range declaration","cligen_parse.y:cg_range_create")],
 ["acceptance of lines with typed variables; value-parse and print functions"])

p("C17","String buffers hold exactly the concatenation of what was appended",
 "A string buffer's content and length always equal the concatenation of everything appended (text, characters, formatted text, other buffers) since the last reset, cut where truncated, whatever its initial size and however it grows.",
 ["histories","inputs","configurations"],"all sequences of append, format, append-buffer, truncate and reset with all lengths around growth boundaries, all initial sizes and growth settings",
 "Tests only use buffers indirectly with short strings; growth boundaries depend on the sequence of lengths.",
 ["cligen_buf.c"],
 [("append and growth","cligen_buf.c:cbuf_append_str, cprintf, cbuf_realloc, cbuf_append_buf"),("truncate and reset","cligen_buf.c:cbuf_trunc, cbuf_reset")],
 ["content and length read back after each operation"])

p("C18","Variable vectors behave as sequences of named, typed values",
 "A variable vector behaves as an ordered sequence: adding appends, deleting removes exactly the given element and keeps the order of the others, indexing and iteration visit every element once in order, lookup by name returns the first element with that name, and duplicates are independent copies with equal names, types, values and flags.",
 ["histories"],"all sequences of add, append, delete, index, lookup, iterate, duplicate and keyword-exclusion operations",
 "Tests never exercise the vector API directly; sequences of deletions, copies and lookups are unbounded.",
 ["cligen_cvec.c","cligen_cv.c"],
 [("sequence operations","cligen_cvec.c:cvec_add, cvec_append_var, cvec_del, cvec_del_i, cvec_i, cvec_each, cvec_each1"),("lookup","cligen_cvec.c:cvec_find, cvec_find_keyword, cvec_find_var"),("copy","cligen_cvec.c:cvec_dup, cvec_cp; cligen_cv.c:cv_dup, cv_cp")],
 ["public vector and variable accessors after each operation"])

p("C19","Using the interface leaves the specification unchanged",
 "Executing, completing and asking for help never change what any later line means: after any sequence of such uses, every line gets the same result, values, callbacks, help and completion as it would on a freshly loaded specification. The number of live specification objects returns to what it was before each use.",
 ["histories","programs"],"all sequences of executed (accepted and rejected), completed and queried lines over all specifications, including sets, references, hidden and dynamic elements",
 "Tests start a fresh process for nearly every line, so effects of one use on later ones are not observed.",
 ["cligen_match.c","cligen_expand.c","cligen_read.c","cligen_object.c","cligen_parsetree.c"],
 [("transient expansion","cligen_expand.c:pt_expand, co_expand_sub"),("cleanup of marks and copies","cligen_match.c:match_pattern; cligen_parsetree.c:pt_free, pt_apply"),("object count","cligen_object.c:co_stats_global")],
 ["results of the same line at different points of a session; live object count"])

p("C20","Input is interpreted in the active named tree, changed only by mode switches",
 "Each named section of a specification becomes a tree of that name holding exactly that section's commands, the first loaded being active until another is chosen by name. Input is always interpreted in the active tree, iteration visits the trees in load order, and specifications added later extend the list without disturbing existing trees.",
 ["histories","programs"],"all sequences of loading named sections, switching the active tree and executing lines",
 "The mode test switches between two trees; the property is about all sequences of loads and switches.",
 ["cligen_pt_head.c","cligen_parse.y","cligen_syntax.c","cligen_handle.c"],
 [("tree list","cligen_pt_head.c:cligen_ph_add, cligen_ph_find, cligen_ph_each, cligen_ph_i"),("activation","cligen_pt_head.c:cligen_ph_active_set_byname"),("named sections","cligen_parse.y:cgy_treename")],
 ["tree iteration, lookup and execution results"])

p("C21","Piped output passes through the chosen pipe command completely and in order",
 "When a command is given an output pipe, explicitly or by the tree's default, everything its callbacks print goes through that pipe function and what the pipe emits appears, complete and in order, instead of the direct output; without a pipe the output appears unchanged. Afterwards later commands print directly again, whatever the outcome of the piped command.",
 ["inputs","histories","programs"],"all outputs (sizes, line structure), pipe choices (explicit, default, none), callback outcomes, sequences of piped and unpiped commands",
 "Tests pipe one or two lines; ordering, volume and the state left behind after each outcome depend on the history.",
 ["cligen_read.c","cligen_io.c","cligen_expand.c","cligen_match.c"],
 [("pipe set-up and drain","cligen_read.c:cligen_eval_pipe_pre, cligen_eval_pipe_post, cligen_eval"),("redirected output","cligen_io.c:cligen_output, cli_pipe_output_socket_set"),("default pipe expansion","cligen_expand.c:pt_expand, pt_local_pipe")],
 ["bytes on standard output for sequences of commands"])

p("C22","Paged output shows every line once, a page at a time, until the user quits",
 "On a terminal with paging, output stops for a key at each full page, long lines counting as the rows they occupy, across separate output calls; blank shows another page, Enter one more line, and quit suppresses the rest until the next reset. Without quitting, the text shown is exactly the text output, in order.",
 ["inputs","histories","configurations"],"all sequences of output calls and line lengths, all key choices, terminal heights and widths",
 "One test pages a fixed text; row counting depends on line lengths, page position and earlier calls.",
 ["cligen_io.c","cligen_handle.c"],
 [("paging","cligen_io.c:cligen_output_scroll, cli_output_reset, cli_output_status")],
 ["terminal output and keys consumed on a pseudo terminal"])

p("C23","The read-execute loop ends exactly at end of input or an exit request",
 "The reader delivers every non-blank entered line once, in order, each trimmed, calling the history hook for it; end of input, an exit character, or the end-of-file key on an empty line ends it and is reported as end of file. The interactive loop executes each line in the tree active at that time, reports rejected lines, and stops exactly at end of file or when a callback asks to exit.",
 ["histories","inputs","configurations"],"all sequences of lines, blank lines, end-of-file and exit characters, callback exit requests",
 "Tests pipe a line or two and then end of input; where the loop stops and what it delivers depends on the whole sequence.",
 ["cligen_read.c","cligen_getline.c","cligen_handle.c"],
 [("reader","cligen_read.c:cliread, cliread_eval"),("end of input and exit keys","cligen_getline.c:gl_getc, gl_exit, gl_exitchar"),("loop","cligen_util.c/cligen_read.c:cligen_loop")],
 ["delivered lines, end-of-file status, loop return"])

p("C24","Registered descriptors are served while waiting for keys, with their own handler",
 "While the reader waits for input, every registered descriptor that becomes readable has its own registered handler called with its own argument; re-registering replaces handler and argument, and unregistering removes that descriptor and no other. Keys are still read in order, and a failing handler ends only the wait.",
 ["schedules","histories"],"all sequences of register, re-register and unregister over several descriptors, interleaved with descriptor and key readiness",
 "No test registers a descriptor.",
 ["cligen_getline.c","cligen_io.c"],
 [("registration table","cligen_getline.c:gl_regfd, gl_unregfd"),("wait loop","cligen_getline.c:gl_select")],
 ["recorded handler calls and arguments"],[("table","registered descriptors","cligen_getline.c:extfds, nextfds")])

p("C25","Dynamic alternatives are exactly what the expansion function returns",
 "For a variable with an expansion function, the alternatives accepted, completed and listed are exactly those the function returns, with their help texts; the function receives its declared arguments and the values entered before it on the line. An accepted dynamic word is bound under the variable's name and type with the value chosen.",
 ["programs","inputs","histories"],"all placements of dynamic variables (several per line, in references and sets), all value lists including values needing quotes, lists that change between lines",
 "Tests use one fixed list; lists depend on the preceding values and change over time.",
 ["cligen_expand.c","cligen_match.c","cligen_syntax.c"],
 [("expansion","cligen_expand.c:pt_expand_fn, pt_expand1_co, transform_var_to_cmd"),("binding","cligen_match.c:match_bindvars")],
 ["recorded arguments of the expansion function; results, help and completion"])

p("C26","An alias executes the command it stands for, and re-adding replaces it",
 "After adding an alias, entering its name executes exactly the aliased command line in the active tree, as if it had been typed. Adding an alias of the same name replaces the old one; an ordinary command of that name is never replaced, and all other commands are unaffected.",
 ["histories","programs"],"all sequences of adding aliases, clashing names and executing lines, over all specifications",
 "No test adds an alias.",
 ["cligen_syntax.c","cligen_parsetree.c","cligen_object.c"],
 [("alias creation and replacement","cligen_syntax.c:cligen_alias_add"),("alias execution","cligen_syntax.c:cligen_alias_call")],
 ["return of alias creation, callbacks run by later lines"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P), [len(d["title"]) for d in P if len(d["title"])>80])
