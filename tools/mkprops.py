#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
I='packages/swc-coverage-instrument/src/'
O='packages/istanbul-oxide/src/'
P='packages/swc-plugin-coverage/src/lib.rs'
V=[I+'macros/instrumentation_visitor.rs',I+'macros/instrumentation_counter_helper.rs',I+'macros/instrumentation_stmt_counter_helper.rs',I+'macros/visit_mut_for_like.rs',I+'visitors/coverage_visitor.rs',I+'visitors/stmt_like_visitor.rs',I+'visitors/switch_case_visitor.rs',I+'visitors/finders.rs']
def m(*xs): return [{"name":n,"where":w} for n,w in xs]
props=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":m(*mech)}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":d,"where":w} for n,d,w in state]
    a["hook_needed"]=hook
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

NOEXEC="The stable tests are unit tests of data structures: none of them runs the visitors, let alone the code they emit; the fixture specs (which need npm packages) sample some 200 hand-written programs with one input each."
p("C01","Instrumentation preserves program behaviour",
"For every program, adding coverage instrumentation leaves the program's observable behaviour unchanged: the same sequence of effects, values, thrown errors, yields and completions, the same evaluation order and short-circuiting, the same `this`, `arguments`, function names, directives (strictness) and bindings. This holds with and without logic reporting, in modules and in scripts, for JavaScript, JSX and TypeScript, with types compiled away before or after the instrumentation.",
["programs","inputs","configurations"],"all programs x all environment answers (values returned by, or errors thrown from, the calls the program makes) x reportLogic on/off x module/script",
NOEXEC+" Behaviour preservation quantifies over programs and over every path through each of them.",
V+[I+'instrument/create_increase_true_expr.rs',I+'coverage_template/create_coverage_fn_decl.rs'],
[("sequence-expression wrapping keeps the wrapped expression's value and order",I+'macros/instrumentation_counter_helper.rs: replace_expr_with_counter'),("statement counters inserted before the statement",I+'macros/instrumentation_stmt_counter_helper.rs: insert_stmts_counter'),("non-block bodies are wrapped into blocks",I+'macros/visit_mut_for_like.rs'),("template inserted after the prologue",I+'visitors/coverage_visitor.rs: visit_mut_module_items, visit_mut_script')],
["trace of calls/values/errors of the emitted code under a JavaScript engine"])
p("C02","Statement counters are exact",
"For every program and every run, the coverage data lists each coverable statement of the original source exactly once (expression, return, throw, break, continue, if, loops, switch, try, labelled and with statements, each initialised variable declarator, class field initialiser, expression body of an arrow function, and exported const declaration), and its hit count equals the number of times execution reached it. Directives and declarations without an initialiser have no entry. A tagged template also has an entry, which counts how often the statement holding it was reached; a function or class without a body block that a `const` export binds directly is represented by the entry of the export.",
["programs","inputs"],"all programs x all paths through them (bounded loops, both outcomes of every condition, a throw at every call)",
NOEXEC,V,
[("prepend a counter per statement kind",I+'macros/instrumentation_visitor.rs: visit_mut_*_stmt'),("initialiser and class field counters",I+'macros/instrumentation_counter_helper.rs: cover_statement'),("flush of pending counters before each statement",I+'macros/instrumentation_stmt_counter_helper.rs')],
["coverage object `statementMap`/`s` after running the emitted code"])
p("C03","Function counters are exact",
"For every program and every run, the coverage data lists every function of the source exactly once (declarations, function and arrow expressions, methods, getters and setters, including async and generator forms), with its name (or `(anonymous_<id>)`), declaration range and body range. Its hit count equals the number of times its body was entered.",
["programs","inputs"],"all programs x all paths",
NOEXEC,V,
[("function counter as the first statement of the body",I+'macros/instrumentation_counter_helper.rs: create_fn_instrumentation'),("arrow bodies converted to blocks",I+'macros/instrumentation_visitor.rs: visit_mut_arrow_expr'),("naming and ids",I+'source_coverage/mod.rs: new_function')],
["coverage object `fnMap`/`f`"])
p("C04","Branch counters are exact",
"For every program and every run, the coverage data has one branch per if, conditional expression, switch, maximal logical expression and default value (a switch without cases has none), of the right type and range and with one location per arm (an if always has two). Each arm's hit count equals the number of times that arm was taken; an operand of a logical chain counts each time it is evaluated.",
["programs","inputs"],"all programs x all paths",
NOEXEC,V+[I+'source_coverage/mod.rs'],
[("if arms (implicit else synthesised)",I+'macros/instrumentation_visitor.rs: visit_mut_if_stmt'),("conditional arms",I+'macros/instrumentation_visitor.rs: visit_mut_cond_expr'),("logical leaves",I+'macros/instrumentation_counter_helper.rs: wrap_bin_expr_with_branch_counter'),("switch cases",I+'visitors/switch_case_visitor.rs'),("default values",I+'macros/instrumentation_visitor.rs: visit_mut_assign_pat')],
["coverage object `branchMap`/`b`"])
p("C05","Logic reporting counts truthy, non-trivial operands",
"With logic reporting enabled, every logical-expression operand additionally has a truth counter that grows exactly when the operand evaluated to a truthy value that is not an empty array or empty plain object; all other counters and the program's behaviour are as without logic reporting. The truth table exists only when logic reporting is enabled and has the same shape as the hit table of the logical branches, and branches of other kinds have no entry in it.",
["programs","inputs","configurations"],"all logical-expression shapes x all operand values of a value alphabet x enclosing constructs x reportLogic on/off",
"One unit test constructs the truth-table entry; no stable test evaluates the emitted expression on any value.",
[I+'instrument/create_increase_true_expr.rs',I+'macros/instrumentation_counter_helper.rs',I+'source_coverage/mod.rs'],
[("validate_true_non_trivial expression",I+'instrument/create_increase_true_expr.rs'),("truth table bookkeeping",I+'source_coverage/mod.rs: maybe_new_branch_true/maybe_add_branch_true')],
["coverage object `bT`"])
p("C06","Coverage data is well formed and closed",
"For every program and option set, the initial coverage object is well formed: statement and function ids are consecutive from 0 (a branch whose arms are all ignored, or a switch without cases, is left out and its id stays unused), every hit table has exactly the ids of its map with all counts zero, each branch has at least one arm and one zero per arm, and every range lies inside the file with start not after end; code that a compiler made up before the instrumentation (enums, namespaces, parameter properties, decorators) may carry the empty range 0:0. There is one coverage function per program. Every counter update in the emitted code refers to an entry that exists, and every entry is updated by at least one counter in the emitted code. A run that completes leaves the file's coverage object behind, with exactly those tables.",
["programs","configurations"],"all programs of the grammar up to the depth bound, with and without hints, x option sets",
"The unit tests build tables by hand through the builder and never compare them with emitted counters.",
[I+'source_coverage/mod.rs',I+'coverage_template/create_coverage_data_object.rs']+V,
[("id allocation",I+'source_coverage/mod.rs: new_statement/new_function/new_branch/add_branch_path'),("pruning of arm-less branches",I+'source_coverage/mod.rs: freeze')],
["initial coverage object and the counter expressions of the emitted code"],
[("last ids","next statement/function/branch id",I+'source_coverage/mod.rs: SourceCoverageMetaHitCount')])
p("C07","Ignore hints remove exactly what they cover",
"An `istanbul ignore next` comment removes from the coverage data exactly the statements, functions and branches of the construct it precedes: statement, declaration, declarator, class or object member, function expression, conditional or logical expression, default value, switch case or tagged template; of a conditional or logical operand it removes the arm only, unless the operand is such a construct itself, `ignore if`/`ignore else` removes exactly that arm of the if statement with everything inside it, and `ignore file` in front of the program or behind its last token leaves all of it untouched. Nothing outside the hinted construct is affected, comments that are not such hints have no effect, and hints never change the program's behaviour.",
["programs","inputs"],"all constructs x all hint kinds and spellings x all positions of the construct among its siblings and parents",
"No stable test runs the hint lookup on a program; the fixtures place each hint on a handful of constructs.",
[I+'utils/hint_comments.rs']+V,
[("hint lookup",I+'utils/hint_comments.rs'),("ignore scope propagation",I+'macros/create_instrumentation_visitor.rs: on_enter_with_span/on_exit')],
["coverage object of hinted program versus unhinted program"],
[("should_ignore","scope of the innermost active hint",I+'macros/create_instrumentation_visitor.rs')])
p("C08","ignoreClassMethods removes exactly the named methods",
"A function whose name is in `ignoreClassMethods` and that is a class method, an object method, getter or setter, or a named function expression (not a function declaration) contributes nothing to the coverage data (neither itself nor anything inside it); every other function and statement is counted as usual. The program's behaviour is unaffected.",
["programs","configurations"],"all function forms x name sets (empty, matching, prefix/suffix/case variants, several names) x nestings",
"No stable test uses the option.",
V+[I+'options/instrument_options.rs'],
[("name test in each function-like visitor",I+'macros/instrumentation_visitor.rs: visit_mut_fn_expr/class_method/method_prop/getter_prop/setter_prop')],
["coverage object `fnMap` and all counters"])
p("C09","Reported positions match the original source",
"Every range in the coverage data denotes exactly the source text of its construct in the file as given to the instrumenter: lines are 1-based and end at LF, CRLF or CR, columns are 0-based and count UTF-16 code units (the units of JavaScript strings, editors and Istanbul) of the line, also after multi-byte characters, astral characters, tabs, a byte-order mark (which is not counted), comments or blank lines, and for constructs that span lines. The redundant `line` of a function or branch is the first line of its range.",
["programs","inputs"],"all constructs x all layouts of a layout alphabet (line breaks, CRLF, tabs, multi-byte text, comments) x position in the file",
"Positions are compared in no stable test; the fixtures only check line-level coverage of ASCII, LF programs.",
[I+'utils/lookup_range.rs',O+'range.rs',I+'source_coverage/mod.rs'],
[("span to line/column conversion",I+'utils/lookup_range.rs: get_range_from_span')],
["all ranges of the coverage object"])
p("C10","Instrumentation is a pure function of source, filename and options",
"Instrumenting a file yields the same output whatever the same process instrumented before or is instrumenting concurrently on other threads: no state leaks between files. The counter function's name depends on the filename, so two files with different names never share a counter function, even when their instrumented code ends up in one scope.",
["histories","schedules","configurations"],"all histories of instrumentation requests (create/run orders included) up to a length and all thread interleavings of two or three concurrent requests up to a preemption bound",
"Every stable test looks at one call in a fresh process or does not call the instrumenter at all.",
[I+'coverage_template/create_coverage_fn_decl.rs',I+'macros/create_instrumentation_visitor.rs',I+'visitors/coverage_visitor.rs',I+'constants/idents.rs'],
[("counter function identifier",I+'coverage_template/create_coverage_fn_decl.rs: create_coverage_fn_ident'),("per-visitor state",I+'macros/create_instrumentation_visitor.rs: new')],
["emitted code and coverage data of each request"],
[("counter function ident","name of the injected function",I+'coverage_template/create_coverage_fn_decl.rs')])
p("C11","Runtime coverage accumulates per file in the shared variable",
"When instrumented files run, each file's counters live at `globalThis[coverageVariable][filename]`: pre-existing content of that variable and other files' entries are left alone, executing one file never changes another file's counts, and counts accumulate over repeated calls. Loading a file again with identical content continues the existing counts; loading changed content for the same filename replaces the entry.",
["histories","inputs"],"all load/call/reload histories over several files (same and different names, versions and coverage variables) up to a length",
"The stable tests check the shape of two template statements' AST; the template's behaviour in an engine is never exercised.",
[I+'coverage_template/create_coverage_fn_decl.rs',I+'coverage_template/create_global_stmt_template.rs',I+'coverage_template/create_coverage_data_object.rs'],
[("coverage function template",I+'coverage_template/create_coverage_fn_decl.rs'),("content hash",I+'coverage_template/create_coverage_data_object.rs')],
["globalThis[coverageVariable] over a history of module evaluations"])
p("C12","The embedded initial coverage equals the computed coverage data",
"The coverage object literal in the emitted code evaluates to exactly the coverage data the instrumenter computed: path, maps, zeroed counters, truth table and input source map, for any characters in paths, names and source-map fields, plus only the schema marker and the content hash. With the debug option, the attached comment carries the same data as JSON and never alters the emitted program; different data gets a different hash and equal data the same one.",
["programs","inputs","configurations"],"all programs x file names and source maps over an alphabet of special characters x reportLogic and debug-comment on/off",
"The unit tests print one hand-written coverage object with plain ASCII content.",
[I+'coverage_template/create_coverage_data_object.rs',I+'coverage_template/create_coverage_fn_decl.rs'],
[("object literal construction",I+'coverage_template/create_coverage_data_object.rs'),("debug comment",I+'coverage_template/create_coverage_fn_decl.rs')],
["evaluated literal versus JSON in the debug comment"])
p("C13","Options are honoured and default as documented",
"Instrumentation options are read from camelCase JSON in which every key is optional, with the documented defaults (variable `__coverage__`, no logic reporting, nothing ignored, no input source map, no debug comment, nothing excluded), and each option affects only what it names. Unknown keys are ignored, and when the plugin configuration is missing or cannot be read the plugin instruments with the defaults instead of failing; a missing file name or comment store does not make it fail either.",
["configurations"],"all subsets of option keys over small value domains, malformed and missing configurations included",
"The stable tests never deserialise the options.",
[I+'options/instrument_options.rs',P],
[("serde attributes and Default",I+'options/instrument_options.rs'),("fallback",P+': process')],
["emitted code per configuration"])
p("C14","unstableExclude skips exactly the matching files",
"A file is returned untouched exactly when its normalised name (forward slashes, no drive prefix) matches at least one of the equally normalised exclude globs; otherwise it is instrumented. For paths without empty or `.` components matching does not depend on whether the name or the patterns use forward or backward slashes, and a list containing an invalid glob excludes nothing instead of failing.",
["inputs","configurations"],"all path/pattern pairs over an alphabet of segments, separators (/, \\, mixed, drive prefixes) and wildcards up to a length; all pattern lists up to two entries plus invalid ones",
"One unit test normalises five literal paths; no test performs a match.",
[P],
[("normalize_path",P),("wax::any over normalised patterns",P+': process')],
["plugin result: unchanged or instrumented"])
p("C15","Merging file coverage adds counts per source location",
"Merging one file's coverage into another yields, for every statement, function and branch location of either input, the sum of both inputs' counts (arm by arm for branches and truth counters, missing arms counting as zero; a location listed several times in one input has one count), whatever ids the locations carry, in whichever order merges are applied (a sum beyond 32 bits is the largest count). Every location of the inputs (a branch is located by its range and its first arm) appears exactly once with consecutive ids and its metadata, and placeholder (`all`) coverage never overrides or adds to real coverage.",
["inputs","histories"],"all pairs and triples of small coverage objects (locations present or absent, id permutations and gaps, arm counts, truth tables, placeholders) and all merge orders",
"The unit tests merge five hand-written pairs with identical ids and 0-based keys.",
[O+'file_coverage.rs'],
[("merge_properties / merge_properties_hits_vec keyed by location",O+'file_coverage.rs'),("placeholder handling",O+'file_coverage.rs: merge')],
["merged FileCoverage"])
p("C16","A coverage map is the per-path merge of everything added",
"After any sequence of adding files, merging maps and filtering, the coverage map contains for each path that was added and not filtered out the merge of everything added for it since, listed in first-insertion order; lookups return exactly that, and inputs are never modified. Its summary is the sum of its files' summaries.",
["histories"],"all operation sequences over a small alphabet of files, maps and predicates up to a depth",
"Four unit tests run one sequence each on empty files.",
[O+'coverage_map.rs',O+'coverage_summary.rs'],
[("add_coverage_for_file, merge, filter",O+'coverage_map.rs'),("summary accumulation",O+'coverage_summary.rs: merge')],
["get_files, get_coverage_for_file, get_coverage_summary"],
[("inner","path to merged coverage",O+'coverage_map.rs')],"cfg/feature exposing the summary's fields")
p("C17","Line coverage, summaries and percentages follow from the counts",
"A line's hit count is the maximum over the statements starting on it, the uncovered lines are exactly those whose count is zero, and branch coverage of a line aggregates all arms of all branches on that line (100 percent where there are none). Summary totals count the entries and how many were hit; percentages are rounded down to two decimals, are 100 only for complete coverage and are 100 when there is nothing to cover (unknown for a map without files).",
["inputs"],"all small coverage objects over a few lines and counts; all covered/total pairs up to a bound plus extreme values",
"The unit tests check one or two literal objects per function and two percentages.",
[O+'file_coverage.rs',O+'percent.rs',O+'coverage_summary.rs',O+'coverage.rs'],
[("get_line_coverage, get_uncovered_lines, get_branch_coverage_by_line, compute_*_totals",O+'file_coverage.rs'),("percent",O+'percent.rs')],
["return values"],None,"cfg/feature exposing percent and the summary/line-branch fields")
p("C18","Coverage data keeps the Istanbul JSON format both ways",
"File coverage serialises to Istanbul's JSON format (path, statementMap, fnMap, branchMap, s, f, b, optional bT and inputSourceMap, branch kinds as Istanbul's strings) and reading it back yields an equal object. Data written by Istanbul itself or left by an instrumented run, with additional or missing optional keys or positions (an implicit else, a remapped end of line), is accepted with the same meaning; a count beyond 32 bits is read as the largest one.",
["inputs"],"all small coverage objects x optional keys present/absent/extra, and the runtime objects of every explored program",
"No stable test serialises or parses coverage data.",
[O+'file_coverage.rs',O+'types.rs',O+'range.rs',O+'source_map.rs'],
[("serde attributes",O+'file_coverage.rs, types.rs, source_map.rs')],
["JSON text and parsed object"])
p("C19","Resetting hits zeroes every counter and nothing else",
"Resetting a file's hits sets every statement, function, branch-arm and truth counter to zero and changes nothing else; resetting is idempotent, and coverage merged into a reset file equals coverage merged into a freshly instrumented one.",
["inputs","histories"],"all small coverage objects; all merge/reset sequences up to a depth",
"One unit test resets one literal object.",
[O+'file_coverage.rs'],
[("reset_hits",O+'file_coverage.rs')],
["FileCoverage after reset"])
p("C20","Every valid program is instrumented into a valid program",
"For every syntactically valid JavaScript, JSX or TypeScript program, as a module or as a script, instrumentation terminates without failing and produces a syntactically valid program of the same kind that contains the coverage function and keeps the imports, exports and directive prologue of the original. This holds with types stripped before or after instrumentation.",
["programs","configurations"],"all constructs of the syntax in every position of a construct-position product, as module/script, JS/JSX/TS, strip before/after",
NOEXEC,V+[I+'utils/lookup_range.rs'],
[("visitors for every construct",I+'macros/instrumentation_visitor.rs'),("template insertion",I+'visitors/coverage_visitor.rs')],
["emitted program parsed by an independent parser"])
p("C21","Counters survive the compilation that follows",
"The instrumented program may be compiled further like the original one: for every program and every later compilation target (ES5 to ES2022, modules to CommonJS, JSX and types compiled away), the compiled instrumented program behaves like the compiled original, its coverage object holds the same counts as without that compilation, and it uses no syntax newer than the target where the compiled original uses none. In particular the names the instrumentation introduces never clash with the program's own or with those the compiler introduces.",
["programs","inputs","configurations"],"all programs x compilation targets x all paths through them, with and without logic reporting",
NOEXEC+" None of them runs any pass behind the instrumentation.",V+[I+'coverage_template/create_coverage_fn_decl.rs',I+'instrument/create_increase_counter_expr.rs'],
[("identifiers and declarations of the coverage function",I+'coverage_template/create_coverage_fn_decl.rs'),("counter expressions in class fields, loop heads and parameters",I+'macros/instrumentation_counter_helper.rs')],
["trace and coverage object of the compiled code under a JavaScript engine"])
p("C22","Comments and source positions survive instrumentation",
"With its injected code taken out, the instrumented program has the words of the original in the original order, each still at its original position in the source map of the output, and every comment that printing the original keeps is printed, with its text, once and in front of the same word. Hence on every execution each call the program makes and each error it throws is reported, over the whole stack, at the same original positions as without instrumentation, and printing the comments (also line comments) does not change what the program does.",
["programs","inputs","schedules"],"all constructs with a comment of its own in every gap between their tokens, as block and line comments, x all paths through them, with and without logic reporting, JavaScript and types",
NOEXEC+" None of them looks at source maps, and no comment of theirs is anything but a hint.",V+[I+'macros/instrumentation_counter_helper.rs',I+'utils/hint_comments.rs'],
[("spans of rewritten expressions and statements",I+'macros/instrumentation_counter_helper.rs, instrumentation_visitor.rs'),("look-up of comments",I+'utils/hint_comments.rs')],
["text and source map of the output, stacks under a JavaScript engine"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in props: f.write(json.dumps(x)+'\n')
print(len(props))
for x in props:
    assert len(x['title'])<=80,x['title']
