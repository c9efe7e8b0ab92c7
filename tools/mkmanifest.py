#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, subprocess
FAM = "Families: grammar to the nesting bound, types, elements, uncommon constructs, products of small axes (members, functions, bindings, loops, tests, bodies), large programs, foreign instrumented code. "
TRUST = "Trusts: the JavaScript engine (node), swc's parser and printer, and the reference instrumentation in mc/ref.js (validated on every run: it must behave exactly like the plain program)."
PROG = "bounded exhaustive program enumeration + stateless DFS over all environment answers, real instrumenter vs reference model"
C = {
 'C01': (PROG, "Every program of the grammar families within the nesting bound, in both reporting modes, run under every choice sequence (falsy/truthy/throw per call) up to the depth bound, against the uninstrumented program; JavaScript, JSX and TypeScript (compiled before or after the instrumentation). " + FAM + TRUST),
 'C02': (PROG, "Statement entries and counts of every program of the grammar families on every choice sequence, against an independently instrumented version of the source. " + FAM + TRUST),
 'C03': (PROG, "As C02, for function entries and counts. " + FAM + TRUST),
 'C04': (PROG, "As C02, for branches and their arms. " + FAM + TRUST),
 'C05': (PROG, "The grammar families with logic reporting, plus all logical shapes up to four operands over a lattice of 45 (chains: 8) operand values. " + FAM + TRUST),
 'C06': (PROG, "Structural closure of the initial data against the emitted counters for every program of the families, and shape invariance of the runtime tables on every run, also with ignore hints; a run that completes leaves its coverage. " + FAM),
 'C07': (PROG, "Every hintable construct x placement x comment spelling x sibling/parent context of the hint families, single hints and subsets of hints, in JavaScript and in TypeScript compiled before or after. " + TRUST),
 'C08': (PROG, "Every function form x name x ignore list x body, all pairs of forms, and the forms in TypeScript. " + TRUST),
 **{k: ("explicit-state exploration of operation histories on the real objects in lock step with a reference model", t + " Trusts serde_json and the reference model in harness/src/bin/oxide.rs.") for k, t in {
  'C15': "All pairs of coverage objects over small sets of adversarial locations (statements, functions, branches, truth tables, placeholders, id schemes), and every merge history up to depth 4 (thorough 5) over five overlapping inputs.",
  'C16': "Every sequence of add/merge/filter/from_iter operations up to depth 4 (thorough 5) over three (four) paths, comparing listing, lookups, contents, summary and inputs in every state.",
  'C17': "All small assignments of lines, counts, arms and ids, and all covered/total pairs up to 10000 (thorough 30000) plus extremes.",
  'C18': "All small coverage objects in both directions and with keys added, removed, nulled or reordered; plus the data of Istanbul's own instrumenter and of instrumented runs over the program families.",
  'C19': "All small coverage objects, also with tables that disagree, and every history of merge/reset/JSON up to depth 5 (thorough 6).",
 }.items()},
 'C09': ('exhaustive enumeration of constructs x source layouts, real instrumenter vs reference positions', "Every construct x every layout of the layout alphabet (line ends, blank lines, tabs, comments, multi-byte and astral text, byte-order mark) at every gap between tokens; also uncommon, TypeScript and JSX constructs and programs with far lines and columns. " + TRUST),
 'C10': ('exhaustive histories (fork at every node) and stateless exploration of all schedules with bounded preemptions on the real instrumenter', "Every history up to length 3 (thorough 4) of 12 requests in one process, in separate and in one compiler session; every order of creating and running two or three visitors; every schedule of two concurrent requests with one preemption (thorough two; five small ones always two) and of three with one, at every callback of the instrumenter into its comments and source map; all file names of up to 3 (4) pieces; the program corpora in two orders and environments. Preemption inside code between two callbacks is not explored.", ),
 'C11': ('exhaustive exploration of load/call/reload histories of the real emitted code in lock step with a model', "Every history up to length 4 (thorough 5) over seven files (two versions of one, other coverage variables, asynchronous calls, two files in one scope, files with almost nothing in them) from seven initial contents of the variable; and over each construct of the grammar next to a fixed file. " + TRUST),
 'C12': ('bounded exhaustive enumeration of inputs, emitted code evaluated and compared', "All strings of up to two (thorough three) pieces of an alphabet of 44 special characters and sequences as file name and coverage variable, two pieces in every source map field, all presence combinations of source map fields, all name spellings, and the grammar families; debug comment on/off, printed and not. " + TRUST),
 'C13': ('exhaustive enumeration of plugin configurations through the real entry point (host stand-in), against a reference reader of the options', "The product of small value domains of all nine options (5 thousand, thorough 121 thousand configurations), every value of a list of right and wrong types for every key alone and next to every other, every pair of options, all prefixes and single-character deletions of two configurations, other key spellings, malformed texts, missing configuration, file name and comments. The wasm host is replaced by the stand-in crate harness/shim. " + TRUST),
 'C14': ('exhaustive enumeration of file names x exclude patterns through the real entry point (host stand-in), against a reference glob matcher', "All names and patterns of up to two components (thorough three, four for names) over all separators and prefixes, all component pairs of a larger alphabet, all lists of up to two (three) patterns with thirteen kinds of invalid globs. Empty and `.` components, drive-relative paths and repetitions/flags in globs are outside; where wax departs from its own documentation (a leading `/**`) either answer is accepted."),
 'C21': ('bounded exhaustive program enumeration x compilation targets, stateless DFS over all environment answers', "Every construct with every core filler in every hole (thorough: every filler), loop bodies, TypeScript and JSX constructs, uncommon constructs, the grid of small axes and programs using the names of the emitted code, compiled by swc for four (nine) targets and to CommonJS behind the instrumentation, in both reporting modes. Trusts: swc's later passes treat the plain and the instrumented program alike; where they change the plain program's own trace, only behaviour is compared."),
 'C22': ('bounded exhaustive program enumeration x comments in every gap, stateless DFS over all environment answers, stacks compared through the source maps', "Every program of the grammar, uncommon, grid and hint families as it is, with a block comment and with a line comment of its own in every gap, and the TypeScript and JSX families: all words and comments of the output, in both reporting modes, against the printed original; and the stack at every event of every execution within the bounds (quick: two executions of the line-commented programs, none of the block-commented ones). Comments next to parentheses and commas may be lost (the printer simplifies nested sequences); positions the engine itself is inexact about (its own errors, who runs static initialisers) are not compared. " + TRUST),
 'C20': ("bounded exhaustive program enumeration, emitted code re-parsed and outlined by an independent parser", "Every program of the grammar families is instrumented; termination, validity, kind, imports/exports and prologue are compared through acorn."),
}
exec(open('tools/manifest_more.py').read()) if __import__('os').path.exists('tools/manifest_more.py') else None
hook = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H', '--grep=Add guarded hooks'], text=True).split()
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = {
 'version': 1,
 'setup_cmd': './build.sh',
 'hooks': {'guard': 'verif-hooks (cargo feature of istanbul-oxide)', 'enable': "the harness crates depend on /repo/packages/istanbul-oxide with features = [\"verif-hooks\"]", 'source_commits': hook},
 'checks': [{'property': p, 'quick_cmd': f'./check.sh {p}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {p}', 'technique': C[p][0], 'level': 'model_checking', 'level_note': C[p][1]} for p in props if p in C],
 'not_applicable': [{'property': p, 'reason': NA.get(p, 'check not built yet')} for p in props if p not in C] if 'NA' in globals() else [{'property': p, 'reason': 'check not built yet'} for p in props if p not in C],
}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
