#!/usr/bin/env python3
# Writes properties.jsonl. (Kept as a script so that the statements stay readable.)
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SHARED = [("sources / sourcesByIndex / astsByIndex / outputsByIndex", "tables shared by all goroutines of one compilation", "api.go: type compilation")]

p("C01", "A compilation's result does not depend on goroutine scheduling",
  "For fixed file contents, resolver answers, entries and options, every run of a compilation produces the same set of output files, the same bytes in each of them and the same collection of diagnostics (their order aside). No interleaving of its concurrent work, and no iteration order of its internal tables, changes any of these.",
  ["schedules", "inputs", "configurations"],
  "all interleavings of the goroutines of one compilation, for all projects (import graphs with shared, repeated, broken and mutually importing files), entry lists and transform options",
  "Every API test compiles one entry with at most one import per file, so nothing ever runs concurrently with anything that matters, and the Go scheduler picks one interleaving per run.",
  ["api.go", "internal/transformer/transformer.go", "internal/printer/printer.go"],
  [("errgroup fan-out over entries and imports", "api.go: Compile, parseFile"), ("locks around the shared tables", "api.go: addSource, parseFile"), ("printer has deterministic output", "internal/printer/printer.go: Print")],
  ["Compile's Result.Files", "the sequence of Reporter.AddError calls"], SHARED)

p("C02", "Exactly the requested files are output, each under its own path",
  "The result holds exactly one output for every entry that could be loaded and parsed and, when imports are followed, for every file reachable from one through imports; nothing else is output. Outputs are keyed by absolute path however an entry was spelled, repeated or also imported, and what is stored under a path is the compiled text of that file and of no other (inlined imports aside).",
  ["schedules", "inputs", "configurations"],
  "all entry lists (any spelling, repetition, overlap with imported files), import graphs, import modes and schedules",
  "Tests count outputs for one entry per compilation; they never look at which content is under which path and never pass two entries.",
  ["api.go", "transforms/transforms.go"],
  [("outputs are marked by source index and written by path", "api.go: parseFile, Compile"), ("source index assignment", "api.go: addSource")],
  ["Compile's Result.Files"], SHARED)

p("C03", "Inlining an import is the same as pasting the imported text",
  "With inlining on and no import cycle, the output for an entry is what compiling a single file would give in which every resolvable import statement has been replaced, in place and recursively, by the text of the file it names. This holds for every combination of the other transforms (so custom media and custom properties defined in an imported file apply to the rules after the import), however many importers share a file and in whatever order files finish loading.",
  ["schedules", "inputs", "configurations"],
  "all acyclic import graphs (chains, diamonds, repeated imports, imports between rules, several entries sharing files), transform options and schedules",
  "One transformer test passes one hand-built imported sheet; no test inlines a shared file, a diamond, or an imported file that contains anything a transform touches through the public API.",
  ["api.go", "internal/transformer/transformer.go"],
  [("import replacements handed to the transformer", "api.go: parseFile"), ("replacement of import rules while walking", "internal/transformer/transformer.go: transformNodes")],
  ["Compile's Result.Files"], SHARED)

p("C04", "Every compilation finishes, whatever the import graph",
  "On every import graph, including self-imports, mutual and nested cycles and files shared by many importers, and in every import mode, a compilation returns after a bounded amount of work and never deadlocks. Every loadable file that an inlined or followed entry reaches is still represented in the result: cycles neither drop a file's own rules nor expand them without end.",
  ["schedules", "inputs", "configurations"],
  "all finite import graphs with cycles of any shape, all import modes, all schedules",
  "No test contains an import cycle; a cycle that only closes across two concurrently loaded entries needs particular schedules as well.",
  ["api.go", "internal/transformer/transformer.go"],
  [("recursion over imports with a cache of finished files", "api.go: parseFile"), ("waiting for the imports of a file", "api.go: parseFile, errgroup Wait")],
  ["return of Compile", "Compile's Result.Files"], SHARED)

p("C05", "A failing file only affects the outputs that include it",
  "When a file cannot be resolved, read or parsed, every output that does not include it is exactly what it would have been without the failure. A file that includes it is still output with everything else in place and with the failing import statement left where it stands, and a file that itself fails has no output.",
  ["fault_sequences", "schedules", "inputs"],
  "all sets of failing files (missing, permission, I/O error, descriptor exhaustion, directory in place of a file, truncated text, unresolvable specifier), all positions in the import graph, all schedules",
  "One test has one missing import and one has a missing entry; no test combines a failure with other entries, shared imports or concurrency, and none makes a read or stat call fail.",
  ["api.go", "resolver/node_resolver.go", "internal/parser/parser.go", "internal/transformer/transformer.go"],
  [("errors end the work on one file only", "api.go: parseFile"), ("unreplaced imports are kept", "internal/transformer/transformer.go: transformNodes"), ("files without an ast are skipped when printing", "api.go: Compile")],
  ["Compile's Result.Files"])

p("C06", "Every failure is reported, and nothing else is",
  "Every entry, and every followed or inlined import, that cannot be resolved, read or parsed gives at least one diagnostic that names the failing file or specifier. When nothing is wrong with the files reachable from the entries, no diagnostic is produced.",
  ["fault_sequences", "schedules", "inputs"],
  "all sets of failing files and specifiers, all schedules, all import modes that load imports",
  "Tests count the errors of two single-failure projects; they never fail two files at once, and nothing checks what a diagnostic names.",
  ["api.go", "resolver/node_resolver.go", "internal/parser/parser.go"],
  [("addError after every failing step", "api.go: parseFile, Compile"), ("errors are wrapped with the path", "api.go: addSource; resolver/node_resolver.go: Resolve")],
  ["Reporter.AddError calls and their text"])

p("C07", "Torn or corrupted file content cannot crash, hang or silently truncate",
  "Whatever bytes reading a file returns (a prefix of it, flipped or zeroed bytes, a mix of two versions), the compilation neither panics nor runs for more than a bounded number of steps per input byte, and the outputs of files not involved are unaffected. When the text ends inside a rule, a comment or a string, a diagnostic naming the file is reported and the file is not output as if it were complete.",
  ["crash_points", "fault_sequences", "inputs"],
  "all truncation points and all single and multiple corruptions of every file of every project, all import modes and transforms",
  "All test inputs are complete, well-formed files; nothing is ever truncated or damaged.",
  ["internal/lexer/lexer.go", "internal/parser/parser.go", "internal/parser/selectors.go", "internal/transformer/transformer.go", "internal/printer/printer.go", "api.go"],
  [("syntax errors are raised as panics and turned into errors", "internal/parser/parser.go: Parse; internal/lexer/lexer.go: Errorf"), ("end-of-input checks in every loop", "internal/parser, internal/lexer")],
  ["return of Compile", "Reporter.AddError", "Result.Files"])

p("C08", "A compilation sees one version of each file",
  "If files are replaced, deleted or become unreadable while a compilation runs, all its results (every output the file contributes to, every embedded source text and every diagnostic) reflect one single outcome of reading that file: one version of its text, or one failure. This holds however many entries and imports name the file, under whatever spellings, and however their loading overlaps.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of file replacement with the loads of one compilation, for files reached through any number of imports and entries",
  "No test changes a file while compiling, and none reaches one file twice at the same time.",
  ["api.go"],
  [("sources are cached by absolute path", "api.go: addSource")],
  ["Result.Files", "source map sourcesContent", "Reporter.AddError"], SHARED)

p("C09", "Diagnostics are delivered one at a time and before the compilation returns",
  "A compilation never calls its reporter from two goroutines at once, even when a call is slow or blocks for a while, and never after it has returned. Every diagnostic it produces has been delivered by the time it returns, and a slow reporter never deadlocks it.",
  ["schedules", "configurations"],
  "all interleavings of reporting goroutines (loading, resolving, parsing, transforming, printing) with arbitrarily slow reporters",
  "Test reporters are instantaneous appends and each test produces at most one diagnostic, so overlap cannot show.",
  ["api.go", "internal/transformer/transformer.go"],
  [("lock around the reporter", "api.go: addError"), ("reporter handed to the transformer", "api.go: parseFile")],
  ["Reporter.AddError entry and exit"])

p("C10", "Entries and concurrent compilations do not influence each other",
  "The output and diagnostics of an entry are the same whether it is compiled alone, together with any other entries in one compilation, or while any number of other compilations run at the same time in the process, including ones that share its files, resolver and options. Definitions made by one entry (custom properties, custom media) never leak into another, and no compilation needs another one to go on before it can finish.",
  ["schedules", "inputs", "configurations"],
  "all sets of entries and of concurrent compilations over overlapping files, all schedules",
  "Every test compiles one entry, one compilation at a time.",
  ["api.go", "internal/transformer/transformer.go", "resolver/node_resolver.go"],
  [("per-compilation state only", "api.go: newCompilation"), ("per-file transformer state", "internal/transformer/transformer.go: Transform")],
  ["Result.Files and Reporter.AddError of each compilation"])

p("C11", "Shared memory is never accessed without synchronisation",
  "In no schedule do two goroutines, of one compilation or of several concurrent ones, access the same memory without synchronisation between them when at least one of them writes. In particular concurrent loading, transforming and printing can never end in the runtime's fatal concurrent-map-access error or a torn value. Diagnostics that a reporter passes on to goroutines of its own, which render them while the compilation continues, are no exception.",
  ["schedules", "inputs", "configurations"],
  "all schedules of all projects, transforms and sets of concurrent compilations",
  "The tests are not run under the race detector, and the one schedule per run they see rarely overlaps two goroutines.",
  ["api.go", "internal/transformer/transformer.go", "internal/lexer/lexer.go", "internal/sources/source.go"],
  [("mutexes around shared tables", "api.go: type compilation"), ("sheets are handed from imported file to importer", "api.go: parseFile")],
  ["memory accesses of all goroutines, ordered by happens-before"], SHARED)

p("C12", "Diagnostics point at the file, line and column of the offending text",
  "A diagnostic about the content of a file shows the path of the file that contains the offending text (also when that file was inlined into another), the line and column where it starts, and that line's text. Rendering a diagnostic as text never fails and always gives the same text, in any compilation, in any goroutine and at any time.",
  ["schedules", "inputs", "fault_sequences"],
  "all positions of offending constructs in all files of all projects, all line-ending styles, truncation points, import modes and schedules (files reached several times or through several importers)",
  "One test checks the text of one parser error in one file; no test has a diagnostic in an imported file, in a file loaded twice, or at the end of truncated input.",
  ["internal/logging/logging.go", "internal/sources/source.go", "internal/lexer/lexer.go", "internal/transformer/transformer.go", "api.go"],
  [("line table filled by the lexer", "internal/lexer/lexer.go: step"), ("location errors", "internal/logging/logging.go"), ("original source of a transformation", "internal/transformer/transformer.go: addError, addWarn")],
  ["text of errors passed to Reporter.AddError"])

p("C13", "Each output's source map describes that output",
  "Every output ends in an embedded version 3 source map whose embedded source text is exactly the text that was read for that file. Each top-level rule of the output that comes from that file is mapped from the position where it starts in the output to the position where it starts in that text, in every schedule and however often the file was reached.",
  ["schedules", "inputs", "configurations"],
  "all projects, entry lists, import modes, line-ending styles and schedules",
  "No test decodes a source map; only the number codec is tested, and line tables that depend on how often a file was loaded never arise with one entry.",
  ["internal/printer/printer.go", "internal/printer/sourcemaps.go", "internal/sources/source.go", "internal/lexer/lexer.go", "api.go"],
  [("mappings are recorded while printing", "internal/printer/printer.go: addMapping, printMapping"), ("line table", "internal/lexer/lexer.go: step")],
  ["the sourceMappingURL comment in Result.Files"])

p("C14", "Resolution follows the documented lookup order and survives file-system faults",
  "For every directory tree, importing directory and specifier, the default resolver returns the first existing regular file in its documented order (the path itself, the path plus .css, a directory's package.json style entry or, without package.json, its index.css; for bare specifiers the base URL first, then node_modules of the importing directory and of each ancestor including the root), or an error when there is none. It always terminates, leaves no file open, never returns an empty path or a directory as success, and when file-system calls fail it returns an error or the file that is found without what failed.",
  ["inputs", "fault_sequences", "schedules"],
  "all directory trees, specifiers, importing directories and base URLs (absolute and relative), failing stat and read calls at any path, trees that change during the lookup, concurrent lookups on one resolver",
  "Tests resolve a dozen specifiers in one fixed tree where no call ever fails.",
  ["resolver/node_resolver.go"],
  [("candidate order", "resolver/node_resolver.go: Resolve, resolve, resolveAsDir, resolveFromNodeModules")],
  ["return values of Resolve"])

p("C15", "A bundler load gets either the complete output or every diagnostic",
  "Each load served by the bundler plugin returns either the compiled contents of the requested file with no error, or at least one error message and no contents; every diagnostic of that compilation appears exactly once, and one about a place in a file carries that file, its 1-based line, 0-based column and line text. Loads running concurrently never exchange contents or diagnostics.",
  ["schedules", "fault_sequences", "configurations"],
  "all sets of concurrent loads over projects with and without failing files, all plugin options, all schedules",
  "The plugin has no tests at all.",
  ["esbuildplugin/plugin.go", "api.go"],
  [("per-load reporter and compilation", "esbuildplugin/plugin.go: Plugin"), ("conversion of diagnostics", "esbuildplugin/plugin.go: toEsbuild")],
  ["OnLoad callback results"])

p("C16", "Diagnostics on standard error are whole, even from concurrent compilations",
  "Without a reporter, each diagnostic is written to standard error exactly once, as its full text followed by a newline, in one piece that output of other goroutines or of concurrent compilations cannot split. A standard error that fails or accepts only part of a write changes neither outputs nor whether the compilation returns.",
  ["schedules", "fault_sequences"],
  "all interleavings of concurrently reporting compilations and all failing or short writes to standard error",
  "All tests that produce diagnostics install their own reporter.",
  ["internal/logging/logging.go", "api.go"],
  [("default reporter", "internal/logging/logging.go: WriterReporter"), ("lock around the reporter", "api.go: addError")],
  ["bytes and boundaries of writes to standard error"])

p("C17", "When a compilation returns, all its work is over",
  "By the time a compilation returns, no goroutine it started is still running: nothing it started reads files, asks the resolver, calls the reporter or changes the result afterwards. Every file it opened has been closed again. This holds in any schedule and also when files fail.",
  ["schedules", "fault_sequences"],
  "all schedules (any goroutine delayed arbitrarily long), all projects with and without failures",
  "Tests read the result immediately and then end; a straggling goroutine would go unnoticed.",
  ["api.go"],
  [("waiting for entry, import and print goroutines", "api.go: parseFile, Compile")],
  ["live goroutines and calls on file system, resolver, reporter after Compile returns"])

p("C18", "A custom resolver is asked the right question and its answer is used",
  "When imports are followed or inlined, every import statement of every loaded file is put to the configured resolver with the specifier as written and the directory of the file containing the statement, and the resolver is asked nothing else. The file it answers with, and no other, is used for that statement, however slow, failing or concurrent its answers are.",
  ["schedules", "inputs", "fault_sequences"],
  "all import graphs, all resolver mappings (aliases, many specifiers to one file, answers in other directories, errors), all delays and schedules",
  "No test installs a resolver.",
  ["api.go", "resolver.go"],
  [("resolution per import statement", "api.go: parseFile")],
  ["Resolve calls and Result.Files"])

p("C19", "Printing preserves the meaning of a parsed style sheet",
  "For every style sheet the parser accepts, the printed sheet denotes the same rules: same selectors, at-rules, properties and values in the same order.",
  ["inputs"], "all style sheets", "Tests print a few dozen snippets.",
  ["internal/parser/parser.go", "internal/parser/selectors.go", "internal/printer/printer.go", "internal/lexer/lexer.go"],
  [("one print case per node type", "internal/printer/printer.go: print")], ["printer output"])

p("C20", "Each transform preserves what the style sheet means",
  "For every single style sheet, reducing math functions, lowering media ranges, expanding any-link and substituting custom properties or custom media produces a sheet that selects the same elements and gives them the same values.",
  ["inputs", "configurations"], "all style sheets and transform options", "Tests check a few dozen snippets.",
  ["internal/transformer/transformer.go"],
  [("one rewriting function per transform", "internal/transformer/transformer.go")], ["transformer output"])

p("C21", "A transform that is off changes nothing",
  "With every transform left at its default, the output contains every construct of the input unchanged; enabling one transform only changes the constructs that transform is about.",
  ["inputs", "configurations"], "all style sheets and all option combinations", "Tests check one passthrough snippet per transform.",
  ["internal/transformer/transformer.go", "transforms/transforms.go"],
  [("passthrough checks", "internal/transformer/transformer.go")], ["transformer output"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
