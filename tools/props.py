#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique,
         level_note, observe=None, level='exploration', state=None,
         claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, level_note=level_note, observe=observe,
                  level=level, state=state, claimed=claimed, reason=reason))


UNIT = ("The five reliable tests only exercise string helpers and never run "
        "the analyser; the bundled regression corpus holds about 210 fixed "
        "programs.  ")

prop('C01', 'Every used symbol ends up covered by the final include list',
     "After the suggested additions and removals, each analysed file directly "
     "includes a header that defines (or is declared to re-export) every "
     "symbol whose definition it uses, or, where a declaration is enough, "
     "includes such a header or carries a declaration of the symbol. This "
     "holds for every kind of symbol (classes, templates, functions, "
     "variables, enumerators, typedefs, macros, operators, members, bases) "
     "and for every syntactic position of the use.",
     ['programs'],
     'all C and C++ programs, header graphs and ways of using a symbol',
     UNIT + "Whether a use is noticed depends on the construct, the context "
     "and which other headers are around: the space is programs, not samples.",
     ['iwyu.cc', 'iwyu_ast_util.cc', 'iwyu_output.cc', 'iwyu_preprocessor.cc'],
     [('AST visitors report each declaration/type use', 'iwyu.cc'),
      ('desired-include calculation and set cover', 'iwyu_output.cc')],
     'runtime monitoring: generated programs with known ground truth, online '
     'check of the report against the generator model',
     'Held on the generated programs and on the annotated corpus; says '
     'nothing about constructs neither contains.',
     ['the printed add/remove/full lists'])

prop('C02', 'Unneeded includes and forward declarations are always removed',
     "A directly present include that provides no symbol the file uses, or a "
     "forward declaration of something the file does not use, is reported for "
     "removal unless a pragma, option or associated-header relation pins it. "
     "Conversely nothing is suggested for addition that the file does not "
     "use, and no two kept includes serve only the same symbols.",
     ['programs'],
     'all programs, include orders, duplicated includes and header graphs',
     UNIT + "Superfluity is a statement about everything the file does not "
     "do, so it needs programs with known complete use sets.",
     ['iwyu_output.cc', 'iwyu.cc', 'iwyu_preprocessor.cc'],
     [('desired includes minus present includes', 'iwyu_output.cc')],
     'runtime monitoring: generated programs with known ground truth, monitor '
     'over the report',
     'Held on the generated programs; no claim for constructs not generated.',
     ['the printed remove/full lists'])

prop('C03', 'Full definition demanded exactly when a declaration is not enough',
     "A use of a type that compiles with only a forward declaration never "
     "makes the tool demand the header that defines it, apart from the "
     "documented author-intent and by-value rules (type aliases, "
     "signatures, autocast, type traits, deletion, catch), and a use "
     "needing the complete type is never satisfied by a forward "
     "declaration. When a declaration suffices and the defining header is "
     "needed for another reason, no forward declaration is suggested as "
     "well.",
     ['programs'],
     'all types (classes, unions, templates, scoped and fixed enums, nested '
     'types) and all positions in which they are used',
     UNIT + "The compiler's rule has dozens of contexts; each combines with "
     "template, typedef, reference and pointer layers.",
     ['iwyu.cc', 'iwyu_ast_util.cc', 'iwyu_output.cc'],
     [('forward-declare context tracking', 'iwyu.cc'),
      ('forward-declarable uses demoted/promoted', 'iwyu_output.cc')],
     'runtime monitoring: generated uses with independent compile oracle '
     '(clang on the program with the definition withheld)',
     'The oracle is the compiler itself on the stripped program; held on the '
     'generated contexts.',
     ['the printed add/full lists'])

prop('C04', 'Following the advice yields a compiling, already-correct program',
     "If every analysed file is edited to contain exactly the reported full "
     "list, the program still compiles, and analysing it again reports every "
     "file correct with no further additions or removals.",
     ['programs', 'configurations'],
     'all compiling programs without include-order dependencies',
     UNIT + "It is a two-run relation over arbitrary programs; no test runs "
     "the tool on its own output.",
     ['iwyu_output.cc', 'iwyu_include_picker.cc', 'iwyu.cc', 'fix_includes.py'],
     [('desired state computed independently of present state',
       'iwyu_output.cc')],
     'runtime monitoring: apply-and-rerun monitor with the compiler as oracle',
     'Held on generated programs and on the applicable corpus programs.',
     ['compiler exit status, second report'])

prop('C05', 'Each report is arithmetically and textually self-consistent',
     "In every report the full list equals what the file contains minus the "
     "removals plus the additions, with no duplicates, in the documented "
     "order, and each line range names exactly the lines of the source that "
     "hold that include or declaration. A file is called correct if and only "
     "if it has neither additions nor removals, and every analysed file gets "
     "exactly one complete report.",
     ['programs', 'inputs'],
     'all programs, verbosity levels and source layouts',
     UNIT + "The relation links the report to the source text and must hold "
     "for every layout (continuations, comments, conditionals, nesting).",
     ['iwyu_output.cc', 'iwyu_location_util.cc', 'iwyu_preprocessor.cc'],
     [('single list of one-include-or-forward-declare records',
       'iwyu_output.cc')],
     'runtime monitoring: offline checker of each report against the source '
     'file it describes',
     'An independent parser recomputes the relation for every report seen.',
     ['stdout/stderr of the tool'])

prop('C06', 'The exit status states the verdict',
     "The exit status is zero when the analysis ran and no failure status "
     "was requested; with the error option it is the requested code if and "
     "only if some analysed file needs an addition or a removal; with the "
     "always-error option it is that code in every completed run. A "
     "program that does not compile, or an unusable option, never yields "
     "status zero, while a faulty mapping file is reported and the "
     "analysis continues.",
     ['configurations', 'programs'],
     'all combinations of verdict, verbosity and exit-code options',
     UNIT + "Build systems act on this value; it combines the verdict with "
     "unrelated options such as verbosity.",
     ['iwyu.cc', 'iwyu_globals.cc', 'iwyu_output.cc', 'iwyu_driver.cc'],
     [('edit count drives the exit code', 'iwyu.cc')],
     'runtime monitoring: exit-status monitor over generated verdict/option '
     'combinations',
     'The expected verdict is known by construction for each case.',
     ['process exit status'])

prop('C07', 'The report is a function of the program, not of incidentals',
     "Analysing the same program twice gives byte-identical output (traces "
     "above verbosity 3, which print addresses, aside), whatever the "
     "memory layout, environment or concurrent load. Edits that do not "
     "change meaning (comments, blank lines, line endings, order or "
     "repetition of includes, order of unrelated declarations whose "
     "headers are unambiguous, spelling of search paths, order of options) "
     "change nothing but line numbers.",
     ['programs', 'configurations', 'schedules'],
     'all programs and all meaning-preserving variations',
     UNIT + "It relates pairs of runs; pointer-ordered containers only show "
     "up across address-space layouts.",
     ['iwyu_output.cc', 'iwyu.cc', 'iwyu_include_picker.cc'],
     [('ordered containers keyed by content', 'iwyu_output.cc')],
     'runtime monitoring: repeated runs under a random-address-order '
     'allocator and other environments, and metamorphic run pairs',
     'Held on the run pairs performed; verbosity 0-3.',
     ['stdout/stderr of paired runs'])

prop('C08', 'Pinning pragmas and options are always obeyed',
     "An include or forward declaration marked to be kept (by a line or "
     "range pragma, an always-keep header, or a keep option) is never "
     "removed, and a header or symbol excluded by a no-include or "
     "no-forward-declare pragma is never suggested by the file holding it. "
     "A pragma affects only the directive, range or file it is written "
     "for, and unknown, misplaced or malformed pragmas are diagnosed "
     "without other effect.",
     ['programs', 'inputs'],
     'all placements, comment styles, paths and combinations of pragmas',
     UNIT + "Pragmas interact with layout, with each other and with the use "
     "set.",
     ['iwyu_preprocessor.cc', 'iwyu_output.cc', 'iwyu_globals.cc',
      'iwyu_verrs.cc'],
     [('pragma recognition in the comment handler', 'iwyu_preprocessor.cc')],
     'runtime monitoring: generated pragma placements with a reference model '
     'of pragma scope',
     'Held on the generated placements.',
     ['the printed lists and pragma warnings'])

prop('C09', 'Exported symbols come from the exporter; private headers stay hidden',
     "A symbol from a header (or a forward declaration) re-exported "
     "through any chain of export pragmas is satisfied by including the "
     "outermost present exporter and never provokes a further include. A "
     "header marked private is never suggested to a file that is not its "
     "friend when a public header for it is named or re-exports it; a "
     "friend file may include it directly.",
     ['programs'],
     'all export/private/friend graphs, chains and diamonds',
     UNIT + "Graph reachability with privacy: chains, cycles and diamonds are "
     "unbounded.",
     ['iwyu_preprocessor.cc', 'iwyu_include_picker.cc', 'iwyu_output.cc'],
     [('export and private pragmas become include mappings',
       'iwyu_preprocessor.cc')],
     'runtime monitoring: generated facade graphs with a reference '
     'reachability model',
     'Held on the generated graphs.',
     ['the printed lists'])

prop('C10', 'Mappings always lead to a public header that maps the used one',
     "A use of something in a mapped private header is satisfied by, and "
     "when nothing suitable is present suggests, a public header reachable "
     "from it through the include mappings, directly or through any chain, "
     "pattern or cycle, and never a private one when a public one is "
     "reachable. A symbol mapping takes precedence over where the symbol "
     "is defined or redeclared, and among acceptable headers one already "
     "needed or present is preferred.",
     ['configurations', 'programs'],
     'all mapping graphs (chains, diamonds, cycles, patterns in both regex '
     'dialects, symbol mappings) and include sets',
     UNIT + "The result is a closure over user-supplied graphs joined with "
     "the program's headers.",
     ['iwyu_include_picker.cc', 'iwyu_output.cc', 'iwyu_regex.cc'],
     [('transitive closure of mappings and filtering by visibility',
       'iwyu_include_picker.cc')],
     'runtime monitoring: generated mapping graphs checked against an '
     'executable reference resolver',
     'Held on the generated graphs and programs.',
     ['the printed lists'])

prop('C11', 'Mapping files are either loaded completely or rejected loudly',
     "Every well-formed mapping file takes effect in full, including entries "
     "reached through nested references looked up relative to the working "
     "directory, the referring file or the search path, regardless of "
     "position and file order. A malformed, missing or contradictory mapping "
     "file is reported with its name, keeping what precedes the error and "
     "what other files say, rather than causing a crash, a hang or a silently "
     "partial load.",
     ['inputs', 'configurations'],
     'all mapping file texts, nestings and command lines',
     UNIT + "The inputs are arbitrary user files.",
     ['iwyu_include_picker.cc', 'iwyu_globals.cc'],
     [('mapping file parser with per-node validation',
       'iwyu_include_picker.cc')],
     'runtime monitoring: generated and mutated mapping files, observed via '
     'their effect on a probe program, sanitizers on',
     'Held on the generated files.',
     ['diagnostics and suggested headers'])

prop('C12', 'Every suggested include line resolves to the intended file',
     "The spelling of a suggested include, looked up from the file it is "
     "suggested for with the same search paths, finds the very file that "
     "provides the used symbol. Headers found through system search paths are "
     "suggested in angle brackets and others in quotes, using the most "
     "specific search path, whatever way paths are written, ordered or "
     "nested; a header the file already includes keeps the spelling it is "
     "included with.",
     ['configurations', 'programs'],
     'all directory layouts, search-path lists and path spellings',
     UNIT + "Paths are joined, normalised and shortened against an ordered "
     "list of directories: an open set of layouts.",
     ['iwyu_path_util.cc', 'iwyu_globals.cc', 'iwyu_include_picker.cc',
      'iwyu_output.cc'],
     [('search paths tried longest first', 'iwyu_path_util.cc')],
     'runtime monitoring: generated directory layouts; the compiler resolves '
     'each suggested line back to a file',
     'Held on the generated layouts.',
     ['the printed lists, clang -M'])

prop('C13', 'Suggested forward declarations are valid and name the same entity',
     "Every suggested forward declaration line compiles on its own in the "
     "file it is suggested for and declares exactly the entity that is used: "
     "same enclosing namespaces, inline namespaces, kind, template parameter "
     "list and enumeration type. Placing it before a use where a declaration "
     "is enough makes that use compile.",
     ['programs'],
     'all forward-declarable entities, namespace nestings and template '
     'parameter lists',
     UNIT + "The line is synthesised from the declaration: every shape of "
     "declaration is a new case.",
     ['iwyu_output.cc', 'iwyu_ast_util.cc'],
     [('forward declaration printer', 'iwyu_output.cc')],
     'runtime monitoring: each printed declaration compiled next to the real '
     'definition and next to the use',
     'The compiler is the oracle; held on the generated declarations.',
     ['the printed add lists, compiler exit status'])

prop('C14', 'Macro uses are attributed to the headers that define them',
     "A file that expands a macro or tests it in a conditional needs the "
     "header defining the macro visible at that point, including macros "
     "used inside conditionals, include directives and other macros' "
     "arguments; parameters of macros, strings and comments spelled alike "
     "are not uses. Symbols named in a macro body are charged to the "
     "macro's definer when it provides or names them, and symbols passed "
     "by the caller are charged to the caller.",
     ['programs'],
     'all macro definitions, nestings, redefinitions and conditionals',
     UNIT + "Attribution depends on expansion nesting and source locations "
     "that no finite sample covers.",
     ['iwyu_preprocessor.cc', 'iwyu_location_util.cc', 'iwyu.cc',
      'iwyu_lexer_utils.cc'],
     [('preprocessor callbacks and deferred macro-body resolution',
       'iwyu_preprocessor.cc')],
     'runtime monitoring: generated macro programs with known attribution, '
     'monitor over the report',
     'Held on the generated programs and macro corpus.',
     ['the printed lists'])

prop('C15', 'Interface authors who provide a type relieve their users of it',
     "When a typedef, function return type, value or const-reference "
     "parameter that converts implicitly, or default template argument is "
     "declared in a header that itself provides the definition of the "
     "underlying type, users of that interface are not asked to include "
     "it; when the header merely forward-declares the type, users who need "
     "it complete are. Naming the class as a template argument, or "
     "accessing a member of what a function returns, is a use by the code "
     "that does so unless the header of the template it instantiates "
     "provides the class.",
     ['programs'],
     'all interfaces, aliases, conversions and template instantiations',
     UNIT + "Author intent is inferred from the include graph and propagates "
     "through aliases and instantiations.",
     ['iwyu.cc', 'iwyu_ast_util.cc', 'iwyu_cache.cc', 'iwyu_preprocessor.cc'],
     [('provided types tracked through typedefs, calls and template args',
       'iwyu.cc')],
     'runtime monitoring: generated interface/user pairs with known intent',
     'Held on the generated pairs and the corpus.',
     ['the printed lists'])

prop('C16', 'Exactly the main file, its associated headers and chosen files '
     'are judged',
     "A run reports on the main source file, its associated headers "
     "(by matching name or pragma) and the files selected by the check-also "
     "patterns, and on no others. Includes of an associated header count for "
     "the main file: what the header keeps need not be repeated, and the "
     "associated include itself is never removed.",
     ['programs', 'configurations'],
     'all naming schemes, suffixes, directories, patterns and header graphs',
     UNIT + "Association is a relation on path names; selection uses user "
     "patterns.",
     ['iwyu_preprocessor.cc', 'iwyu_path_util.cc', 'iwyu_output.cc',
      'iwyu_globals.cc', 'iwyu_location_util.cc'],
     [('canonical name comparison and glob list', 'iwyu_preprocessor.cc')],
     'runtime monitoring: generated file families with known association, '
     'monitor over which reports appear and their content',
     'Held on the generated families.',
     ['the set of reported files, the printed lists'])

prop('C17', 'Explanatory comments are true and fit the requested format',
     "Every symbol listed in a why-comment is used by that file and provided "
     "by that include, at the requested verbosity and in the requested "
     "comment style, and no include that is needed for named symbols lacks "
     "its comment. Comment options change only comments, and lines respect "
     "the maximum length whenever they can be cut.",
     ['programs', 'configurations'],
     'all programs and comment-option combinations',
     UNIT + "Truth of a comment is a relation to the program's use set.",
     ['iwyu_output.cc', 'iwyu_globals.cc'],
     [('symbol use counts per include', 'iwyu_output.cc')],
     'runtime monitoring: comment monitor against the generator model',
     'Held on the generated programs and option combinations.',
     ['the printed lists'])

prop('C18', 'No input makes the tool crash, hang or corrupt memory',
     "For every C or C++ program, valid or damaged, and every combination "
     "of headers, options, mapping files, response files and pragmas that "
     "the compiler itself survives, the tool terminates with an ordinary "
     "exit status. It does so without undefined behaviour, memory errors, "
     "internal assertion failures or unbounded recursion.",
     ['inputs', 'programs', 'configurations'],
     'all inputs including malformed and hostile ones',
     UNIT + "Memory safety quantifies over all inputs.",
     ['iwyu.cc', 'iwyu_ast_util.cc', 'iwyu_preprocessor.cc',
      'iwyu_lexer_utils.cc', 'iwyu_driver.cc', 'iwyu_output.cc',
      'iwyu_include_picker.cc', 'iwyu_regex.cc', 'iwyu_globals.cc',
      'iwyu_location_util.cc', 'iwyu_string_util.h', 'iwyu_path_util.cc'],
     [('assertions and bounds checks throughout', 'iwyu_port.h')],
     'AddressSanitizer + UndefinedBehaviorSanitizer build of the whole tool '
     'under a hostile generated workload',
     'Clean sanitizer runs on the executions performed; libclang itself is '
     'not instrumented.',
     ['sanitizer reports, exit signals'])

prop('C19', 'The command line reaches the compiler front end faithfully',
     "Compiler arguments, wherever they appear and also when they come "
     "from response files with any quoting, have exactly the effect they "
     "have for the compiler, and tool options are honoured in every "
     "accepted form without leaking into compilation. No compilation "
     "output is ever produced, requests for several compilations analyse "
     "only the first, and requests without any usable one, or that the "
     "compiler's driver rejects, are answered with a diagnostic.",
     ['configurations', 'inputs'],
     'all argument lists, orders, response files and driver modes',
     UNIT + "Argument parsing is a language of its own.",
     ['iwyu_driver.cc', 'iwyu_globals.cc', 'iwyu.cc'],
     [('response-file expansion and driver job selection', 'iwyu_driver.cc')],
     'runtime monitoring: differential runs against clang on generated '
     'argument lists',
     'Oracle is the installed clang driver; held on the generated lists.',
     ['diagnostics, exit status, file system'])

prop('C20', 'Standard library advice names portable headers that provide the '
     'symbol',
     "For every standard library or C library symbol the built-in tables "
     "know, using it leads to a suggestion of a documented public header, "
     "never an implementation detail, and a program containing just that "
     "include compiles with that use. A file that already includes any of "
     "the public headers listed for the symbol (or the C or C++ "
     "counterpart of one) needs no other.",
     ['programs', 'configurations'],
     'all symbols and headers of the installed C and C++ libraries',
     UNIT + "The tables hold over a thousand entries; tests touch a handful.",
     ['iwyu_include_picker.cc', 'gcc.symbols.imp', 'gcc.libc.imp',
      'gcc.stl.headers.imp', 'stl.c.headers.imp'],
     [('built-in include and symbol maps', 'iwyu_include_picker.cc')],
     'runtime monitoring: one probe program per library symbol, compiler as '
     'oracle',
     'Held for the symbols of the installed libraries that were probed.',
     ['the printed lists, compiler exit status'])

prop('C21', 'Applying advice edits exactly the lines it names',
     "The fixer removes exactly the includes and declarations listed for "
     "removal with their attached comments, inserts each listed addition "
     "exactly once where it takes effect before its uses (given that the "
     "file's includes precede its code), and leaves all other code, in "
     "content and order, untouched. Nothing else is deleted except "
     "namespaces and conditionals left empty, top-level duplicates and "
     "surplus blank lines.",
     ['inputs', 'histories'],
     'all source files, layouts and reports about them',
     "The fixer's own tests pin fixed texts; which line may be touched "
     "depends on arbitrary surrounding code.",
     ['fix_includes.py'],
     [('move spans and reorder spans', 'fix_includes.py')],
     'runtime monitoring: line-conservation checker over edits of generated '
     'and real files',
     'Every line carries a unique tag, so loss, duplication and reordering '
     'are unambiguous; held on the generated files.',
     ['file contents before and after'])

prop('C22', 'Fixing is idempotent and reaches the reported full list',
     "After applying a report with comments (removals included) the file "
     "contains exactly the includes of the reported full list, still "
     "compiles, and the tool then reports it correct; applying the fixer "
     "again, or applying a report without content, changes nothing. "
     "Reports about the same file from several runs combine to the union "
     "of additions and only the common removals.",
     ['programs', 'histories'],
     'all programs and sequences of analyse/fix steps',
     "It is a property of the analyse-fix loop, which no test runs.",
     ['fix_includes.py', 'iwyu_output.cc'],
     [('report parser and merge', 'fix_includes.py')],
     'runtime monitoring: closed-loop analyse/fix/compile/analyse histories',
     'Held on the histories performed.',
     ['file contents, compiler status, second report'])

prop('C23', 'Sorting only permutes, within limits, and to the documented order',
     "Sorting and reordering permute includes and declarations only within "
     "runs not separated by other code or order-sensitive includes, never "
     "losing, duplicating or moving one across such a boundary. The result "
     "follows the documented order (main header, C, C++, other, project, "
     "declarations; or quoted first), and sorting twice changes nothing.",
     ['inputs', 'configurations'],
     'all files and sorting options',
     "Tests pin a few texts; the relation is over arbitrary layouts.",
     ['fix_includes.py'],
     [('reorder spans, barriers and sort keys', 'fix_includes.py')],
     'runtime monitoring: permutation/order checker over generated files',
     'Held on the generated files.',
     ['file contents before and after'])

prop('C24', 'Only selected files are written, bytes and encoding preserved',
     "The fixer writes no file in dry-run mode, none that is excluded by the "
     "given names or patterns, and none whose report has no content, and "
     "finishes with the other files when one is missing, stale or has a "
     "damaged report. In files it edits, encoding, byte-order mark and line "
     "endings are preserved and only changed lines differ.",
     ['inputs', 'configurations', 'fault_sequences'],
     'all option combinations, encodings, line endings and damaged inputs',
     "Tests do not write files; the guarantee is about arbitrary bytes on "
     "disk.",
     ['fix_includes.py'],
     [('file selection, encoding detection, record parser',
       'fix_includes.py')],
     'runtime monitoring: file-system monitor (content and mtime of every '
     'file) around runs with generated reports and injected faults',
     'Held on the generated runs.',
     ['file system state before and after'])

prop('C25', 'The driver script runs each selected entry once and loses nothing',
     "Each entry of the compilation database selected by the given paths is "
     "analysed exactly once, in its own directory, with its own arguments and "
     "the extra ones, whatever the number of jobs or their timing. Each "
     "analysis' complete output appears once and unbroken, and the final "
     "status is the most severe one.",
     ['schedules', 'inputs', 'fault_sequences'],
     'all databases, selections, job counts, timings, output sizes and exit '
     'statuses',
     "Process interleavings and failing children cannot be enumerated by "
     "fixed tests.",
     ['iwyu_tool.py'],
     [('process pool with output capture', 'iwyu_tool.py')],
     'runtime monitoring: exactly-once/conservation checker over event logs '
     'of instrumented stand-in analysers with injected delays and faults',
     'Held on the histories recorded.',
     ['event log of child processes, tool output, exit status'])

prop('C26', 'Converted diagnostics carry the same advice',
     "Converting a report to compiler-style diagnostics yields exactly one "
     "diagnostic per addition, removal and correct file, naming the right "
     "file, line and text, and passes other non-blank output through "
     "unchanged.",
     ['inputs'],
     'all reports, including several files and interleaved compiler messages',
     "Tests convert three fixed reports.",
     ['iwyu_tool.py'],
     [('line-oriented state machine', 'iwyu_tool.py')],
     'runtime monitoring: differential check against an independent report '
     'parser on real and generated reports',
     'Held on the reports converted.',
     ['converted output'])

prop('C27', 'Shipped mapping files load and lead from private to public',
     "Every shipped mapping file loads without complaint, alone and together "
     "with the defaults, no private header is left without a public one when "
     "an entry promises one, and no entry contradicts another. What an entry "
     "says is what a run using it does.",
     ['configurations'],
     'all shipped mapping files and all their entries',
     "No test loads them.",
     ['gcc.libc.imp', 'gcc.stl.headers.imp', 'gcc.symbols.imp', 'libcxx.imp',
      'stl.c.headers.imp', 'boost-all.imp', 'qt5_11.imp', 'python3.8.imp',
      'iwyu.gcc.imp', 'iwyu_include_picker.cc'],
     [('mapping files', '*.imp')],
     'runtime monitoring: each file loaded by the real tool and each sampled '
     'entry exercised by a probe program',
     'Loading is checked for all files; entries are sampled in the quick '
     'tier.',
     ['diagnostics, suggested headers'])

prop('C28', 'Mapping generators emit loadable mappings true to the header tree',
     "The mapping generators emit a file the tool loads, with an entry for "
     "every private header that has a single public includer and none that "
     "contradicts the header tree they were given (by each generator's "
     "documented rule of what is private), independent of directory "
     "listing order.",
     ['inputs'],
     'all header trees',
     "No test runs the generators.",
     ['mapgen/iwyu-mapgen-libstdcxx.py', 'mapgen/iwyu-mapgen-cpython.py',
      'mapgen/iwyu-mapgen-qt.py', 'mapgen/iwyu-mapgen-apple-libc.py'],
     [('include graph scan', 'mapgen/iwyu-mapgen-libstdcxx.py')],
     'runtime monitoring: generated header trees checked against a reference '
     'model; output loaded by the real tool',
     'Held on the generated trees.',
     ['generator output'])


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            o = {'id': p['id'], 'title': p['title'],
                 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['qtext']},
                 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'],
                             'mechanism': [{'name': n, 'where': w}
                                           for n, w in p['mech']]}}
            if p['observe']:
                o['anchors']['observe_at'] = p['observe']
            assert len(o['title']) <= 80, o['title']
            f.write(json.dumps(o) + '\n')
    checks, na = [], []
    for p in P:
        script = 'checks/%s.py' % p['id'].lower()
        if not p['claimed']:
            na.append({'property': p['id'], 'reason': p['reason']})
        elif not os.path.exists(os.path.join(ROOT, script)):
            na.append({'property': p['id'],
                       'reason': 'check not built yet (work in progress)'})
        else:
            checks.append({
                'property': p['id'],
                'quick_cmd': 'python3 ' + script,
                'thorough_cmd': 'VERIF_TIER=thorough python3 ' + script,
                'technique': p['technique'], 'level': p['level'],
                'level_note': p['level_note']})
    m = {'version': 1,
         'setup_cmd': 'python3 -m vf.build rel',
         'checks': checks, 'not_applicable': na,
         'notes': 'Checks build the real tool from /repo with a header '
                  'overlay (vf/build.py); no hooks in /repo are needed.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
