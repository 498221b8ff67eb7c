#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, tests, files, mech, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": tests, "anchors": a}, technique, note))


C = "crates/"
prop("P01", "Translated integer programs behave like the C program",
     "For every C program made of int variables, constants, enums, globals and functions over int, with any int operators, control flow (if, loops, switch with fall-through, break, continue, early return, recursion) and printf of ints, whose own run is defined, the translation compiles as Rust and its run prints the same text and exits with the same status.",
     ["programs"], "every integer program of the subset whose C run has defined behaviour",
     "The tests assert substrings of the generated text for fixed snippets; they hardly ever run the translation, and never against the C program for programs nobody wrote by hand.",
     [C + "decy-parser/src/parser.rs", C + "decy-hir/src/lib.rs", C + "decy-core/src/lib.rs", C + "decy-codegen/src", C + "decy-core/src/optimize.rs"],
     [("statement and expression extraction", C + "decy-parser/src/parser.rs"), ("AST to HIR conversion", C + "decy-hir/src/lib.rs"), ("Rust generation", C + "decy-codegen/src")],
     "differential runtime monitoring: C under UBSan vs translated Rust under debug assertions, on random programs",
     "Oracle: the C program compiled by clang with UBSan traps. Explores thousands of random programs per run; programs whose C run traps are skipped. Shapes listed in known-findings.txt are excluded from generation and probed separately.",
     ["standard output and exit status of the compiled translation"])
prop("P02", "Translated structs, arrays, pointers, strings and heap keep their behaviour",
     "For every C program of the supported subset that uses structs (nested, copied, passed by value or pointer, returned), fixed-size and heap arrays, out-parameters, swaps through pointers, pointers walked over arrays, linked lists and trees of heap nodes, structs that hold a heap array, string literals, char values, function pointers, double or unsigned values, globals, and whose own run is defined and leak-free, the translation compiles as Rust and its run prints the same text and exits with the same status.",
     ["programs"], "every program of the subset whose C run is clean under the address and undefined-behaviour sanitizers",
     "Tests check the generated text of isolated snippets; whether the whole program still computes the same values through aliases, copies and the heap only shows when it runs.",
     [C + "decy-core/src/lib.rs", C + "decy-ownership/src", C + "decy-analyzer/src", C + "decy-codegen/src"],
     [("ownership inference and Box/slice transformation", C + "decy-ownership/src"), ("pattern analyses", C + "decy-analyzer/src"), ("type and expression generation", C + "decy-codegen/src")],
     "differential runtime monitoring: C under ASan+UBSan vs translated Rust, on random aggregate and pointer programs",
     "Oracle: the C program under ASan and UBSan. Random compositions of templates and random int code around them.",
     ["standard output and exit status of the compiled translation"])
prop("P08", "The unsafe audit reports every unsafe block and function, and nothing else",
     "For every Rust file, the audit counts each unsafe block and each unsafe function with a body exactly once, wherever it stands (nested, in closures, methods, modules, macro arguments), and nothing inside strings, comments or names; its line total, density, density-target verdict, average confidence and high-confidence list follow from what it lists. Auditing several files with one auditor reports each file alone, and text that is not Rust is an error.",
     ["inputs", "histories"], "every Rust file, and every sequence of files given to one auditor",
     "Tests audit a few short snippets, mostly with one block and one auditor per snippet.",
     [C + "decy-verify/src/lib.rs"],
     [("unsafe visitor and report", C + "decy-verify/src/lib.rs")],
     "online monitor comparing each audit report with a generator count and an independent token scan",
     "Random files of nested items, expressions and macros; two oracles that must agree before a file counts.",
     ["UnsafeAuditReport returned for each file"])
prop("P09", "The transpilation cache never answers with a stale or torn result",
     "Over every history of edits, removals, inserts, lookups, saves and reloads, a lookup returns the last stored result exactly when the file and all its recorded dependencies have the bytes they had when it was stored, and nothing otherwise; the statistics agree with the lookups. A save interrupted at any byte leaves a store that loads and holds either the previous or the new entries.",
     ["histories", "crash_points"], "every history of file changes and cache operations, every point at which a save is cut off",
     "Tests check single insert/lookup/modify sequences and never interrupt a save.",
     [C + "decy-core/src/lib.rs"],
     [("lookup with hash and dependency validation", C + "decy-core/src/lib.rs"), ("save and load", C + "decy-core/src/lib.rs")],
     "online trace checker against a model cache over random histories; saves cut off by a file-size limit",
     "Model: a map from path to stored result, content and dependency contents. The file-size limit stops a save at every kind of byte offset.",
     ["answers of the cache, its statistics, what loads after an interrupted save"])
prop("P10", "Dependency graphs and build orders match the files",
     "For every set of files, the graph holds exactly the listed files and the dependencies among them that their include lines name (whatever directory, path spelling, spacing or trailing comment), a build order exists exactly when there is no cycle, and it lists every file once, after everything the file depends on. Include lines and header guards are recognised as written.",
     ["inputs"], "every graph and every set of files including one another",
     "Tests build graphs of two to four files with fixed names and plain include lines.",
     [C + "decy-core/src/lib.rs"],
     [("graph, topological sort, include parsing", C + "decy-core/src/lib.rs")],
     "online monitor of graph answers against an independent graph over random file trees",
     "Random in-memory graphs and random file trees; own cycle detection.",
     ["has_dependency, topological_sort, parse_include_directives answers"])
prop("P12", "Optimisation changes nothing a run of the function can show",
     "For every function body over int expressions, assignments, memory writes, calls and nested control flow, and all arguments for which its run is defined, the optimised function makes the same calls with the same values in the same order, leaves the same memory and returns the same value; its signature is unchanged and optimising never panics.",
     ["programs", "inputs"], "every function body and every argument for which the original run is defined",
     "Tests check the folded form of single expressions, not that whole bodies with effects, jumps and shadowed constants still run the same.",
     [C + "decy-core/src/optimize.rs"],
     [("constant folding, dead branches, temporaries", C + "decy-core/src/optimize.rs")],
     "differential runtime monitoring: interpreter with C semantics runs each body before and after optimisation",
     "Random bodies biased to what the passes look for; event traces compared. Trusts the interpreter in harness/src/mon/hirgen.rs, checked against itself on unchanged bodies.",
     ["calls made, memory left, value returned"])
prop("P13", "The parser keeps every declaration and statement as written",
     "For every C file of structs, forward declarations, enums, globals, typedefs and int functions (local declarations, assignments to variables, elements, fields and dereferences, compound assignments, increments, calls, if/else, for, while, do, switch, break, continue, return, and int expressions over literals, variables, operators, casts, sizeof, ternaries, elements, fields, dereferences and calls), the parsed tree holds each of them exactly once, in order, with the names, types, values, operators and grouping written. Comments, blanks, redundant parentheses, braces around single statements, comma-joined statements and the base of a literal do not change it.",
     ["programs"], "every tree of the subset and every spelling of it",
     "Tests parse single constructs in one spelling; a construct dropped or regrouped in an unusual position goes unseen because codegen works from whatever tree it gets.",
     [C + "decy-parser/src/extract/expressions.rs", C + "decy-parser/src/extract/statements.rs", C + "decy-parser/src/extract/types.rs", C + "decy-parser/src/parser.rs"],
     [("expression extraction", C + "decy-parser/src/extract/expressions.rs"), ("statement extraction", C + "decy-parser/src/extract/statements.rs"), ("declaration extraction", C + "decy-parser/src/extract/types.rs")],
     "round-trip monitor: generated syntax trees printed as C, parsed by the real parser and compared with the tree",
     "Oracle: the tree the text was printed from. Thousands of files per run, 10^5 statements; the same tokens are also re-spelled and must give the same tree.",
     ["Ast returned by CParser::parse"])
prop("P16", "Lock analysis reports exactly the unguarded accesses and unmatched locks",
     "For every function that takes and releases named mutexes around its statements, the reported locked regions, the data each mutex guards, the accesses to guarded data outside every region, and the locks never released or released without being held are exactly those in the body, however deep in a statement the access stands; the summary counts them and is clean only if there are none. Across functions, a deadlock risk is reported exactly when two functions nest two mutexes in opposite orders.",
     ["programs"], "every arrangement of lock calls and statements",
     "Tests cover two or three statements around one lock.",
     [C + "decy-analyzer/src/lock_analysis.rs", C + "decy-verify/src/lock_verify.rs"],
     [("region and data analysis", C + "decy-analyzer/src/lock_analysis.rs"), ("unprotected access and deadlock checks", C + "decy-verify/src/lock_verify.rs")],
     "online monitor of analysis reports against the generator's own bookkeeping of locks and accesses",
     "Random functions with every statement and expression kind; the generator records which variables each statement names.",
     ["regions, mappings and messages returned"])

prop("P04", "The same source always gives the same translation",
     "For every C text, every call gives the same answer: the same Rust text or an error, whatever was translated before in the process, however many threads translate at the same time, through whichever entry point (plain, traced, with includes, with verification, file, command line, standard output or -o), and in every new process.",
     ["inputs", "schedules", "histories"], "every text, every history and every interleaving of translations",
     "Tests call the pipeline once per text, in one process: an answer that depends on hash order, on leftovers of an earlier call or on another thread shows only when the same text is translated again elsewhere.",
     [C + "decy-core/src/lib.rs", C + "decy-parser/src", C + "decy-hir/src", C + "decy-analyzer/src", C + "decy-codegen/src", C + "decy/src/main.rs"],
     [("pipeline entry points", C + "decy-core/src/lib.rs"), ("unordered maps in analyses and code generation", C + "decy-codegen/src")],
     "runtime monitor replaying each translation in other orders, on eight threads and in fresh processes and comparing",
     "Corpus of 204 C files (examples of the repository) plus random programs. Fresh processes have fresh hash seeds, so unordered iteration shows with each one.",
     ["Rust text or error of every call"])
prop("P05", "Every text is translated or refused with an error",
     "For every text given to the parser, the translator or the command line, including damaged, truncated, deeply nested, non-C and C++ or CUDA text, the call returns: with Rust text or with an error. It does not panic, abort, overflow its stack, fault or run forever; the command line exits with status 0 and the translation, or non-zero with a message and no output file.",
     ["inputs"], "every text up to clang's own nesting limit",
     "Tests feed mostly valid, short programs; each panic hides behind a shape of text nobody wrote down.",
     [C + "decy-parser/src", C + "decy-core/src", C + "decy-hir/src", C + "decy-analyzer/src", C + "decy-ownership/src", C + "decy-codegen/src", C + "decy/src/main.rs"],
     [("whole pipeline", C + "decy-core/src/lib.rs"), ("command line", C + "decy/src/main.rs")],
     "fault monitor (panics, signals, stalls) around every call under mutated, generated and hostile texts",
     "Corpus files, generated files, unusual declarations, damaged copies, token soup, C++/CUDA. Debug assertions and overflow checks on.",
     ["return, panic, signal or stall of every call; exit status, message and output file of the command line"])
prop("P06", "The parser uses libclang safely and gives everything back",
     "For every text and every number of threads parsing at the same time, no memory is used after it is freed, out of bounds or freed twice, nothing is lost, every translation unit, index, token array, diagnostic and string obtained from libclang is given back exactly once, and none is used after that.",
     ["inputs", "schedules"], "every text and every interleaving of parses",
     "No test can see a leaked or already disposed libclang object: the program goes on and prints the same tree.",
     [C + "decy-parser/src/parser.rs", C + "decy-parser/src/extract"],
     [("translation unit, token and diagnostic handling", C + "decy-parser/src/parser.rs"), ("extraction visitors", C + "decy-parser/src/extract")],
     "AddressSanitizer and LeakSanitizer build plus an interposed monitor of every libclang acquire, use and release",
     "The monitor (asan/clangmon.c) is preloaded between the parser and libclang and keeps a ledger of live objects per kind.",
     ["ledger of libclang objects, sanitizer reports"])
prop("P11", "A project run writes what translating each file alone gives",
     "Over every history of edits to sources and headers, added and removed files, runs with and without cache, killed runs, runs out of file space and failing runs, each completed transpile-project run writes, for every C file of the tree, at the same relative path, exactly what translating that file alone gives now, changes nothing in the project, and reports counts that add up; an unchanged project is answered from the cache. A dry run changes nothing and names every file, check-project lists every file, and a project with a file that cannot be translated is an error.",
     ["histories", "crash_points"], "every project tree and every history of edits and (interrupted) runs",
     "Tests run the command once on a fresh tree of one to three files, check that files exist, and never compare with single translations, edit headers between runs or interrupt a run.",
     [C + "decy/src/main.rs", C + "decy-core/src/lib.rs"],
     [("transpile-project, check-project, cache-stats", C + "decy/src/main.rs"), ("cache and dependency graph", C + "decy-core/src/lib.rs")],
     "offline checker over recorded histories of edits and (killed, starved) runs against single-file translations",
     "Random trees with headers including headers, odd file names and directories; kill at random instants and file-size limits as faults.",
     ["files of the output directory, of the project and the printed counts"])
prop("P15", "The compile verdict is rustc's",
     "For every Rust text, verification succeeds exactly when rustc accepts the text; the errors it lists carry rustc's error codes, in order, and text inside strings or comments is not taken for an error. Any number of verifications may run at the same time, each gets its own verdict, and nothing is left in the temporary or working directory. transpile --verify succeeds and writes its output exactly when rustc accepts the translation, and otherwise writes nothing.",
     ["inputs", "schedules"], "every Rust text and every interleaving of verifications",
     "Tests verify a handful of one-line snippets, one at a time.",
     [C + "decy-verify/src/lib.rs", C + "decy/src/main.rs"],
     [("verify_compilation", C + "decy-verify/src/lib.rs"), ("--verify", C + "decy/src/main.rs")],
     "online monitor comparing concurrent verdicts with rustc's own JSON diagnostics and watching the directories",
     "Random files of items that compile or fail in 27 ways; six verifications at a time.",
     ["verdict, error list, exit status, output file, directory contents"])
prop("P17", "Metrics, reports and decision traces account for what was recorded",
     "Over every history of recorded successes, failures (with any message text) and resets, the counts, rates, target verdict and the histogram of error codes (the first E followed by four digits, else UNKNOWN) are those of the history, and the JSON and Markdown reports show them; convergence and equivalence reports add up over their tiers. A decision trace keeps every entry in order, its summary and JSON agree with it, and tracing or verifying a translation does not change it.",
     ["histories", "inputs"], "every history of recorded events and every message text",
     "Tests record two or three events with plain ASCII messages.",
     [C + "decy-core/src/metrics.rs", C + "decy-core/src/trace.rs", C + "decy-core/src/lib.rs"],
     [("compile, tier, convergence and equivalence metrics", C + "decy-core/src/metrics.rs"), ("trace collector", C + "decy-core/src/trace.rs")],
     "online trace checker: each recorded event is replayed in a model ledger and every report compared",
     "10^5 recorded events per run, traced translations of corpus and random sources.",
     ["counters, rates, histograms, reports, trace entries"])
prop("P19", "The model registry keeps one active, good enough version over any history",
     "Over every history of registrations, rollbacks, automatic rollbacks and stores and reloads: a version is taken only if newer than the last one, becomes active exactly when it meets the thresholds and there is no active one or it is better than it; exactly the active version is marked active; a rollback goes to the newest version before the active one that was not rolled back, and marks the one left with the reason; rollback to a named version activates it; an automatic rollback happens exactly when the quality is below a threshold or more than 5 points below the active one's; history, size limit and report agree with that, and storing and reading back changes nothing.",
     ["histories"], "every history of registry operations",
     "Tests run one rollback after two registrations, the newest one being active.",
     [C + "decy-ownership/src/model_versioning.rs"],
     [("register_version, rollback, rollback_to, auto_rollback_if_needed", C + "decy-ownership/src/model_versioning.rs")],
     "online trace checker: random histories replayed in a model registry, every state compared after each step",
     "10^5 histories per run.",
     ["versions, active version, rollback history, answers"])
prop("P20", "The learning loop counts, ranks and chooses correctly over any history",
     "Over every history: the labelling queue hands out the most uncertain sample first (oldest first among equals), keeps at most its limit, and its statistics are those of what is pending and labelled; the active learner scores a prediction by its strategy and queues it exactly when the score reaches the minimum; the error tracker's counts, distributions and suspiciousness scores are those of the recorded errors and successes; the threshold tuner reports the accuracy and usage of each candidate and picks the best by its criterion; the hybrid classifier uses the model exactly when enabled and confident enough, the rules otherwise, and its metrics count each decision once.",
     ["histories", "inputs"], "every history of samples, labels, errors and predictions",
     "Tests push a few samples without ties, limits or reloads.",
     [C + "decy-ownership/src/active_learning.rs", C + "decy-ownership/src/error_tracking.rs", C + "decy-ownership/src/threshold_tuning.rs", C + "decy-ownership/src/hybrid_classifier.rs"],
     [("sample queue and active learner", C + "decy-ownership/src/active_learning.rs"), ("error tracker", C + "decy-ownership/src/error_tracking.rs"), ("threshold tuner", C + "decy-ownership/src/threshold_tuning.rs"), ("hybrid classifier", C + "decy-ownership/src/hybrid_classifier.rs")],
     "online trace checkers: random histories replayed in models of queue, tracker, tuner and classifier",
     "10^5 histories per run with ties and boundary values.",
     ["every answer, statistic and ranking"])


prop("P21", "The oracle's data, statistics and decisions follow the recorded history",
     "Over every history: golden traces and training examples exported to a file and read back are the same traces, and their statistics are those of the traces added; the oracle's metrics, rates and CI verdict follow the recorded queries, fixes and failures and the configured thresholds; the single-shot baseline and its Wilson interval, error histograms and their divergence, A/B experiment results, classifier evaluation and data splits (every sample in exactly one part) are those of the samples given; pattern retirement and fix promotion decide by their stated thresholds; the retraining pipeline promotes only a model that passes its gates; and any number of concurrent compile verdicts, by the fix verifier and the trace verifier, are each the verdict of rustc on that text.",
     ["histories", "inputs", "schedules"], "every history of traces, queries, measurements, samples and training runs, and every schedule of concurrent compile verdicts",
     "Tests use a handful of entries, no text that needs escaping, and one verdict at a time.",
     [C + "decy-oracle/src/golden_trace.rs", C + "decy-oracle/src/dataset.rs", C + "decy-oracle/src/metrics.rs", C + "decy-oracle/src/baseline.rs", C + "decy-oracle/src/retirement.rs", C + "decy-oracle/src/verification.rs", C + "decy-oracle/src/trace_verifier.rs", C + "decy-oracle/src/diversity.rs", C + "decy-ownership/src/ab_testing.rs", C + "decy-ownership/src/training_data.rs", C + "decy-ownership/src/retraining_pipeline.rs", C + "decy-ownership/src/classifier.rs"],
     [("golden trace and dataset export", C + "decy-oracle/src/golden_trace.rs"), ("training example export", C + "decy-oracle/src/dataset.rs"), ("oracle metrics and CI verdict", C + "decy-oracle/src/metrics.rs"), ("baseline and Wilson interval", C + "decy-oracle/src/baseline.rs"), ("retirement sweep", C + "decy-oracle/src/retirement.rs"), ("fix verifier", C + "decy-oracle/src/verification.rs"), ("trace verifier", C + "decy-oracle/src/trace_verifier.rs"), ("retraining pipeline", C + "decy-ownership/src/retraining_pipeline.rs")],
     "online trace checkers: random histories replayed in models of the oracle's bookkeeping; round trips through files; rustc as oracle for concurrent verdicts",
     "10^4 histories per run of ten kinds and hundreds of batches of concurrent verdicts.",
     ["every statistic, decision and file", "every concurrent verdict"])


prop("P03", "Translated programs use memory safely",
     "For every C program as of P02 whose own run is defined and leak-free, no run of the translation does anything undefined: every access, through references and through the raw pointers the translation keeps (lists, trees, pointers walked over arrays, heap fields), is to a live, initialised object within its bounds, no reference is null or dangling, and nothing is freed twice; and every heap array or struct that the program allocates and frees within one function is given back.",
     ["inputs", "histories"], "every C program of that subset",
     "The tests compare generated text; none runs a translation under a memory checker.",
     [C + "decy-codegen/src/stmt_gen.rs", C + "decy-codegen/src/expr_gen", C + "decy-codegen/src/func_gen.rs", C + "decy-ownership/src"],
     [("heap allocation and release in the translation", C + "decy-codegen/src/expr_gen/calls.rs"), ("reads and writes through raw pointers", C + "decy-codegen/src/stmt_gen.rs"), ("pointer or reference parameters", C + "decy-ownership/src/borrow_gen.rs")],
     "UB interpreter and sanitizer: each translated program run under Miri and under AddressSanitizer with leak detection",
     "Over a thousand programs per run, each run to its end under both monitors. Miri's experimental aliasing model is off. One recorded finding (blocks held by raw pointers are never freed).",
     ["Miri and AddressSanitizer reports", "the output, which shows the program ran to its end"])

prop("P07", "Programs that need no unsafe code are translated to safe Rust",
     "For every C program over int, unsigned, double, char, enum and size_t values, functions, function pointers, structs (nested, by value, by pointer, returned), fixed-size arrays, array parameters, out-parameters and swaps, and heap arrays and structs allocated and freed in one function, without globals, linked structures or pointer variables that walk, the translation contains no unsafe code.",
     ["inputs"], "every C program of that subset",
     "Tests look at single functions; the choice between reference and raw pointer depends on the whole function and its callers.",
     [C + "decy-ownership/src/borrow_gen.rs", C + "decy-ownership/src/inference.rs", C + "decy-codegen/src/func_gen.rs", C + "decy-codegen/src/stmt_gen.rs", C + "decy-codegen/src/transform_gen.rs"],
     [("reference or raw pointer", C + "decy-ownership/src/borrow_gen.rs"), ("signatures", C + "decy-codegen/src/func_gen.rs"), ("unsafe blocks in statements", C + "decy-codegen/src/stmt_gen.rs")],
     "monitored workload: random programs translated, rustc with unsafe code forbidden as the oracle",
     "4000 programs per run, each of four to seven scenarios.",
     ["rustc's verdict with -F unsafe_code"])


prop("P14", "A differential test passes exactly when both programs behave alike",
     "For every pair of a C and a Rust program that end by exiting, the differential test passes exactly when both print the same text to standard output and exit with the same status (and, when asked to compare it, print the same to standard error); each kind of difference is named in its verdict, a program that does not compile is an error and never a pass, and the results it carries are those of the two programs. Any number of tests at once give the verdicts they give alone and leave nothing behind. `decy diff-test` succeeds exactly when the translation of the file behaves like the file.",
     ["inputs", "schedules"], "every pair of programs whose output is text, and every schedule of concurrent tests",
     "Tests compare a few pairs of fixed programs, one at a time, mostly equal ones.",
     [C + "decy-verify/src/diff_test.rs", C + "decy/src/main.rs"],
     [("compile, run and compare", C + "decy-verify/src/diff_test.rs"), ("diff-test command", C + "decy/src/main.rs")],
     "online monitor: programs with known output, error output and status through real and stand-in compilers, alone and concurrently",
     "Thousands of pairs per run, four at a time. Recorded findings: timeout ignored, -lm order, local includes.",
     ["verdict, differences and outputs of each test", "exit status and text of decy diff-test"])

prop("P18", "Pointers are classified by what created them, wherever in the function that is",
     "For every function in which each pointer is created once, however deeply nested in branches, loops, loop headers and switch arms: the analysis knows exactly the pointers of the function, each with the statement that created it and as what (parameter, allocation, array with its size and element type, copy of another pointer, dereference); a copy depends on exactly its source and knows the array behind it; a pointer that an allocation created is inferred to own it, an array and a copy of one to be a pointer into that array, an array parameter to be an array pointer, any other pointer to be a borrow; a pointer parameter is an array parameter, with its length parameter, exactly when the evidence (type, neighbouring length, names, element writes, steps) adds up; a parameter is modified exactly when the body writes through it; and Box and Vec candidates are exactly the single-object and array allocations of the body.",
     ["inputs"], "every function body",
     "Tests analyse bodies of two or three statements with one pointer.",
     [C + "decy-ownership/src/dataflow.rs", C + "decy-ownership/src/inference.rs", C + "decy-analyzer/src/patterns.rs"],
     [("dataflow graph", C + "decy-ownership/src/dataflow.rs"), ("ownership inference", C + "decy-ownership/src/inference.rs"), ("Box and Vec candidates", C + "decy-analyzer/src/patterns.rs")],
     "online monitor: random nested bodies with known pointer origins, each answer of the analyses compared with them",
     "10^5 functions per run, half of them nested three deep or more.",
     ["nodes, classifications and candidates for each function"])

prop("P22", "The idiom detectors report exactly the idioms a function or struct has",
     "For every function and struct, wherever in nested branches, loops, loop headers, switch arms and expressions the idiom stands: a parameter is reported as an output parameter exactly when it is a pointer that the body writes through and never reads through, and as fallible exactly when the function returns int; the types and operations found for a void pointer are those its body casts it to and uses it with; a struct is a tagged union exactly when it holds an enum and a union with members, with one variant per member; a function's fork (with the variable that holds its result), exec (with program and arguments) and wait are those it calls; and every variable lives in the block that declares it, so that two lifetimes are equal in one block, outlive each other along nested blocks, and are independent in separate ones.",
     ["inputs"], "every function body and struct definition",
     "Tests show each detector one instance of its idiom and one counterexample.",
     [C + "decy-analyzer/src/output_params.rs", C + "decy-analyzer/src/void_ptr_analysis.rs", C + "decy-analyzer/src/tagged_union_analysis.rs", C + "decy-analyzer/src/subprocess_analysis.rs", C + "decy-ownership/src/lifetime.rs"],
     [("output parameters", C + "decy-analyzer/src/output_params.rs"), ("void pointers", C + "decy-analyzer/src/void_ptr_analysis.rs"), ("tagged unions", C + "decy-analyzer/src/tagged_union_analysis.rs"), ("subprocess patterns", C + "decy-analyzer/src/subprocess_analysis.rs"), ("scopes and lifetimes", C + "decy-ownership/src/lifetime.rs")],
     "online monitor: random bodies and structs built around known idioms, each report compared",
     "10^6 functions and structs per run.",
     ["every report of each detector"])

prop("P23", "An invalid C text is refused, with every error reported where it is",
     "For every C text without includes: the parser refuses it exactly when clang does; its error carries exactly clang's errors and warnings, each with its severity, line, column and message, the source lines around it and a caret under the place, and counts of errors and warnings that agree with the list; a known kind of mistake comes with its category, note and advice; nothing panics. The command line exits with failure, shows the place and message of the error, and writes no output file.",
     ["inputs"], "every C text",
     "Tests parse a handful of broken snippets and look for a word in the message.",
     [C + "decy-parser/src/diagnostic.rs", C + "decy-parser/src/parser.rs", C + "decy/src/main.rs"],
     [("diagnostics", C + "decy-parser/src/diagnostic.rs"), ("collection from libclang", C + "decy-parser/src/parser.rs"), ("transpile command", C + "decy/src/main.rs")],
     "online monitor: damaged texts, every diagnostic compared with those of the clang program",
     "Thousands of damaged texts per run. One recorded finding: line numbers in files with includes.",
     ["diagnostics of the parser", "exit status, standard error and files of decy transpile"])

prop("P24", "Included headers count as their text",
     "For every program, however its text is spread over local headers (nested, in other directories, under any spelling of the path, through links, with guards or #pragma once, included again, with blanks and comments in the include line), every entry point gives the translation of the program in one file; without one of the headers the program is refused with an error that names it. Standard headers, in any number and order, leave the translation of the program's own functions as it is, and what they declare (functions, types, constants) is what the C library declares.",
     ["inputs"], "every way to spread a program over files",
     "Tests include one or two headers of one function.",
     [C + "decy-core/src/lib.rs", C + "decy-stdlib/src"],
     [("inlining of includes", C + "decy-core/src/lib.rs"), ("built-in declarations", C + "decy-stdlib/src/lib.rs"), ("prototypes", C + "decy-stdlib/src/prototypes.rs")],
     "online monitor: programs cut into header trees at random, the translation compared with that of the whole; built-in headers compiled against the C library's",
     "Over a thousand cut programs per quick run.",
     ["translations by three library entry points and the command line", "errors on a missing header", "built-in text of every standard header"])


prop("P25", "C++ classes and namespaces, and CUDA files, keep their meaning",
     "For every C++ class of int fields and arrays of int, with a constructor that stores its parameters (named like the fields, in any order, or otherwise named, in the order of the fields) or none, and with methods (instance, const, static; of result int, bool or void) that use fields, parameters and local variables and call no other method; and for every class derived from one such class without a constructor: the translation compiles, and any sequence of operations on an object of it (construction, method calls, reading and writing fields, inherited ones too) gives what C++ gives. Classes and functions in nested namespaces are reached under the same path and behave likewise. In a CUDA file, each __global__ kernel becomes one extern \"C\" declaration with its name and its parameters (name, order and type) and no body, functions that are only __device__ are left out, and host functions (__host__, __host__ __device__ and unmarked) behave as in C++.",
     ["inputs", "histories"], "every class, namespace and sequence of operations on objects of it",
     "Tests look for pieces of text in the translation of a few classes.",
     [C + "decy-parser/src", C + "decy-codegen/src/type_gen.rs", C + "decy-core/src/lib.rs"],
     [("classes, namespaces and kernels in the C++ syntax tree", C + "decy-parser/src/parser.rs"), ("structs, impls, Deref and FFI declarations", C + "decy-codegen/src/type_gen.rs")],
     "differential monitor: random classes, namespaces and CUDA files driven by the same random operations in C++ (under UBSan) and in Rust",
     "Hundreds of files with thousands of calls per quick run.",
     ["results of methods and functions, values of fields and elements after calls", "declarations of kernels"])
prop("P26", "The debugger's views show the file",
     "For every valid C file, the tree view names the file and its number of lines, lists every source line under its number, and every function in order with its return type, its parameters (name and type, in order) and each statement of its body in order with its parts, and the numbers of functions and statements; the HIR view lists every function with return type, parameters and number of statements, the ownership view every function with its number of parameters. With colours a view says the same. A file that is missing, not text or not valid C gives an error, and no view changes a file.",
     ["inputs"], "every C file",
     "Tests look for one word in the view of a one-line file.",
     [C + "decy-debugger/src"],
     [("tree view", C + "decy-debugger/src/visualize_ast.rs"), ("HIR view", C + "decy-debugger/src/visualize_hir.rs"), ("ownership view", C + "decy-debugger/src/visualize_ownership.rs")],
     "online monitor: random files printed from a known tree, every line of every view compared with the tree",
     "Over a thousand files and ten thousand lines of views per quick run.",
     ["text of the three views", "errors", "the file afterwards"])

prop("P27", "The language-model loop passes on what it was given and counts what happened",
     "For every history of calls: the analysis context holds exactly the functions, ownership, lifetimes and lock mappings added to functions it knows, also as JSON; a prompt holds the C source, that context, a summary line for each variable with ownership under its function, and the instructions, unchanged; a response with one block of Rust code (also with fences in its doc comments, after other text or blocks), or a JSON answer, yields exactly that code, its reasoning and warnings, and one without code is an error; empty code and code with unequal numbers of braces never passes validation or verification and balanced code does, and the lint count is the number of kinds of panicking calls (unwrap, expect, panic) in the code; a retry is allowed exactly while failures are fewer than the maximum, and the feedback is about the last failure while the history keeps all; the attempt metrics (counts, first-try rate, mean, histogram, target) equal those of the recorded attempts, also after storing, and start anew after a reset.",
     ["inputs", "histories"], "every history of calls and every response text",
     "Tests parse a few short responses and record a few attempts.",
     [C + "decy-llm/src"],
     [("context", C + "decy-llm/src/context_builder.rs"), ("prompt and response", C + "decy-llm/src/llm_codegen.rs"), ("verdicts, retries, metrics", C + "decy-llm/src/verifier.rs")],
     "online monitor: random histories against models, prompts and responses taken apart again",
     "Thousands of prompts and responses per quick run.",
     ["contexts, prompts, parsed responses, verdicts, retry states, metrics after every step"])

prop("P28", "Pointer features, annotations, lock regions and enums follow their source",
     "For every function and struct: the features of each pointer parameter and each pointer variable declared anywhere in the body tell its depth, constness, whether the next parameter is its size, where it was allocated, how often it is freed and compared with NULL, wherever in nested blocks, loop headers and switch arms that stands, and whether it is returned, and their vector holds these values in their places; an annotated signature or struct is the given one with a lifetime on every reference, declares exactly the lifetimes it uses, returns only a lifetime that a parameter has, and a signature that returns an undeclared lifetime is refused; the lock regions of a function reach from each lock of a mutex to its next unlock; the enum made from a tagged union has one variant for each member, in order, with its payload type, and compiles; and the library of error patterns, also after storing, holds, orders and finds exactly the patterns added last under their names.",
     ["inputs", "histories"], "every function, struct, tagged union and history of a pattern library",
     "Tests derive from a few flat functions and compare single words of the result.",
     [C + "decy-ownership/src/ml_features.rs", C + "decy-ownership/src/lifetime_gen.rs", C + "decy-ownership/src/struct_lifetime.rs", C + "decy-codegen/src/enum_gen.rs", C + "decy-codegen/src/concurrency_transform.rs"],
     [("pointer features, pattern library", C + "decy-ownership/src/ml_features.rs"), ("signatures", C + "decy-ownership/src/lifetime_gen.rs"), ("structs", C + "decy-ownership/src/struct_lifetime.rs"), ("enums", C + "decy-codegen/src/enum_gen.rs"), ("lock regions", C + "decy-codegen/src/concurrency_transform.rs")],
     "online monitor: random inputs with known features, annotations and regions; generated enums parsed and compiled with rustc",
     "Tens of thousands of inputs per quick run.",
     ["every feature, annotation, region, enum and library state"])

P.sort(key=lambda x: x[0]["id"])
with open(ROOT + "/properties.jsonl", "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "python3 build_all.py",
     "hooks": {"guard": "none", "enable": "no hooks: the monitors use the public API of the crates and the command-line program", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} quick", "thorough_cmd": f"python3 run.py {p['id']} thorough",
                 "technique": t, "level": "exploration", "level_note": n, "evidence_file": f"evidence/{p['id']}.json"} for p, t, n in P],
     "not_applicable": [],
     "notes": "Every check builds harness/ (path dependencies on /repo's crates) from /repo's current tree. VERIF_SEED drives every random choice. See DESIGN.md."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(P), "properties")
