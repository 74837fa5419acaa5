SAMPLES = "Seeded sample of plans, schedules and faults, not exhaustive; trusts the simulated operating system (file durability model, scheduler, process table) and libclang."

prop("P01", "Translating the same C text always gives the same Rust text",
  "The Rust text produced for a C program (or the error reported instead) depends only on the program's text and the headers it includes. "
  "It is byte for byte the same whichever entry point translates it with the same include directory (parsing a file in place, and each report format, compared with itself), whatever was translated before in the process, in whatever order files are listed, on however many threads at once, and in every process (hash keys, process ids, clocks, benign I/O interruptions).",
  ["inputs", "programs", "schedules", "histories", "configurations"],
  "every program and set of headers; every hash seed, directory order, clock, process id, interleaving of concurrent translations and previous translations in the process",
  "Tests translate once, in one process, with whatever hash keys that process drew; iteration-order and leftover-state bugs need many hash keys, orders, previous translations and interleavings on the same program.",
  ["crates/decy-core/src/lib.rs", "crates/decy-codegen/src/lib.rs", "crates/decy-ownership/src", "crates/decy-analyzer/src", "crates/decy-parser/src/parser.rs", "crates/decy/src/main.rs"],
  [("pipeline without process-wide state", "crates/decy-core/src/lib.rs: transpile_with_includes, transpile_file"),
   ("ordered traversal of declarations", "crates/decy-core/src/lib.rs, crates/decy-codegen/src/lib.rs"),
   ("include discovery from the clang driver", "crates/decy-parser/src/parser.rs")],
  ["text returned by the library calls", "standard output and output files of the command line"],
  level_note=SAMPLES + " Programs come from a corpus of the repository's own examples, combined, renamed and split over headers.")

prop("P02", "A successful project translation leaves every source's current translation",
  "When translating a project ends with success, the output directory holds, for every source file of the project, its own complete output, equal to the translation of the file and the headers it includes as they are now; a source that cannot be read, listed or translated makes the command fail. "
  "This holds with and without the cache, whatever earlier runs did: edits of sources and headers, deleted or damaged outputs, failed, killed or overlapping runs, power loss, a lost or damaged cache. "
  "Once nothing fails any more, one further run succeeds and restores every output.",
  ["histories", "crash_points", "fault_sequences", "schedules", "configurations"],
  "every history of edits and runs, every crash point, disk fault and interleaving of two runs and an editor",
  "Tests run the command once or twice on a handful of files on a healthy disk; staleness, torn outputs and lost errors need an edit, crash or fault at one particular point of an earlier run.",
  ["crates/decy/src/main.rs", "crates/decy-core/src/lib.rs"],
  [("cache lookup and output restoration", "crates/decy/src/main.rs: transpile_project"), ("cache keyed by content hash of file and dependencies", "crates/decy-core/src/lib.rs: TranspilationCache"),
   ("directory walk", "crates/decy/src/main.rs: transpile_project")],
  ["exit status", "files in the output directory"],
  level_note=SAMPLES + " Results of overlapping runs and of runs with an editor at work are judged by the next undisturbed run.", hook="in-process entry point of the command line")

prop("P03", "A cache lookup never returns an outdated translation",
  "A lookup in the translation cache returns a result only if it is the result stored last for that file and the file and every header the translation depends on have exactly the content they had when it was stored; if any of them changed, was deleted or cannot be read, the lookup is a miss. "
  "An unchanged entry is found again, also after saving and reloading in another process, and every lookup is counted exactly once, as a hit or as a miss.",
  ["histories", "inputs", "fault_sequences", "configurations"],
  "every history of edits, deletions, reverts, stores, lookups, saves and reloads, with any timestamps, clock jumps and read errors",
  "Tests edit one file once and compare; same-length edits within one timestamp tick, edits of nested headers, deletions, reverts and read errors are combinations no test samples.",
  ["crates/decy-core/src/lib.rs"],
  [("content hash of file and dependencies", "crates/decy-core/src/lib.rs: TranspilationCache::get, insert"), ("dependency discovery", "crates/decy-core/src/lib.rs: extract_dependencies"), ("statistics", "crates/decy-core/src/lib.rs: TranspilationCache::statistics")],
  ["result of a lookup", "cache statistics"],
  level_note=SAMPLES + " Histories are checked against a small reference model holding the contents at the time of each store.",
  state=[("entries", "stored results with hashes", "crates/decy-core/src/lib.rs: TranspilationCache")])

prop("P04", "An interrupted or racing cache save never loses or mixes saved state",
  "Whatever interrupts saving the translation cache (a crash at any point, power loss, a full or failing disk, another process or thread saving to the same place), loading it afterwards gives the complete state of one save that had at least been started, never a mixture, a truncated or an invalid file. "
  "Unless the power failed, it is never a state older than the last save that reported success, and a save that did not take effect reports an error.",
  ["crash_points", "fault_sequences", "schedules", "histories"],
  "every crash point, disk fault and interleaving of savers and loaders",
  "Tests save and load on a healthy disk in one thread; torn, lost and interleaved writes need a crash or a second writer in the middle of a save.",
  ["crates/decy-core/src/lib.rs"],
  [("write to a temporary file, sync, rename", "crates/decy-core/src/lib.rs: TranspilationCache::save"), ("load with validation", "crates/decy-core/src/lib.rs: TranspilationCache::load")],
  ["what a later load returns", "result of save"],
  level_note=SAMPLES)

prop("P05", "Exit status 0 means complete, correct output, and nothing else touched",
  "A single-file translation that ends with exit status 0 has written exactly the complete translation of the file's current text to the requested output file or to standard output, with --verify only if the compiler saw that very translation and accepted it. "
  "If the source cannot be read, translated or (with --verify) compiled, the command exits with a non-zero status, prints no translation and leaves the output file as it was. "
  "No command changes any file other than the output asked for; commands that only report and dry runs change nothing at all and leave no scratch files. Without a fault, a translatable file is translated.",
  ["inputs", "fault_sequences", "crash_points", "histories", "schedules"],
  "every source text, option combination, disk, pipe and spawn fault, short or failing standard output, crash point, and two commands at once",
  "Tests run commands on a healthy machine; lost write errors, truncated standard output, partial outputs after failures and leftover scratch files need a fault at one particular call.",
  ["crates/decy/src/main.rs", "crates/decy-core/src/lib.rs", "crates/decy-verify/src/lib.rs"],
  [("translate, verify, then write", "crates/decy/src/main.rs: transpile_file"), ("explicit flush of standard output", "crates/decy/src/main.rs: transpile_file"), ("dry runs and reports", "crates/decy/src/main.rs, crates/decy/src/oracle_integration.rs")],
  ["exit status, standard output and error", "whole file system before and after"],
  level_note=SAMPLES + " rustc is a stub that rejects exactly the texts carrying a marker.", hook="in-process entry point of the command line")

prop("P06", "A compile verdict is about exactly the text it was asked about",
  "Every compile verification (library call, golden-trace verifier, semantic verification of a fix, batches) accepts a text only if the compiler was run on exactly that text and accepted it, and rejects it only with that text's own errors; if that could not be found out because something failed, it says so and never answers 'accepted'. "
  "A fix counts as fully verified only if its test suite ran and passed. This holds for any number of verifications at once in any number of threads and processes. Verifications leave no scratch files and touch no file they did not create.",
  ["schedules", "fault_sequences", "inputs", "crash_points"],
  "every interleaving of concurrent verifications, clock granularity, process id reuse, leftovers of crashed processes, and disk, spawn and wait fault",
  "Tests verify one text at a time on a healthy disk; verdicts of another text need two verifications interleaved inside one clock tick, unfounded verdicts a fault at one particular call.",
  ["crates/decy-verify/src/lib.rs", "crates/decy-oracle/src/verification.rs", "crates/decy-oracle/src/trace_verifier.rs"],
  [("private scratch directory per verification", "crates/decy-verify/src/lib.rs: verify_compilation"), ("verdict from rustc's status and diagnostics", "crates/decy-oracle/src/verification.rs, trace_verifier.rs")],
  ["verdict, errors and warnings", "files left in the temporary directory"],
  level_note=SAMPLES + " rustc and the test suites are stub programs.")

prop("P07", "A differential test passes exactly if both programs behave alike, in time",
  "A differential test (library and diff-test command) reports 'identical' exactly if the C program and its translation wrote the same bytes to standard output and ended alike (same exit code, or killed by the same signal), and reports the captured outputs and exit codes truthfully, for any amount of output, any bytes and any timing. "
  "A program that does not compile, cannot be run or runs past the time limit gives an error, never a verdict. The test ends within the limits, leaves no process running and no scratch file behind.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "every pair of program behaviours (bytes, sizes, pauses, exit codes, signals, programs that never end), time limit and disk, spawn, pipe or wait fault",
  "Tests compare a few tiny programs; full pipes, endless programs, signals, invalid UTF-8 and failing system calls are outside what they sample.",
  ["crates/decy-verify/src/diff_test.rs", "crates/decy/src/main.rs"],
  [("compile, run both with a deadline, compare", "crates/decy-verify/src/diff_test.rs: diff_test")],
  ["verdict, captured output, exit codes, divergences", "exit status and report of decy diff-test", "simulated time, processes and files left"],
  level_note=SAMPLES + " gcc, rustc and the compiled programs are scripted stubs; programs do not start children of their own.", hook="in-process entry point of the command line")

prop("P08", "Training data reported as written is complete, correctly paired and verified",
  "When generating golden traces, exporting trace sets or exporting the oracle's patterns reports success, the output file holds every item exactly once, in order, well-formed and undamaged. "
  "Every generated trace pairs one text its source file had during the run with the translation of exactly that text, and was accepted by the compiler; trace identifiers are distinct; every file of the corpus is accounted for as generated, failed or skipped, and without faults every translatable and accepted file has its trace. "
  "A corpus directory that cannot be listed, or an output that cannot be written completely, makes the command fail.",
  ["histories", "schedules", "fault_sequences", "inputs", "crash_points"],
  "every corpus, edit of the corpus while traces are generated, text (any characters), clock, and disk, listing and spawn fault",
  "Tests export small sets to a healthy disk with nobody editing; mispaired traces need an edit between two reads, lost lines a write that fails late.",
  ["crates/decy/src/main.rs", "crates/decy-oracle/src/golden_trace.rs", "crates/decy-oracle/src/dataset.rs", "crates/decy-oracle/src/diversity.rs"],
  [("golden trace generation", "crates/decy/src/main.rs: oracle_generate_traces"), ("JSONL, ChatML and Alpaca writers", "crates/decy-oracle/src/golden_trace.rs, dataset.rs"), ("corpus analysis", "crates/decy-oracle/src/diversity.rs: analyze_corpus")],
  ["exported files", "exit status and printed counts"],
  level_note=SAMPLES, hook="in-process entry point of the command line")

prop("P09", "The model registry always has the right active version, across restarts",
  "The model registry activates a newly registered version exactly if its metrics meet the quality thresholds and it is better than the active one (accuracy first, F1 when accuracies are within 0.01), refuses versions that are not newer than the latest, and never has more than one active version. "
  "A rollback goes to the nearest older version that meets the thresholds and was not itself rolled back, a rollback to a named version goes to exactly that version, an automatic rollback happens exactly when the reported quality misses a threshold or is more than 0.05 accuracy below the active version; every rollback is recorded once, a refused one changes nothing. "
  "Pruning keeps the history within its limit (at least two), drops the oldest versions and never the active one. Saving and restoring gives the same registry, also after crashes, and the report shows this state.",
  ["histories", "crash_points", "schedules", "inputs"],
  "every history of registrations, rollbacks, quality reports, saves, crashes and restores, by any number of clients sharing the registry",
  "Tests make a few calls on a fresh registry; wrong positions after pruning, rollbacks of rollbacks and restored states need particular multi-step histories.",
  ["crates/decy-ownership/src/model_versioning.rs"],
  [("activation, pruning and rollback", "crates/decy-ownership/src/model_versioning.rs: ModelVersionManager::register_version, prune_history, rollback, rollback_to"), ("quality check", "crates/decy-ownership/src/model_versioning.rs: check_quality, auto_rollback_if_needed")],
  ["results of the calls", "active version, versions, rollback history, markdown report", "saved and restored state"],
  level_note=SAMPLES + " Every result and the whole visible state are compared with a reference model after every operation; ties exactly on a comparison margin are accepted either way.",
  state=[("versions and active index", "registered versions, which one serves", "crates/decy-ownership/src/model_versioning.rs: ModelVersionManager")])

prop("P10", "Retraining puts a model in service exactly if it passes every gate",
  "A retraining run with too few samples (in total or in any split) trains nothing and says so; a failing trainer, a model below the precision or recall gate, one that degrades F1 by more than allowed against the active model, or one below the registry's thresholds is reported as exactly that and leaves the active model as it was; otherwise the model is promoted, gets a version newer than all others and is the active one afterwards. "
  "The three splits hold every sample exactly once. Every finished run is recorded once with its outcome and sample count, and the success rate is promoted runs over recorded runs; a trainer that panics leaves the pipeline as it was. A rollback to a known version activates it, any other is refused and changes nothing.",
  ["histories", "inputs", "schedules", "fault_sequences"],
  "every sequence of retraining runs, training results, trainer failures, configuration changes and rollbacks, by any number of clients",
  "Tests promote one or two models with a mock trainer; a model wrongly in service after rollback, pruning or a marginal degradation needs a particular history.",
  ["crates/decy-ownership/src/retraining_pipeline.rs", "crates/decy-ownership/src/model_versioning.rs"],
  [("gates and promotion", "crates/decy-ownership/src/retraining_pipeline.rs: RetrainingPipeline::execute"), ("data split", "crates/decy-ownership/src/retraining_pipeline.rs: DataSplit"), ("execution history", "crates/decy-ownership/src/retraining_pipeline.rs: record_execution, success_rate")],
  ["result of a run", "current version", "execution history and success rate", "samples the trainer was given"],
  level_note=SAMPLES + " The trainer is scripted. Every result and the visible state are compared with a reference model after every operation.")

prop("P11", "The labelling queue hands out the most uncertain sample first, each at most once",
  "The queue of samples waiting for a human label always hands out the most uncertain waiting sample, samples of equal uncertainty in the order they arrived, one by one or in batches, and each one at most once. "
  "It never holds more than its limit; when it is full a new sample replaces the least uncertain one, and only if it is more uncertain than that. A sample goes in exactly if its uncertainty under the chosen strategy reaches the minimum, and the caller is told truthfully whether it is in the queue. "
  "Labelled samples are kept until taken, once; statistics count every sample exactly once. This holds for any number of clients sharing the queue and after saving and restoring it.",
  ["histories", "inputs", "schedules", "crash_points"],
  "every history of arrivals, requests, batches, labels and restarts, by any number of clients, with any scores including equal ones and ones outside 0..1",
  "Tests queue three samples and take one; wrong order among equals, eviction of the wrong sample and double hand-outs need particular arrival histories around the limit.",
  ["crates/decy-ownership/src/active_learning.rs"],
  [("bounded priority queue", "crates/decy-ownership/src/active_learning.rs: SampleQueue"), ("selection strategies", "crates/decy-ownership/src/active_learning.rs: ActiveLearner, UncertaintyCalculator")],
  ["samples handed out", "results of the calls", "statistics", "saved and restored state"],
  level_note=SAMPLES + " Every result is compared with a reference model after every operation.",
  state=[("queue", "samples waiting for a label", "crates/decy-ownership/src/active_learning.rs: SampleQueue")])

prop("P12", "Statistics add up: every recorded event counts exactly once in every figure",
  "Every statistics object (error tracker, A/B experiments, oracle metrics, compile metrics, first-try compile metrics, classification metrics, pattern retirement, import and verification statistics, baseline and convergence reports, equivalence metrics, decision trace, golden trace and training datasets, classifier evaluation, corpus diversity) counts every recorded event exactly once: all its counters, rates, averages, rankings, verdicts and printed or exported reports are what follows from the list of recorded events, whatever the order of recording, and parts sum to their totals. "
  "Rates and averages of nothing are defined numbers, never NaN. Rankings and reports are the same in every process for the same events. Saving and restoring changes no figure; resetting empties all of them. This holds for any number of clients recording at once.",
  ["histories", "inputs", "schedules", "crash_points"],
  "every history of recorded events, queries, saves, crashes, restores and resets, by any number of clients, with any hash seed and clock",
  "Tests record a handful of events and read one figure; events lost from one of several tallies, ties ordered by hash and figures that drift after a restart need particular histories and processes.",
  ["crates/decy-ownership/src/error_tracking.rs", "crates/decy-ownership/src/ab_testing.rs", "crates/decy-ownership/src/hybrid_classifier.rs", "crates/decy-ownership/src/training_data.rs", "crates/decy-core/src/metrics.rs", "crates/decy-oracle/src/metrics.rs", "crates/decy-oracle/src/retirement.rs", "crates/decy-oracle/src/import.rs", "crates/decy-oracle/src/verification.rs", "crates/decy-oracle/src/baseline.rs", "crates/decy-oracle/src/golden_trace.rs", "crates/decy-oracle/src/dataset.rs", "crates/decy-oracle/src/diversity.rs", "crates/decy-core/src/trace.rs", "crates/decy-ownership/src/classifier.rs", "crates/decy-llm/src/lib.rs"],
  [("fault localisation and suspiciousness", "crates/decy-ownership/src/error_tracking.rs: ErrorTracker"), ("experiment assignment and analysis", "crates/decy-ownership/src/ab_testing.rs: ABExperiment"), ("oracle and CI metrics", "crates/decy-oracle/src/metrics.rs"), ("compile metrics", "crates/decy-core/src/metrics.rs")],
  ["figures and reports of every object", "saved and restored state"],
  level_note=SAMPLES + " Every figure is recomputed from the list of events after every operation; latencies are compared with bounds from the simulated clock.")

prop("P13", "The lock checker reports what the threads can run into, and nothing else",
  "For C functions that lock and unlock mutexes in straight-line code the lock analysis reports every trap that some interleaving of threads running those functions can fall into: a deadlock of any number of threads, a thread locking a mutex it holds, a lock kept at the end, an unlock of a mutex not held, and data used both under a lock and without it (read or written in any kind of statement, also inside branches and loops). "
  "For functions that keep to one lock order, release what they take and touch shared data only under its lock it reports nothing. Which mutex protects which data is derived from the locked regions alone. "
  "Findings, mappings and the prompt text built from them for a language model are the same in every process and thread.",
  ["programs", "schedules", "inputs"],
  "every set of lock programs, every interleaving of the threads running them, every hash seed",
  "Tests check a few fixed functions; whether a report matches what threads can really do needs the threads to be run under many schedules, and order-dependent reports many hash seeds.",
  ["crates/decy-analyzer/src/lock_analysis.rs", "crates/decy-verify/src/lock_verify.rs", "crates/decy-llm/src/lib.rs"],
  [("locked regions and protected data", "crates/decy-analyzer/src/lock_analysis.rs: LockAnalyzer"), ("discipline check", "crates/decy-verify/src/lock_verify.rs"), ("prompt context", "crates/decy-llm/src/lib.rs")],
  ["reported findings and mappings", "outcome of the simulated threads"],
  level_note=SAMPLES + " The oracle is the simulator's own scheduler running several threads per function; lock calls inside branches and loops, and several names for one object, are outside the property because the checker does not look there.")

prop("P14", "Damaged or half-written input gives a result or a reported error, never a crash",
  "Whatever bytes the input files hold - cut off, torn between two versions, zero-filled, bit-flipped, lines lost or doubled, not text at all, or being rewritten while they are read - every command and every library call that reads them returns a result or an error that says why: no panic, abort, endless loop or silent failure, and no input file changes. "
  "A source that is not UTF-8 text is never accepted as translated. In a corpus, damage to one file does not cost other files their golden traces.",
  ["inputs", "crash_points", "schedules", "fault_sequences"],
  "every program damaged in any way an interrupted, misdirected or concurrent write can damage it; every command and library entry point that reads source files",
  "Tests feed valid programs and a few fixed broken ones; a byte position that ends inside a character or token, or a file that changes between two reads, is one in thousands.",
  ["crates/decy-core/src/lib.rs", "crates/decy-parser/src/parser.rs", "crates/decy-hir/src/lib.rs", "crates/decy-codegen/src/lib.rs", "crates/decy-verify/src/lib.rs", "crates/decy-debugger/src", "crates/decy/src/main.rs"],
  [("parsing through libclang", "crates/decy-parser/src/parser.rs"), ("include handling", "crates/decy-core/src/lib.rs: preprocess_includes"), ("unsafe auditor", "crates/decy-verify/src/lib.rs: UnsafeAuditor")],
  ["exit status, standard output and error", "results of library calls", "input files before and after"],
  level_note=SAMPLES, hook="in-process entry point of the command line")

prop("P15", "The build order lists every file once, after everything it includes",
  "For any list of files, the dependency graph built from them gives a build order that holds every file exactly once and each one after all listed files it includes, however the include is spelled (spacing, trailing comment, '..', './', absolute), and the same order in every process; it reports a circular dependency exactly if there is one among the listed files. "
  "A listed file that cannot be read makes it fail. The check-project command says the project is ready, and prints such an order, exactly if every C file of the directory can be read and none includes itself in a circle; otherwise it fails and says why.",
  ["inputs", "histories", "fault_sequences", "configurations", "schedules"],
  "every tree of files including one another, list order, spelling of a path, directory listing order, hash seed and read fault",
  "Tests build graphs of two or three files; missed edges by another spelling, lost files and orders that depend on the hash seed need particular trees and processes.",
  ["crates/decy-core/src/lib.rs", "crates/decy/src/main.rs"],
  [("dependency graph and topological sort", "crates/decy-core/src/lib.rs: DependencyGraph::from_files, topological_sort, parse_include_directives"), ("project check", "crates/decy/src/main.rs: check_project")],
  ["build order or error", "exit status and output of decy check-project"],
  level_note=SAMPLES, hook="in-process entry point of the command line")

NA = "A pure function of its input: no schedule, clock, I/O or fault can influence it, so a simulated run decides no more than calling it once; deciding it needs "
prop("N01", "The generated Rust behaves like the C program",
  "For every C program in the supported subset, the generated Rust program has the same observable behaviour: same output, exit status and side effects.",
  ["programs", "inputs"], "every supported C program and input",
  "Tests compare generated text for sample programs.", ["crates/decy-codegen/src/lib.rs", "crates/decy-hir/src/lib.rs"],
  [("code generation", "crates/decy-codegen/src/lib.rs")], ["behaviour of compiled programs"],
  na=NA + "a C semantics and compiling the output for generated programs (differential fuzzing or proof). The part that depends on processes and time, that the differential test tells the truth, is P07.")
prop("N02", "The generated Rust compiles",
  "For every C program in the supported subset, the generated Rust is accepted by rustc.",
  ["programs"], "every supported C program", "Tests compile sample outputs.", ["crates/decy-codegen/src/lib.rs"],
  [("code generation", "crates/decy-codegen/src/lib.rs")], ["verdict of rustc"],
  na=NA + "running rustc over generated programs. That a verdict about compiling is truthful is P06, and that --verify uses it is P05.")
prop("N03", "Inferred ownership, lifetimes and mutability are sound",
  "The ownership, borrow, lifetime and mutability inferred for every pointer is one that Rust's rules accept for the way the C program uses it.",
  ["programs"], "every C program", "Tests look at sample functions.", ["crates/decy-ownership/src", "crates/decy-analyzer/src"],
  [("inference", "crates/decy-ownership/src/inference.rs")], ["inferred facts"],
  na=NA + "static reasoning about programs. That the result is the same in every process is part of P01.")
prop("N04", "The unsafe audit finds and rates every unsafe construct",
  "The audit of a Rust text lists every unsafe block, function, trait and impl exactly once with the right place and rating.",
  ["programs"], "every Rust text", "Tests audit sample texts.", ["crates/decy-verify/src/lib.rs"],
  [("syn visitor", "crates/decy-verify/src/lib.rs")], ["audit report"],
  na=NA + "enumerating Rust syntax. That it survives damaged input is part of P14.")
prop("N05", "Optimisation passes keep the meaning of the intermediate representation",
  "Every rewriting of the intermediate representation (constant folding, dead branches, redundant temporaries) leaves the meaning of the program unchanged.",
  ["programs"], "every program", "Tests optimise sample trees.", ["crates/decy-core/src/optimize.rs"],
  [("optimiser", "crates/decy-core/src/optimize.rs")], ["intermediate representation before and after"],
  na=NA + "a semantics of the representation (property-based testing or proof).")
prop("N06", "Threshold tuning and rule/model arbitration choose the best supported answer",
  "Tuned thresholds maximise the chosen measure over the candidates, and the hybrid classifier follows the stated arbitration rule.",
  ["inputs"], "every set of samples", "Tests tune on a few samples.", ["crates/decy-ownership/src/threshold_tuning.rs", "crates/decy-ownership/src/hybrid_classifier.rs"],
  [("tuner", "crates/decy-ownership/src/threshold_tuning.rs")], ["chosen threshold and class"],
  na=NA + "input generation only (property-based testing).")
