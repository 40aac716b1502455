NOTES = ("All checks are one Go program (lenscheck) that loads /repo's current source with go/types and go/ssa; "
         "nothing of /repo is executed. No hooks are needed in /repo.")

PROPS = [
 dict(id="C01", title="Injected client and server agree on the wire format",
  statement="Every message the client code injected into a test binary can send is decoded by the monitoring server into the same sequence of values: for every message type the receiver reads exactly the fields the sender writes, in the same order, with the same integer width, signedness and byte order, the same length prefixes, the same field-kind codes and the same per-element layout of repeated parts. Nothing is read that was not written and nothing written is left unread, whatever values, nesting depth or list lengths are reported.",
  over=["inputs", "programs"],
  quant="all message types, all recorded values, every nesting depth, every list length",
  why="The round-trip tests encode a few hand-made values of each kind; a divergence in a rarely used kind, width or optional branch is only met by a program that reports such a value.",
  files=["lens/astclient.go", "lens/astsrv.go", "lens/astapi.go"],
  mech=[("client encoders (send*, streamField and its value writers)", "lens/astclient.go"), ("server frame and field readers (readMessage, lensReader)", "lens/astsrv.go"), ("message ids, field kinds, api paths", "lens/astapi.go")],
  tech="wire-language extraction: abstract interpretation of encoder and decoder SSA into automata over typed tokens, compared for language equality",
  note="Sound for layout agreement (order, width, byte order, length prefixes, kinds, repetition counts) over all paths of encoder and decoder. Does not decide that the transported value itself is computed correctly before it is encoded or after it is decoded."),
 dict(id="C02", title="Malformed or hostile monitor traffic cannot take the analysis down",
  statement="Whatever bytes arrive on the monitor port, the server never allocates memory in proportion to a length or count it has merely been told, never indexes beyond the data it holds, never recurses without a fixed bound, and never hands a partly decoded message to the analysis: a message that fails to decode is rejected as a whole with an error response.",
  over=["inputs", "fault_sequences"],
  quant="all byte strings a peer may send, truncated anywhere",
  why="Tests send well-formed messages and a few truncated ones; the property is about every length, count and nesting a peer may claim.",
  files=["lens/astsrv.go"],
  mech=[("lensReader decode helpers and depth limit", "lens/astsrv.go"), ("HTTP handlers of the monitor endpoints", "lens/astsrv.go")],
  tech="interprocedural taint analysis with dominating-bound proof; recursion-guard check; path-sensitive error-edge check of handlers",
  note="Taint sources are all values read from the request body; every allocation size, index and recursion reached by them must be dominated by a constant bound. Trusts net/http to bound its own work."),
 dict(id="C03", title="Every source edit is undone when the analysis ends",
  statement="The tool edits source files of the project, of dependencies and of the standard library to inject monitoring and mutation markers. Before any such write happens its undo has been registered, on every path: for an existing file a complete backup was made before and the undo puts exactly that backup back; for a file the tool adds, the undo removes it. Restoring runs every registered undo even when some of them fail, reports their errors, and then forgets them so that later edits are backed up again. Every function that creates an editor arranges its restore before the first edit, so the sources come back on every way out, including failures half way through injecting.",
  over=["fault_sequences", "histories", "inputs"],
  quant="all sequences of edits, every operation failing at any point, every exit",
  why="Tests check restore after a successful run; what is left behind when the second write, a parse or a test run fails depends on which of dozens of paths is taken.",
  files=["lens/asttweak.go", "lens/astexec.go", "lens/mutation.go", "lens/file.go"],
  mech=[("ASTModifier cleanup actions, backups and Restore", "lens/asttweak.go"), ("InjectASTClient, commit actions, InsertFuncLines", "lens/asttweak.go"), ("injectMonitorPoints callers, RunMutationTesting", "lens/astexec.go, lens/mutation.go")],
  tech="path-sensitive interprocedural typestate analysis: undo-registered-before-write per write site, undo actions verified themselves, deferred-restore ownership of every editor",
  note="The undo list is found structurally (a list of error-returning actions that is run by the type that owns it). Decides ordering and pairing on all paths; does not model a crash of the whole process (kill -9), after which nothing can run."),
 dict(id="C04", title="Module files come back after the update run",
  statement="The module update rewrites go.mod and go.sum of every module directory of the project. Before the first rewriting go command is started, both files of every directory such a command runs in have been copied aside (or noted as absent, so that a created file is removed), each copy is recorded on the list of files to put back before the function can be left, and from the first command on every way out, including each failure, runs a restore that goes through the whole list, moving every backup onto its original, even when single files fail.",
  over=["fault_sequences", "inputs"],
  quant="all module layouts, each command, copy or move failing at any point, every exit",
  why="Tests update one-module projects successfully; a failing second copy, second module or post-update run takes paths no test takes.",
  files=["lens/astexec.go", "lens/file.go", "lens/gocmd.go"],
  mech=[("RunModuleUpdateAnalysis backup, go get, go mod tidy, restore", "lens/astexec.go"), ("CopyFile", "lens/file.go")],
  tech="path-sensitive interprocedural typestate analysis (command/backup/restore order), loop-completeness analysis, provenance of command directories and of moved paths",
  note="Commands are recognised by the constant arguments that make them rewrite module files. Does not decide that go itself touches no further files (go.work.sum in workspace mode is not covered)."),
 dict(id="C05", title="With a temporary copy the analysis stays off the originals",
  statement="When the copy option is on (the default), the user's project, GOPATH and module cache are left alone. The set-up succeeds only after each of the three was copied below a fresh temporary directory and the configuration was pointed at exactly that copy, a module cache inside GOPATH keeping its relative place; it runs before anything uses the configured paths, nothing gets around it, and its clean-up runs on every exit. After preparation neither the original project directory nor the surrounding GOPATH or GOMODCACHE is consulted again, and every go command and every package load is given the configured GOPATH and GOMODCACHE (each in its own variable) and a directory inside the analysed project or module cache.",
  over=["inputs", "fault_sequences", "programs"],
  quant="all configurations, every failing copy, every command and package load of the tool",
  why="A test with a throw-away project cannot tell whether the copy or the original was used; a single command without the redirected environment silently edits the user's module cache.",
  files=["lens/engine.go", "lens/exec.go", "lens/static.go", "lens/module.go", "lens/mutation.go", "lens/astexec.go", "lens/asttweak.go"],
  mech=[("setupTempEnvironment, Run", "lens/engine.go"), ("GoEnv, NewProjectExec, mergeSafeEnv", "lens/exec.go"), ("goCacheClean", "lens/asttweak.go"), ("packages.Load configurations", "lens/static.go, lens/module.go")],
  tech="path-sensitive typestate of the redirection (copied/redirected per path), dominance of the set-up over every use of configured paths, interprocedural provenance of command environments and directories",
  note="Provenance is flow-insensitive across functions and merges call sites of a helper. That CopyDir itself copies every entry faithfully is not decided here (its joins and errors are: C06, C08). What go does with the given environment is trusted."),
 dict(id="C06", title="No task outlives the operation that started it",
  statement="When an operation of the engine returns, successfully or not, everything it started has finished: every group of parallel tasks is waited for on every way out, every goroutine is joined by its starter (or is provably unable to block and changes nothing outside its own memory), every count added to a wait group is taken back on all paths so waiting never blocks for ever, every worker slot taken from a pool is put back, and every monitor server that was started is stopped. Files are therefore never written, and results never changed, after the call that asked for it has returned.",
  over=["schedules", "fault_sequences"],
  quant="all schedules, all error returns, all panics caught by a deferred call",
  why="A task left running on an error path only shows when the error and an unlucky schedule coincide; tests take the success path and wait anyway.",
  files=["lens/astexec.go", "lens/astsrv.go", "lens/engine.go", "lens/file.go", "lens/mutation.go", "lens/static.go", "lens/storage.go", "lens/asttweak.go"],
  mech=[("errgroup users: injectMonitorPoints, runMonitoredTestAnalysis, CopyDir, concurrentWalk, static analyses, RunMutationTesting, Commit", "lens/*.go"), ("testMonitor.wait", "lens/astexec.go"), ("worker pool of monitor servers", "lens/astexec.go")],
  tech="path-sensitive interprocedural typestate analysis (SSA) of errgroups, wait groups, goroutines, pool channels and servers",
  note="Every path of the starting function incl. deferred calls is explored; a goroutine is joined if its starter receives its completion on every path. Does not bound how long a task runs."),
 dict(id="C07", title="Shared analysis state is free of data races and deadlocks",
  statement="Under every schedule of tasks, monitor requests and test runs, shared state stays consistent: every lock taken is released on every way out (or by the goroutine it was handed to), locks are taken in one global order and never twice, every field of a lock-owning object that changes after construction is accessed only under one and the same lock, variables shared by parallel tasks are changed only under a common lock, the starter of tasks does not touch what running tasks change, a source file's syntax tree is only used while that file's lock is held, and collections kept under a lock are handed out only after being detached from their owner.",
  over=["schedules", "histories"],
  quant="all interleavings of parallel tasks, monitor request handlers and their starters",
  why="A race needs two particular accesses to overlap; the suite runs few schedules and mostly without the race detector.",
  files=["lens/astexec.go", "lens/asttweak.go", "lens/storage.go", "lens/static.go", "lens/engine.go", "lens/types.go"],
  mech=[("testMonitor point and frame locks", "lens/astexec.go"), ("ASTModifier file, commit and cleanup locks", "lens/asttweak.go"), ("memStorage, lockedBuffer, stripedMutex", "lens/*.go")],
  tech="interprocedural lockset analysis, lock-order graph, task-escape analysis of captured variables (SSA)",
  note="Locksets are computed over all paths from every exported function, task and handler. Objects are abstracted by type and field; sync.Map and atomics are trusted. Ordering through channels is only understood as completion of a goroutine."),
 dict(id="C08", title="Failures are never swallowed",
  statement="When a consequential operation fails (reading or writing files, parsing, editing, loading packages, running commands, storing or loading results, decoding, waiting for parallel tasks, any function of the tool that reports such failures), its error is never discarded. In a function that can return an error every path after the failure returns one, also when the failure happens inside a loop or a deferred step; merely logging it and carrying on as if it had succeeded is not enough, unless the error was recognised as an expected condition (such as a missing key) or is recorded as a result (a failing test run). In a function without an error result the failure is logged, recorded or signalled by its result. Exempt are console and in-memory output, releasing and removing what is no longer needed, questions about paths and existence, and attempts with a coded fallback.",
  over=["fault_sequences", "inputs"],
  quant="every call that can fail, in every function, failing on every path",
  why="Tests make very few of the several hundred fallible calls fail; a swallowed error turns a broken run into a clean-looking report.",
  files=["lens/*.go", "lens/cmd/*.go", "cmd/*"],
  mech=[("all error-returning calls", "lens/*.go, cmd/*"), ("expected conditions: IsNormalAstError, badger.ErrKeyNotFound, os.IsNotExist", "lens/*.go")],
  tech="per call site path-sensitive typestate analysis of the error value over SSA (taint of the error through wrapping, variables and results)",
  note="Decided per call site for all paths of the enclosing function; the callers of that function are call sites of their own. A question answered true (errors.Is, os.IsNotExist, a predicate on the error) counts as recognising an expected condition; whether the predicate itself is right is not decided."),
 dict(id="C09", title="Acquired resources and temporary files are released on every exit",
  statement="Every file, ticker, context, HTTP response, codec, database, iterator and storage the tool acquires is closed (or handed to an owner that closes it) on every way out of the function that acquired it, including every error return, and every temporary file or directory it creates is removed on every way out unless its path is returned together with success.",
  over=["fault_sequences", "inputs"],
  quant="all paths, every call failing at any point",
  why="Tests rarely make the second or third operation after an acquisition fail, which is where releases are forgotten.",
  files=["lens/*.go", "cmd/*"],
  mech=[("temporary project copy", "lens/engine.go"), ("mutation exec scripts", "lens/mutation.go"), ("badger storage, zstd codecs", "lens/storage.go"), ("file copies", "lens/file.go")],
  tech="path-sensitive interprocedural resource typestate analysis over SSA with error correlation",
  note="All paths incl. deferred cleanups; process exit (os.Exit, log.Fatal) is not counted as a leak of in-process resources. Trusts the libraries' own Close."),
 dict(id="C11", title="A store returns exactly what was saved, and views stay apart",
  statement="Every store keeps its own copy of the saved bytes and hands out copies, so later changes by callers never reach stored values and memory lent by the database is never kept. Whether a value is found depends only on whether its key was stored, never on its content or length. A value too large for one entry is read together with all of its parts in one transaction; parts are written, read and removed under one key format that contains the key and the part number, exactly as many as its marker records, and no part outlives the value it belongs to when that value is replaced or deleted; keys of parts are never listed. A prefixed view passes every key to the shared store with its own separator-terminated prefix, removes exactly that prefix from listed keys, never reaches a key of another view (also when cleared), and passes values, presence and errors on unchanged.",
  over=["histories", "inputs", "schedules"],
  quant="all histories of save, load, delete, list and clear on any keys and values of any size, through any number of views",
  why="Tests store a few small values; replacing a split value by a smaller one, an empty value, a caller that reuses its buffer, or two views whose names share a beginning are histories no test runs.",
  files=["lens/storage.go"],
  mech=[("prefixStorage", "lens/storage.go"), ("memStorage", "lens/storage.go"), ("badgerStorage, split values", "lens/storage.go")],
  tech="interprocedural ownership analysis of byte slices, symbolic normal forms of keys and markers (string dataflow over SSA), loop trip-count analysis, typestate of transactions and of old parts",
  note="Keys are compared as symbolic sequences of constants, parameters, fields and numbers. Not decided: that the parts add up to the whole (arithmetic of offsets), a stored value or key that itself looks like a marker or part key, and badger itself."),
 dict(id="C12", title="Stored test results are read back with nothing lost or swapped",
  statement="Encoding a test result and decoding it again preserves it. Every field of the result, of its call frames and of its field values has an encoded field of its own, is written from that field and read back into it on every path (a field may only be skipped when it was tested to be empty), and values that need no conversion are written and read back as they are. Every element of every collection is converted and stays under its own key or position. A value replaced by a reference into a dictionary is looked up, by the decoder, in the dictionary the encoder put it in; the reference is the position at which exactly that value was appended, and the key by which repeated values are recognised is computed from the very value that is stored. Encoded fields are exported and have distinct names.",
  over=["inputs"],
  quant="all test results: any fields, nesting, repetition and sharing of values and stacks",
  why="The encoding is a hand-written pair of mirror-image walks with three dictionaries; tests encode small results, and a field forgotten on one branch or a reference into the wrong dictionary only shows with a particular repetition of values.",
  files=["lens/types.go"],
  mech=[("TestResult.MarshalMsgpack, marshalMsgpack and dictionaries", "lens/types.go"), ("TestResult.UnmarshalMsgpack", "lens/types.go")],
  tech="field-slot correspondence and path-sensitive definite-assignment analysis of the encoder and decoder over SSA, dataflow of dictionary references and keys",
  note="Decides the correspondence of fields, dictionaries and references, not the msgpack library. An empty collection may come back as nil. That equal keys mean equal values is C13."),
 dict(id="C13", title="Keys of captured values and stacks identify them",
  statement="Two captured values or stacks get the same key only if they are the same, and equal ones always get the same key. The bytes a key is computed from can be taken apart again in one way only: everything of varying length is preceded by its own length or count or is last, a number is ended by something that is no digit, and alternatives are told apart by marks. Every field of the value (for the stack keys used for matching frames: file and function of every frame) goes into the key on every path unless it was tested to be empty, no key depends on the iteration order of a map, and comparing two stack frames compares every field.",
  over=["inputs"],
  quant="all values, nested to any depth, with any contents (separators included), and all stacks",
  why="Colliding keys need crafted contents (one name ending in what another begins with) that no test contains, and then silently merge two different values in stored results or match unrelated frames.",
  files=["lens/types.go", "lens/astexec.go", "lens/util.go"],
  mech=[("FieldValue.ID, FieldValues.ID, StackFrame.ID and Equal", "lens/types.go"), ("StackFramesKey", "lens/astexec.go"), ("stringKey, bytesKey", "lens/util.go")],
  tech="extraction of the token grammar hashed by each key function from SSA (helpers inlined) and a unique-decodability analysis of it; path analysis of completeness and order",
  note="The digest itself is trusted not to collide. Keys computed from a msgpack encoding rely on msgpack being self-delimiting."),
 dict(id="C14", title="Every stage gets, and the report shows, what the earlier stages found",
  statement="Each stage of an analysis is given the complete output of the stages before it: the caller analysis all changed functions of all modules, the test discovery all callers, the monitored runs all callers, tests and reachable changes, the comparison the stored results before the update and those after it, in this order. Wherever a report is written, each of its figures and lists is the one its name says, of the stage that determines it (zero only for stages that have not run), every duration is the time between the ends of the stages it is named after, in milliseconds, and what is collected into the report is collected for every caller, test and change without exception. The charts show the same figures as the JSON report, both when drawn with it and when drawn later from a stored report, and each file is written to the path configured for it.",
  over=["inputs"],
  quant="all results the stages can produce, at every place a report is written (early exits included)",
  why="The figures travel through parameter lists of up to twenty integers, slices and durations; two of one type exchanged, a value taken from the wrong run, or an element skipped for special inputs only compile and pass tests which check a few totals.",
  files=["lens/engine.go", "lens/report.go"],
  mech=[("AnalysisEngine.Run", "lens/engine.go"), ("DefaultReportWriter.WriteReportFiles, PrepareReportData, BuildReportMap, writeReportJSON", "lens/engine.go, lens/report.go"), ("renderReportCharts, RenderReportChartsFromJson", "lens/report.go")],
  tech="context-sensitive symbolic provenance of every report field over SSA (helpers inlined, containers and structs followed), compared with the figure its JSON name stands for; loop path analysis for completeness",
  note="The numbers themselves are computed by the stages (other properties). Colours, layout and the performance chart's arithmetic are not decided."),
 dict(id="C16", title="The comparison accounts for every captured value, exactly once",
  statement="For every test with results from before and after the update, every captured field of every call frame of every caller is compared and counted exactly once: as unchanged only if the matching frame after the update has a field of that name with an equal value, otherwise as different; a call with no counterpart counts all its fields as different. A frame after the update is matched by the same key as the frame before it and is used for at most one of them. Every field found to differ is listed under its caller and field name with a description that is never empty and names the old value before the new one. Panics of the project and of modules that appeared or disappeared count as differences whichever side lists the function. The totals returned are the sums of the counts reported per test, and each test's report carries that test's own results from before and after.",
  over=["inputs"],
  quant="all pairs of stored results: any callers, frames, fields and panics on either side",
  why="The verdict of an update is these counts. A missing frame, a field gone after the update, equal stacks called repeatedly or a panic in a function without one before each take their own path; tests sample few of the combinations, and a path that counts nothing, or twice, is silent.",
  files=["lens/engine.go"],
  mech=[("DefaultTestResultAnalyzer.CompareTestResults", "lens/engine.go"), ("DefaultTestResultAnalyzer.DiffValues", "lens/engine.go"), ("FieldValues.FlattenFieldValues, StackFramesKey", "lens/types.go")],
  tech="context-sensitive symbolic provenance over SSA: the counters are traced to their additions, each addition to the conditions known there, and each loop round is checked path by path for exactly one addition",
  note="Call frames and callers which exist only after the update are not counted, as in the code's design. Timing thresholds and which of several time changes is the most significant are not decided. The text of a difference beyond non-emptiness and order is not decided."),
]
PROPS.append(dict(
 id='C15',
 title='Results are recorded for the right run, test and function',
 statement='The tests are run once before and once after the module update. Between the two runs every changed module is set to its new version in every module of the project. A run that ends without error has run every given test and has saved its result under the identifier of the test, in the part of the storage that belongs to the side of the update; the two parts never share a key, and are returned in the order before, after. Expected values for the run after the update come only from the results before it, of the same test. What a monitor point reports is recorded for the function the point was placed in and under what it is (state of a project function, panic of a project function, panic of a module function, extension): every message of a known point is recorded, appended to what the function had before, with its own stack, fields, text and time. The counts returned belong to the runs they are named after.',
 over=['inputs'],
 quant='all sets of changed modules, callers, tests, extensions and all sequences of monitor messages',
 why='Five tables from points to functions, two storages and two runs are threaded by position through several functions whose parameters have equal types: mixing up any two compiles, and the tests which run the whole pipeline have one module, one caller and one test.',
 files=['lens/astexec.go'],
 mech=[('RunModuleUpdateAnalysis, runMonitoredTestAnalysis', 'lens/astexec.go'), ('injectMonitorPoints, newTestMonitor', 'lens/astexec.go'), ('testMonitor.HandleFuncPoint*, makeTestResult', 'lens/astexec.go')],
 tech='context-sensitive symbolic provenance over SSA from the entry of the analysis: storages, keys, versions and point tables are traced to where they were made; loops and handlers are checked path by path for a round or message which is not recorded',
 note='Whether `go get` itself selects the requested version, and whether the injected code reports each point it passes, are outside. Functions the instrumentation cannot handle are left out by design.',
))

PROPS.append(dict(
 id='C17',
 title='Of two runs on one version only what both agree on is kept',
 statement='The result of a test on one version is combined from two runs, each recorded by its own monitor while that monitor was installed. What is kept is exactly what both runs agree on: functions called in both, under the same name; of their calls those which both have, matched one to one by the same call-stack key; of a call the fields which are in both with equal values, nested fields by the same rule; of the panics those with the same text, one for one. Nothing is kept which the other run lacks or has with a different value, nothing both have is dropped, and results are only combined with results of the same kind (callers, extensions, project panics, module panics). The test counts as failed when either run failed. A single run is kept only in the run after the update, where the stable fields of the test are known from before it, and never when extension points were placed. Recorded fields are left out while recording only where the stable results of the same test lack the function, the call (the n-th with its stack) or the field.',
 over=['inputs', 'schedules'],
 quant='all pairs of results of two runs of a test, all sets of stable fields and all sequences of recorded calls',
 why='Values that differ between two runs of the same code (times, addresses, random ports) are what would drown the report; whether they are all filtered, and nothing else, depends on pairs of nested maps with repeated stacks, missing functions and mixed leaves, of which tests have a few.',
 files=['lens/astexec.go'],
 mech=[('testResultStableFields, stableFieldValues', 'lens/astexec.go'), ('runMonitoredTest', 'lens/astexec.go'), ('testMonitor.HandleFuncPointState (applyStableFilter)', 'lens/astexec.go')],
 tech='context-sensitive symbolic provenance over SSA: each kept key, call, value and panic is traced to the two results, with the conditions known where it is kept; loops are checked path by path for rounds which drop something without asking the other run; the monitors of two runs are told apart by where they are made',
 note='Whether a field is stable in more than two runs is not decided.',
))

PROPS.append(dict(
 id='C18',
 title='Monitoring points cover every path of a function and leave it as it was',
 statement='The points inserted into a function of the project see all of it, and do not change what it does. Every return statement, wherever it is nested (blocks, both sides and all parts of if-else chains, loops, switch, type switch and select clauses, labeled statements), is instrumented, and every matching call in such a list of statements; what the rewrite makes of a statement takes its place. Only variables which are in scope at a point are captured there. Each point has an id of its own, which is both handed out to the caller and part of the report that is inserted. Entry, finish and panic points stand before all other statements of the function. The panic point recovers, reports, and panics again with the very value recovered. The return which takes the place of another has one value for each of its values, and stands after the report; a variable which takes the place of a receiver or argument of a call was given just that part.',
 over=['inputs'],
 quant='all functions of all projects, with any nesting of statements',
 why='The rewriters are recursive walks over a syntax tree with a dozen kinds of statement that nest in each other. A kind or a branch that is not walked leaves calls and returns unseen without any error, and a variable out of scope or a changed panic value makes the monitored test differ from the real one; tests have a few nestings.',
 files=['lens/asttweak.go'],
 mech=[('ASTModifier.InjectFuncPointReturnStates, InjectFuncPointBeforeCall', 'lens/asttweak.go'), ('visibleDeclsBefore', 'lens/asttweak.go'), ('InjectFuncPointPanic, InjectFuncPointEntry, InjectFuncPointFinish', 'lens/asttweak.go'), ('buildReturnInstrumentation, buildCallInstrumentationWithArgs', 'lens/asttweak.go')],
 tech='interprocedural coverage analysis of the recursive rewriters over SSA: the kinds of statement and the fields which nest others are read from go/ast itself, and for each kind every path of the walk (with the facts what the value is, and that no error occurred) must look into each of its fields; the inserted code is put together symbolically from the composite literals and checked as a syntax tree',
 note='Calls in headers of else-if, in conditions evaluated repeatedly or conditionally, and arguments of deferred calls are evaluated at another time by InjectFuncPointBeforeCall; that is not decided. Nor is which type the temporary variables of a return get.',
))

PROPS.append(dict(
 id='C19',
 title='Impact analysis: from changed functions to tests, nothing is lost on the way',
 statement='What an update can affect is found completely. Every required module whose version differs, and in transitive analysis every module raised by it at any depth, is analysed; every function whose declaration (signature and body, without documentation) differs between the two versions, in any package and file, counts as changed. From every changed function the call graph (including dependencies, wrappers, instances and, where tests are looked for, test variants) is followed through all callers up to main.main, package init or test functions: every project function on the way becomes a caller, linked with every changed function it reaches, and every test function that go test would run and that reaches a caller is selected, linked with every such caller. Functions of one name (test variants, methods, repeated modules) do not replace each other, and the results of a level, of a module or of a workspace member do not replace those of another. The traversal looks at each node once and ends. Elements are passed over only when nil, empty, absent, equal to what is already there, outside of the project, generated, excluded by build constraints, or of a kind that cannot be instrumented.',
 over=['inputs'],
 quant='all projects, dependency graphs and call graphs, of any depth',
 why='This is where the tool decides what is tested at all: what is lost here is reported as "no differences". Each step is a loop with filters over maps and graphs, a wrong continue, a map keyed too coarsely, or a traversal that stops early drops functions silently; tests have graphs with a handful of nodes.',
 files=['lens/static.go', 'lens/module.go'],
 mech=[('CallerStaticAnalysis, TestStaticAnalysis, reverseDFS', 'lens/static.go'), ('LoadProjectCallGraph, isMainFunction, isInitFunction, isGoTestFunction', 'lens/static.go'), ('DiffModulesFromGoModFiles, DiffModulesFromGoWorkFiles, AnalyzeModuleChanges, analyzeModuleChangesInternal', 'lens/module.go'), ('aggregateFunctions, extractFunctions', 'lens/module.go')],
 tech='interprocedural loop-completeness and path-condition analysis over SSA: for each loop whose elements flow into a result, every way through a round must reach the place that keeps the element unless the branch that gives it up is one of the accepted reasons, judged through helpers; dependence of accumulated values on what was there before; the facts established on each accepting path of the predicates that end the traversal; flag values of the package loader against what the graph needs',
 note='That the call graph itself (CHA of x/tools) and go/packages are right is assumed. Which of several versions a member of a workspace is compared with is not decided. Functions which the tool cannot inject into (closures, functions without a declaration) are accepted as filtered.',
))

PROPS.append(dict(
 id='C20',
 title='Settings: options reach their effect, bad ones are refused on every path',
 statement='The value given for each documented option becomes the setting of that name, unchanged, whatever other options are given, and every documented option exists. Checking the settings (Config.Prepare) never succeeds with a missing project directory, with nothing that says what is updated, with both a go.mod and a go.work file, with a numeric setting below 1 or a port above 65535, with an absurdly large numeric setting (2^40), with a value of mutationscope, mutationset or mutationtests that means nothing (or is empty), or when the check of a given path (go.mod, go.work, JSON report, charts) or of the module specification failed, whatever else is configured. It accepts the defaults and every value the analysis asks for, succeeds only once, and refusing settings does not mark them as accepted. No setting is used before it was checked. The recorded depth and length limits, the cache size, the monitor port, the factor for slower tests, and whether mutation runs, is limited to changed lines, to fast mutators or to targeted tests, are decided by the setting documented for it, in the right direction.',
 over=['inputs'],
 quant='all settings and combinations of options',
 why='Sixteen options with similar types pass through four layers of positional parameters; a swapped pair, a condition that skips a check under another option, or an else that hangs on the wrong if keeps compiling, and tests try each option mostly alone.',
 files=['lens/engine.go', 'lens/cmd/flags.go', 'lens/mutation.go', 'lens/astexec.go'],
 mech=[('ParseFlags', 'lens/cmd/flags.go'), ('Config.Prepare, parseTargetModule, validateFilePath, validateOutputPath', 'lens/engine.go'), ('AnalysisEngine.Run, DefaultMutationTester, DefaultUpdateTester', 'lens/engine.go'), ('RunMutationTesting', 'lens/mutation.go')],
 tech='value provenance from flag definitions to fields and from fields to sinks; conditional constant propagation over the CFG of Prepare and its helpers (constants and unknowns only, both ways at unknown conditions): under each bad setting no success return may be reachable, and under good ones one must be; evaluation of the conditions that guard each effect under every value of its setting',
 note='The four ways to name an update and the two reports are tried in every sensible combination, all other settings are unknown. Options whose names are not constants at the flag definition are not followed. That a numeric upper limit is a particular number is not decided, only that 2^40 (and a port above 65535) is refused. A -modules list is covered by C08 and C02, not here.',
))

NA = []
