from . import p

EFF = "interprocedural effect and taint analysis of the resolved AST"
NOTE = ("Decides the property from the source on every run, over every function of the repository; the effects of the standard library, Abseil and protobuf are "
        "summarised and trusted; obligations the analysis cannot decide are printed as UNDECIDED and do not raise a violation.")
ALLF = ["base/*", "eval/*", "indicators/*", "logging/*", "traders/*", "util/*", "convert.cc", "trader.cc"]

p("G01", "Results depend on the inputs alone",
  "Evaluation results, converted histories and logs depend on the given files, flags and arguments alone: not on the time of day, random numbers, addresses, hash order, the "
  "environment, memory without a value, or earlier calls. Time measurements appear in messages only.",
  ["inputs", "histories"], "every function of the repository, every run and every order of calls",
  "A test sees one run in one process; uninitialised memory and hash order happen to be the same each time.", ALLF,
  [("every function", "all sources"), ("latency messages", "convert.cc, trader.cc")], [("global and static variables", "none that changes")],
  ["EvaluationResult", "written histories", "log files"], technique=EFF, note=NOTE)
p("G02", "Concurrent evaluations of a batch share nothing that changes",
  "The evaluations of a batch run at the same time and may only read what they share: account and evaluation configuration, history, side input and emitters. Everything they change "
  "belongs to one evaluation, and what they are given by reference outlives them.",
  ["schedules", "inputs"], "every interleaving of the evaluations of every batch, every trader",
  "A test of a batch sees the few schedules that happen; a shared cache or counter is wrong only under others.",
  ["eval/eval.cc", "base/side_input.cc", "base/side_input.h", "base/account.cc", "traders/*", "indicators/*", "util/time.cc"],
  [("EvaluateBatchOfTraders", "eval/eval.cc"), ("everything EvaluateTrader reaches", "base, eval, indicators, traders, util")], [("captured references", "shared by the evaluations")],
  ["EvaluateBatchOfTraders"], technique="interprocedural effect and escape analysis of the code reachable from the tasks", note=NOTE)
p("G03", "Assertions change nothing: debug and release builds agree",
  "Evaluating an assertion changes no state, and apart from assertions the program has the same statements with and without NDEBUG. So a run in which no assertion fails gives the same "
  "results in debug and release builds.",
  ["inputs", "histories"], "every assertion and every function, every input",
  "The tests are run in one of the two builds.", ALLF, [("assert", "all sources")], (), ["every result"],
  technique="effect analysis of assertion conditions and tree comparison of the two preprocessed programs", note=NOTE)
p("G04", "Timestamps keep 64 bits; only distances between them are narrowed",
  "A point in time in seconds is kept and passed on as a 64-bit integer everywhere, from the readers to the results, and never goes through a 32-bit integer or single precision. Only "
  "differences between times, such as gaps and ages, are converted to floating point or smaller integers.",
  ["inputs"], "every conversion of the repository, every timestamp of any epoch",
  "Timestamps in the tests are small or multiples of big powers of two, which narrower types represent exactly.", ALLF,
  [("every conversion of a timestamp", "all sources"), ("timestamp fields", "*.proto")], [("timestamps", "seconds since the epoch")], ["every timestamp"],
  technique="type-and-provenance inference over all conversions", note=NOTE)
p("G05", "Every loop ends: no input makes the program hang",
  "Every loop of the repository ends after finitely many iterations, for every input: each turn moves a counter, a position in a container, a time or the input itself towards the loop's "
  "end. An empty history, a failing read or a zero step never makes a loop repeat for ever.",
  ["inputs", "histories"], "every loop of every function, every input, option and history",
  "A test that ends says nothing about the inputs on which a loop would not; nobody tests for hanging.", ALLF,
  [("every loop", "all sources"), ("EvaluateTrader", "eval/eval.cc"), ("ReadDelimitedMessages", "util/proto.h"), ("Resample", "base/history.cc")], [("loop counters and iterators", "ranking functions")],
  ["every function"], technique="ranking-function inference over the summarised loops of the resolved AST", note=NOTE)
p("G06", "No element outside of a container or range is used, however short the input",
  "No function uses an element before the beginning or at or behind the end of a container or range: front, back and pop find an element, indices are in range, and results are opened only "
  "if they hold a value. Empty and one-record histories and files are handled like any other.",
  ["inputs", "histories"], "every access of the functions that nothing else calls and of the public functions, every input; accesses that rest on a class invariant are left to the class's properties",
  "Reading one element too far rarely fails a test, and the tests that pass empty histories cover few functions.", ALLF,
  [("every access to a container", "all sources"), ("ExecuteTrader", "eval/eval.cc"), ("GetPriceHistoryGaps", "base/history.cc"), ("RemoveOutliers", "base/history.cc"), ("main", "convert.cc, trader.cc")],
  [("sizes and positions", "containers, iterator ranges")], ["every function"],
  technique="range analysis of container accesses on summarised paths of the resolved AST", note=NOTE)
