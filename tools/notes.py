_RM = "Runtime monitoring: "
_S = " The program runs under AddressSanitizer and UndefinedBehaviorSanitizer."
TECH = {
 "C01": _RM + "a reference model of the annotation stack is run next to random programs and compared with every snapshot and query." + _S,
 "C02": _RM + "multi-threaded programs with a shadow model of each thread's and the process' context; snapshot order against published values; stepped and preemption-injected schedules." + _S,
 "C03": _RM + "programs with one injected nesting error; the monitor requires the report at that call, a frozen context afterwards, and unaffected other threads." + _S,
 "C04": _RM + "the snapshots a channel processed are logged and re-aggregated off-line; flushed records must equal the result; injected delays and preemptions around shared state." + _S,
 "C05": _RM + "exactly-once, in-order and content check of flushed trace records against the log of processed snapshots, for every buffer policy; injected delays and preemptions." + _S,
 "C06": _RM + "record-level comparison of what was written with what the reader returns, stream well-formedness monitor (define before use, once), and fixpoint of re-writing." + _S,
 "C07": _RM + "query results compared with an independent evaluation of the aggregation definitions over generated records." + _S,
 "C08": _RM + "query results compared with an independent evaluation of WHERE, LET, SELECT and ORDER BY; clause order is permuted." + _S,
 "C09": _RM + "every output format is parsed back with independent parsers and compared with the input records." + _S,
 "C10": _RM + "metamorphic monitor: the same records split, permuted, renumbered and processed in parallel must give equal results." + _S,
 "C11": "AddressSanitizer/UBSan monitoring of the tools under mutated, truncated and generated inputs with time and memory limits, and an intact-prefix oracle",
 "C12": _RM + "generated configuration strings with an independent grammar and option model: accepted or rejected, and the resulting channel settings." + _S,
 "C13": "ThreadSanitizer over multi-threaded stress programs (happens-before race monitoring), with first-use, thread-exit and channel-control schedules",
 "C14": _RM + "all identities seen by all threads are logged and checked to be one-to-one and stable; preemption injection at synchronisation points and memory accesses of the library." + _S,
 "C15": _RM + "metamorphic monitor: each channel's flushes with all channels present are compared with a run where it is alone, and with a model of the events it was active for." + _S,
 "C16": _RM + "output files of whole programs (thread exits, early and late calls, finalization from anywhere, static objects) are checked for exactly-once delivery of marked records." + _S,
 "C17": _RM + "recorded times are checked against clock readings taken outside the library around each event, and against each other (sums, nesting)." + _S,
 "C18": _RM + "recorded snapshots and event callbacks against an independent evaluation of the filters, with an unfiltered reference channel for the contexts." + _S,
 "C19": _RM + "reference model of live allocations (bytes, high-water marks, address resolution) against recorded values; concurrent runs bounded by linearization." + _S,
 "C20": _RM + "differential runs of the same system-call program with and without the wrappers; byte counts against the transferred counts.",
 "C21": _RM + "signals injected at random instants and at every step of library calls (single-stepping); recorded contexts against the true one, plus deadlock and sanitizer monitors.",
 "C22": _RM + "MPI runs compared with an independent aggregation of all ranks' records." + _S,
 "C23": _RM + "unpacked snapshots against the model context; guarded buffers of every size; visitor traces." + _S,
 "C24": _RM + "globals of every output are parsed back and compared with the last values set." + _S,
 "C25": _RM + "profile results against totals accumulated over the executed region tree." + _S,
 "C26": _RM + "recorded loop counts, durations and snapshots against the executed loop program." + _S,
 "C27": _RM + "effective settings against an independent model of the precedence rules over generated combinations of sources." + _S,
 "C28": _RM + "differential: the Python reader's and the native tool's results for the same generated streams are compared.",
 "C29": _RM + "conversions and comparisons against exact arithmetic in an independent implementation; order axioms checked over value sets." + _S,
 "C30": "AddressSanitizer/UBSan/LeakSanitizer monitoring of randomized and capacity-stress programs, with memory-growth monitors for short-lived objects",
 "C32": _RM + "differential and model: the tools' runs with generated option sets against the library running the queries they stand for; formatted lines, listings and statistics against independent computations." + _S,
 "C31": _RM + "the files, streams and buffers a program leaves behind are compared with a model of what each flush writes where." + _S,
}
