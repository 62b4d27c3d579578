#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "A snapshot shows exactly the regions and values open at that moment",
 "For any well-nested sequence of begin, end and set operations over attributes of any type and property combination, a snapshot taken at any point by a thread reports exactly the nested regions and values currently open, in nesting order and with their exact values, and nothing that was closed or overwritten. Reading a single attribute's current value through any of the query calls gives the same answer as the snapshot. Every one of the equivalent annotation interfaces (C calls, C++ annotation objects and scope guards) produces the same state.",
 ["programs", "histories"], "every sequence of begin/end/set operations over every attribute kind, any depth and number of simultaneously open attributes",
 "Unit tests replay a few fixed nesting patterns with a handful of attributes; the guarantee is over all interleavings of nested, unaligned, by-value and process-scope attributes and over blackboard contents of any size and hash layout.",
 ["src/caliper/Caliper.cpp", "src/caliper/Blackboard.cpp", "src/caliper/MetadataTree.cpp", "src/caliper/cali.cpp", "src/caliper/Annotation.cpp"],
 [("per-thread and process blackboards keyed by attribute class", "src/caliper/Blackboard.cpp"), ("context-tree path building, replacing and removing", "src/caliper/MetadataTree.cpp"), ("begin/end/set entry points", "src/caliper/Caliper.cpp")],
 ["pulled snapshots", "per-attribute current-value queries", "snapshot processing callbacks"])

prop("C02", "Thread scope is private to its thread; process scope is shared by all",
 "Values set with thread scope appear in the snapshots of the setting thread only, and values set with process scope appear, with the most recent value, in the snapshots of every thread. No activity on other threads, including threads that start or exit, ever adds, removes or changes an entry of a thread's own context.",
 ["schedules", "programs"], "every schedule of concurrently annotating threads, including thread creation and exit",
 "Tests run at most a few threads with fixed annotations and only look at totals; cross-thread leakage depends on interleavings and on how thread-local state is created, retired and found again.",
 ["src/caliper/Caliper.cpp", "src/caliper/Blackboard.cpp"],
 [("thread-local data with own blackboard", "src/caliper/Caliper.cpp"), ("process blackboard under lock", "src/caliper/Blackboard.cpp"), ("attribute scope resolution", "src/caliper/Caliper.cpp")],
 ["snapshots pulled on each thread", "trace records per thread"])

prop("C03", "A nesting error is reported once and contained",
 "Ending a region that is not the innermost open one, ending with the wrong value, or ending something that is not open is detected and reported at that call, and never silently pops another region. After such an error the process keeps running without crash or corruption, the erring thread's context stays frozen at what was open when the error occurred, and other threads and their data are unaffected.",
 ["programs", "histories"], "every erroneous operation at every point of every otherwise well-nested program",
 "The tests contain two or three fixed mismatches; the guarantee covers every kind of mismatch at every depth and its interaction with other attribute kinds and threads.",
 ["src/caliper/Caliper.cpp", "src/caliper/cali.cpp"],
 [("end checks against the top of the region stack and per-thread error latch", "src/caliper/Caliper.cpp"), ("end-with-value check", "src/caliper/cali.cpp")],
 ["error log", "snapshots after the error", "snapshots of other threads"])

prop("C04", "On-line aggregation conserves every snapshot",
 "With on-line aggregation, the flushed records are exactly the aggregation of all snapshots the channel took since it was last cleared: one record per distinct key combination and thread, whose count, sum, minimum, maximum and average equal those of the snapshots with that key, no matter how many keys, threads or aggregated values there are. The configured aggregation key decides which snapshots are combined; snapshots are neither lost, double-counted nor attributed to a wrong key, and clearing starts again from zero.",
 ["programs", "schedules", "configurations"], "every stream of snapshots, key configuration, number of distinct keys, values (integer and floating-point), threads, and flush/clear points",
 "Existing tests aggregate a few regions with the default key; conservation must hold for hash collisions, trie growth, key configurations with mixed by-value and nested keys, attributes that appear late, and threads exiting before the flush.",
 ["src/services/aggregate/Aggregate.cpp", "src/services/aggregate/AggregationDB.cpp", "src/services/aggregate/AggregationDB.h"],
 [("per-thread aggregation database keyed by context and key values", "src/services/aggregate/AggregationDB.cpp"), ("key selection", "src/services/aggregate/Aggregate.cpp")],
 ["flushed records compared with the logged stream of snapshots"])

prop("C05", "Tracing keeps every snapshot exactly once and in order",
 "With tracing, flushing a channel writes every snapshot taken since the last clear exactly once, with the contents it had when it was taken and in the order in which its thread took it, for every thread including those that have exited. Memory buffering policy and buffer size never corrupt records: a growing buffer loses nothing, a stopping buffer keeps an intact prefix of each thread's history, and a flushing buffer loses or duplicates nothing across the flushes.",
 ["programs", "schedules", "configurations"], "every sequence of snapshots of any size on any number of threads, for each buffer policy and buffer size",
 "Tests trace a handful of records that fit in the first buffer chunk; chunk boundaries, multi-chunk order, policy switches and thread exits are only reached by long varied histories.",
 ["src/services/trace/Trace.cpp", "src/services/trace/TraceBufferChunk.cpp", "src/common/CompressedSnapshotRecord.cpp", "src/common/SnapshotBuffer.cpp"],
 [("chunked per-thread trace buffers and overflow policies", "src/services/trace/Trace.cpp"), ("record packing", "src/services/trace/TraceBufferChunk.cpp")],
 ["flushed records with unique sequence numbers"])

prop("C06", "A .cali stream reproduces the in-memory data exactly",
 "Every record, attribute (name, type, properties and metadata), nested value and global written to a .cali stream is reproduced by reading the stream back, including strings with any byte content and numbers of every type and magnitude. Writing what was read again yields an equivalent stream, and each attribute or context node is written before it is first used and only once per stream.",
 ["inputs", "programs"], "every attribute type and property, every string (delimiters, quotes, backslashes, newlines, non-ASCII bytes, empty), every numeric value, every record shape",
 "Tests round-trip a few fixed records with benign names and small numbers; the guarantee is over arbitrary contents, where escaping, number formatting and id mapping matter.",
 ["src/reader/CaliWriter.cpp", "src/reader/CaliReader.cpp", "src/reader/CaliperMetadataDB.cpp", "src/common/Variant.cpp", "src/common/cali_variant.c", "src/common/util/format_util.cpp", "src/common/util/parse_util.cpp"],
 [("escaping writer and unescaping reader", "src/reader/CaliWriter.cpp"), ("node and attribute id mapping on merge", "src/reader/CaliperMetadataDB.cpp")],
 ["records read back by an independent reader and by the library's own reader"])

prop("C07", "CalQL aggregation results equal their definition",
 "For any input records, every aggregation operator of the query language (count, sum, min, max, avg, percent totals, ratios, inclusive variants, scaled variants, variance, any) and every group-by key yields, for each group, the value its documented definition gives over the records of that group. Each group appears exactly once in the output, and records without an aggregated attribute neither change that result nor disappear from the grouping.",
 ["inputs", "programs"], "every set of input records and every combination of aggregation operators, group-by lists and aliases",
 "Tests check a few operators on a handful of records; definitions must hold for mixed types, missing values, negative and zero values, hierarchical groups, and many groups.",
 ["src/reader/Aggregator.cpp", "src/reader/QueryProcessor.cpp", "src/reader/CalQLParser.cpp", "src/reader/QuerySpec.cpp"],
 [("aggregation kernels and hash-keyed aggregation database", "src/reader/Aggregator.cpp"), ("query parsing to specification", "src/reader/CalQLParser.cpp")],
 ["cali-query output against a reference evaluator"])

prop("C08", "CalQL filters, computed values, selection and sorting mean what they say",
 "For any input, a WHERE clause keeps exactly the records satisfying all its conditions (existence, equality, less/greater-than, and their negations), LET definitions compute the documented value for exactly those records where their inputs and condition hold, SELECT shows exactly the named attributes under their given aliases, and ORDER BY lists rows in the requested numeric or textual order with direction. Clauses combine in the documented order independent of how the query text lists them.",
 ["inputs", "programs"], "every input record set and every query composed from the documented clauses",
 "Tests run fixed queries on fixed files; filter and ordering semantics must hold over attribute types, negative numbers, missing values, nested values and clause combinations.",
 ["src/reader/RecordSelector.cpp", "src/reader/Preprocessor.cpp", "src/reader/CalQLParser.cpp", "src/reader/QueryProcessor.cpp", "src/reader/SnapshotTableFormatter.cpp", "src/reader/TableFormatter.cpp", "src/common/cali_variant.c"],
 [("record filter", "src/reader/RecordSelector.cpp"), ("LET preprocessor", "src/reader/Preprocessor.cpp"), ("row sorting and column selection", "src/reader/TableFormatter.cpp")],
 ["cali-query output against a reference evaluator"])

prop("C09", "Every output format renders the same records, well-formed",
 "For any set of records, each output format (.cali, expand, JSON in all layouts, split JSON, table, tree) renders every record with the attribute values it holds, and no others. JSON outputs are valid JSON for any attribute names, string contents and numeric values, trees nest every row under its proper parent exactly once, and tables keep every value in the column of its attribute.",
 ["inputs", "configurations"], "every record set, string content, numeric value and formatter option",
 "Tests compare few outputs with golden text; well-formedness and completeness depend on contents (quotes, control characters, non-ASCII text, special floating-point values) and record shapes no golden file samples.",
 ["src/reader/JsonFormatter.cpp", "src/reader/JsonSplitFormatter.cpp", "src/reader/TableFormatter.cpp", "src/reader/TreeFormatter.cpp", "src/reader/SnapshotTree.cpp", "src/reader/Expand.cpp", "src/reader/FormatProcessor.cpp", "src/common/util/format_util.cpp"],
 [("per-format record rendering", "src/reader/FormatProcessor.cpp"), ("tree building from nested paths", "src/reader/SnapshotTree.cpp"), ("JSON escaping", "src/common/util/format_util.cpp")],
 ["cali-query output parsed by independent parsers"])

prop("C10", "Merging inputs is independent of order, grouping and id collisions",
 "Reading several streams yields the union of their records, whatever identifiers their attributes and nodes use internally and whatever order, splitting or thread-parallel processing is used; equal attributes and nested paths from different streams are unified, and different ones never are. Aggregating partial aggregates gives the same result as aggregating all records at once.",
 ["inputs", "schedules", "histories"], "every partition and order of records over input files, every id assignment, and every number of query threads",
 "Tests merge at most a couple of files with fixed ids; unification must hold under arbitrary id collisions, orders, and concurrent readers.",
 ["src/reader/CaliperMetadataDB.cpp", "src/reader/CaliReader.cpp", "src/reader/Aggregator.cpp", "src/tools/cali-query/cali-query.cpp"],
 [("per-stream id map into a shared metadata database", "src/reader/CaliperMetadataDB.cpp"), ("aggregator flush/merge", "src/reader/Aggregator.cpp"), ("multi-threaded file processing", "src/tools/cali-query/cali-query.cpp")],
 ["query results for permuted, partitioned and relabelled inputs"])

prop("C11", "Malformed input never crashes or hangs the tools",
 "No input file, query string, or command line, however malformed or truncated, makes the query tools access memory outside what they own, abort, loop forever or otherwise die from undefined behaviour. They either report an error or process the well-formed part, and records that precede a damaged line are still read correctly.",
 ["inputs", "fault_sequences"], "every byte sequence offered as .cali input, query text, JSON specification or command-line argument",
 "Tests feed only well-formed files and a few bad queries; the space of corrupted inputs is unbounded and faults only show under memory instrumentation.",
 ["src/reader/CaliReader.cpp", "src/reader/CaliperMetadataDB.cpp", "src/reader/CalQLParser.cpp", "src/reader/Preprocessor.cpp", "src/common/SnapshotTextFormatter.cpp", "src/reader/UserFormatter.cpp", "src/tools/cali-query/cali-query.cpp", "src/common/StringConverter.cpp"],
 [("line parser with id validation", "src/reader/CaliReader.cpp"), ("query parser with error state", "src/reader/CalQLParser.cpp")],
 ["sanitizer reports, exit status, output of intact prefix"])

prop("C12", "Configuration strings are accepted or rejected correctly and act as written",
 "A configuration string naming only known configurations, options and parameters with valid values is accepted and creates exactly the requested measurement channels with exactly those option values; any unknown name, ill-typed value or syntax error is reported by the configuration check and creates no channels. No configuration or specification text crashes the program, and defaults, preset values and option inheritance apply as documented.",
 ["inputs", "configurations"], "every configuration string, user-supplied specification, and combination of options",
 "Tests parse a fixed list of strings; acceptance must be decided for arbitrary nesting, quoting, ordering and user-defined specifications.",
 ["src/caliper/ConfigManager.cpp", "src/caliper/ChannelController.cpp", "src/caliper/builtin_configmanager.cpp", "src/common/StringConverter.cpp", "src/common/util/parse_util.cpp"],
 [("configuration string parser", "src/caliper/ConfigManager.cpp"), ("option specifications and checks", "src/caliper/ConfigManager.cpp")],
 ["error()/check() results, channel lists, options and the resulting channels' configuration"])

prop("C13", "Concurrent use of the library is free of data races",
 "When any number of threads annotate, create attributes, take snapshots, use wrappers and exit concurrently under any active measurement configuration, while another thread may activate, deactivate or query channels, no two of the library's accesses to the same memory form a data race. This includes the very first use of the library from several threads at once.",
 ["schedules", "configurations"], "every schedule of concurrent annotating threads for each thread-safe configuration",
 "Tests are mostly single-threaded and never run under a race detector; races depend on schedules.",
 ["src/caliper/Caliper.cpp", "src/caliper/MetadataTree.cpp", "src/caliper/Blackboard.cpp", "src/caliper/MemoryPool.cpp", "include/caliper/common/lockfree-tree.hpp", "src/services/aggregate/Aggregate.cpp", "src/services/trace/Trace.cpp", "src/services/timer/Timer.cpp", "src/services/event/EventTrigger.cpp"],
 [("lock-free context tree", "include/caliper/common/lockfree-tree.hpp"), ("thread-local data and locks", "src/caliper/Caliper.cpp")],
 ["ThreadSanitizer reports"])

prop("C14", "Attributes and context nodes have unique, stable identities",
 "Creating an attribute with the same name, from any number of threads and at any time, always yields the same attribute, and different names always yield different ones; its type, properties and metadata never change once created. Every lookup by name or by identifier returns that same attribute, and every identifier appearing in a snapshot or output resolves to exactly the value path it stood for when it was taken.",
 ["schedules", "histories"], "every interleaving of attribute creation and lookup and of context-node creation, for any number of attributes and nodes",
 "Tests create a few attributes on one thread; uniqueness under concurrent first creation and over node-block growth needs many schedules and large trees.",
 ["src/caliper/Caliper.cpp", "src/caliper/MetadataTree.cpp", "include/caliper/common/lockfree-tree.hpp", "src/caliper/MemoryPool.cpp"],
 [("attribute map lock", "src/caliper/Caliper.cpp"), ("atomic child insertion and node-id blocks", "src/caliper/MetadataTree.cpp")],
 ["attribute handles and names observed by all threads", "node paths resolved from snapshots"])

prop("C15", "Measurement channels are independent of each other",
 "Each channel receives exactly the events and snapshots that occur while it is active, under its own configuration, and its recorded data is the same as if it were the only channel. Creating, activating, deactivating, flushing, clearing or deleting one channel never changes what another channel records, and operations on deleted or unknown channels are refused harmlessly.",
 ["histories", "configurations"], "every history of channel create/activate/deactivate/flush/clear/delete operations interleaved with annotations",
 "Tests use one or two channels with a fixed lifetime; independence must hold for every lifecycle interleaving, including deletion in the middle of open regions.",
 ["src/caliper/Caliper.cpp", "src/caliper/cali.cpp", "src/services/Services.cpp", "src/caliper/ChannelController.cpp"],
 [("per-channel body with own event callbacks, configuration and services", "src/caliper/Caliper.cpp"), ("active channel list", "src/caliper/Caliper.cpp")],
 ["records per channel compared with a per-channel model"])

prop("C16", "Each channel's data is delivered exactly once by the end of the program",
 "Every channel that is configured to flush at exit writes its complete data exactly once when the program ends normally or finalizes the library, regardless of which threads recorded it, which threads have already exited, and how many times or from where initialization and finalization are invoked. Library calls before initialization or after finalization, and annotations on threads that outlive it, are harmless.",
 ["schedules", "histories", "crash_points"], "every placement of initialization, finalization, thread start/exit, and program exit relative to annotations",
 "Tests end every program the same way; the guarantee covers every order of thread exit, explicit flush, finalize, static destruction and process exit.",
 ["src/caliper/Caliper.cpp", "src/caliper/cali.cpp", "src/services/recorder/Recorder.cpp", "src/services/report/Report.cpp"],
 [("atexit finalization and thread-data release", "src/caliper/Caliper.cpp"), ("flush and write on finish", "src/services/recorder/Recorder.cpp")],
 ["output files of whole-process runs compared with an expected event log"])

prop("C17", "Reported times account for elapsed time",
 "The time attributed to each region is never negative and lies between bounds measured outside the library, exclusive times sum up over all records of a thread to that thread's time between its first and last snapshot, and the inclusive time of a region execution is at least the sum of the inclusive times of the regions nested in it. This holds for every thread independently and for any nesting or event pattern.",
 ["programs", "schedules"], "every nesting of regions on any number of threads, for both exclusive and inclusive time measurements",
 "Tests only check that a time attribute exists; conservation must hold for every event pattern.",
 ["src/services/timer/Timer.cpp", "src/caliper/RegionProfile.cpp"],
 [("per-thread last-snapshot time stamps", "src/services/timer/Timer.cpp"), ("inclusive-time stack", "src/services/timer/Timer.cpp")],
 ["trace records and profile totals against the driver's own clock readings"])

prop("C18", "Event filters record exactly the selected regions",
 "With region include/exclude filters, level filters, branch filters or trigger lists configured, snapshots are taken for exactly those region begin and end events that the configured filter selects, and for no others. Filtering events never changes the context that snapshots report: unselected regions stay visible as context of selected events. Services see every event of an attribute exactly once, with its attribute and value, and none for attributes marked to skip events; a snapshot the program requests is taken once, whatever the filters, and holds the current context and exactly the entries given to it.",
 ["programs", "configurations"], "every region program and every filter configuration",
 "Tests apply one or two filters to one fixed program; selection must hold for every pattern kind, nesting and combination.",
 ["src/services/event/EventTrigger.cpp", "src/caliper/RegionFilter.cpp"],
 [("trigger selection on region events", "src/services/event/EventTrigger.cpp"), ("string/regex/prefix filters", "src/caliper/RegionFilter.cpp")],
 ["snapshots with event markers against a reference filter"])

prop("C19", "Allocation tracking balances and resolves addresses exactly",
 "With allocation tracking, the number of active bytes reported always equals the sizes of tracked allocations not yet released, high-water marks equal the maximum of that quantity over the reported interval, and every address inside a live tracked region (and no other address) resolves to exactly that region's label and element index. This holds for every order of tracked allocations and releases, on any number of threads.",
 ["histories", "schedules"], "every sequence of tracked allocation, release and lookup, including reuse, zero sizes and unknown addresses, on any number of threads",
 "Tests track a handful of fixed arrays; balance and resolution depend on tree shapes produced by arbitrary allocation orders.",
 ["src/services/alloc/AllocService.cpp", "src/services/alloc/SplayTree.hpp", "src/services/alloc/AllocStatsService.cpp", "src/caliper/cali_datatracker.cpp", "src/services/sysalloc/SysAllocService.cpp"],
 [("splay tree of live allocations", "src/services/alloc/AllocService.cpp"), ("high-water-mark counters", "src/services/alloc/AllocStatsService.cpp")],
 ["snapshot values and resolved addresses against an interval-map model"])

prop("C20", "Interposed system functions behave as without the profiler",
 "When memory-allocation, I/O or thread-creation wrappers are active, every wrapped call returns the same result and error code and has the same effect as without them, for successful and failing calls alike and on any thread. Byte counts and regions recorded for wrapped I/O calls equal what the calls actually transferred.",
 ["programs", "fault_sequences"], "every sequence of wrapped calls, including failing ones, concurrent ones and ones made by the library itself",
 "Tests run a read and a write; transparency must hold across error paths, errno preservation and re-entrance.",
 ["src/services/sysalloc/SysAllocService.cpp", "src/services/io/IOService.cpp", "src/services/pthread/PthreadService.cpp"],
 [("wrapper functions with re-entrance guard", "src/services/io/IOService.cpp"), ("thread-start wrapper", "src/services/pthread/PthreadService.cpp")],
 ["call results with and without wrappers", "recorded byte counts"])

prop("C21", "Snapshots from signal handlers are safe at any instant",
 "Sampling or snapshot queries triggered by a signal at any instant, including in the middle of library operations, never deadlock, crash, corrupt recorded data or leave a partial record; a snapshot that cannot be taken safely is dropped. Every sample that is recorded shows a context the interrupted thread really had. The sampler service takes no more samples than its frequency allows, none on threads or at times outside of its channel's, and stops with its channel.",
 ["schedules", "programs"], "every instant at which a signal interrupts any annotation or measurement operation",
 "Tests have one sampler run without signals at adversarial points; the property ranges over all interruption points.",
 ["src/caliper/Caliper.cpp", "src/services/sampler/Sampler.cpp", "src/services/aggregate/Aggregate.cpp", "src/services/trace/Trace.cpp"],
 [("per-thread re-entrance lock checked by signal-safe instance", "src/caliper/Caliper.cpp")],
 ["records produced under a signal storm, sanitizer reports, watchdog"])

prop("C22", "Cross-process aggregation equals serial aggregation of all ranks",
 "In an MPI program, the cross-rank aggregated output equals the aggregation of the union of all ranks' records, for any number of ranks and any distribution of records, attributes and regions among them, including ranks with no data. The combined result is written exactly once.",
 ["programs", "configurations", "schedules"], "every number of ranks and every distribution of records over ranks",
 "Tests use a fixed number of ranks with near-identical records; the reduction tree must be correct for every rank count and data distribution.",
 ["src/caliper/aggregate_over_mpi.cpp", "src/caliper/collective_flush.cpp", "src/caliper/OutputCommMpi.cpp", "src/tools/mpi-caliquery/mpi-caliquery.cpp"],
 [("binary-tree reduction of aggregator and metadata", "src/caliper/aggregate_over_mpi.cpp")],
 ["collective output compared with serial query over per-rank files"])

prop("C23", "The C snapshot interface unpacks exactly what was captured",
 "A snapshot pulled into a caller-supplied buffer and unpacked yields exactly the attributes and values of the context at the time of the pull, each once and in documented order, with lookups by attribute returning the same. The call never writes beyond the given buffer, reports the required size when the buffer is too small, and unpacking reports how many bytes were consumed; visiting stops when the visitor asks for it.",
 ["inputs", "programs"], "every context contents and size, and every buffer size",
 "One test unpacks one fixed snapshot into an ample buffer.",
 ["src/caliper/cali.cpp", "src/common/CompressedSnapshotRecord.cpp", "src/common/cali_types.c", "src/common/cali_variant.c"],
 [("compressed record encoding/decoding", "src/common/CompressedSnapshotRecord.cpp"), ("pull and unpack entry points", "src/caliper/cali.cpp")],
 ["guarded buffers and unpacked entries against a context model"])

prop("C24", "Run metadata reaches every output intact",
 "Every global (run metadata) value set before a flush appears with its last value, exactly once, among the globals of that flush's output in every format that carries globals, regardless of the thread, channel and order in which it was set; reports (tables, trees, JSON) show globals as metadata and not as record data unless they are selected. Every global of any of several input files is carried over by queries, with every distinct by-reference value.",
 ["programs", "configurations", "inputs"], "every set of global values of any type and any order of setting, overwriting, flushing and merging",
 "Tests check a couple of fixed globals.",
 ["src/caliper/Caliper.cpp", "src/reader/CaliWriter.cpp", "src/reader/CaliperMetadataDB.cpp", "src/reader/JsonFormatter.cpp", "src/reader/JsonSplitFormatter.cpp", "src/services/recorder/Recorder.cpp"],
 [("global-property attributes on process and channel blackboards", "src/caliper/Caliper.cpp"), ("globals record", "src/reader/CaliWriter.cpp")],
 ["globals parsed from outputs"])

prop("C25", "In-memory region profiles equal the executed region tree",
 "The in-memory region profile interfaces report, for every region name and region path, exactly the inclusive and exclusive totals of the metric over the executed regions: inclusive equals exclusive plus the inclusive of the children, the exclusive values add up to the reported total, and regions never executed do not appear. Starting, stopping and clearing the profile delimit exactly what is counted.",
 ["programs"], "every executed region tree and every start/stop/clear sequence",
 "Tests compute one profile for one fixed tree.",
 ["src/caliper/RegionProfile.cpp", "src/reader/FlatExclusiveRegionProfile.cpp", "src/reader/FlatInclusiveRegionProfile.cpp", "src/reader/NestedExclusiveRegionProfile.cpp", "src/reader/NestedInclusiveRegionProfile.cpp"],
 [("profile reduction over flushed records", "src/caliper/RegionProfile.cpp")],
 ["returned maps and totals against a model"])

prop("C26", "Loop and region statistics count what ran",
 "Loop instrumentation records every loop execution and iteration: iteration counts, per-loop minimum, maximum and total durations, and loop-triggered snapshots (every N iterations or selected loops) match the executed iterations, for any nesting of loops, on any thread, and for loops left early. No iteration is counted twice or for the wrong loop.",
 ["programs", "configurations"], "every nesting of loops and regions, iteration counts and monitor configurations",
 "Tests run one loop nest with one interval.",
 ["src/services/monitor/LoopMonitor.cpp", "src/services/monitor/RegionMonitor.cpp", "src/services/LoopStatistics.cpp", "src/services/statistics/Statistics.cpp", "include/caliper/cali_macros.h"],
 [("iteration counting between snapshots", "src/services/monitor/LoopMonitor.cpp")],
 ["loop snapshots and totals against the driver's counts"])

prop("C27", "Runtime settings take the documented precedence and take effect",
 "A runtime setting takes its value from the highest-precedence source that defines it (explicit API setting, then environment, then selected profiles, then the files' default settings, then presets, then the built-in default), for every setting and any combination of sources, and selecting an undefined profile is reported. A channel created with its own settings uses exactly those settings and not another channel's.",
 ["configurations", "inputs"], "every combination of sources, profiles, keys and values",
 "Tests check a few fixed keys in one or two sources.",
 ["src/common/RuntimeConfig.cpp", "src/caliper/Caliper.cpp"],
 [("layered configuration databases", "src/common/RuntimeConfig.cpp")],
 ["effective settings as observed through service behaviour and configuration dumps"])

prop("C28", "The Python reader agrees with the native tools",
 "For every valid .cali file, the Python reader package returns the same records, nested region paths, values, attribute properties and globals as the native query tool does.",
 ["inputs"], "every valid .cali file",
 "Tests read two or three example files; agreement must hold for all escapes, types, orders and node structures.",
 ["python/caliper-reader/caliperreader/caliperreader.py", "python/caliper-reader/caliperreader/metadatadb.py", "python/caliper-reader/caliperreader/readererror.py", "src/reader/CaliReader.cpp"],
 [("python line reader and node map", "python/caliper-reader/caliperreader/caliperreader.py")],
 ["differential runs of both readers on generated files"])

prop("C29", "Values keep type, order and identity through every conversion",
 "Comparing values gives a consistent total order per type, equal values have equal identity however they were created, and converting a value to text or packed form and back yields an equal value of the same type, for every value type and magnitude. Numeric accessors return the exact number whenever it is representable and signal failure otherwise.",
 ["inputs"], "every value of every type",
 "Tests convert a few constants per type; boundary magnitudes and cross-type comparisons are not sampled.",
 ["src/common/cali_variant.c", "src/common/Variant.cpp", "include/caliper/common/Variant.h", "src/common/StringConverter.cpp", "src/common/cali_types.c"],
 [("tagged variant with packed encoding", "src/common/cali_variant.c")],
 ["public value API against a reference arithmetic"])

prop("C30", "Annotated programs never suffer memory errors from the library",
 "No sequence of valid library calls under any combination of measurement services, however large or deep the context, however long the strings, however many attributes, nodes, threads, channels or snapshot entries, makes the library access memory out of bounds or after release, hit undefined behaviour, or crash; capacity limits lose data only in the documented, reported way. Memory held per short-lived object (channel, thread, asynchronous event) stays bounded over repeated use.",
 ["programs", "configurations", "schedules"], "every sequence of valid API calls, sizes and counts under every service combination",
 "Tests stay far from every capacity limit and are not built with memory instrumentation.",
 ["src/caliper/MemoryPool.cpp", "src/caliper/MetadataTree.cpp", "src/caliper/Caliper.cpp", "src/common/SnapshotBuffer.cpp", "src/services/trace/Trace.cpp", "src/services/aggregate/AggregationDB.cpp", "src/caliper/AsyncEvent.cpp"],
 [("pool allocation and bounded snapshot records", "src/caliper/MemoryPool.cpp")],
 ["address and undefined-behaviour sanitizer reports"])

prop("C31", "Output goes exactly where configured, whole and once per flush",
 "Recorded output and reports appear only at the configured destination (file name patterns with attribute values, directories, standard streams, user-provided buffers), each flush produces a complete, well-formed output, repeated flushes of several channels to one destination overwrite or append to it as configured, and concurrent flushes to different destinations never mix, truncate or lose one another's output. A destination that cannot be written is reported and does not disturb the program.",
 ["configurations", "histories", "fault_sequences"], "every destination setting, flush history and write failure",
 "Tests write one stream to stdout.",
 ["src/common/OutputStream.cpp", "src/services/recorder/Recorder.cpp", "src/services/report/Report.cpp", "src/caliper/CustomOutputController.cpp"],
 [("lazily-opened output streams", "src/common/OutputStream.cpp")],
 ["files found in a scratch directory after the run"])

prop("C32", "The tools' command lines mean what the equivalent queries say",
 "For every set of cali-query options (selection, aggregation and its key, printed attributes, sorting, formatter flags, format string and title, query text or query file, and mixtures of them) in every accepted spelling and order, reading files or standard input and writing standard output or a file, the output is that of the query the options stand for, over all given files, regardless of profiling of the tool itself or of CALI_ settings in the environment; attribute and global listings are complete; cali-stat's numbers are those of its inputs; unknown options, invalid queries and unreadable files are reported, and the readable files are still processed.",
 ["inputs", "configurations"], "every option set, spelling, order and input",
 "Tests run a few dozen fixed command lines.",
 ["src/tools/cali-query/cali-query.cpp", "src/tools/cali-query/query_common.cpp", "src/tools/util/Args.cpp", "src/tools/cali-stat/cali-stat.cpp", "src/reader/UserFormatter.cpp", "src/reader/RecordSelector.cpp"],
 [("option parsing", "src/tools/util/Args.cpp"), ("options to query", "src/tools/cali-query/query_common.cpp")],
 ["the tools' output files, standard output and exit codes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for fn in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + fn), (p["id"], fn)
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
