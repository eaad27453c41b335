#!/usr/bin/env python3
"""Single source of truth for properties.jsonl (run by hand; output is committed)."""
import json, os
P = []
def p(id, title, statement, over, otext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=otext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "C++17 front end: decoded text equals what printf would have printed",
  "In the C++17 (header-only) flavour, for every log statement that compiles and every argument value, the text the decompressor prints for that message is byte for byte what printf would have printed for the same format string and arguments at the time of the call. This covers all integer, floating-point, character, pointer, string and wide-string conversions with every length modifier, flag, literal or dynamic ('*') width and precision (also negative ones), '%%', backslashes and literal text, with any number and mix of arguments up to the documented limits.",
  ["inputs", "programs"], "all format strings over the supported printf grammar, all argument types and values",
  "The unit tests check a few dozen hand-picked formats and values; the space of format x type x value is unbounded and packing has value-dependent branches.",
  ["runtime/NanoLogCpp17.h", "runtime/Log.cc", "runtime/Packer.h", "runtime/RuntimeLogger.h"],
  [("compile-time parameter analysis", "runtime/NanoLogCpp17.h"), ("argument storing and compression", "runtime/NanoLogCpp17.h"), ("format interpretation and printing", "runtime/Log.cc")],
  ["decompressor stdout compared with snprintf results recorded at the call"])

p("C02", "Preprocessor front end: rewritten program logs exactly what the source says",
  "In the preprocessor flavour, for every source file the preprocessor accepts, the rewritten program still compiles and behaves as before, evaluates each argument of an executed log statement exactly once, and the decompressor prints, for each executed statement, the statement's own format applied to its own arguments exactly as printf would, with its own severity. This holds however the statements are laid out (several per line, multi-line, nested in macros, templates, headers, lambdas or branches, adjacent string literals, escape sequences, commas and parentheses inside arguments) and however many files are linked together.",
  ["programs", "inputs"], "all C++ sources using the logging macro, all argument values",
  "The unit tests compare generated text for a handful of lines; they do not compile and run arbitrary programs nor check the values that come out.",
  ["preprocessor/parser.py", "preprocessor/FunctionGenerator.py", "runtime/Log.cc", "runtime/Packer.h"],
  [("statement parsing and replacement", "preprocessor/parser.py"), ("record/compress/decompress generation", "preprocessor/FunctionGenerator.py")],
  ["output of decompressors built from the generated code; side-effect counters in the program"])

p("C03", "Every enabled message is delivered exactly once, intact, in per-thread order",
  "For any number of threads logging concurrently, at any rates and message sizes up to the maximum, with threads starting and exiting at any time, static objects logging before and after main(), and buffers filling, wrapping and blocking, once the process has synced or exited normally the log contains every enabled message exactly once, with uncorrupted contents, and the messages of one thread appear in the order the thread logged them. No message is lost, duplicated, torn, mixed with another, or invented.",
  ["schedules", "inputs", "histories"], "all interleavings of logging threads, thread lifetimes, the background thread and output I/O",
  "Tests drive one or two threads with fixed counts and default-size buffers; wrap-around, blocking, buffer swap and reclamation races are schedule dependent.",
  ["runtime/RuntimeLogger.cc", "runtime/RuntimeLogger.h", "runtime/Log.cc", "runtime/NanoLogCpp17.h"],
  [("lock-free staging buffers", "runtime/RuntimeLogger.h"), ("background compression loop", "runtime/RuntimeLogger.cc"), ("output double buffering", "runtime/RuntimeLogger.cc")],
  ["decompressed output vs. per-thread event records written by the workload"],
  hook="NANOLOG_VERIF: buffer-size overrides and delay points")

p("C04", "sync() returns only after everything logged before it is durable, and returns",
  "When sync() returns, every enabled message whose log call returned before that sync() was invoked - by the calling thread, or by any other thread whose call is ordered before it, including threads that have exited - has been handed to the operating system in the log file durably, so it is decodable even if the process is killed immediately afterwards. This holds with any number of concurrent sync() callers and concurrent loggers, and as long as output I/O makes progress every sync() call returns.",
  ["schedules", "crash_points", "histories"], "all interleavings of log calls, thread exits, background passes, I/O completions and concurrent sync calls; a kill at any moment after the return",
  "Tests call sync from one thread and never kill the process; the multi-pass protocol with the background thread depends on timing.",
  ["runtime/RuntimeLogger.cc", "runtime/NanoLog.cc", "runtime/Config.h"],
  [("sync state machine", "runtime/RuntimeLogger.cc"), ("synchronous file mode", "runtime/Config.h")],
  ["contents of the log file captured at the instant sync returned; open(2) flags and writes seen by interposed I/O calls"],
  hook="NANOLOG_VERIF: delay points in the background loop")

p("C05", "Crash or truncation at any byte leaves a decodable prefix",
  "If the process dies at any moment, or the log file is cut at any byte, the decompressor still terminates without crashing and prints only whole, correct messages: in unordered mode exactly a prefix of what it would have printed for the complete file, in ordered mode a duplicate-free subset of it. Every message whose encoded bytes lie wholly before the cut in a completely written block is still printed, and no message is printed with altered contents.",
  ["crash_points", "histories"], "every byte position of every log file, every kill point of the logging process",
  "Tests only decode complete files.",
  ["runtime/Log.cc", "runtime/Log.h", "runtime/LogDecompressor.cc", "runtime/RuntimeLogger.cc"],
  [("self-describing length-prefixed blocks", "runtime/Log.cc"), ("end-of-file and short-read handling in the decoder", "runtime/Log.cc")],
  ["decompressor exit status, sanitizer reports and output on truncated files / files left by killed processes"])

p("C06", "Ordered decompression respects real-time order across threads",
  "The ordered decompression of a log is a permutation of the unordered one in which, within each execution, any message whose log call returned before another message's log call began - on the same or on another thread - is printed before it. This holds whatever the relative rates of the threads, buffer wrap-arounds, output-buffer changes and thread churn; only messages whose log calls overlap in time may appear in either order.",
  ["schedules", "histories"], "all placements of messages into background passes that the runtime can produce",
  "Tests construct a few files by hand; the reorder window needed depends on how passes, wraps and partial passes interleave.",
  ["runtime/Log.cc", "runtime/RuntimeLogger.cc", "runtime/Log.h"],
  [("staged merge in the ordered decoder", "runtime/Log.cc"), ("new-pass marks written by the background thread", "runtime/RuntimeLogger.cc")],
  ["order of unique message ids in decompress output vs. begin/end event counters recorded by the workload"])

p("C07", "Log-level filtering is exact",
  "A message is recorded if and only if its severity is at or above the current threshold when its statement executes (the default being NOTICE), and the reported level is always the one most recently set, clamped into the valid range. Changing the level at any time, from any thread, never affects messages already logged, and the setting survives changing the log file.",
  ["inputs", "histories", "schedules"], "all sequences of level changes (including out-of-range values) and log calls in both flavours",
  "Tests set a level once and log a few messages.",
  ["runtime/NanoLogCpp17.h", "runtime/RuntimeLogger.cc", "runtime/RuntimeLogger.h", "runtime/NanoLog.cc", "preprocessor/FunctionGenerator.py"],
  [("threshold test before recording", "runtime/NanoLogCpp17.h"), ("clamping", "runtime/RuntimeLogger.cc")],
  ["set of message ids in the log vs. a reference filter model"])

p("C08", "setLogFile partitions messages between files and never damages a file",
  "After setLogFile(f) returns, every message logged before the call is complete in the previous file and every message logged after it goes to f only, and each file is decodable on its own. If f cannot be opened or is not readable and writable, the call throws, leaks nothing and logging continues into the previous file unharmed. Existing contents of any log file are never overwritten or truncated: new data is only appended.",
  ["histories", "inputs", "fault_sequences"], "all sequences of log, sync and setLogFile calls with good and bad targets, including returning to an earlier file",
  "Tests switch files once or twice and do not decode each resulting file.",
  ["runtime/RuntimeLogger.cc", "runtime/NanoLog.cc", "runtime/Config.h", "runtime/Log.cc"],
  [("stop, swap descriptor, dictionary reset, restart", "runtime/RuntimeLogger.cc"), ("append-only open mode", "runtime/Config.h")],
  ["per-file decompressed output vs. reference partition; byte prefixes of pre-existing files; exceptions"])

p("C09", "Each message carries its true source context",
  "Every decoded message shows the file name, line number and severity of the statement that logged it, and a thread number that is the same for all messages of one thread's lifetime and different for different threads of one execution. This holds for any number of call sites (registered in any order, from several threads at once, across many compilation units, including templates and inline functions in headers), for long file names and formats, for any line number and for arbitrarily large thread numbers.",
  ["programs", "schedules", "inputs"], "all sets of call sites, first-use interleavings and thread counts",
  "Tests use few call sites and a handful of threads; identifiers change encoding with magnitude.",
  ["runtime/NanoLogCpp17.h", "runtime/RuntimeLogger.h", "runtime/RuntimeLogger.cc", "runtime/Log.cc", "runtime/Log.h"],
  [("call-site registration", "runtime/RuntimeLogger.h"), ("dictionary blocks", "runtime/Log.cc"), ("thread id encoding", "runtime/Log.cc")],
  ["header fields of decompressed lines vs. __FILE__/__LINE__/level/thread recorded by the workload"])

p("C10", "Integer and argument packing is lossless, compact and self-delimiting",
  "For every value of every supported integer, pointer and floating-point type, packing then unpacking returns the identical value (bit pattern for floats) and type, and consumes exactly the bytes that were produced. Packing writes no byte beyond the size of the type, and unpacking reads and writes nothing outside the packed bytes. The packed size never exceeds the size of the type, is the minimum number of bytes that represents the value (of its magnitude, where negation is shorter), and a sequence of packed values with their length codes decodes to the same sequence regardless of mix and length.",
  ["inputs"], "all values of all types; all sequences of mixed types",
  "Tests check boundary samples per type.",
  ["runtime/Packer.h"],
  [("pack/unpack and nibble pairs", "runtime/Packer.h")],
  ["pack/unpack called directly on guarded buffers"])

p("C11", "The staging queue is a lossless bounded FIFO between producer and consumer",
  "For every sequence of reservations, commits, peeks and (partial) releases between one producer and one consumer, in any interleaving, the bytes the consumer sees are exactly the bytes the producer committed, in order, each exactly once, and never bytes still being written. A reserved region is contiguous, inside the buffer, at least as large as requested and never overlaps data not yet released; a reservation of up to the maximum message size eventually succeeds once the consumer keeps releasing, and a non-blocking one fails only when there is not enough room.",
  ["histories", "schedules", "inputs"], "all operation sequences and sizes, all producer/consumer interleavings",
  "Tests walk a few fixed sequences single-threaded.",
  ["runtime/RuntimeLogger.h", "runtime/RuntimeLogger.cc"],
  [("producer reservation and wrap", "runtime/RuntimeLogger.cc"), ("consumer peek/consume", "runtime/RuntimeLogger.h")],
  ["queue operations driven against a reference FIFO model"],
  hook="NANOLOG_VERIF: small queue size, delay points")

p("C12", "No memory errors or undefined behaviour on any well-formed use",
  "Logging, compression, file switching, syncing, thread exit, shutdown, decompression (ordered, unordered, iterative) and statistics never read or write out of bounds, use freed or uninitialised memory, leak per-message or per-thread memory, or execute undefined behaviour, for every well-formed program and argument. In particular a string argument is read only up to its terminator or its given precision, whichever comes first, and the caller may modify or free its arguments as soon as the log call returns.",
  ["inputs", "schedules", "programs"], "all well-formed workloads",
  "The test-suite runs without sanitizers and with generous stack buffers.",
  ["runtime/NanoLogCpp17.h", "runtime/RuntimeLogger.cc", "runtime/Log.cc", "runtime/Packer.h", "preprocessor/FunctionGenerator.py", "runtime/LogDecompressor.cc"],
  [("size computation and copying of arguments", "runtime/NanoLogCpp17.h"), ("worst-case space checks in the encoder", "runtime/Log.cc")],
  ["AddressSanitizer/UBSan reports; exactly sized heap and guard-page argument buffers"])

p("C13", "Several executions appended to one log file each decode correctly",
  "When several executions (also of different programs, or setLogFile returning to the same file) append to one log file, the decompressor prints the messages of every execution, in execution order and separated by a new-execution mark, each with the formats, contexts and clock of its own execution. Neither the number of executions nor what earlier ones logged changes how later ones decode, in ordered, unordered and iterative decoding.",
  ["histories", "programs"], "all sequences of executions and programs appending to a file",
  "Tests append at most two runs of the same binary.",
  ["runtime/Log.cc", "runtime/RuntimeLogger.cc"],
  [("checkpoint and dictionary per execution", "runtime/Log.cc"), ("stage depletion at execution boundaries", "runtime/Log.cc")],
  ["decompressed output of concatenated logs vs. concatenation of individually decoded ones"])

p("C14", "All decoder interfaces agree and expose typed argument values",
  "Iterating over a log message by message, bulk unordered decompression and ordered decompression yield the same multiset of messages (iteration and bulk unordered the same sequence), and the iterator reports, for each message, its timestamp, its number of arguments and for each argument exactly the logged value. Opening another (or the same) file with an already used decoder gives the same results as a fresh decoder, whatever was consumed before; several decoders in use at the same time do not influence each other; and failing to open a file, or opening one that does not start with a checkpoint, reports failure.",
  ["inputs", "histories"], "all logs and all sequences of decoder calls",
  "Tests exercise each interface on small fixed logs, mostly once per decoder.",
  ["runtime/Log.cc", "runtime/Log.h"],
  [("iterator, bulk and ordered decoders", "runtime/Log.cc"), ("decoded message argument store", "runtime/Log.h")],
  ["outputs and argument values obtained through the public decoder API"])

p("C15", "Per-thread resources are reclaimed; long-running processes do not grow",
  "When a logging thread exits, its buffer is freed once its messages are written - never before - so that with any pattern of thread creation and exit the number of live per-thread buffers is bounded by the number of live threads plus those still holding unwritten messages, and is back to the live threads after a sync. A thread has at most one buffer however it starts logging (explicit preallocation, first message, or both), also one that still logs while its thread_local objects are destroyed, a thread number is never reused within an execution, and memory and file descriptors do not accumulate over threads, syncs or log-file switches.",
  ["histories", "schedules"], "all thread-lifetime patterns",
  "Tests create a few threads and do not measure growth.",
  ["runtime/RuntimeLogger.h", "runtime/RuntimeLogger.cc"],
  [("thread-exit marking and deferred deletion", "runtime/RuntimeLogger.cc"), ("thread-local buffer allocation", "runtime/RuntimeLogger.h")],
  ["reported histograms (live buffers), /proc/self/fd, allocation accounting, ids in decoded output"])

p("C16", "Printed timestamps are well-formed and track real time",
  "Every decoded message carries a timestamp in the form YYYY-MM-DD HH:MM:SS with exactly nine fractional digits, in local time, that lies within about a second of the wall-clock time of the log call, also for messages logged before the log file was opened. Differences between timestamps of one execution equal elapsed time between the calls up to clock-calibration error, and the timestamps of one thread never go backwards.",
  ["inputs", "histories"], "all tick values relative to the file's checkpoint, all clock rates",
  "Tests compare a few formatted timestamps around fixed checkpoints.",
  ["runtime/Log.cc", "runtime/Cycles.cc", "runtime/Cycles.h"],
  [("cycle-to-time conversion", "runtime/Log.cc"), ("clock calibration", "runtime/Cycles.cc")],
  ["timestamps in decompressed lines vs. clock_gettime around the call and vs. exact rational arithmetic"])

p("C17", "Reported statistics agree with what was logged and written",
  "After a sync with no concurrent logging, the statistics report exactly the number of messages recorded since program start, the number of bytes written to log files, and a number of bytes in consistent with the messages logged. The counters never decrease, survive log-file switches, and reading them at any time, from any thread, is harmless and loses no message. The histograms list exactly the live threads that have logged, each with the number of messages it recorded, with counts that never decrease.",
  ["histories"], "all sequences of logging, syncing, file switching and querying",
  "Tests only check that the text contains certain words or fixed early values.",
  ["runtime/RuntimeLogger.cc", "runtime/NanoLog.cc"],
  [("counters maintained by the background thread", "runtime/RuntimeLogger.cc")],
  ["numbers parsed from getStats vs. workload counts and file sizes"])

p("C18", "Slow, partial or interrupted output never corrupts the log or stops the program",
  "Whatever the completion times of asynchronous writes, and when writes are interrupted by signals or complete only partially, every message still ends up in the log exactly once with no data overwritten while it is being written, and nothing hangs. If a write fails outright (for example the disk is full) the failure is reported on stderr, the application keeps running without crash or deadlock, sync() still returns, and messages logged after the device recovers are written.",
  ["fault_sequences", "schedules"], "all sequences of delays, short writes, interrupts and errors of the output I/O",
  "Tests write to a local file that always completes immediately and fully.",
  ["runtime/RuntimeLogger.cc"],
  [("asynchronous write completion handling", "runtime/RuntimeLogger.cc"), ("double buffering", "runtime/RuntimeLogger.cc")],
  ["interposed aio_* calls that delay, shorten, interrupt or fail writes; decompressed output; stderr"])

p("C19", "TimeTrace keeps and prints the most recent events of every thread in time order",
  "A trace printed while no thread is recording contains, for every thread that recorded, its most recent events up to the per-thread capacity, each exactly once with its own arguments formatted as printf would, merged in time order with correct, non-negative time deltas; it begins at the time from which all threads' retained events are available (the latest of their oldest retained events) and omits nothing after that. Printing to a file or a string gives the same lines and does not change the trace. Printing while threads record never crashes or prints an event that was not completely recorded, and recording resumes afterwards.",
  ["histories", "schedules", "inputs"], "all numbers of events per thread (including wrap-around of the trace), all interleavings of recording and printing",
  "There is no test for it in the suite.",
  ["runtime/TimeTrace.cc", "runtime/TimeTrace.h"],
  [("circular per-thread buffers", "runtime/TimeTrace.cc"), ("merge by timestamp", "runtime/TimeTrace.cc")],
  ["trace output vs. recorded reference events"])

p("C20", "Decompressor commands compute correct results and fail cleanly",
  "The decompressor's analysis commands agree with a straightforward computation over the decoded log: the reported message count equals the number of messages printed, substring search lists exactly the statements whose format contains the substring with their identifiers, the min/max/mean/total aggregation over a statement equals that over its logged first arguments, and the inter-arrival distribution covers exactly the consecutive time differences. Invalid invocations (missing file, unknown command, bad or unused identifier, empty or one-message log) end with a message and without a crash.",
  ["inputs", "histories"], "all logs and command lines",
  "The integration test runs each command on one fixed log.",
  ["runtime/LogDecompressor.cc", "runtime/Log.cc", "preprocessor/FunctionGenerator.py"],
  [("command dispatch and aggregation", "runtime/LogDecompressor.cc")],
  ["stdout and exit status of the decompressor binary vs. values computed from the workload"])

p("C21", "Cycle-counter conversions are exact up to rounding, calibrated and monotone",
  "For every number of cycles and every counter frequency (given explicitly or the calibrated one), converting to seconds, nanoseconds and microseconds and back is correct up to rounding, monotone, and the conversions are mutually inverse up to rounding. The calibrated frequency is the rate at which the counter really advances, the same for the whole life of the process and available to static objects before main(). Readings of the counter never go backwards on one core, and sleep() waits for at least the given time and not much longer.",
  ["inputs", "histories"], "all counter values, frequencies and waiting times",
  "No test covers Cycles; every printed timestamp and time trace depends on it.",
  ["runtime/Cycles.cc", "runtime/Cycles.h", "runtime/Initialize.h"],
  [("calibration against gettimeofday", "runtime/Cycles.cc"), ("conversions", "runtime/Cycles.cc")],
  ["results of the conversions vs. exact arithmetic; the counter and sleep() vs. the system clock"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
