"""The properties."""


def fill():
    from spec import prop, na

    # ------------------------------------------------------------------ the path of a log call
    prop("P01", "Level gate: messages below the logger's level never reach a sink",
         "Through every logging call (member and free functions, every overload and every level), a message is handed to the logger's sinks "
         "exactly once when its level is at least the logger's level and not at all otherwise; it is saved for the backtrace exactly once when "
         "the backtrace is enabled and not at all otherwise. Setting a level and reading it back refer to the same setting, and the flush level "
         "is a different one.",
         ["inputs", "programs"], "all 97 public overloads x 7 message levels x 7 logger levels x backtrace absent/disabled/enabled, every path",
         "The tests log a handful of lines at one or two levels through a few of the overloads; a wrong comparison or a forgotten gate in one "
         "overload, at one boundary level, changes no test.",
         ["include/logger.h", "include/learnlog.h"],
         [("level comparison in the logging entry points", "include/logger.h"), ("default-logger front end", "include/learnlog.h")],
         "path-sensitive dataflow with case-split constant propagation over each overload",
         "Every overload of the driver's table is simulated for all level combinations; events counted per path.",
         ["calls of the logger's sink stage per call of the public overload"])
    prop("P02", "Fan-out: every sink that admits a message gets it exactly once",
         "A message handed to a logger is written exactly once to each of its sinks whose level is at most the message's level, and never to the "
         "others, whether the logger is synchronous or the message is processed by a thread pool's worker. A formatter given to a logger "
         "reaches each of its sinks exactly once, each sink holding a live formatter of its own.",
         ["inputs", "configurations"], "any number of sinks, all message/sink/flush level combinations, all pool types, every path through the loops",
         "Tests use one or two sinks with default levels; skipping the last sink, stopping at the first refusing one or serving one twice needs "
         "particular level mixes.",
         ["src/logger.cpp", "include/logger.h", "include/async_logger.h", "base/thread_pool.cpp", "sinks/sink.h"],
         [("loop over the sinks", "src/logger.cpp"), ("worker's message processing", "base/thread_pool.cpp"), ("sink level test", "sinks/sink.h")],
         "per-element automaton over recognised container traversals, path-sensitive dataflow",
         "Loops over the sinks must be recognised as full traversals; each iteration is judged for each level combination.")
    prop("P03", "A failing sink never silences the other sinks",
         "When a sink fails with a standard exception while a message is written or sinks are flushed, the failure is reported and every "
         "remaining sink is still served as if nothing had happened, for synchronous loggers and on worker threads alike. An exception that is "
         "not a standard one is reported before it leaves the call.",
         ["fault_sequences", "inputs"], "every subset of failing sink operations, both kinds of exception, all level combinations",
         "No test has a sink that throws.",
         ["src/logger.cpp", "include/async_logger.h", "base/thread_pool.cpp", "include/definitions.h"],
         [("per-sink exception handling", "src/logger.cpp"), ("worker's exception handling", "include/async_logger.h")],
         "exception-edge aware property simulation with may-throw sink operations",
         "Every sink operation may throw either kind at every iteration; the fan-out automaton of P02 must still be satisfied.")
    prop("P04", "Exceptions never escape the library's boundary silently",
         "A standard exception raised inside any logging call, logger flush, worker step or sink failure on a worker, by the registry front end "
         "(initialize_logger, register_logger, set_pattern, set_log_level, set_flush_level, register_thread_pool, close) or by the registration a "
         "factory performs never reaches the caller and never ends the program: it is reported exactly once, with its description. An exception "
         "of another type is reported before it may leave. No handler in the library drops an exception without a report. Each report is "
         "printed exactly once to stderr with its text and a number of its own, and ends nothing, with assertions enabled or not.",
         ["fault_sequences", "inputs"], "every public overload, front-end function, factory and worker body, every place that may throw on any path",
         "Tests never make formatting, sinks, the registry or the pool fail.",
         ["include/logger.h", "src/learnlog.cpp", "include/sync_factory.h", "include/async_factory.h", "include/async_logger.h", "base/exception.h"],
         [("handlers of the logging entry points", "include/logger.h"), ("registry front end", "src/learnlog.cpp"), ("handle_excpt", "base/exception.h")],
         "interprocedural may-throw summaries and exception-edge aware property simulation",
         "Allocation failure is outside the model. User sinks, formatters and callbacks may throw anything.")
    prop("P05", "Flush level and flush requests are honoured",
         "A message whose level is at least the logger's flush level (and is not 'off') makes each sink be flushed exactly once, after that "
         "message was written to it; lower messages flush nothing. An explicit flush of a logger flushes every sink exactly once; for an "
         "asynchronous logger a queued flush request is answered once, only after the sinks were flushed.",
         ["inputs", "configurations"], "all message/sink/flush level combinations, sync and async loggers, all pool types",
         "Tests flush explicitly at the end and never look at when a flush happens.",
         ["src/logger.cpp", "include/logger.h", "include/async_logger.h", "base/thread_pool.cpp"],
         [("flush level test", "include/logger.h"), ("queued flush", "base/thread_pool.cpp")],
         "per-element automaton over recognised container traversals, path-sensitive dataflow",
         "Same engine as P02; order of write and flush judged per element.")

    prop("P33", "Destroying a sink or logger never ends the program",
         "No failure (an I/O error while flushing or closing, a library error) can leave the destructor of a sink, formatter, logger or log "
         "message: it is contained and, for the file sinks, reported.",
         ["fault_sequences"], "every destructor of the library's sinks, formatters, loggers and message types, every failing operation on any path",
         "No test destroys a sink whose file is failing.",
         ["sinks/basic_file_sink.h", "sinks/rolling_file_sink.h", "include/logger.h"],
         [("file sink destructors", "sinks/rolling_file_sink.h")],
         "interprocedural may-throw summaries and exception-edge aware property simulation",
         "Thread pools (whose destructors join) and allocation failure are outside this property.")

    # ------------------------------------------------------------------ asynchronous part
    prop("P12", "Thread pools start, drain and stop all their workers",
         "A thread pool starts exactly the configured number of workers; each worker runs the start callback once before its first message and the "
         "stop callback once after its last. Destroying a pool tells every worker to stop exactly once, after everything queued before by this or "
         "other threads has been handed out, and then joins every worker exactly once.",
         ["schedules", "histories", "configurations"], "all pool types, any worker count, every path of constructor, worker body and destructor",
         "Tests create pools with fixed sizes and let them die with an empty queue; losing the tail of the queue needs a busy queue at shutdown.",
         ["base/lock_thread_pool.h", "base/lockfree_thread_pool.h", "base/lockfree_concurrent_thread_pool.h", "base/thread_pool.cpp"],
         [("pool constructors and destructors", "base/lock_thread_pool.h"), ("worker loop", "base/thread_pool.cpp")],
         "typestate automata over constructors, thread bodies and destructors with recognised traversals",
         "Both the thread-local and the map-based token build are analysed. FIFO order of the queues themselves is trusted.")
    prop("P13", "Asynchronous hand-over loses and duplicates nothing",
         "Each message or flush request accepted by an asynchronous logger is put into its thread pool's queue exactly once, names that logger, "
         "carries that message and is never dropped or overwritten because the queue is full; each worker step takes exactly one message out. If the "
         "pool no longer exists the loss is reported and nothing else happens; a flush returns only after its request was answered.",
         ["schedules", "fault_sequences", "configurations"], "all pool types, pool alive or gone, insertion succeeding or failing any number of times",
         "Tests use queues that never fill and pools that outlive their loggers.",
         ["include/async_logger.h", "base/thread_pool.cpp", "base/thread_pool.h", "base/lock_thread_pool.h", "base/lockfree_thread_pool.cpp",
          "base/lockfree_concurrent_thread_pool.cpp"],
         [("queueing operations of the async logger", "include/async_logger.h"), ("pool entry points", "base/thread_pool.cpp"),
          ("queue insertion and removal of each pool", "base/lockfree_concurrent_thread_pool.cpp")],
         "exactly-once automata over every path, success results tracked as path facts",
         "moodycamel queues are trusted to insert when they say so.")

    prop("P14", "Lock-free pools keep to the token rules of their queues",
         "In the lock-free thread pools a thread hands all its messages for one pool over with the same producer token, one that the pool made for its own queue, "
         "whichever other pools it also uses and whether or not an earlier pool of the same address existed; it inserts only while it holds that token's lock, which is "
         "taken with acquire ordering when no other thread holds it and given back with release ordering after the message is in. The token is one that a worker of the "
         "pool serves and that worker has been woken. Every worker takes messages from its own pool's queue, always with the same token, which no other worker uses; a "
         "consumer token is made by the worker that uses it. All producer tokens exist before the first worker starts, and each is released once, after every worker was "
         "joined; destroying a pool wakes every worker that still waits.",
         ["schedules", "histories", "configurations"], "the call sequences of up to three threads, two pools of up to three workers and a pool made in another's place, with and without "
         "thread-local storage, locks free or held for a while by another thread",
         "Two threads on one token, a message in a sub-queue that no worker reads or a token of a pool that is gone need particular sequences and schedules; tests use one pool and few threads.",
         ["base/lockfree_concurrent_thread_pool.h", "base/lockfree_concurrent_thread_pool.cpp", "base/lockfree_thread_pool.h", "base/lockfree_thread_pool.cpp"],
         [("tokens, their lock and the table of producers", "base/lockfree_concurrent_thread_pool.h"), ("consumer tokens", "base/lockfree_thread_pool.h")],
         "abstract interpretation of constructors, worker start-up, insertion, removal and destructor over a finite memory, joint states enumerated to a fixpoint",
         "Calls are taken as atomic steps apart from the tokens' locks; the mutexes of the token tables are P07's. moodycamel's queues and semaphore are trusted.")

    # ------------------------------------------------------------------ locking
    prop("P06", "Thread-safe sinks: operations exclude each other, lines do not mix",
         "Operations (log, flush, set_pattern, set_formatter, set_level_color and the other public ones) on one sink of a _mt type exclude each other: all "
         "of its mutable state is read and written, and all of its output produced, only while its mutex is held, and a message is formatted and written, with "
         "the flush that belongs to it, in one uninterrupted critical section; the mutex is released on every exit, exceptions included. All thread-safe sinks writing to "
         "stdout or stderr, plain and coloured, share one process-wide mutex.",
         ["schedules"], "every operation of every _mt sink type, every access and output operation, every path including exceptions",
         "Interleaved lines or a torn formatter need two threads in one window; tests with threads pass almost always without the lock.",
         ["sinks/basic_sink.h", "sinks/basic_file_sink.h", "sinks/rolling_file_sink.h", "sinks/std_sinks.h", "sinks/std_color_sinks.h", "sinks/ostream_sink.h"],
         [("template method of the sinks", "sinks/basic_sink.h"), ("console sinks", "sinks/std_sinks.h"), ("colour sinks", "sinks/std_color_sinks.h")],
         "lockset dataflow (flow-, path- and exception-sensitive) over every access to guarded state and every output call",
         "Two sinks opened on the same file are not excluded from each other.")
    prop("P07", "Shared state is accessed only under its lock; operations are atomic",
         "Every access to the mutable state of the registry, the backtrace buffer, the blocking queue and the token tables of the lock-free thread pools is made, on every "
         "path, while holding one and the same mutex of that object (including iterators and element references, and the other object of a copy or move); no reference to such state is "
         "handed out. Each public operation of registry, backtrace buffer and blocking queue is one critical section per mutex. The asynchronous factories look up, decide on and "
         "register the thread pool in one critical section common to all factory types. A pool's or timer's constructor sets up everything before it starts the first thread, its destructor "
         "changes nothing shared before the threads are joined, and a sink's level is atomic.",
         ["schedules"], "every access of every member and thread body to guarded state, with and without thread-local storage, on every path including exceptions",
         "A data race shows in a few interleavings of two operations; tests with threads pass almost always without the lock.",
         ["base/registry.cpp", "base/registry.h", "base/backtracer.h", "base/block_queue.h", "base/lockfree_thread_pool.h",
          "base/lockfree_concurrent_thread_pool.h", "base/lock_thread_pool.h", "include/async_factory.h", "sinks/sink.h"],
         [("registry locks", "base/registry.cpp"), ("backtrace buffer", "base/backtracer.h"), ("queue", "base/block_queue.h"),
          ("token tables", "base/lockfree_concurrent_thread_pool.h"), ("factory lock", "include/async_factory.h")],
         "lockset dataflow over every access to guarded state, with object identity; start and join ordering by reachability",
         "The settings of a single logger (levels, pattern, tracer) are documented as unsynchronised by their plain types and are not part of the property.")
    prop("P08", "No deadlock: locks are ordered and nobody waits in a circle",
         "No set of library operations can block each other for ever: locks are taken in one consistent order and never twice by one thread; worker and timer threads never "
         "wait for themselves; a queue or timer mutex is released while its condition is waited for, with no other lock held; no lock is held while waiting for a message; no lock of the registry or of a thread "
         "pool is held while user callbacks run or while waiting for worker threads (join, answer, free queue slot); a static object's initialiser never "
         "needs the object itself. Every lock taken is released on every way out.",
         ["schedules"], "every acquisition, join, condition wait, future and queue wait, through calls, virtual calls, destructors and stored callbacks",
         "A deadlock needs one particular interleaving; a cycle between two operations is invisible to tests that run either alone.",
         ["base/registry.cpp", "base/registry.h", "base/backtracer.h", "base/block_queue.h", "base/lockfree_thread_pool.h", "base/lockfree_concurrent_thread_pool.h",
          "base/lock_thread_pool.h", "base/periodic_function.h", "include/async_factory.h", "include/async_logger.h", "sinks/basic_sink.h"],
         [("registry", "base/registry.cpp"), ("worker step", "include/async_logger.h"), ("timer", "base/periodic_function.h"), ("pool destructors", "base/lockfree_concurrent_thread_pool.h")],
         "lock-order and waits-for graph over the call graph with path-sensitive locksets, cycle search",
         "Locks are identified by class and member, so two objects of one class count as one lock. Not covered: what user sinks and callbacks lock themselves; replacing the periodic flusher joins the old one under the flusher's own mutex, "
         "which is accepted because the flusher never takes it.")
    prop("P09", "Blocking queue: insertions and removals keep their contract",
         "enqueue inserts the given element once, waiting exactly while the queue is full; enqueue_nowait inserts it once and never waits; enqueue_if_have_room inserts it when there "
         "is room and otherwise counts one discarded element, never waiting. dequeue hands out and removes the oldest element once, waiting exactly while the queue is empty; "
         "dequeue_for does the same with the given time limit and returns false only when the queue is still empty after waiting, having removed nothing. Every insertion wakes a waiting remover and every "
         "removal a waiting inserter, on every path and at any number of waiters. size and the two counters report and reset exactly what they name; the capacity is the requested one.",
         ["schedules", "histories"], "every operation, in both build variants, from every fill level (empty, partly filled, full) and with every fill level found after each wait",
         "Lost wake-ups and missing re-checks need several waiting threads in a particular order; the tests use a few threads and small counts.",
         ["base/block_queue.h"], [("insertions", "base/block_queue.h"), ("removals", "base/block_queue.h")],
         "path-sensitive dataflow of a protocol automaton with case split on the fill level, condition-variable matching across operations",
         "The ring buffer's operations are taken by their contract (P10), the standard condition variables by theirs; a time limit is checked as the deadline passed to the wait.",)
    prop("P10", "Ring buffer: a bounded list that drops its oldest element when full",
         "After any history of insertions, removals of an existing element, counter resets, copies, moves and clears, a circular_queue of capacity n holds the same elements in the same order as a list "
         "that drops its oldest element when an insertion makes it longer than n: size, empty, full, front, at and override_count agree with that list, queries change nothing, and no slot outside the storage is "
         "touched. A copy equals its source; a move leaves the source, like clear and the default constructor, as a queue that holds nothing and ignores insertions.",
         ["histories", "inputs"], "all histories over capacities 0 to 3 (quick) or 0 to 6 (thorough), each element type the library uses",
         "Tests walk through one or two wrap-arounds at one capacity.",
         ["base/circular_queue.h"], [("ring buffer", "base/circular_queue.h")],
         "abstract interpretation over a finite store to a fixpoint of the member functions' transfer functions, compared with a list model",
         "Larger capacities are covered by the uniformity of the index arithmetic, not by the analysis itself.")
    # ------------------------------------------------------------------ registry, factories, periodic flushing
    prop("P15", "Registry: unique names, lookup, removal and the default logger",
         "Registering a logger under a name that is taken is refused with an exception and leaves the first logger registered; registering under a "
         "free name adds exactly that logger. initialize_logger registers the logger exactly when automatic registration is on. Looking a "
         "name up returns the logger registered under it or null. remove_logger removes exactly the named logger and, if it is the default "
         "logger, the default too; remove_all removes every logger and the default. set_default_logger makes the given "
         "logger the default and registers it under its name (in place of another of that name), changing no other entry; null leaves no default. The front-end functions do the same. A new registry has a registered default "
         "logger and automatic registration on.",
         ["inputs", "histories"], "every registry operation from every case of name present/absent, default logger absent/same/other, flag on/off",
         "Tests register a few distinct names in the usual order.",
         ["base/registry.cpp", "base/registry.h", "src/learnlog.cpp"],
         [("registry operations", "base/registry.cpp"), ("registry front end", "src/learnlog.cpp")],
         "path-sensitive dataflow with an abstract map (case split on presence of the key and identity of the default logger)",
         "The hash map is modelled through its public operations.")
    prop("P16", "Global settings reach every logger, present and future, once",
         "Setting the global level, flush level, pattern or formatter stores it for loggers initialised later and applies it exactly once to every "
         "registered logger (a formatter as a clone of its own for each; a pattern's formatter becomes the global one). initialize_logger gives the new logger the "
         "global formatter and both global levels. The per-name setters change only the named logger; an unknown name throws and changes "
         "nothing. Executing a function for all loggers, or flushing all, visits each registered logger exactly once.",
         ["inputs", "histories"], "any number of registered loggers, setting present or absent, every path through the registry operations",
         "Tests set global values before or after creating one logger and rarely look at the effect on the others.",
         ["base/registry.cpp", "base/registry.h", "src/learnlog.cpp"],
         [("global setters", "base/registry.cpp"), ("initialize_logger", "base/registry.cpp")],
         "per-element automaton over recognised map traversals, path-sensitive dataflow with an abstract map",
         "The order of traversal is not part of the property.")
    prop("P24", "Periodic flushing runs on time, once per interval, and stops",
         "A periodic function with an interval of zero or less starts no thread; otherwise exactly one. It is called only after a whole "
         "interval has passed without the timer being told to stop, and the thread ends promptly when it is told to stop, whenever that happens. The "
         "destructor tells the thread to stop, wakes it and joins it exactly once without holding the timer's mutex. flush_every installs a timer with the given "
         "interval that flushes every registered logger at each tick and ends the previous timer.",
         ["schedules", "inputs"], "every interval sign, every interleaving point of the stop flag with the wait, every path",
         "A lost wake-up or a tick after the stop needs a stop request at one moment of the wait; tests sleep for a fixed time.",
         ["base/periodic_function.h", "base/registry.cpp", "base/registry.h"],
         [("timer thread and destructor", "base/periodic_function.h"), ("flush_every", "base/registry.h")],
         "typestate automata over constructor, thread body and destructor (flag re-check under the mutex, join discipline)",
         "The accuracy of the condition variable's clock is trusted.")
    prop("P30", "Factories build the logger that was asked for and register it",
         "Every factory and every create function of the library returns a new logger with the given name and exactly one sink of the right type, built from the "
         "given parameters in the right places, after initialising it in the registry exactly once; a failure to register is reported and the logger is still returned. "
         "The asynchronous factories tie the logger to the registered thread pool: without one they create and register a pool of default size, with one of another "
         "type a pool of the factory's type with the same queue size and thread count, and reuse one of the same type.",
         ["configurations", "inputs"], "every sink's create functions, _mt and _st, x synchronous and three asynchronous factories, all registry states",
         "Tests use a few combinations; swapped parameters of equal type or a wrong mutex variant behave the same in them.",
         ["include/sync_factory.h", "include/async_factory.h", "include/learnlog.h", "sinks/basic_file_sink.h", "sinks/rolling_file_sink.h",
          "sinks/std_sinks.h", "sinks/std_color_sinks.h"],
         [("factories", "include/async_factory.h"), ("create functions", "sinks/rolling_file_sink.h")],
         "path-sensitive dataflow tracking made objects and the provenance of constructor arguments",
         "Parameter correspondence is by position and type of the sink's constructor.")
    prop("P31", "Replacing or closing the thread pool leaves no stranded async logger",
         "Registering a thread pool makes it the registered one (also when it is null or none was registered before), removes every asynchronous "
         "logger and an asynchronous default logger from the registry and leaves the synchronous ones. get_thread_pool returns the registered pool. "
         "Closing drops the pool, all loggers, the default logger and the periodic flusher. initialize_thread_pool registers a new pool of the "
         "asked type with the asked queue size and number of threads.",
         ["histories", "inputs"], "any mix of sync and async loggers, default logger absent/sync/async, pool absent/present",
         "Tests register one pool once.",
         ["base/registry.cpp", "base/registry.h", "include/learnlog.h", "src/learnlog.cpp"],
         [("register_thread_pool", "base/registry.cpp"), ("close", "base/registry.cpp")],
         "per-element automaton over recognised map traversals, path-sensitive dataflow with an abstract map",
         "When the replaced pool is destroyed is not part of the property.")
    prop("P19", "Opening files: append or truncate, missing directories, retries, no leak",
         "Opening a file creates the missing directories of its path (absolute and relative, with repeated or trailing separators), first closes a stream "
         "that was open, and yields a stream in append mode: existing content is kept unless truncation was asked for, in which case it is emptied first. "
         "A failed attempt is repeated after the given pause (in milliseconds), at most the given number of times; then the failure is thrown and no stream is left. Whatever "
         "attempts fail, every descriptor and stream opened on the way is closed exactly once. Files are created with mode 0644, directories with 0755, and "
         "are not inherited by child processes. basic_file_sink opens the given file with the given truncation.",
         ["fault_sequences", "inputs"], "append and truncate, stream open before or not, every outcome of every open (up to 3 tries; thorough 4), path shapes up to 5 characters",
         "Tests open files that can be opened, in directories that are there or one level deep; they never look at leaked descriptors or flags.",
         ["base/file_base.h", "base/os.h", "sinks/basic_file_sink.h"],
         [("file_base::open", "base/file_base.h"), ("open_file, create_dir, get_dir", "base/os.h"), ("constructor", "sinks/basic_file_sink.h")],
         "abstract interpretation over a finite model of streams and directories, every operating-system outcome as a case",
         "Exceptions from memory allocation are outside the model. The POSIX branch is analysed, not the Windows one.")
    prop("P20", "Rolling files: size limit, numbering and file names",
         "A rolling file sink writes each formatted message exactly once and whole into the file that is open. It goes to another file exactly when the message "
         "would take a non-empty file past max_file_size, so a file exceeds the maximum only when a single message does, and no empty file is left behind. Numbers "
         "run from 1 to max_file_num: it starts with, and goes on to, the smallest number from the current one upwards whose file does not exist, or the highest "
         "number; the file is emptied when it is opened, and files below the highest number that exist are never touched. The full file is closed before the next "
         "is opened; when opening fails, the error is thrown, later messages are not lost silently and no closed stream is used. The name is the base name with "
         "'_' and the number, zero-padded to the digits of max_file_num, before the extension of the last path component. A size limit of 0 and more than 10000 "
         "files are refused before any file is touched.",
         ["histories", "inputs", "fault_sequences"], "max_file_num 1 to 3 (thorough 4), every set of existing files, every sequence of message sizes around the maximum to a fixpoint, failures of open, write and close",
         "Tests roll a few files of one size in a fresh directory; an off-by-one at the exact limit or a wrong number next to existing files passes them.",
         ["sinks/rolling_file_sink.h", "base/file_base.h"],
         [("output_ and roll_file_", "sinks/rolling_file_sink.h"), ("constructor", "sinks/rolling_file_sink.h"), ("suffix_pos", "base/file_base.h")],
         "abstract interpretation of the sink to a fixpoint over a finite model of the numbered files",
         "max_file_num of 0 is not covered. Files appearing or disappearing while the sink runs are not modelled. A failed write is taken to write nothing.")
    prop("P21", "Every sink writes the whole message once and reports I/O failures",
         "When a write to a file or standard stream returns normally, exactly the formatted message has been handed to that stream, whole and once; a short or "
         "failed write throws, as do a write or size query without an open stream, a failed flush or sync of a file, a failed size query and a failed close. "
         "Closing closes the stream once and forgets it even when closing fails. Standard-stream sinks write to the stream they are named after and flush it after "
         "every message; an ostream sink hands the message to its stream and flushes it after each one when asked to. Flushing a sink flushes its stream.",
         ["fault_sequences", "inputs"], "every file operation and every sink's write and flush functions, success, short and failed outcome of every system call",
         "No test makes a write, flush or close fail.",
         ["base/file_base.h", "base/os.h", "sinks/std_sinks.h", "sinks/basic_file_sink.h", "sinks/ostream_sink.h", "sinks/basic_sink.h", "sinks/ansicolor_sink.h"],
         [("write, flush, sync, size, close", "base/file_base.h"), ("log", "sinks/std_sinks.h"), ("output_", "sinks/ostream_sink.h")],
         "abstract interpretation with the outcomes of system calls as cases",
         "A failing flush of a standard stream is not reported by the library and is not part of the property.")
    prop("P23", "Colours surround exactly the marked range, only on colour terminals",
         "A colour sink writes the text before the range marked by the pattern, the colour set for the message's level, the marked text, the reset sequence and the "
         "rest, when its stream is a terminal, the terminal supports colour and the range is not empty; in every other case it writes exactly the formatted "
         "message. The marks of an earlier formatting of the same message never have an effect. Setting a level's colour changes that level's colour only; every "
         "level has a colour from the start. A short write of message text throws. A terminal supports colour exactly when COLORTERM is set or TERM contains one of "
         "ansi color console cygwin gnome konsole kterm linux msys putty rxvt screen vt100 xterm alacritty vt102.",
         ["inputs", "configurations"], "every combination of colour support, level, marked range (9 shapes), stale marks and write outcome; 90 environments",
         "Tests do not run on a terminal, so the coloured branch is never executed.",
         ["sinks/ansicolor_sink.h", "base/os.h"],
         [("log", "sinks/ansicolor_sink.h"), ("constructor, set_level_color", "sinks/ansicolor_sink.h")],
         "abstract interpretation comparing the sequence of bytes handed to the stream with the expected one",
         "The environment is given as concrete texts: each known name, with additions, and near misses.")
    prop("P11", "Messages kept for later own the text they refer to",
         "A message kept for later (for the backtrace or an asynchronous queue) owns its text: after construction from a message, copying, moving and assignment "
         "(copying also onto itself), its logger name and text equal the source's and lie in its own storage, whatever their lengths; its level, source location, "
         "time, thread id and colour marks are the source's; a copy leaves its source intact. A request queued for a worker keeps its logger, kind, message and "
         "promise through construction and moves.",
         ["inputs", "histories"], "every constructor and assignment of the two classes, texts of any length, all paths",
         "The tests never look at a buffered message after its source has gone; a view into the old storage still reads right until the memory is reused.",
         ["base/log_msg_buf.h", "base/log_msg.h", "base/async_msg.h"],
         [("copying, moving, update_string_view", "base/log_msg_buf.h"), ("fields of a message", "base/log_msg.h"), ("queued request", "base/async_msg.h")],
         "abstract interpretation over a model of text storage (which bytes, held where)",
         "The text container's own operations (append, move) are modelled by their documented contract.")
    prop("P17", "A pattern prints what it documents, for every message",
         "For times from 1970 on, a pattern formatter prints the pattern's parts in order, then the end of line. Flags: n l a b c y m d H M S E F G T W X Y Z p t v @ A B C + % "
         "as listed in pattern_formatter.cpp: local calendar time of the message, fixed-width fields padded with zeros, location flags empty without a location (line <= 0) and safe "
         "for a null file or function name, W X Y Z the time since the previous message (0 when not later; the last message becomes the reference, the first refers to construction); "
         "%^ %$ (and %+ around the level) set the colour marks and print nothing. %+ omits an empty logger name and a missing location, and pads the line number to 5. An unknown flag prints as '%' and itself; "
         "flags registered before the pattern was set come first, on a copy of their own; a pattern ending inside a flag prints nothing for it; nothing outside the pattern is "
         "read. No output depends on earlier messages (but W X Y Z). Without arguments the pattern is %+; set_pattern replaces the pattern; a clone prints the same.",
         ["inputs", "histories", "programs"], "every flag on symbolic messages and message sequences; all patterns up to a length over the significant characters",
         "The tests format a handful of messages; a wrong month, a stale cached second, a flag at the end of the pattern or a clock that steps back is not tried.",
         ["sinks/formatters/pattern_formatter.cpp", "sinks/formatters/pattern_formatter.h", "sinks/formatters/flag_formatter.h", "base/fmt_base.h", "base/os.h"],
         [("parsing", "sinks/formatters/pattern_formatter.cpp"), ("flag formatters", "sinks/formatters/flag_formatter.h"), ("number printing", "base/fmt_base.h"),
          ("calendar time", "base/os.h")],
         "abstract interpretation: symbolic messages and text, affine arithmetic with division; a reference reading of each pattern",
         "Number printing inside the formatting library is taken as documented. Patterns are enumerated up to length 3 (quick) or 4 (thorough) over 11 characters, plus "
         "all flags and padding shapes; custom flags added after construction take effect with the next set_pattern or clone.")
    prop("P18", "Padding and truncation of pattern fields are exact",
         "With %[-|=]N[!]f, a field f shorter than N (N above 64 counts as 64) gets exactly N minus its length spaces: before it by default, after it with '-', split with '=' (the smaller half "
         "before). A field longer than N is kept whole, or with '!' cut to its first N characters. Nothing written before the field changes. This holds for every padded flag "
         "(n l a b c y m d H M S E F G T W X Y Z p t v @ A B C), empty fields included; + ^ $ % and unknown flags ignore padding.",
         ["inputs"], "every padded flag, every side, with and without truncation, symbolic width and text length",
         "The tests try a few widths on a few flags; a field whose announced length is wrong, or a width that meets the text exactly, is not seen.",
         ["sinks/formatters/filler.h", "sinks/formatters/flag_formatter.h", "sinks/formatters/pattern_formatter.cpp"],
         [("filler", "sinks/formatters/filler.h"), ("announced lengths", "sinks/formatters/flag_formatter.h"), ("padding syntax", "sinks/formatters/pattern_formatter.cpp")],
         "abstract interpretation with affine lengths: the width is a symbol above, equal to or below the text's length",
         "Text lengths are byte counts.")
    prop("P32", "Each message carries exactly what the caller gave",
         "Through every logging call, the message handed to the sinks, and the one saved for the backtrace, carry the level of the call, the text (a format string "
         "applied to its arguments; a value on its own as \"{}\" prints it; a string given alone is taken literally, never as a format string), the given "
         "source location (an empty one if none was given), the logger's name, the calling thread's id, and the given time or else the time of the call; the "
         "colour marks start empty.",
         ["inputs", "programs"], "all 97 public overloads x levels, every path to the sink stage and to the backtrace",
         "The tests look at the text of a few overloads; a location, time or thread id that is dropped or replaced in one overload is not seen.",
         ["include/logger.h", "include/learnlog.h", "base/log_msg.h", "base/os.h", "base/backtracer.h"],
         [("logging entry points", "include/logger.h"), ("free functions", "include/learnlog.h"), ("message constructors", "base/log_msg.h"),
          ("thread_id", "base/os.h")],
         "abstract interpretation: the symbolic content of the message at the sink stage, compared with the call's arguments",
         "Formatting itself is the formatting library's; the check sees that it is given the right format string, arguments and buffer.")

    # ------------------------------------------------------------------ state carried by loggers
    prop("P25", "The backtrace holds the last n messages and dumps them once, in order",
         "After enable_backtrace_n(n) a logger keeps its last n messages, shown or not (n = 0 keeps none). dump_backtrace hands to the logger's own sink stage (that of an "
         "asynchronous logger for one) a 'Backtrace Start' line, each kept message once from oldest to newest, and a 'Backtrace End' line, both lines of level info, and leaves "
         "the store empty but enabled. Before the first enabling and after disable_backtrace nothing is kept and a dump prints nothing. Enabling again starts empty with the new n.",
         ["histories", "inputs"], "every sequence of enable(n), disable, dump, logged and unlogged messages, for n up to 4 (quick) or 9 (thorough)",
         "The tests enable once, log a few lines and dump once; wrap-around, a second dump, re-enabling, n = 0 and disabling in between are not exercised.",
         ["base/backtracer.h", "src/logger.cpp", "include/logger.h"],
         [("store and its switch", "base/backtracer.h"), ("dump", "src/logger.cpp"), ("enabling, disabling, saving", "include/logger.h")],
         "abstract interpretation of the operations together with a list model, joint states explored to a fixpoint",
         "The ring buffer below is taken as the bounded list that P10 shows it to be; the text kept is P11's.",
         ["lines handed to sink_log_ by dump_backtrace"])
    prop("P26", "Times, errors, process and files are told as the system tells them",
         "The date and time the library prints for a moment since 1970 is the local one, as YYYY-MM-DD HH:MM:SS, with nine digits of nanoseconds where asked for, ended by a null character, and never written past the "
         "buffer given, whatever its size. A report of an exception is one line that shows the local time it was made at. The text of the library's own exception is the text given, with the system's description of the "
         "given error number and the given source location where there are any, and the helpers that throw pass all of it on. The process id, errno, whether a stream is a terminal, a file's size (-1 when "
         "unknown), and the outcome of syncing, renaming and removing files are those of the system for exactly the given stream or paths.",
         ["inputs", "configurations"], "every moment since 1970, every buffer size up to 40 (thorough 129), every outcome of each system call, all constructors of the exception",
         "The tests never call most of these; where they print a time they do not look at it, and a time zone, a short buffer or a failing system call has to be arranged from outside.",
         ["base/os.h", "base/exception.h"],
         [("date and time", "base/os.h"), ("system wrappers", "base/os.h"), ("reports and exception text", "base/exception.h")],
         "abstract interpretation of the helpers over symbolic moments, buffers and results of system calls",
         "strftime, snprintf, localtime_r and fmt's system-error text are taken at their documentation; a negative time since the epoch is out of scope.")
    prop("P27", "Every header compiles on its own and everything it declares is defined",
         "A program may include any public header (those for Windows aside) alone, more than once, or together with all others in any order, with or without thread-local storage, under "
         "C++11, 14, 17 and 20 with clang and gcc. Several files that include the headers link with the library: nothing is defined twice. Every function and static variable a header "
         "declares has a definition a program that uses it can link with.",
         ["programs", "configurations"], "every header; every function and static variable declared in one; four language standards, two compilers, two configurations",
         "The tests include one umbrella header in one file, under one standard with one compiler, and use some of the functions: a header that lacks an include, a function that is not inline or a "
         "declared member without a definition breaks only programs that differ from them.",
         ["include/learnlog.h", "base/os.h", "base/log_msg.h", "sinks/ansicolor_sink.h", "sinks/std_color_sinks.h", "src/learnlog.cpp"],
         [("public headers", "include/learnlog.h"), ("inline helpers", "base/os.h"), ("front end definitions", "src/learnlog.cpp")],
         "query over the syntax tree (declarations without definition); compile and link witnesses",
         "Nothing that is compiled here is run; the link step is llvm-link on bitcode.")
    prop("P34", "Every printable value and every sink is accepted; wrong calls are refused",
         "Every value the formatting library can print - numbers, characters, C strings, strings, views, pointers, enumerations, user types with a formatter, also those that can only be moved; constant, "
         "temporary or not - can be logged alone or as an argument through every logging call of a logger, an asynchronous logger and the front end. Every sink can be created through every factory with its "
         "optional arguments given or not, and the management calls take what their documentation says (names as literals or strings, any duration, any iterators over sinks). A call with a value nobody can "
         "print, with a number for a level or an interval, or, under C++20 and later, with a format string that does not fit its arguments, does not compile.",
         ["programs", "configurations"], "about 7000 calls that must compile with two compilers under C++11 to 23; about 190 that must be refused",
         "A test holds a few of these calls, under one standard with one compiler, and cannot hold a call that must not compile.",
         ["include/logger.h", "include/learnlog.h", "include/sync_factory.h", "include/async_factory.h", "include/definitions.h"],
         [("logging calls", "include/logger.h"), ("front end", "include/learnlog.h"), ("factories", "include/async_factory.h")],
         "type-level witnesses: programs that must compile and calls the compiler must refuse",
         "Nothing that is compiled here is run; the kinds of values are the rule's list.")
    prop("P28", "Types rule out copies of owners, throwing moves and partial destruction",
         "A program that copies, assigns or moves a sink, a thread pool, the registry, a periodic timer, a blocking queue or a pattern formatter, or copies a queued request, does not compile. Messages, loggers, "
         "backtrace stores and ring buffers can be copied; kept messages, queued requests and ring buffers move without throwing. Everything that is destroyed through a base class has a virtual destructor there, "
         "destructors do not throw, incomplete bases cannot be instantiated and every concrete sink is complete.",
         ["programs", "configurations"], "every program that uses these types; every delete of the library and of the smart pointers it instantiates",
         "A test cannot contain a program that must not compile; a removed 'delete', 'noexcept' or 'virtual' changes no program that is correct.",
         ["sinks/sink.h", "base/thread_pool.h", "base/registry.h", "base/periodic_function.h", "base/block_queue.h", "base/log_msg_buf.h", "base/circular_queue.h"],
         [("deleted copies", "base/registry.h"), ("noexcept moves", "base/log_msg_buf.h"), ("virtual destructors", "sinks/sink.h")],
         "type-level static assertions decided by the compiler; compiler diagnostics for deletes through a base",
         "The list of types and what each must allow or rule out is the rule's; a renamed type is reported as an analysis that could not run.")
    prop("P29", "Loggers are constructed, copied, cloned and swapped whole",
         "A new logger has exactly the name and the sinks it was given, in order, level info, flush level off, pattern %+, no backtrace; a new asynchronous logger also knows its "
         "thread pool and says it is asynchronous. A copy (or move) of a logger has all of these from the original, and the same backtrace store; a clone too, except for its "
         "name, which is the one given, and is of the same kind as the original, which stays as it was. Swapping two loggers, by member or free function, exchanges name, sinks, "
         "levels, pattern and backtrace; with itself it changes nothing. Copying or assigning a backtrace store takes over its messages and whether it is enabled.",
         ["inputs", "configurations"], "every constructor, copy, move, clone and swap of both logger classes and of the backtrace store, any member contents",
         "The tests look at one or two members of a clone; a member forgotten in a copy or a swap, or taken twice, changes none of them.",
         ["include/logger.h", "include/async_logger.h", "src/logger.cpp", "base/backtracer.h"],
         [("constructors", "include/logger.h"), ("clone, swap", "src/logger.cpp"), ("asynchronous logger", "include/async_logger.h"), ("copying the store", "base/backtracer.h")],
         "token propagation of every member through constructors, copies, clones and swaps (abstract interpretation)",
         "Strings, containers and smart pointers are single values with the documented effect of their own operations.")
    prop("P22", "A pattern or formatter that is set is the one in use from then on",
         "After logger::set_pattern(p), get_pattern() gives p, and the logger's sinks are handed one formatter made from p with the default line end (P02 says how it is spread). "
         "After set_pattern(p) or set_formatter(f) on any sink, the formatter that sink uses is one made from p with the default line end, or f itself, with no other owner.",
         ["inputs", "configurations"], "any pattern, both setters of the logger and of every concrete sink class, every path",
         "The tests set a pattern on fresh loggers and compare one line; a pattern that is kept but not used, or used after being moved away, depends on the order of two statements.",
         ["src/logger.cpp", "sinks/basic_sink.h", "include/logger.h"],
         [("logger's setters", "src/logger.cpp"), ("sink's setters", "sinks/basic_sink.h")],
         "token propagation through the setters, virtual calls resolved for every concrete class (abstract interpretation)",
         "What a formatter prints for its pattern is P17.")

    # ------------------------------------------------------------------ beyond static analysis
    na("P90", "Messages of one thread are written in the order they were logged",
       "Messages that one thread logs through an asynchronous logger with a lock-free pool of one worker are written in the order in which they were logged.",
       ["schedules"], "every interleaving of producers and the worker",
       "Tests use one producer and compare counts.",
       ["base/lockfree_thread_pool.h", "base/lockfree_concurrent_thread_pool.h", "base/concurrentqueue/concurrentqueue.h"],
       [("tokens of moodycamel's queue", "base/concurrentqueue/concurrentqueue.h")],
       "The order inside one producer token is a linearizability property of moodycamel's lock-free queue: it follows from orderings of atomic operations on blocks that are "
       "recycled at run time, which none of the static techniques in reach (lockset, typestate, effect, dataflow) can bound. What the library itself owes the queue (one token per "
       "thread and pool, locked while used) is P14.")
    na("P91", "A thread waiting for room in a full queue is served eventually",
       "A producer that waits because its asynchronous logger's queue is full gets its message in after finitely many steps of the workers, however many producers compete.",
       ["schedules"], "every fair schedule, any number of producers",
       "Tests never fill a queue.",
       ["base/block_queue.h", "base/lockfree_thread_pool.h"],
       [("waiting on the condition variable or spinning", "base/block_queue.h")],
       "Starvation freedom depends on the fairness of the scheduler, of std::mutex and of a compare-and-swap loop; the spin loops have no static bound. Absence of lost wake-ups (P09) and of deadlock (P08) is decided.")
    na("P92", "Numbers and user types are printed as their format string says",
       "Arguments of a logging call are printed as the format string asks: every value of every built-in type, width, precision and type specifier.",
       ["inputs"], "all values and format specifications",
       "A few integers and strings are printed.",
       ["base/fmt/core.h", "base/fmt/format.h"],
       [("bundled {fmt}", "base/fmt/format.h")],
       "The digits of floating-point and integer output are computed by the bundled {fmt} library with tables and big-number arithmetic; relating them to the value is a numerical proof, not a dataflow "
       "or typestate question. That the right arguments and the right format string reach {fmt} once is P32.")
    na("P93", "What sync() returned for survives a power failure",
       "After sync() of a file has returned, the messages written before are in the file after a crash of the machine.",
       ["crash_points"], "every crash point after sync",
       "Nothing crashes in a test.",
       ["base/file_base.h", "base/os.h"],
       [("sync", "base/file_base.h")],
       "Depends on the file system and the disk; the source only shows that the stream is flushed and fsync is called and its failure reported, which P21 decides. Directory entries of new files are not synchronised by the library and not promised.")
    na("P94", "A disabled level costs next to nothing, an enabled one a bounded time",
       "A message below the logger's level costs no allocation and bounded time; the latency of an enabled asynchronous message is bounded while the queue has room.",
       ["inputs", "schedules"], "all messages and loads",
       "The benchmarks measure averages.",
       ["include/logger.h", "bench"],
       [("log()", "include/logger.h")],
       "Time and throughput are runtime quantities of the allocator, the scheduler and the disk; static analysis of this code base gives no useful bound.")
    na("P95", "The Windows build behaves like the POSIX build",
       "Files, colours, thread ids and directories behave the same when the library is built for Windows.",
       ["configurations"], "the _WIN32 branches of the sources",
       "The tests run on one platform.",
       ["base/os.h", "sinks/wincolor_sink.h"],
       [("_WIN32 branches", "base/os.h")],
       "The branches need the Windows SDK headers to be parsed and type-checked; they are not installed here and cannot be fetched, so there is no program to analyse.")
