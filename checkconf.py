"""Which simulation decides which property, with how many runs, and what the evidence says about it."""

# variant: (scenario source, language standard, extra flags)
VARIANTS = {
    "pool": ("pool", "c++20", []),
    "logger": ("logger", "c++20", []),
    "logger14": ("logger", "c++14", ["-DSIM_INITIAL"]),
    "logger_hide": ("logger", "c++17", ["-DPLUTO_LOGGER_HIDE_SOURCE_INFO=1", "-DSIM_CLOCK"]),
    "lru": ("lru", "c++20", []),
    "lru14": ("lru", "c++14", []),
    "scope": ("scope", "c++20", []),
    "scope14": ("scope", "c++14", []),
    "stopwatch": ("stopwatch", "c++20", []),
    "stopwatch_sys": ("stopwatch", "c++14", ["-DSIM_SYSTEM", "-DPLUTO_STOPWATCH_CLOCK_TYPE=std::chrono::system_clock"]),
    "stopwatch_ticks": ("stopwatch", "c++17", ["-DSIM_TICKS=1024"]),
    "utils": ("utils", "c++20", []),
    "utils17": ("utils", "c++17", []),
    "platform": ("platform", "c++20", []),
    "platform14": ("platform", "c++14", []),
    "pool_steady": ("pool", "c++14", ["-DSIM_STEADY", "-DPLUTO_THREAD_POOL_CLOCK_TYPE=std::chrono::steady_clock"] + ["-DPLUTO_THREAD_POOL_PRIORITY_%s=%d" % (n, v) for n, v in (("LOWEST", -126), ("LOWER", -65), ("LOW", -3), ("NORMAL", 5), ("HIGH", 40), ("HIGHER", 41), ("HIGHEST", 125))]),
}

RT = ["thread scheduling (one thread runs at a time, chosen by the simulator at every lock, condition-variable, atomic, clock, allocation-relevant and, in part of the runs, plain memory access)",
      "clocks, timers and sleeps (simulated time, jumps over idle time)",
      "pthread mutexes, condition variables, once, thread creation and joining (modelled; the library and libstdc++ above them are real)",
      "memory allocation (arena without reuse, failures injected, use after free detected)"]
ASSUME = ["sequentially consistent memory; data races are reported by happens-before analysis instead of exploring weak orders",
          "libstdc++ and glibc above the replaced entry points behave as they do in this build (g++ 13, x86-64 Linux)",
          "code inside shared libraries is not preempted between the replaced entry points"]

NOTE = ("Sampling, not proof: every run is one seeded schedule of the real header code on simulated threads, locks, clock and resources, and every reported violation is "
        "replayed from its recorded choices in a fresh process. Sequentially consistent interleavings at synchronisation points (in part of the runs at plain memory accesses too); "
        "weaker orders are covered by the happens-before race detector only. ")

POOL = {
    "real": ["include/pluto/thread_pool.hpp, compiled unchanged", "std::thread, std::mutex, std::condition_variable, std::promise, std::function, std::map of libstdc++"],
    "stub": RT,
    "assumptions": ASSUME + ["tasks do not throw (documented to end the process) and do not wait for the pool from inside a task when no worker is free"],
}


def pool(rule, quick=160000, steady=40000):
    return dict(POOL, rule=rule, note=NOTE + "Workloads of up to about 80 operations (600 tasks; about one run in a thousand: thousands, rarely over 65,536), 6 client threads and 24 workers; tasks do not throw.", quick=[("pool", quick, 200), ("pool_steady", steady, 100)],
                thorough=[("pool", quick * 12, 1500), ("pool_steady", steady * 12, 600)])


LOGGER = {
    "real": ["include/pluto/logger.hpp, filesystem.hpp and platform.hpp, compiled unchanged", "std::ofstream, std::filesystem, std::thread, std::mutex, std::condition_variable, std::function of libstdc++"],
    "stub": RT + ["the file system: open, read, write, seek, close, stat, mkdir, rename, unlink, directory reading and the working directory act on an in-memory disk that can fail, stall, write short, be full, be interrupted, tear the last write and survive a simulated process crash"],
    "assumptions": ASSUME + ["a completed write, rename or unlink survives a process crash (the operating system keeps running; power loss is outside the library's promises)",
                             "log writers do not throw", "other processes change the log files only by removing them, the oldest rotated file, or their directory"],
}


def logger(rule, quick=100000, hide=False):
    return dict(LOGGER, rule=rule, note=NOTE + "Workloads of up to about 60 operations (several hundred logs), 5 client threads, 5 files with up to about 15 rotated files each (about one run in a thousand: thousands of logs, hundreds of files or rotated files); log writers do not throw.",
                quick=[("logger", quick, 200), ("logger14", quick // 5, 60)] + ([("logger_hide", quick // 5, 60)] if hide else []),
                thorough=[("logger", quick * 9, 1200), ("logger14", quick * 4, 600)] + ([("logger_hide", quick * 4, 600)] if hide else []))


def small(headers, libs, rule, note, assume, *variants):
    return {"real": ["include/pluto/%s, compiled unchanged" % headers, libs], "stub": RT, "assumptions": ASSUME + assume, "rule": rule, "note": NOTE + note,
            "quick": [(v, n, 150) for v, n in variants], "thorough": [(v, n * 25, 800) for v, n in variants]}


def lru(rule):
    return small("lru_cache.hpp and safe_lru_cache.hpp", "std::map, std::list, std::shared_mutex, std::shared_timed_mutex, std::shared_lock of libstdc++", rule,
                 "Concurrent runs: up to 7 keys, 5 threads and about 60 operations; sequential runs: up to 47 keys and several hundred operations (rarely 70,000 entries); key and value types that own memory and whose copies and comparisons throw on demand.",
                 ["key and value operations that fail leave their operands unchanged; destructors and moves do not throw"], ("lru", 120000), ("lru14", 40000))


PROPS = {
    "L01": logger("Several threads log numbered messages to up to three files through every interface; the files of the simulated disk are parsed whenever the system is idle and after destruction and compared with the calls made (nothing missing, nothing twice, right file, order of calls that did not overlap)."),
    "L02": logger("Flush sizes from 0 up are set before and during logging from several threads; whenever the whole system is idle fewer logs than the flush size may be pending per file, and each entry reaching the log writer must belong to a file with enough logs pending."),
    "L03": logger("Buffers with a maximum size overflow while the writer is slow; each log is followed to the disk or to the counter, and a discard (or an acceptance) is compared with the number of logs that can have been pending at that moment."),
    "L04": logger("Rotation sizes from one byte to beyond the content with limits 0 to 15, headers of three kinds, switched on and off, several files with unusual names in nested directories, old files on disk; the sequence of files is parsed and compared with the order in which the entries were written."),
    "L05": logger("Open, mkdir, rename, unlink, stat and getcwd fail, writes are short, interrupted or fail, the disk stalls; what is on disk is compared with everything handed to the log writer, and everything must be written once the faults are over."),
    "L06": logger("The simulated process dies at a chosen file operation, possibly in the middle of a write, and a second process logs to the same files; the disk is checked at the crash and at the end of the second life."),
    "L07": logger("Every entry given to the log writer and every line on disk is compared with the call (message, level, source position, thread id, clock value read during the call, file and writer), through write, writef, format, stream and the macros, with and without source positions, at changing levels and while the clock jumps.", hide=True),
    "L08": logger("The logger is destroyed while logs are pending, the writer is busy, the disk is slow or failing; the destructor must return and the files be complete."),
    "L09": logger("All member functions are called from many threads at once, log writers read the configuration, the disk freezes while calls are made; data races, deadlocks, use after free and calls waiting for the disk are reported."),
    "C01": pool("Clients and tasks submit run_async and run_sync tasks with nested submissions while the pool is resized; each start is counted, and at every moment the whole system is idle no accepted task may be waiting while a worker is free."),
    "C02": pool("Workers are often blocked in gated tasks so that queues of mixed priorities build up; every start is compared with all tasks certainly waiting at that moment."),
    "C03": pool("Many threads call run_sync while workers are busy or the pool is resized; the end of the task, the visibility of its result and the return of the call are checked."),
    "C04": pool("Tasks are scheduled at equal, past, near and far times from several threads while the wall clock drifts, stalls and jumps; starts are compared with due times, and no overdue task may wait while the system is idle."),
    "C05": pool("Threads wait with both waiting functions while others submit, tasks submit tasks and the pool is shrunk, also to zero; returns are compared with the tasks accepted before the call, and blocked waits with the state whenever the system is idle."),
    "C06": pool("The pool is resized up, down and to zero while busy; whenever the system is at rest all size queries are compared with the work outstanding."),
    "C07": pool("The pool is destroyed while tasks are running, waiting, scheduled, submitting tasks or resizing, with both stop actions, also right after shrinking and with all workers held in gated tasks."),
    "C08": pool("All operations from many threads, tasks and destructors of captured state, with a happens-before race detector, use-after-free detection and deadlock detection."),
    "C09": pool("Thread creation and allocations fail inside constructor and calls; reported failures, later execution of failed submissions and completion of accepted ones are checked."),
    "K01": lru("Up to five threads call all operations of one safe cache (in part of the runs with failing allocations, copies and comparisons); the recorded calls and returns, and a final probe of content and order, are searched for an order in which a sequential LRU model gives the same results."),
    "K02": lru("Long operation sequences, copies, moves, swaps and self-assignment, with allocations and key and value operations failing at any point; after every call the results (in part of the runs also all keys, size and capacity) are compared with the set of model states the call may have led to, and the order with evictions at the end."),
    "S01": small("scope.hpp", "std::function, std::stack and the C++ exception runtime", "Generated programs of nested scopes, guards, throws, handlers, destructors and tasks (counting, throwing, empty, adding to their own or an outer guard, or running scopes of their own) run on up to four threads; every start of a task and every end of a scope is compared with the list of tasks added.",
                 "Up to about 40 statements per thread, nested up to 7 deep.", ["tasks end by returning or by a C++ exception", "before C++17 the standard library cannot tell new exceptions from older ones: success and fail guards made during unwinding are not checked there"], ("scope", 200000), ("scope14", 50000)),
    "T01": small("stopwatch.hpp", "std::chrono of libstdc++", "Sequences of all operations on up to three stopwatches while the clock stands still, drifts, passes days and (system clock) jumps, with concurrent readers; each result is compared with the clock values the call can have read.",
                 "Three clocks: the default steady clock, the system clock and a clock of 1/1024 s.", ["no overflow of the clock's representation"], ("stopwatch", 150000), ("stopwatch_sys", 100000), ("stopwatch_ticks", 100000)),
    "P01": small("platform.hpp", "the calendar functions of glibc", "Threads start, end, ask for their id and convert times in seven time zones at the same time; ids are compared over the threads alive (which may get the ids of dead ones, and ids far apart), conversions with an independent calendar.",
                 "Up to about 40 threads; times from year -1900 to the far future.", ["the time zone does not change while the program runs"], ("platform", 150000), ("platform14", 30000)),
    "P02": small("locale.hpp", "std::locale and std::ctype of libstdc++, locale data of glibc", "Several threads make the first calls of all accessors at once while loading a locale or allocating memory fails; objects, names and facets are compared.",
                 "Up to 6 threads; locales C, POSIX, C.UTF-8 and en_US.UTF-8.", ["PLUTO_LOCALE_NO_STATIC is left at its default (with 1 the accessors return by value and nothing is shared)"], ("platform", 100000), ("platform14", 30000)),
    "M01": small("string.hpp, unicode.hpp, container.hpp, iterator.hpp, compare.hpp and locale.hpp", "std::basic_string, std::vector, std::list, std::set, std::locale and streams of libstdc++", "Up to five threads call the functions with arguments of their own and with shared ones, in part of the runs as the first calls of the process and with allocations and the loading of the locale failing; every result is compared with a naive model, arguments with copies of them, and memory with what was in use before.",
                 "Workloads of up to about 50 calls; strings of up to 400 (rarely 9,000) characters of four character types, containers of up to 70 (rarely 3,000) elements; well-formed Unicode, separators that are not empty, the en_US.UTF-8 and C locales; results of functions that use streams are compared only if no allocation failed in the call.", ["functions passed by the caller and the caller's character and element types behave", "C++17 and C++20 (the container functions use std::size, which g++ does not have before)"], ("utils", 110000), ("utils17", 30000)),
}

PURE = "the value of a pure function for every argument: no thread, clock, timer, I/O, fault or other party for the property to depend on, so there is nothing to simulate (what schedules, faults and earlier calls can do to these functions is M01)"
NOT_APPLICABLE = {"U0%d" % i: PURE for i in range(1, 7)}

BINARIES = {}
for _p, _c in PROPS.items():
    for _v, _, _ in _c["thorough"]:
        BINARIES.setdefault(_v, []).append(_p)
