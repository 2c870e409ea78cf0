// Deterministic simulation runtime: public interface used by the scenarios and the driver.
#pragma once
#include <cstddef>
#include <cstdint>

namespace dst
{
    typedef std::uint64_t u64;
    typedef std::int64_t  i64;
    typedef std::uint32_t u32;

    struct Rng
    {
        u64 s;
        explicit __attribute__((always_inline)) Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
        __attribute__((always_inline)) u64 next()
        {
            u64 z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        __attribute__((always_inline)) u64 below(u64 n) { return n ? next() % n : 0; }
        __attribute__((always_inline)) i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
        __attribute__((always_inline)) bool chance(u32 perMille) { return below(1000) < perMille; }
    };

    // Kinds of recorded choice. Every nondeterministic decision of a run is one of these.
    enum Kind : int
    {
        K_SCHED = 0,    // which thread runs next (value: thread id + 1)
        K_PREEMPT,      // switch at a plain memory access (value: thread id + 1)
        K_NOTIFY,       // which waiter notify_one wakes (value: index in FIFO order)
        K_SPURIOUS,     // spurious wake-up of a condition-variable waiter
        K_STALL,        // a thread is not scheduled for a while
        K_CLOCKJUMP,    // the wall clock jumps
        K_ALLOC,        // operator new fails
        K_THREAD,       // pthread_create fails
        K_COPY,         // a user type's copy/compare throws (harness)
        K_IO_OPEN,      // open fails
        K_IO_MKDIR,     // mkdir fails
        K_IO_RENAME,    // rename fails
        K_IO_UNLINK,    // unlink fails
        K_IO_STAT,      // stat fails
        K_IO_CWD,       // getcwd fails
        K_IO_SHORT,     // short write
        K_IO_EINTR,     // write interrupted before any byte
        K_IO_WRITE,     // write fails (ENOSPC or EIO)
        K_IO_STALL,     // a file operation takes long
        K_IO_CRASH,     // the process dies at a file operation
        K_LOCALE,       // loading a locale fails
        K_TASK,         // a user task throws (harness)
        K_EXTERN,       // another process removes a file or a directory
        K_COUNT
    };
    extern const char* const kind_names[K_COUNT];

    struct Choice { int kind; int tid; u32 idx; u32 value; };

    enum Strategy : int { S_SEQ = 0, S_RANDOM, S_PCT, S_BURST, S_BIASED, S_COUNT };

    // How the execution of one run is driven.
    struct ExecConfig
    {
        u64  seed       = 1;        // stream for schedule and fault choices
        bool replay     = false;    // take choices from `trace`, defaults elsewhere
        const Choice* trace = nullptr;
        int  ntrace     = 0;
        bool raceFatal  = false;    // a data race ends the run as a violation
        int  phase      = 0;        // 0, or 1 after a simulated process crash
    };

    constexpr int MAX_TRACE = 40000;
    constexpr int MAX_PROBES = 96;
    constexpr u32 BLOB_MAX = 1u << 20;
    constexpr u32 AUX_MAX = 1u << 17;

    enum Verdict : int { V_NONE = 0, V_OK, V_VIOLATION, V_CRASHED, V_ERROR };

    // Lives in memory shared between the driver and the process of one run.
    struct Result
    {
        int  verdict;
        char cls[64];
        char msg[1500];
        u64  hash, schedHash, steps, simNs, accesses;
        u32  switches, threads, races, idleJumps;
        u32  fired[K_COUNT];
        u32  probes[MAX_PROBES];
        u64  opsDone;
        int  ntrace;
        bool traceOverflow;
        u32  blobLen;
        Choice trace[MAX_TRACE];
        char blob[BLOB_MAX];
        char aux[AUX_MAX];      // scenario state that survives a simulated process crash (what the checker knows)
    };
    extern Result* R;

    // Knobs of the runtime, set by the scenario's plan before the run starts.
    struct Knobs
    {
        int  strategy = S_RANDOM;
        u32  switchPm = 100;        // per mille, S_RANDOM / S_BURST / S_BIASED
        u32  plainPm  = 0;          // per 10000, preemption at plain memory accesses
        int  pctDepth = 3;
        u32  pctSpan  = 3000;
        u32  dtMax    = 200;        // simulated nanoseconds per step, at most
        u32  pm[K_COUNT] = {};      // per 10000, rate of each fault kind
        u32  faultBudget = 20;      // injected faults per run (all kinds except scheduling)
        bool reuseIds = true;       // thread ids are reused as on Linux
        u64  stepCap  = 400000;
        u64  wallBase = 1767225600ull * 1000000000ull; // 2026-01-01T00:00:00Z
    };

    // ---- run control -------------------------------------------------------------------------
    void init_process();                                    // once, before anything is forked
    void run(const ExecConfig&, const Knobs&, void (*mainFn)(void*), void* arg);   // in the forked child; never returns
    [[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void finish_ok();
    [[noreturn]] void finish_crashed();
    bool in_sim();

    // ---- harness side -----------------------------------------------------------------------
    // Scenario code runs in "harness mode" (not race checked, no preemption, no fault) except inside Api.
    int  self();
    void enter_api();
    void leave_api();
    int  push_harness();            // returns the previous depth
    void pop_harness(int);
    struct Api { Api() { enter_api(); } ~Api() { leave_api(); } };
    struct Harness { int d; Harness() : d(push_harness()) {} ~Harness() { pop_harness(d); } };

    int  spawn(void (*fn)(void*), void* arg);   // new simulated thread
    void join(int id);
    void yield();
    void sleep_ns(u64 ns);
    void block_until(const volatile bool* flag, bool hb = false);   // harness gate
    void notify_gates();
    void quiesce(bool timersToo);                   // until nobody else can run (and no timer is pending)
    u64  now_ns();                                  // simulated monotonic time
    i64  wall_ns();                                 // simulated wall clock
    i64  wall_max_ns();                             // highest wall clock value so far
    void jump_wall(i64 delta);
    u64  event();                                   // next global event number, also mixed into the hash
    void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // into the event log and the hash
    void probe(int id);
    u32  choose(Kind k, u32 n, u32 per10k);         // harness-made fault decision
    void count_fault(Kind k);
    bool budget_left();
    u32  my_faults(Kind k);                         // injected on this thread so far
    void set_fault_enabled(bool on);                // gate for all injected faults
    bool fault_enabled();
    void arm_alloc(bool on);                        // allocation failures on this thread, inside Api
    void arm_library_threads(bool on, void (*fn)() = nullptr);      // ... and on threads created by the code under test; fn is called at each
    void set_idle_hook(void (*fn)(u64 nextNs));     // called before the clock jumps over idle time
    bool thread_blocked_in_cond(int id);
    int  thread_count();
    int  live_threads();
    bool thread_dead(int id);
    u64  thread_birth(int id);                      // number of the last event before it was created
    int  thread_parent(int id);
    u64  last_event();
    void reset_clock_reads();                       // of this thread
    int  clock_reads(int id, i64* lo, i64* hi);     // system_clock (or, if only that was read, steady_clock) values read since
    long sim_tid(int id);                           // what gettid() returns on that thread
    void set_tids(long first, long stride, bool reuse); // ids of this thread and of those created from now on
    void freeze_thread(int id, bool on);            // never schedule (a stalled disk, for instance)
    void hb_release(int slot);                      // explicit happens-before edge for harness queues
    void hb_acquire(int slot);
    u64  live_blocks();                             // arena blocks allocated by the code under test, not freed
    void set_log(bool on);

    // ---- simulated file system ---------------------------------------------------------------
    namespace fs
    {
        bool        exists(const char* path);
        const char* data(const char* path, std::size_t* len);      // nullptr if there is none
        void        put(const char* path, const char* bytes, std::size_t len);
        void        mkdir_p(const char* path);
        int         count();
        const char* path_at(int i);                 // existing regular files, sorted by path
        void        remove_external(const char* path);
        u64         ops();                          // file operations so far
        void        save_blob();                    // disk image into R->blob
        void        load_blob();
        void        set_crash_at(u64 op, u32 tornPermille);
        void        set_freeze_writes(bool on);     // file operations block until released
        // called before a file is renamed or deleted by the code under test: its path, size and bytes of failed writes to it
        void        set_move_hook(void (*fn)(const char* path, std::size_t len, std::size_t lost));
        int         open_handles();
        bool        is_open(const char* path);
        u64         renames();
        u64         unlinks();
        int         stalled();                      // threads inside a slow or blocked file operation
        u64         opens();                        // files opened so far
        int         write_faults();                 // failing writes so far ...
        u64         write_fault_open(int i);        // ... and opens() at each of them
    }
}
