// Deterministic simulation runtime: internals shared by rt.cpp and rt_fs.cpp. No C++ library headers:
// these files are compiled without instrumentation and must not emit templates the scenarios also use.
#pragma once
#include "rt.hpp"
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

namespace dst
{
    constexpr int MAXT = 128;
    constexpr u64 NEVER = ~0ull;

    enum State : int
    {
        T_RUN = 0, T_MUTEX, T_COND, T_SLEEP, T_JOIN, T_GATE, T_FUTEX, T_RW, T_ONCE, T_FS, T_QUIET, T_QUIET_TIMERS, T_DEAD
    };
    extern const char* const state_names[];

    struct Sync;

    struct Thread
    {
        int  id;
        volatile int go;
        int  state;
        int  depth;             // > 0: harness mode
        bool armed;             // allocation and thread-creation failures allowed
        bool lib;               // created by the code under test
        bool detached, joined, frozen;
        u64  stalledUntil;      // step
        u64  spurAt;            // step of a spurious wake-up
        Sync* obj;              // what it waits for
        bool timed, timedOut;
        int  clock;             // 0 monotonic, 1 wall
        i64  deadline;          // ns on that clock
        u64  waitSeq;           // FIFO order of waiters
        const volatile bool* gate;
        int  joinTarget;
        u32  vc[MAXT];
        u32  relFence[MAXT];
        bool hasRelFence;
        u32  acqFence[MAXT];
        u32  idx[K_COUNT];
        u32  faults[K_COUNT];   // injected on this thread
        u64  nacc, preemptAt;
        int  traceCur, traceEnd;        // pending forced preemptions (replay)
        u64  prio;
        u32  consec;
        void* retval;
        void* (*startRoutine)(void*);
        void* arg;
        u64  pself;
        long tid;
        pthread_t real;
        char op[24];
        u64  birth;             // event number at creation
        int  parent;
        i64  clkMin, clkMax;    // values read from a clock since reset_clock_reads
        int  clkReads;
    };

    struct Sync
    {
        u64  addr;
        int  owner;             // mutex / rwlock writer / once runner, -1 if free
        int  count;             // recursion or readers
        u32  readers[MAXT / 32];
        u32  vc[MAXT];          // released clock
        u32  rvc[MAXT];         // rwlock: readers' releases
    };

    extern __thread Thread* tl_self __attribute__((tls_model("initial-exec")));
    extern bool g_on;
    extern u64 g_now, g_step;
    extern Knobs K;

    bool active();                          // called on a simulated thread of a running simulation
    void point(int code, u64 addr);         // scheduling point
    void block_self();                      // state is set; returns when runnable again
    void wake(Thread*);
    void fatal(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
    void mix(u64 v);
    void sleep_until_mono(u64 when);
    void* real_sym(const char* name);
    Thread* thread_of(int id);
    int nthreads();

    // fs hooks into the scheduler
    void fs_init();
    void fs_unfreeze_wake();
}

#define DST_ACTIVE (::dst::g_on && ::dst::tl_self)
