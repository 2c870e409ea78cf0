// Deterministic simulation runtime: scheduler, synchronisation, clocks, memory and race detection.
// The code under test runs on real threads of which exactly one is released at any time; the
// functions below replace the C library's threading, time and allocation entry points.
#include "rt_int.hpp"
#include <dlfcn.h>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>

extern "C" char __data_start, _end, __executable_start, etext;
namespace std { typedef void (*terminate_handler)(); terminate_handler set_terminate(terminate_handler) noexcept;
    class bad_alloc_probe; }

namespace dst
{
    const char* const kind_names[K_COUNT] = { "sched", "preempt", "notify", "spurious", "stall", "clockjump", "alloc",
        "thread", "copy", "io_open", "io_mkdir", "io_rename", "io_unlink", "io_stat", "io_cwd", "io_short", "io_eintr",
        "io_write", "io_stall", "io_crash", "locale", "task", "extern" };
    const char* const state_names[] = { "runnable", "mutex", "cond", "sleep", "join", "gate", "futex", "rwlock", "once",
        "fs", "quiesce", "quiesce", "dead" };

    __thread Thread* tl_self __attribute__((tls_model("initial-exec"))) = nullptr;
    Result* R = nullptr;
    bool g_on = false;
    u64 g_now = 0, g_step = 0;
    Knobs K;

    static ExecConfig X;
    static Thread* T[MAXT];
    static int nT = 0;
    static Thread* volatile cur = nullptr;
    static Rng rngSched(1), rngFault(1), rngPre(1);
    static i64 g_wallOff = 0, g_wallMax = 0;
    static u64 g_nextTimer = NEVER;
    static u64 g_waitSeq = 0, g_event = 0, g_spurMin = NEVER;
    static u64 g_hash = 0, g_shash = 0;
    static u64 g_accTotal = 0;
    static u32 g_faults = 0;
    static bool g_faultOn = true, g_log = false;
    static void (*g_idle)(u64) = nullptr;
    static u64 g_burstUntil = 0; static bool g_burstHigh = false;
    static u64 g_lowPrio = 1u << 20;
    static u64 pctPoints[16]; static int nPct = 0;
    static int g_biased = -1;
    static u32 hbslot[16][MAXT];
    static u64 g_deadSelf[MAXT]; static int nDeadSelf = 0;  // reusable fake ids
    static long g_nextTid = 5000, g_tidStride = 1; static bool g_reuseTids; static long g_deadTid[MAXT]; static int nDeadTid; static u64 g_nextSelf = 0;
    static volatile int g_mainGo = 0;

    Thread* thread_of(int id) { return T[id]; }
    int nthreads() { return nT; }

    // ---- small helpers --------------------------------------------------------------------------
    static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
    {
        long r;
        register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
        __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        return r;
    }
    void* real_sym(const char* name)
    {
        void* p = dlsym(RTLD_NEXT, name);
        return p;
    }
    void mix(u64 v)
    {
        g_hash ^= v; g_hash *= 0x100000001B3ull; g_hash ^= g_hash >> 29;
    }
    static void smix(u64 v) { g_shash ^= v; g_shash *= 0x9E3779B97F4A7C15ull; g_shash ^= g_shash >> 31; }
    static u64 hash2(u64 a, u64 b)
    {
        u64 z = a * 0x9E3779B97F4A7C15ull + b * 0xC2B2AE3D27D4EB4Full + 0x165667B19E3779F9ull;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    static void logline(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    static void logline(const char* fmt, ...)
    {
        if (!g_log) return;
        char b[512]; int n = snprintf(b, 64, "[%6llu t=%lluns T%d] ", (unsigned long long)g_step, (unsigned long long)g_now, tl_self ? tl_self->id : -1);
        va_list ap; va_start(ap, fmt); n += vsnprintf(b + n, sizeof b - (size_t)n - 2, fmt, ap); va_end(ap);
        if (n > (int)sizeof b - 2) n = sizeof b - 2;
        b[n++] = '\n';
        raw(SYS_write, 2, (long)b, n);
    }
    static void finish(int verdict)
    {
        g_on = false;
        R->verdict = verdict; R->hash = g_hash; R->schedHash = g_shash; R->steps += g_step; R->simNs = g_now;
        R->accesses += g_accTotal; R->threads = (u32)nT;
        raw(SYS_exit_group, 0);
        __builtin_unreachable();
    }
    void fatal(const char* fmt, ...)
    {
        va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
        strcpy(R->cls, "error");
        finish(V_ERROR);
        __builtin_unreachable();
    }
    void fail(const char* cls, const char* fmt, ...)
    {
        snprintf(R->cls, sizeof R->cls, "%s", cls);
        va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
        if (g_hash) mix(hash2((u64)strlen(R->msg), g_step));
        logline("VIOLATION %s: %s", R->cls, R->msg);
        finish(V_VIOLATION);
        __builtin_unreachable();
    }
    void finish_ok() { finish(V_OK); __builtin_unreachable(); }
    void finish_crashed() { finish(V_CRASHED); __builtin_unreachable(); }
    bool in_sim() { return g_on && tl_self; }
    bool active() { return g_on && tl_self; }

    static void dump_threads(char* b, size_t n)
    {
        size_t o = 0; b[0] = 0;
        for (int i = 0; i < nT && o + 80 < n; ++i)
            if (T[i]->state != T_DEAD)
                o += (size_t)snprintf(b + o, n - o, "T%d:%s%s@%s ", i, state_names[T[i]->state], T[i]->frozen ? "(frozen)" : "", T[i]->op);
    }

    // ---- choices --------------------------------------------------------------------------------
    static u32* trTab = nullptr; static u32 trMask = 0;
    static u64 ckey(int kind, int tid, u32 idx) { return ((u64)kind << 48) ^ ((u64)(tid & 0xffff) << 32) ^ idx; }
    static void trace_init()
    {
        if (!X.replay) return;
        u32 n = 64; while (n < (u32)X.ntrace * 2 + 2) n *= 2;
        trMask = n - 1;
        trTab = (u32*)mmap(nullptr, n * sizeof(u32), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (int i = 0; i < X.ntrace; ++i)
        {
            u32 h = (u32)hash2(ckey(X.trace[i].kind, X.trace[i].tid, X.trace[i].idx), 7) & trMask;
            while (trTab[h]) h = (h + 1) & trMask;
            trTab[h] = (u32)i + 1;
        }
    }
    static u32 trace_get(int kind, int tid, u32 idx)
    {
        tid += 1000 * X.phase;
        u32 h = (u32)hash2(ckey(kind, tid, idx), 7) & trMask;
        for (; trTab[h]; h = (h + 1) & trMask)
        {
            const Choice& c = X.trace[trTab[h] - 1];
            if (c.kind == kind && c.tid == tid && c.idx == idx) return c.value;
        }
        return 0;
    }
    static void trace_put(int kind, int tid, u32 idx, u32 value)
    {
        tid += 1000 * X.phase;
        if (R->ntrace < MAX_TRACE) R->trace[R->ntrace++] = Choice{ kind, tid, idx, value };
        else R->traceOverflow = true;
    }
    static u64 next_preempt_from_trace(Thread* t)
    {
        // traces keep preemptions of one thread in increasing order of idx
        while (t->traceCur < X.ntrace)
        {
            const Choice& c = X.trace[t->traceCur];
            if (c.kind == K_PREEMPT && c.tid == t->id + 1000 * X.phase && c.idx > t->nacc) return c.idx;
            ++t->traceCur;
        }
        return NEVER;
    }
    static u64 geometric(u32 per10k)
    {
        if (!per10k) return NEVER;
        u64 mean = 10000 / per10k; if (!mean) mean = 1;
        return 1 + rngPre.below(2 * mean);
    }
    static void set_preempt(Thread* t)
    {
        if (X.replay) t->preemptAt = next_preempt_from_trace(t);
        else { u64 g = geometric(K.plainPm); t->preemptAt = g == NEVER ? NEVER : t->nacc + g; }
    }

    u32 my_faults(Kind k) { return tl_self->faults[k]; }
    bool budget_left() { return g_faults < K.faultBudget; }
    void set_fault_enabled(bool on) { g_faultOn = on; }
    bool fault_enabled() { return g_faultOn; }
    void count_fault(Kind k) { ++R->fired[k]; ++g_faults; }

    u32 choose(Kind k, u32 n, u32 per10k)
    {
        Thread* t = tl_self;
        u32 idx = t->idx[k]++;
        u32 v = 0;
        if (X.replay) { v = trace_get(k, t->id, idx); if (v > n) v = n; }
        else if (per10k && n && g_faultOn && g_faults < K.faultBudget && rngFault.below(10000) < per10k)
            v = 1 + (u32)rngFault.below(n);
        if (v)
        {
            trace_put(k, t->id, idx, v);
            ++R->fired[k]; ++g_faults; ++t->faults[k];
            mix(hash2((u64)k * 1000 + v, g_step)); smix((u64)k * 77 + v);
            logline("fault %s = %u", kind_names[k], v);
        }
        return v;
    }
    // a choice which is not a fault (notify order): no budget
    static u32 choose_free(Kind k, u32 n, u32 per10k)
    {
        Thread* t = tl_self;
        u32 idx = t->idx[k]++;
        u32 v = 0;
        if (X.replay) { v = trace_get(k, t->id, idx); if (v >= n) v = 0; }
        else if (n > 1 && rngSched.below(10000) < per10k) v = (u32)rngSched.below(n);
        if (v) { trace_put(k, t->id, idx, v); ++R->fired[k]; }
        return v;
    }

    // ---- baton ------------------------------------------------------------------------------------
    static void futex_wait(volatile int* p, int v) { raw(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0); }
    static void futex_wake(volatile int* p) { raw(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1); }
    static void give(Thread* t)
    {
        cur = t;
        __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
        futex_wake(&t->go);
    }
    static void await(Thread* t)
    {
        while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) futex_wait(&t->go, 0);
        t->go = 0;
    }

    // ---- clocks -----------------------------------------------------------------------------------
    static i64 wall_now() { return (i64)K.wallBase + (i64)g_now + g_wallOff; }
    static void note_wall() { i64 w = wall_now(); if (w > g_wallMax) g_wallMax = w; }
    u64 now_ns() { return g_now; }
    i64 wall_ns() { return wall_now(); }
    i64 wall_max_ns() { note_wall(); return g_wallMax; }
    constexpr i64 MONO_BASE = 1000000000000ll;

    static u64 deadline_mono(const Thread* t)      // simulated monotonic ns at which t's wait times out
    {
        i64 d = t->deadline;
        if (t->clock == 1 && (__builtin_sub_overflow(d, (i64)K.wallBase, &d) || __builtin_sub_overflow(d, g_wallOff, &d))) return t->deadline < 0 ? 0 : (u64)1 << 62;
        return d < 0 ? 0 : (u64)d;
    }
    static void recompute_timers()
    {
        g_nextTimer = NEVER;
        for (int i = 0; i < nT; ++i)
            if (T[i]->timed && (T[i]->state == T_COND || T[i]->state == T_SLEEP || T[i]->state == T_FUTEX || T[i]->state == T_MUTEX || T[i]->state == T_RW))
            {
                u64 d = deadline_mono(T[i]);
                if (d < g_nextTimer) g_nextTimer = d;
            }
    }
    static void fire_timers()
    {
        if (g_now < g_nextTimer) return;
        for (int i = 0; i < nT; ++i)
        {
            Thread* t = T[i];
            if (t->timed && (t->state == T_COND || t->state == T_SLEEP || t->state == T_FUTEX || t->state == T_MUTEX || t->state == T_RW) && deadline_mono(t) <= g_now)
            {
                t->timedOut = true; t->timed = false; t->state = T_RUN; t->spurAt = NEVER;
                mix(hash2(0x7171, (u64)t->id));
            }
        }
        recompute_timers();
    }
    void jump_wall(i64 delta)
    {
        note_wall(); g_wallOff += delta; note_wall();
        mix(hash2(0x3131, (u64)delta));
        logline("wall clock jumps by %lld ns", (long long)delta);
        recompute_timers(); fire_timers();
    }

    // ---- scheduler --------------------------------------------------------------------------------
    static bool can_run(const Thread* t) { return t->state == T_RUN && !t->frozen && t->stalledUntil <= g_step; }

    static int runnable(Thread** out)
    {
        int n = 0;
        for (int i = 0; i < nT; ++i) if (can_run(T[i])) out[n++] = T[i];
        return n;
    }
    static void spurious_check()
    {
        if (g_step < g_spurMin) return;
        g_spurMin = NEVER;
        for (int i = 0; i < nT; ++i)
        {
            Thread* t = T[i];
            if (t->state != T_COND || t->spurAt == NEVER) continue;
            if (t->spurAt <= g_step) { t->spurAt = NEVER; t->state = T_RUN; t->timed = false; }
            else if (t->spurAt < g_spurMin) g_spurMin = t->spurAt;
        }
        recompute_timers();
    }

    static void idle_or_die()
    {
        // nobody can run: end stalls first, then quiesce waiters, then the clock
        u64 s = NEVER;
        for (int i = 0; i < nT; ++i)
            if (T[i]->state == T_RUN && !T[i]->frozen && T[i]->stalledUntil > g_step && T[i]->stalledUntil < s) s = T[i]->stalledUntil;
        if (s != NEVER)
        {
            for (int i = 0; i < nT; ++i) if (T[i]->stalledUntil == s) T[i]->stalledUntil = 0;
            return;
        }
        for (int i = 0; i < nT; ++i)
            if (T[i]->state == T_QUIET) { T[i]->state = T_RUN; return; }
        recompute_timers();
        if (g_nextTimer != NEVER)
        {
            ++R->idleJumps;
            if (g_idle)
            {
                Thread* t = tl_self; int d = t->depth; t->depth = 1000;
                g_idle(g_nextTimer);
                t->depth = d;
            }
            if (g_nextTimer > g_now) g_now = g_nextTimer;
            note_wall(); fire_timers();
            return;
        }
        if (g_idle)
        {
            Thread* t = tl_self; int d = t->depth; t->depth = 1000;
            g_idle(NEVER);
            t->depth = d;
        }
        for (int i = 0; i < nT; ++i)
            if (T[i]->state == T_QUIET_TIMERS) { T[i]->state = T_RUN; return; }
        char b[1000]; dump_threads(b, sizeof b);
        fail("deadlock", "no thread can make progress: %s", b);
    }

    static Thread* default_next(Thread* me, Thread** run, int n)
    {
        if (can_run(me) && me->consec < 2000) return me;
        // round robin by id
        for (int i = 0; i < n; ++i) if (run[i]->id > me->id) return run[i];
        return run[0];
    }

    static Thread* strategy_next(Thread* me, Thread** run, int n, Thread* def)
    {
        if (n == 1) return run[0];
        if (can_run(me) && me->consec >= 2000)
        {
            if (K.strategy == S_PCT) me->prio = --g_lowPrio;
            Thread* t = run[rngSched.below((u64)n)];
            return t == me ? def : t;
        }
        switch (K.strategy)
        {
        case S_SEQ:
            return can_run(me) ? me : run[rngSched.below((u64)n)];
        case S_RANDOM:
            if (can_run(me) && !rngSched.chance(K.switchPm)) return me;
            return run[rngSched.below((u64)n)];
        case S_BURST:
            if (g_step >= g_burstUntil)
            {
                g_burstHigh = !g_burstHigh;
                g_burstUntil = g_step + 1 + rngSched.below(g_burstHigh ? 60 : 400);
            }
            if (can_run(me) && !rngSched.chance(g_burstHigh ? 600 : 5)) return me;
            return run[rngSched.below((u64)n)];
        case S_BIASED:
        {
            // one thread is starved: it runs only rarely when others can
            if (g_biased < 0 || (rngSched.chance(3))) g_biased = (int)rngSched.below((u64)nT);
            if (can_run(me) && me->id != g_biased && !rngSched.chance(K.switchPm)) return me;
            Thread* t = run[rngSched.below((u64)n)];
            if (t->id == g_biased && !rngSched.chance(20)) t = run[rngSched.below((u64)n)];
            return t;
        }
        case S_PCT:
        default:
        {
            for (int i = 0; i < nPct; ++i) if (pctPoints[i] == g_step && can_run(me)) me->prio = --g_lowPrio;
            Thread* best = run[0];
            for (int i = 1; i < n; ++i) if (run[i]->prio > best->prio) best = run[i];
            return best;
        }
        }
    }

    static Thread* pick(Thread* me, Kind kind, u32 idx, Thread* forced = nullptr)
    {
        Thread* run[MAXT];
        int n;
        while ((n = runnable(run)) == 0) idle_or_die();
        Thread* def = default_next(me, run, n);
        Thread* t = def;
        if (forced) t = forced;
        else if (X.replay)
        {
            u32 v = trace_get(kind, me->id, idx);
            if (v && (int)v <= nT && can_run(T[v - 1])) t = T[v - 1];
        }
        else t = strategy_next(me, run, n, def);
        if (t != def) trace_put(kind, me->id, idx, (u32)t->id + 1);
        return t;
    }

    static void transfer(Thread* me, Thread* t)
    {
        if (t == me) { ++me->consec; return; }
        me->consec = 0; t->consec = 0;
        ++R->switches;
        mix(hash2((u64)(me->id * 256 + t->id), g_step));
        smix((u64)(me->id * 256 + t->id) + 1);
        bool dead = me->state == T_DEAD;
        give(t);
        if (!dead) await(me);
    }

    static void tick()
    {
        ++g_step;
        if (K.dtMax) g_now += 1 + hash2(X.phase + 11, g_step) % K.dtMax;
        if (g_step > K.stepCap)
        {
            char b[700]; dump_threads(b, sizeof b);
            fail("livelock", "no end after %llu steps: %s", (unsigned long long)g_step, b);
        }
        fire_timers();
        spurious_check();
    }

    void point(int code, u64 addr)
    {
        Thread* me = tl_self;
        if (me->depth) return;
        (void)addr;
        if (cur != me) fatal("T%d runs although T%d has the baton, code %d", me->id, cur->id, code);
        tick();
        smix((u64)code);
        if (K.pm[K_STALL])
        {
            u32 v = choose(K_STALL, 12, K.pm[K_STALL]);
            if (v) me->stalledUntil = g_step + (u64)v * v * 25;
        }
        if (K.pm[K_CLOCKJUMP])
        {
            u32 v = choose(K_CLOCKJUMP, 40, K.pm[K_CLOCKJUMP]);
            if (v)
            {
                static const i64 mag[10] = { 1000, 50000, 1000000, 7000000, 60000000, 900000000, 10000000000ll, 3600000000000ll, 100000, 20000000 };
                i64 d = mag[(v - 1) % 10] * (i64)(1 + (v - 1) / 20);
                jump_wall(((v - 1) / 10) % 2 ? -d : d);
            }
        }
        else ++me->idx[K_CLOCKJUMP];
        Thread* t = pick(me, K_SCHED, me->idx[K_SCHED]++);
        transfer(me, t);
    }

    void block_self()
    {
        Thread* me = tl_self;
        if (cur != me) fatal("T%d blocks although T%d has the baton", me->id, cur->id);
        tick();
        for (;;)
        {
            Thread* t = pick(me, K_SCHED, me->idx[K_SCHED]++);
            transfer(me, t);
            if (me->state == T_RUN) return;
        }
    }
    void wake(Thread* t) { t->state = T_RUN; t->timed = false; t->spurAt = NEVER; }

    static void setop(const char* s) { Thread* t = tl_self; size_t i = 0; for (; s[i] && i < sizeof t->op - 1; ++i) t->op[i] = s[i]; t->op[i] = 0; }

    // ---- sync objects ---------------------------------------------------------------------------
    constexpr u32 MAXSYNC = 60000, SYNCTAB = 1u << 17;
    static Sync* syncs; static u32 nSync = 0; static u32* syncTab;
    static Sync* sync_at(const void* p)
    {
        u64 a = (u64)p;
        u32 h = (u32)(hash2(a, 3)) & (SYNCTAB - 1);
        while (syncTab[h])
        {
            if (syncs[syncTab[h] - 1].addr == a) return &syncs[syncTab[h] - 1];
            h = (h + 1) & (SYNCTAB - 1);
        }
        if (nSync >= MAXSYNC) fail("livelock", "no end: more than %u locks, condition variables and atomics were used", MAXSYNC);
        syncTab[h] = ++nSync;
        Sync* s = &syncs[nSync - 1];
        s->addr = a; s->owner = -1; s->count = 0;
        return s;
    }
    static void vc_join(u32* a, const u32* b) { for (int i = 0; i < nT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
    static void vc_copy(u32* a, const u32* b) { for (int i = 0; i < nT; ++i) a[i] = b[i]; }
    static void acquire(Thread* t, const u32* v) { vc_join(t->vc, v); }
    static void release(Thread* t, u32* v) { vc_join(v, t->vc); ++t->vc[t->id]; }
    static void release_store(Thread* t, u32* v) { vc_copy(v, t->vc); ++t->vc[t->id]; }

    // ---- memory: arena, shadow, race detection ------------------------------------------------------
    constexpr u64 ARENA = 0x100000000000ull, ARENA_SIZE = 512ull << 20;
    constexpr u64 STACKS = ARENA + ARENA_SIZE, STACK_SIZE = 256u << 10, STACKS_SIZE = MAXT * (u64)STACK_SIZE;
    constexpr u64 SPAN = ARENA_SIZE + STACKS_SIZE;
    constexpr u64 SHADOW = 0x110000000000ull, GSHADOW = 0x120000000000ull;
    constexpr u64 POISON = ~0ull;
    static u64 g_brk = ARENA;
    static u64 g_live = 0;
    static u64 g_dataLo, g_dataHi, g_text;
    static u32 g_rot = 0;

    struct Block { u32 magic; u32 size; u32 api; u32 pc; };

    // record: tid 7 | clk 24 | mask 8 | w 1 | atomic 1 | pc 23
    static u64 rec_make(int tid, u32 clk, u32 mask, bool w, bool at, u32 pc)
    {
        return ((u64)tid) | ((u64)(clk & 0xffffff) << 7) | ((u64)mask << 31) | ((u64)w << 39) | ((u64)at << 40) | ((u64)(pc & 0x7fffff) << 41);
    }
    static u64* shadow_of(u64 a)
    {
        if (a - ARENA < SPAN) return (u64*)(SHADOW + ((a - ARENA) & ~7ull) * 4);
        if (a >= g_dataLo && a < g_dataHi) return (u64*)(GSHADOW + ((a - g_dataLo) & ~7ull) * 4);
        return nullptr;
    }

    static void __attribute__((noinline)) report_race(u64 addr, u64 old, bool w, bool at, u64 pc, Thread* t)
    {
        ++R->races;
        u64 opc = g_text + (old >> 41);
        if (X.raceFatal)
            fail("race", "data race on %s memory: %s%s by T%d pc=0x%llx and %s%s by T%d pc=0x%llx",
                addr - ARENA < ARENA_SIZE ? "heap" : (addr - ARENA < SPAN ? "stack" : "global"),
                at ? "atomic " : "", w ? "write" : "read", t->id, (unsigned long long)pc,
                (old >> 40) & 1 ? "atomic " : "", (old >> 39) & 1 ? "write" : "read", (int)(old & 127), (unsigned long long)opc);
        logline("data race pc=0x%llx / pc=0x%llx", (unsigned long long)pc, (unsigned long long)opc);
    }
    static void __attribute__((noinline)) report_uaf(u64 addr, bool w, u64 pc)
    {
        fail("uaf", "%s of freed or out-of-bounds memory at 0x%llx pc=0x%llx", w ? "write" : "read", (unsigned long long)addr, (unsigned long long)pc);
    }

    static inline void granule(Thread* t, u64* s, u32 mask, bool w, bool at, u64 pc, u64 addr)
    {
        u64 mine = rec_make(t->id, t->vc[t->id], mask, w, at, (u32)(pc - g_text));
        int slot = -1;
        for (int i = 0; i < 4; ++i)
        {
            u64 r = s[i];
            if (r == 0) { if (slot < 0) slot = i; continue; }
            if (r == POISON) report_uaf(addr, w, pc);
            u32 rmask = (u32)(r >> 31) & 255;
            if (!(rmask & mask)) continue;
            int rt = (int)(r & 127);
            if (rt == t->id)
            {
                if (rmask == mask && ((r >> 39) & 1) <= (u64)w && ((r >> 40) & 1) >= (u64)at) slot = i;
                continue;
            }
            bool rw = (r >> 39) & 1, rat = (r >> 40) & 1;
            u32 rclk = (u32)(r >> 7) & 0xffffff;
            if (rclk > t->vc[rt])
            {
                if ((w || rw) && !(at && rat)) { report_race(addr, r, w, at, pc, t); }
            }
            else if (w && rmask == mask && slot < 0) slot = i;     // ordered before us and covered
        }
        if (slot < 0) slot = (int)(g_rot++ & 3);
        s[slot] = mine;
    }

    static void do_preempt(Thread* t)
    {
        u32 idx = (u32)t->nacc;
        Thread* to = nullptr;
        Thread* run[MAXT]; int n = runnable(run);
        if (X.replay)
        {
            u32 v = trace_get(K_PREEMPT, t->id, idx);
            if (v && (int)v <= nT && can_run(T[v - 1])) to = T[v - 1];
        }
        else if (n > 1) { to = run[rngSched.below((u64)n)]; }
        set_preempt(t);
        if (to && to != t)
        {
            tick();
            ++R->fired[K_PREEMPT];
            trace_put(K_PREEMPT, t->id, idx, (u32)to->id + 1);
            transfer(t, to);
        }
    }

    static inline void access(u64 a, u64 sz, bool w, bool at, u64 pc)
    {
        Thread* t = tl_self;
        if (!t || t->depth) return;
        ++g_accTotal;
        if (++t->nacc >= t->preemptAt && !at) do_preempt(t);
        if ((g_accTotal & 0xfffff) == 0 && g_accTotal > 80000000ull) fail("livelock", "no end after %llu memory accesses", (unsigned long long)g_accTotal);
        u64* s = shadow_of(a);
        if (!s) return;
        u64 end = a + sz;
        while (a < end)
        {
            u64 g = a & ~7ull; u32 off = (u32)(a - g);
            u32 len = (u32)((g + 8 < end ? g + 8 : end) - a);
            granule(t, s, ((1u << len) - 1) << off, w, at, pc, a);
            a = g + 8; s += 4;
        }
    }
    // an object used by a synchronisation call must be alive
    static void check_obj(const void* p, u64 pc) { access((u64)p, 1, false, true, pc); }

    static void poison(u64 a, u64 len)
    {
        u64* s = shadow_of(a);
        for (u64 i = 0; i < len; i += 8, s += 4) *s = POISON;
    }

    u64 live_blocks() { return g_live; }
    static void* arena_alloc(u64 n, u64 align, u64 pc)
    {
        u64 p = (g_brk + sizeof(Block) + align - 1) & ~(align - 1);
        u64 end = (p + n + 8 + 15) & ~15ull;
        if (end > ARENA + ARENA_SIZE) fail("livelock", "no end: more than %llu MB of memory were requested, the last time %llu bytes", (unsigned long long)(ARENA_SIZE >> 20), (unsigned long long)n);
        g_brk = end;
        Block* b = (Block*)(p - sizeof(Block));
        bool api = tl_self->depth == 0;
        b->magic = 0xA110C8EDu; b->size = (u32)n; b->api = api; b->pc = (u32)pc;
        poison(p - sizeof(Block), sizeof(Block));
        if (api) ++g_live;
        return (void*)p;
    }
    static void arena_free(void* q, u64 pc)
    {
        u64 p = (u64)q;
        Block* b = (Block*)(p - sizeof(Block));
        if (b->magic == 0xDEADBEEFu) fail("uaf", "double free pc=0x%llx", (unsigned long long)pc);
        if (b->magic != 0xA110C8EDu) fail("uaf", "free of a pointer that was not allocated pc=0x%llx", (unsigned long long)pc);
        if (g_on && tl_self && !tl_self->depth) access(p, b->size, true, false, pc);
        b->magic = 0xDEADBEEFu;
        if (b->api) --g_live;
        poison(p, b->size);
    }
    static bool in_arena(const void* p) { return (u64)p - ARENA < ARENA_SIZE; }
    // is there enough known about [p, p+n) of the arena to touch it? used by library shims
    void range_access(const void* p, u64 n, bool w, u64 pc) { access((u64)p, n, w, false, pc); }

    // ---- threads ----------------------------------------------------------------------------------
    static pthread_key_t g_exitKey;
    typedef int (*create_fn)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static create_fn real_create;

    static void thread_exit(void* p)
    {
        Thread* me = (Thread*)p;
        if (!g_on) return;
        // anything this thread still does is in the C library and touches nothing of the simulation
        me->state = T_DEAD;
        ++me->vc[me->id];
        logline("thread ends");
        for (int i = 0; i < nT; ++i) if (T[i]->state == T_JOIN && T[i]->joinTarget == me->id) wake(T[i]);
        if (me->detached && K.reuseIds) g_deadSelf[nDeadSelf++] = me->pself;
        if (nDeadTid < MAXT) g_deadTid[nDeadTid++] = me->tid;
        Thread* t = pick(me, K_SCHED, me->idx[K_SCHED]++);
        tl_self = nullptr;
        me->consec = 0; t->consec = 0;
        ++R->switches;
        mix(hash2((u64)(me->id * 256 + t->id), g_step)); smix((u64)(me->id * 256 + t->id) + 1);
        give(t);
    }

    static char altstacks[MAXT][16384];
    static void* thread_main(void* p)
    {
        Thread* me = (Thread*)p;
        stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstacks[me->id]; ss.ss_size = sizeof altstacks[0];
        sigaltstack(&ss, nullptr);
        await(me);
        tl_self = me;
        pthread_setspecific(g_exitKey, me);
        me->retval = me->startRoutine(me->arg);
        return nullptr;
    }

    static Thread* new_thread(void* (*fn)(void*), void* arg, int depth)
    {
        if (nT >= MAXT) fail("livelock", "no end: more than %d threads were started", MAXT);
        Thread* t = (Thread*)mmap(nullptr, sizeof(Thread), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        t->id = nT;
        t->state = T_RUN; t->depth = depth; t->startRoutine = fn; t->arg = arg;
        t->birth = g_event; t->parent = tl_self ? tl_self->id : -1;
        t->spurAt = NEVER; t->preemptAt = NEVER; t->joinTarget = -1;
        t->prio = (1ull << 32) + (X.replay ? 0 : rngSched.below(1u << 30));
        if (nDeadSelf) t->pself = g_deadSelf[--nDeadSelf];
        else t->pself = 0x700000000000ull + (++g_nextSelf) * 0x1000;
        if (g_reuseTids && nDeadTid) t->tid = g_deadTid[--nDeadTid];
        else t->tid = (g_nextTid += g_tidStride);
        if (Thread* me = tl_self)
        {
            T[nT++] = t;
            vc_copy(t->vc, me->vc); ++me->vc[me->id];
        }
        else T[nT++] = t;
        t->vc[t->id] = 1;
        set_preempt(t);
        pthread_attr_t a; pthread_attr_init(&a);
        pthread_attr_setstack(&a, (void*)(STACKS + (u64)t->id * STACK_SIZE), STACK_SIZE);
        pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
        int r = real_create(&t->real, &a, thread_main, t);
        if (r) fatal("cannot create a thread: %d", r);
        pthread_attr_destroy(&a);
        logline("creates T%d", t->id);
        return t;
    }
    static Thread* by_pself(u64 v, bool liveOrJoinable)
    {
        for (int i = nT - 1; i >= 0; --i)
            if (T[i]->pself == v && (!liveOrJoinable || (!T[i]->joined && !(T[i]->detached && T[i]->state == T_DEAD)))) return T[i];
        return nullptr;
    }

    struct SpawnArg { void (*fn)(void*); void* arg; };
    static void* spawn_main(void* p) { SpawnArg* s = (SpawnArg*)p; s->fn(s->arg); return nullptr; }
    static SpawnArg spawnArgs[MAXT]; static int nSpawn = 0;
    int spawn(void (*fn)(void*), void* arg)
    {
        SpawnArg* s = &spawnArgs[nSpawn++ % MAXT]; s->fn = fn; s->arg = arg;
        return new_thread(spawn_main, s, 1)->id;
    }
    void join(int id)
    {
        Thread* me = tl_self; Thread* t = T[id];
        setop("harness-join");
        while (t->state != T_DEAD) { me->state = T_JOIN; me->joinTarget = id; block_self(); }
        acquire(me, t->vc);
        if (!t->joined && !t->detached) { t->joined = true; if (K.reuseIds) g_deadSelf[nDeadSelf++] = t->pself; }
    }

    int self() { return tl_self ? tl_self->id : -1; }
    void enter_api() { Thread* t = tl_self; if (t) t->depth -= 1; }
    void leave_api() { Thread* t = tl_self; if (t) t->depth += 1; }
    int push_harness() { Thread* t = tl_self; if (!t) return 0; int d = t->depth; t->depth = d + 1; return d; }
    void pop_harness(int d) { Thread* t = tl_self; if (t) t->depth = d; }
    void arm_alloc(bool on) { tl_self->armed = on; }
    static bool g_armLib; static void (*g_libFault)();
    void arm_library_threads(bool on, void (*fn)()) { g_armLib = on; g_libFault = fn; }
    void yield()
    {
        Thread* me = tl_self; int d = me->depth; me->depth = 0; setop("yield"); point(1, 0); me->depth = d;
    }
    void sleep_until_mono(u64 when)
    {
        Thread* me = tl_self;
        if (when <= g_now) return;
        setop("sleep");
        me->state = T_SLEEP; me->timed = true; me->timedOut = false; me->clock = 0; me->deadline = (i64)when;
        recompute_timers();
        block_self();
    }
    void sleep_ns(u64 ns) { sleep_until_mono(g_now + ns); }
    void block_until(const volatile bool* flag, bool hb)
    {
        (void)hb;
        Thread* me = tl_self; setop("gate");
        while (!*flag) { me->state = T_GATE; me->gate = flag; block_self(); }
    }
    void notify_gates()
    {
        for (int i = 0; i < nT; ++i) if (T[i]->state == T_GATE && *T[i]->gate) wake(T[i]);
    }
    void quiesce(bool timersToo)
    {
        Thread* me = tl_self; setop("quiesce");
        me->state = timersToo ? T_QUIET_TIMERS : T_QUIET;
        block_self();
    }
    u64 event() { u64 e = ++g_event; mix(hash2(0xE0, e)); return e; }
    void note(const char* fmt, ...)
    {
        char b[400]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        if (n > (int)sizeof b - 1) n = sizeof b - 1;
        for (int i = 0; i < n; ++i) g_hash = (g_hash ^ (unsigned char)b[i]) * 0x100000001B3ull;
        logline("%s", b);
    }
    void probe(int id) { if (id >= 0 && id < MAX_PROBES) ++R->probes[id]; }
    void set_idle_hook(void (*fn)(u64)) { g_idle = fn; }
    bool thread_blocked_in_cond(int id) { return T[id]->state == T_COND; }
    int thread_count() { return nT; }
    int live_threads() { int n = 0; for (int i = 0; i < nT; ++i) n += T[i]->state != T_DEAD; return n; }
    bool thread_dead(int id) { return T[id]->state == T_DEAD; }
    u64 thread_birth(int id) { return T[id]->birth; }
    int thread_parent(int id) { return T[id]->parent; }
    u64 last_event() { return g_event; }
    void reset_clock_reads() { tl_self->clkReads = 0; }
    int clock_reads(int id, i64* lo, i64* hi) { *lo = T[id]->clkMin; *hi = T[id]->clkMax; return T[id]->clkReads; }
    long sim_tid(int id) { return T[id]->tid; }
    void set_tids(long first, long stride, bool reuse) { tl_self->tid = g_nextTid = first; g_tidStride = stride; g_reuseTids = reuse; }
    void freeze_thread(int id, bool on) { T[id]->frozen = on; }
    void hb_release(int s) { release(tl_self, hbslot[s]); }
    void hb_acquire(int s) { acquire(tl_self, hbslot[s]); }
    void set_log(bool on) { g_log = on; }

    // ---- process set-up and run -----------------------------------------------------------------------
    static void on_terminate()
    {
        if (g_on && tl_self) fail("terminate", "std::terminate was called on T%d (uncaught exception, or a joinable thread object destroyed)", tl_self->id);
        signal(SIGABRT, SIG_DFL);
        abort();
    }
    static bool g_libraryRanOut;    // memory ran out in a function that is compiled into the standard library
    static void on_signal(int sig, siginfo_t* si, void* uc)
    {
        if (sig == SIGPROF)
        {
            // every 2 s of processor time: has the run come further?
            static u64 last = ~0ull; static int same = 0, all = 0;
            same = g_step == last ? same + 1 : 0; last = g_step;
            if (g_on && R && same < 5 && ++all < 30) return;
            g_hash = 0;
            if (g_on && R) fail("livelock", "no end after 10 s of processor time without a scheduling point");
            raw(SYS_exit_group, 98);
        }
        u64 pc = (u64)((ucontext_t*)uc)->uc_mcontext.gregs[16];
        if (g_on && R)
        {
            const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "SIGILL";
            // an address is part of the message only where it is the same in every process
            if (pc >= g_text && pc < (u64)&etext) fail("crash", "%s on T%d pc=0x%llx", n, tl_self ? tl_self->id : -1, (unsigned long long)pc);
            if (g_libraryRanOut) finish_ok();   // see do_delete
            fail("crash", "%s on T%d in a library", n, tl_self ? tl_self->id : -1);
        }
        (void)si;
        raw(SYS_exit_group, 98);
    }

    void init_process()
    {
        g_text = (u64)&__executable_start;
        g_dataLo = (u64)&__data_start & ~7ull; g_dataHi = (u64)&_end;
        real_create = (create_fn)real_sym("pthread_create");
        auto map = [](u64 at, u64 n) {
            void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            if (p != (void*)at) { fprintf(stderr, "cannot map %llx\n", (unsigned long long)at); _exit(97); }
            madvise(p, n, MADV_NOHUGEPAGE);
        };
        map(ARENA, SPAN);
        map(SHADOW, SPAN * 4);
        map(GSHADOW, (g_dataHi - g_dataLo + 64) * 4);
        syncs = (Sync*)mmap(nullptr, (u64)MAXSYNC * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        syncTab = (u32*)mmap(nullptr, SYNCTAB * sizeof(u32), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        std::set_terminate(on_terminate);
        setenv("TZ", "XST-3:30XDT,M3.2.0,M11.1.0", 1);
        setenv("LC_ALL", "C", 1);
        tzset();
        fs_init();
    }

    static void (*g_mainFn)(void*); static void* g_mainArg;
    static void* sim_main(void*) { g_mainFn(g_mainArg); fail("error", "the scenario returned"); return nullptr; }

    void run(const ExecConfig& x, const Knobs& k, void (*fn)(void*), void* arg)
    {
        // use the kernel's global futex table: per-process tables keep the memory of ended processes alive for seconds
        prctl(78 /* PR_FUTEX_HASH */, 1 /* PR_FUTEX_HASH_SET_SLOTS */, 0, 0, 0);
        X = x; K = k;
        g_hash = 0xcbf29ce484222325ull; g_shash = 0x1234567; g_now = 1000;
        if (x.phase) { g_hash ^= R->hash * 3; g_shash ^= R->schedHash * 3; g_now = R->simNs + 1000; }
        rngSched = Rng(hash2(x.seed, 101)); rngFault = Rng(hash2(x.seed, 202)); rngPre = Rng(hash2(x.seed, 303));
        nPct = 0;
        if (K.strategy == S_PCT && !X.replay)
            for (int i = 0; i < K.pctDepth && i < 16; ++i) pctPoints[nPct++] = 1 + rngSched.below(K.pctSpan ? K.pctSpan : 1);
        R->verdict = V_NONE; R->cls[0] = 0; R->msg[0] = 0; R->hash = 0;
        if (x.phase == 0) { R->races = 0; R->ntrace = 0; R->traceOverflow = false;
            R->switches = R->idleJumps = 0; R->opsDone = 0; R->steps = R->simNs = R->accesses = 0;
            memset(R->fired, 0, sizeof R->fired); memset(R->probes, 0, sizeof R->probes); R->blobLen = 0; memset(R->aux, 0, 4096); }
        trace_init();
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESTART;
        int sigs[] = { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF };
        struct itimerval itv; memset(&itv, 0, sizeof itv); itv.it_value.tv_sec = itv.it_interval.tv_sec = 2; setitimer(ITIMER_PROF, &itv, nullptr);
        for (int s : sigs) sigaction(s, &sa, nullptr);
        pthread_key_create(&g_exitKey, thread_exit);
        g_wallOff = 0; note_wall();
        g_mainFn = fn; g_mainArg = arg;
        Thread* t = new_thread(sim_main, nullptr, 1);
        g_on = true;
        give(t);
        for (;;) futex_wait(&g_mainGo, 0);
    }
}

using namespace dst;
#define PC ((u64)__builtin_return_address(0))

// =====================================================================================================
// compiler hooks (-fsanitize=thread)
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* a) { if (g_on) access((u64)a, n, false, false, PC); } \
    void __tsan_write##n(void* a) { if (g_on) access((u64)a, n, true, false, PC); } \
    void __tsan_unaligned_read##n(void* a) { if (g_on) access((u64)a, n, false, false, PC); } \
    void __tsan_unaligned_write##n(void* a) { if (g_on) access((u64)a, n, true, false, PC); } \
    void __tsan_volatile_read##n(void* a) { if (g_on) access((u64)a, n, false, false, PC); } \
    void __tsan_volatile_write##n(void* a) { if (g_on) access((u64)a, n, true, false, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* a, unsigned long n) { if (g_on) access((u64)a, n, false, false, PC); }
    void __tsan_write_range(void* a, unsigned long n) { if (g_on) access((u64)a, n, true, false, PC); }
    void __tsan_vptr_update(void** a, void*) { if (g_on) access((u64)a, 8, true, false, PC); }
    void __tsan_vptr_read(void** a) { if (g_on) access((u64)a, 8, false, false, PC); }
}

static bool at_begin(const void* a, u64 sz, bool w, u64 pc)
{
    if (!DST_ACTIVE || tl_self->depth) return false;
    setop("atomic");
    point(2, (u64)a);
    access((u64)a, sz, w, true, pc);
    return true;
}
static void at_acq(const void* a, int mo)
{
    Sync* s = sync_at(a);
    if (mo == __ATOMIC_RELAXED) vc_join(tl_self->acqFence, s->vc);
    else acquire(tl_self, s->vc);
}
static void at_rel_store(const void* a, int mo)
{
    Sync* s = sync_at(a);
    if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_ACQ_REL) release_store(tl_self, s->vc);
    else if (tl_self->hasRelFence) vc_copy(s->vc, tl_self->relFence);
    else memset(s->vc, 0, sizeof s->vc);
}
static void at_rel_rmw(const void* a, int mo)
{
    Sync* s = sync_at(a);
    if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_ACQ_REL) release(tl_self, s->vc);
    else if (tl_self->hasRelFence) vc_join(s->vc, tl_self->relFence);
}
static bool mo_acq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
static int mo_load(int mo) { return mo_acq(mo) ? mo : __ATOMIC_RELAXED; }

typedef unsigned __int128 u128;
extern "C"
{
#define ATOMICS(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) \
    { bool s = at_begin((const void*)a, sizeof(T), false, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (s) at_acq((const void*)a, mo); return v; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) \
    { bool s = at_begin((const void*)a, sizeof(T), true, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); if (s) at_rel_store((const void*)a, mo); } \
    RMW(bits, T, exchange, __atomic_exchange_n) RMW(bits, T, fetch_add, __atomic_fetch_add) RMW(bits, T, fetch_sub, __atomic_fetch_sub) \
    RMW(bits, T, fetch_and, __atomic_fetch_and) RMW(bits, T, fetch_or, __atomic_fetch_or) RMW(bits, T, fetch_xor, __atomic_fetch_xor) \
    RMW(bits, T, fetch_nand, __atomic_fetch_nand) \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) \
    { bool s = at_begin((const void*)a, sizeof(T), true, PC); bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
      if (s) { at_acq((const void*)a, mo_load(ok ? mo : fmo)); if (ok) at_rel_rmw((const void*)a, mo); } return ok; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) \
    { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) \
    { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
#define RMW(bits, T, name, fn) \
    T __tsan_atomic##bits##_##name(volatile T* a, T v, int mo) \
    { bool s = at_begin((const void*)a, sizeof(T), true, PC); T o = fn(a, v, __ATOMIC_SEQ_CST); \
      if (s) { at_acq((const void*)a, mo_load(mo)); at_rel_rmw((const void*)a, mo); } return o; }
    ATOMICS(8, unsigned char)
    ATOMICS(16, unsigned short)
    ATOMICS(32, unsigned int)
    ATOMICS(64, unsigned long)
    void __tsan_atomic_thread_fence(int mo)
    {
        if (!DST_ACTIVE || tl_self->depth) return;
        Thread* t = tl_self;
        if (mo_acq(mo)) vc_join(t->vc, t->acqFence);
        if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) { vc_copy(t->relFence, t->vc); t->hasRelFence = true; ++t->vc[t->id]; }
    }
    void __tsan_atomic_signal_fence(int) {}
}

// =====================================================================================================
// operator new and delete
namespace std { struct nothrow_t; enum class align_val_t : size_t; [[noreturn]] void __throw_bad_alloc(); }

static bool alloc_fails()
{
    Thread* t = tl_self;
    if (!t || t->depth || !K.pm[K_ALLOC]) return false;
    if ((!t->armed && (!t->lib || !g_armLib)) || !choose(K_ALLOC, 1, K.pm[K_ALLOC])) return false;
    if (g_libFault) { Harness h; g_libFault(); }
    return true;
}
static void* do_new(size_t n, size_t al, bool nothrow, u64 pc)
{
    if (DST_ACTIVE)
    {
        if (alloc_fails())
        {
            if (!(pc >= g_text && pc < (u64)&etext)) g_libraryRanOut = true;
            if (nothrow) return nullptr;
            std::__throw_bad_alloc();
        }
        return arena_alloc(n, al, pc);
    }
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n ? n : 1);
    if (!p && !nothrow) std::__throw_bad_alloc();
    return p;
}
static void do_delete(void* p, u64 pc)
{
    if (!p) return;
    if (in_arena(p)) arena_free(p, pc);
    else
    {
        if (DST_ACTIVE && (u64)p - STACKS < STACKS_SIZE)
        {
            // Some functions of libstdc++ itself (path::replace_filename) leave a string broken if memory runs out in
            // them; what a run does after that says nothing about the code under test.
            if (g_libraryRanOut && !(pc >= g_text && pc < (u64)&etext)) finish_ok();
            fail("crash", "memory of a stack freed on T%d", tl_self ? tl_self->id : -1);
        }
        free(p);
    }
}
void* operator new(size_t n) { return do_new(n, 16, false, PC); }
void* operator new[](size_t n) { return do_new(n, 16, false, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, true, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, true, PC); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a < 16 ? 16 : (size_t)a, false, PC); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a < 16 ? 16 : (size_t)a, false, PC); }
void operator delete(void* p) noexcept { do_delete(p, PC); }
void operator delete[](void* p) noexcept { do_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, PC); }

// =====================================================================================================
// pthread
#define REAL(ret, name, args, call) static ret (*real_##name) args; \
    static inline ret call_##name args { if (!real_##name) real_##name = (ret(*) args)real_sym(#name); return real_##name call; }

REAL(int, pthread_create, (pthread_t* a, const pthread_attr_t* b, void* (*c)(void*), void* d), (a, b, c, d))
REAL(int, pthread_join, (pthread_t a, void** b), (a, b))
REAL(int, pthread_detach, (pthread_t a), (a))
REAL(int, pthread_mutex_lock, (pthread_mutex_t* m), (m))
REAL(int, pthread_mutex_trylock, (pthread_mutex_t* m), (m))
REAL(int, pthread_mutex_unlock, (pthread_mutex_t* m), (m))
REAL(int, pthread_mutex_destroy, (pthread_mutex_t* m), (m))
REAL(int, pthread_mutex_timedlock, (pthread_mutex_t* m, const timespec* t), (m, t))
REAL(int, pthread_mutex_clocklock, (pthread_mutex_t* m, clockid_t c, const timespec* t), (m, c, t))
REAL(int, pthread_cond_wait, (pthread_cond_t* c, pthread_mutex_t* m), (c, m))
REAL(int, pthread_cond_timedwait, (pthread_cond_t* c, pthread_mutex_t* m, const timespec* t), (c, m, t))
REAL(int, pthread_cond_clockwait, (pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t), (c, m, k, t))
REAL(int, pthread_cond_signal, (pthread_cond_t* c), (c))
REAL(int, pthread_cond_broadcast, (pthread_cond_t* c), (c))
REAL(int, pthread_cond_destroy, (pthread_cond_t* c), (c))
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t* l), (l))
REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t* l), (l))
REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t* l), (l))
REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t* l), (l))
REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t* l), (l))
REAL(int, pthread_once, (pthread_once_t* o, void (*f)()), (o, f))

static bool timer_wait(Thread* me, int clock, i64 deadline)
{
    me->timed = true; me->timedOut = false; me->clock = clock; me->deadline = deadline;
    recompute_timers();
    return true;
}
static i64 ts_ns(const timespec* t)
{
    i64 v;
    if (__builtin_mul_overflow((i64)t->tv_sec, 1000000000ll, &v) || __builtin_add_overflow(v, (i64)t->tv_nsec, &v)) return t->tv_sec < 0 ? INT64_MIN : INT64_MAX;
    return v;
}
// deadline on a C clock -> (clock, deadline) of the simulator
static void conv(clockid_t c, i64 ns, int* clock, i64* dl)
{
    if (c == CLOCK_REALTIME) { *clock = 1; *dl = ns; }
    else { *clock = 0; if (__builtin_sub_overflow(ns, MONO_BASE, dl)) *dl = INT64_MIN; }
}

static int mutex_acquire(pthread_mutex_t* m, bool timed = false, int clock = 0, i64 dl = 0)
{
    Thread* me = tl_self;
    Sync* s = sync_at(m);
    bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    bool errcheck = (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP;
    if (s->owner == me->id)
    {
        if (recursive) { ++s->count; return 0; }
        if (errcheck) return EDEADLK;
    }
    while (s->owner != -1)
    {
        me->state = T_MUTEX; me->obj = s;
        if (timed) timer_wait(me, clock, dl);
        block_self();
        if (timed && me->timedOut && s->owner != -1) return ETIMEDOUT;
    }
    s->owner = me->id; s->count = 1;
    acquire(me, s->vc);
    return 0;
}
static void mutex_release(Sync* s)
{
    s->owner = -1; s->count = 0;
    release(tl_self, s->vc);
    for (int i = 0; i < nT; ++i) if (T[i]->state == T_MUTEX && T[i]->obj == s) wake(T[i]);
}

extern "C"
{
    int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
    {
        if (!DST_ACTIVE) return call_pthread_create(th, attr, fn, arg);
        Thread* me = tl_self;
        setop("pthread_create");
        point(3, 0);
        if (!me->depth && me->armed && K.pm[K_THREAD] && choose(K_THREAD, 1, K.pm[K_THREAD])) return EAGAIN;
        int det = PTHREAD_CREATE_JOINABLE;
        if (attr) pthread_attr_getdetachstate(attr, &det);
        Thread* t = new_thread(fn, arg, 0);
        t->detached = det == PTHREAD_CREATE_DETACHED; t->lib = true;
        access((u64)th, sizeof *th, true, false, PC);
        *th = (pthread_t)t->pself;
        point(4, 0);
        return 0;
    }
    int pthread_join(pthread_t th, void** ret)
    {
        if (!DST_ACTIVE) return call_pthread_join(th, ret);
        Thread* me = tl_self;
        setop("pthread_join");
        point(5, 0);
        Thread* t = by_pself((u64)th, true);
        if (!t || t->detached) { fail("misuse", "join of a thread that is not joinable"); }
        if (t == me) return EDEADLK;
        while (t->state != T_DEAD) { me->state = T_JOIN; me->joinTarget = t->id; block_self(); }
        if (t->joined) fail("misuse", "thread joined twice");
        t->joined = true;
        if (K.reuseIds) g_deadSelf[nDeadSelf++] = t->pself;
        acquire(me, t->vc);
        if (ret) *ret = t->retval;
        return 0;
    }
    int pthread_detach(pthread_t th)
    {
        if (!DST_ACTIVE) return call_pthread_detach(th);
        setop("pthread_detach");
        point(6, 0);
        Thread* t = by_pself((u64)th, true);
        if (!t || t->detached) fail("misuse", "detach of a thread that is not joinable");
        t->detached = true;
        if (t->state == T_DEAD && K.reuseIds) g_deadSelf[nDeadSelf++] = t->pself;
        point(4, 1);
        return 0;
    }
    pthread_t pthread_self()
    {
        if (DST_ACTIVE) return (pthread_t)tl_self->pself;
        static pthread_t (*r)(); if (!r) r = (pthread_t(*)())real_sym("pthread_self");
        return r();
    }
    pid_t gettid()
    {
        if (DST_ACTIVE) return (pid_t)tl_self->tid;
        return (pid_t)raw(SYS_gettid);
    }
    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        if (!DST_ACTIVE) return call_pthread_mutex_lock(m);
        setop("mutex_lock");
        point(7, (u64)m);
        check_obj(m, PC);
        return mutex_acquire(m);
    }
    int pthread_mutex_trylock(pthread_mutex_t* m)
    {
        if (!DST_ACTIVE) return call_pthread_mutex_trylock(m);
        setop("mutex_trylock");
        point(8, (u64)m);
        check_obj(m, PC);
        Sync* s = sync_at(m);
        if (s->owner != -1 && !(s->owner == tl_self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)) return EBUSY;
        return mutex_acquire(m);
    }
    int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t)
    {
        if (!DST_ACTIVE) return call_pthread_mutex_timedlock(m, t);
        point(8, (u64)m); check_obj(m, PC);
        return mutex_acquire(m, true, 1, ts_ns(t));
    }
    int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t)
    {
        if (!DST_ACTIVE) return call_pthread_mutex_clocklock(m, c, t);
        point(8, (u64)m); check_obj(m, PC);
        int k; i64 d; conv(c, ts_ns(t), &k, &d);
        return mutex_acquire(m, true, k, d);
    }
    int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        if (!DST_ACTIVE) return call_pthread_mutex_unlock(m);
        setop("mutex_unlock");
        check_obj(m, PC);
        Sync* s = sync_at(m);
        if (s->owner != tl_self->id) fail("misuse", "unlock of a mutex the thread does not hold pc=0x%llx", (unsigned long long)PC);
        if (--s->count > 0) return 0;
        mutex_release(s);
        point(9, (u64)m);
        return 0;
    }
    int pthread_mutex_destroy(pthread_mutex_t* m)
    {
        if (!DST_ACTIVE) return call_pthread_mutex_destroy(m);
        Sync* s = sync_at(m);
        if (s->owner != -1 && !tl_self->depth) fail("misuse", "a locked mutex is destroyed");
        return 0;
    }

    static int cond_block(pthread_cond_t* c, pthread_mutex_t* m, bool timed, int clock, i64 dl, u64 pc)
    {
        Thread* me = tl_self;
        setop("cond_wait");
        point(10, (u64)c);
        check_obj(c, pc); check_obj(m, pc);
        Sync* s = sync_at(c); Sync* ms = sync_at(m);
        if (ms->owner != me->id) fail("misuse", "condition wait without holding the mutex pc=0x%llx", (unsigned long long)pc);
        int cnt = ms->count;
        me->state = T_COND; me->obj = s; me->waitSeq = ++g_waitSeq; me->timedOut = false; me->timed = false; me->spurAt = NEVER;
        ++s->count;
        mutex_release(ms);
        me->state = T_COND;
        if (timed)
        {
            timer_wait(me, clock, dl);
            if (deadline_mono(me) <= g_now) fire_timers();
        }
        if (K.pm[K_SPURIOUS])
        {
            u32 v = choose(K_SPURIOUS, 10, K.pm[K_SPURIOUS]);
            if (v && me->state == T_COND) { me->spurAt = g_step + (u64)v * v * 4; if (me->spurAt < g_spurMin) g_spurMin = me->spurAt; }
        }
        block_self();
        --s->count;
        bool to = me->timedOut;
        me->timedOut = false; me->timed = false;
        setop("cond_relock");
        mutex_acquire(m);
        ms->count = cnt;
        return to ? ETIMEDOUT : 0;
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (!DST_ACTIVE) return call_pthread_cond_wait(c, m);
        return cond_block(c, m, false, 0, 0, PC);
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
    {
        if (!DST_ACTIVE) return call_pthread_cond_timedwait(c, m, t);
        return cond_block(c, m, true, 1, ts_ns(t), PC);
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t)
    {
        if (!DST_ACTIVE) return call_pthread_cond_clockwait(c, m, k, t);
        int ck; i64 d; conv(k, ts_ns(t), &ck, &d);
        return cond_block(c, m, true, ck, d, PC);
    }
    int pthread_cond_signal(pthread_cond_t* c)
    {
        if (!DST_ACTIVE) return call_pthread_cond_signal(c);
        setop("cond_signal");
        point(11, (u64)c);
        check_obj(c, PC);
        Sync* s = sync_at(c);
        Thread* w[MAXT]; int n = 0;
        for (int i = 0; i < nT; ++i) if (T[i]->state == T_COND && T[i]->obj == s) w[n++] = T[i];
        for (int i = 1; i < n; ++i) for (int j = i; j > 0 && w[j - 1]->waitSeq > w[j]->waitSeq; --j) { Thread* x = w[j]; w[j] = w[j - 1]; w[j - 1] = x; }
        u32 v = choose_free(K_NOTIFY, (u32)n, K.pm[K_NOTIFY]);
        if (n) { wake(w[v]); recompute_timers(); }
        point(12, (u64)c);
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t* c)
    {
        if (!DST_ACTIVE) return call_pthread_cond_broadcast(c);
        setop("cond_broadcast");
        point(13, (u64)c);
        check_obj(c, PC);
        Sync* s = sync_at(c);
        for (int i = 0; i < nT; ++i) if (T[i]->state == T_COND && T[i]->obj == s) wake(T[i]);
        recompute_timers();
        point(14, (u64)c);
        return 0;
    }
    int pthread_cond_destroy(pthread_cond_t* c)
    {
        if (!DST_ACTIVE) return call_pthread_cond_destroy(c);
        Sync* s = sync_at(c);
        for (int i = 0; i < nT; ++i)
            if (T[i]->state == T_COND && T[i]->obj == s) fail("misuse", "a condition variable is destroyed while T%d waits on it", i);
        return 0;
    }

    static bool rw_reads(Sync* s, int id) { return (s->readers[id >> 5] >> (id & 31)) & 1; }
    static int rw_acquire(pthread_rwlock_t* l, bool write, bool tryOnly, bool timed, int clock, i64 dl, u64 pc)
    {
        Thread* me = tl_self;
        setop(write ? "wrlock" : "rdlock");
        point(write ? 15 : 16, (u64)l);
        check_obj(l, pc);
        Sync* s = sync_at(l);
        if (s->owner == me->id) return tryOnly ? EBUSY : EDEADLK;
        while (s->owner != -1 || (write && s->count > 0))
        {
            if (tryOnly) return EBUSY;
            me->state = T_RW; me->obj = s;
            if (timed) timer_wait(me, clock, dl);
            block_self();
            if (timed && me->timedOut && (s->owner != -1 || (write && s->count > 0))) return ETIMEDOUT;
        }
        if (write) { s->owner = me->id; acquire(me, s->vc); acquire(me, s->rvc); }
        else { ++s->count; s->readers[me->id >> 5] |= 1u << (me->id & 31); acquire(me, s->vc); }
        return 0;
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return DST_ACTIVE ? rw_acquire(l, false, false, false, 0, 0, PC) : call_pthread_rwlock_rdlock(l); }
    int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return DST_ACTIVE ? rw_acquire(l, true, false, false, 0, 0, PC) : call_pthread_rwlock_wrlock(l); }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return DST_ACTIVE ? rw_acquire(l, false, true, false, 0, 0, PC) : call_pthread_rwlock_tryrdlock(l); }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return DST_ACTIVE ? rw_acquire(l, true, true, false, 0, 0, PC) : call_pthread_rwlock_trywrlock(l); }
    int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const timespec* t) { return rw_acquire(l, false, false, true, 1, ts_ns(t), PC); }
    int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const timespec* t) { return rw_acquire(l, true, false, true, 1, ts_ns(t), PC); }
    int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const timespec* t) { int k; i64 d; conv(c, ts_ns(t), &k, &d); return rw_acquire(l, false, false, true, k, d, PC); }
    int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const timespec* t) { int k; i64 d; conv(c, ts_ns(t), &k, &d); return rw_acquire(l, true, false, true, k, d, PC); }
    int pthread_rwlock_unlock(pthread_rwlock_t* l)
    {
        if (!DST_ACTIVE) return call_pthread_rwlock_unlock(l);
        Thread* me = tl_self;
        setop("rwunlock");
        check_obj(l, PC);
        Sync* s = sync_at(l);
        if (s->owner == me->id) { s->owner = -1; memset(s->rvc, 0, sizeof s->rvc); release_store(me, s->vc); }
        else if (s->count > 0 && rw_reads(s, me->id)) { --s->count; s->readers[me->id >> 5] &= ~(1u << (me->id & 31)); release(me, s->rvc); }
        else fail("misuse", "unlock of a reader-writer lock the thread does not hold pc=0x%llx", (unsigned long long)PC);
        for (int i = 0; i < nT; ++i) if (T[i]->state == T_RW && T[i]->obj == s) wake(T[i]);
        point(17, (u64)l);
        return 0;
    }

    // once: the control word holds 2 when done; the Sync object tells who is running it
    int pthread_once(pthread_once_t* o, void (*f)())
    {
        if (!DST_ACTIVE) return call_pthread_once(o, f);
        Thread* me = tl_self;
        setop("once");
        point(18, (u64)o);
        check_obj(o, PC);
        Sync* s = sync_at(o);
        for (;;)
        {
            if (__atomic_load_n(o, __ATOMIC_ACQUIRE) == 2) { acquire(me, s->vc); return 0; }
            if (s->owner == -1) break;
            me->state = T_ONCE; me->obj = s; block_self();
        }
        s->owner = me->id;
        acquire(me, s->vc);
        struct Guard { Sync* s; pthread_once_t* o; bool done; ~Guard() {
            s->owner = -1; if (done) { *o = 2; } release(tl_self, s->vc);
            for (int i = 0; i < nT; ++i) if (T[i]->state == T_ONCE && T[i]->obj == s) wake(T[i]); } } g{ s, o, false };
        f();
        g.done = true;
        return 0;
    }

    // function-local statics
    int __cxa_guard_acquire(unsigned long* gp)
    {
        volatile char* g = (volatile char*)gp;
        if (!DST_ACTIVE)
        {
            static int (*r)(unsigned long*); if (!r) r = (int (*)(unsigned long*))real_sym("__cxa_guard_acquire");
            return r(gp);
        }
        Thread* me = tl_self;
        setop("static-init");
        point(19, (u64)g);
        Sync* s = sync_at(gp);
        for (;;)
        {
            if (g[0] == 1) { acquire(me, s->vc); return 0; }
            if (s->owner == -1) break;
            if (s->owner == me->id) fail("misuse", "recursive initialisation of a local static");
            me->state = T_ONCE; me->obj = s; block_self();
        }
        s->owner = me->id;
        acquire(me, s->vc);     // of an attempt that failed
        return 1;
    }
    static void guard_end(unsigned long* gp, bool done)
    {
        Sync* s = sync_at(gp);
        if (done) ((volatile char*)gp)[0] = 1;
        s->owner = -1;
        release(tl_self, s->vc);
        for (int i = 0; i < nT; ++i) if (T[i]->state == T_ONCE && T[i]->obj == s) wake(T[i]);
        point(20, (u64)gp);
    }
    void __cxa_guard_release(unsigned long* gp)
    {
        if (!DST_ACTIVE) { static void (*r)(unsigned long*); if (!r) r = (void (*)(unsigned long*))real_sym("__cxa_guard_release"); r(gp); return; }
        guard_end(gp, true);
    }
    void __cxa_guard_abort(unsigned long* gp)
    {
        if (!DST_ACTIVE) { static void (*r)(unsigned long*); if (!r) r = (void (*)(unsigned long*))real_sym("__cxa_guard_abort"); r(gp); return; }
        guard_end(gp, false);
    }

    // futex, used by std::future, std::atomic::wait, std::latch, ...
    long syscall(long n, ...)
    {
        va_list ap; va_start(ap, n);
        long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
        va_end(ap);
        if (DST_ACTIVE && n == SYS_futex)
        {
            Thread* me = tl_self;
            int op = (int)b & 127;
            bool rt = ((int)b & FUTEX_CLOCK_REALTIME) != 0;
            unsigned* addr = (unsigned*)a;
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
            {
                setop("futex_wait");
                point(21, (u64)a);
                if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (unsigned)c) { errno = EAGAIN; return -1; }
                me->state = T_FUTEX; me->obj = sync_at((char*)addr); me->timed = false; me->timedOut = false; me->waitSeq = ++g_waitSeq;
                if (d)
                {
                    i64 ns = ts_ns((const timespec*)d);
                    if (op == FUTEX_WAIT) timer_wait(me, 0, (i64)g_now + ns);
                    else { int k; i64 dl; conv(rt ? CLOCK_REALTIME : CLOCK_MONOTONIC, ns, &k, &dl); timer_wait(me, k, dl); }
                    if (deadline_mono(me) <= g_now) fire_timers();
                }
                block_self();
                if (me->timedOut) { me->timedOut = false; errno = ETIMEDOUT; return -1; }
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
            {
                setop("futex_wake");
                point(22, (u64)a);
                Sync* s = sync_at((char*)addr);
                long woken = 0;
                while (woken < c)
                {
                    Thread* best = nullptr;
                    for (int i = 0; i < nT; ++i) if (T[i]->state == T_FUTEX && T[i]->obj == s && (!best || T[i]->waitSeq < best->waitSeq)) best = T[i];
                    if (!best) break;
                    wake(best); ++woken;
                }
                point(23, (u64)a);
                return woken;
            }
            fatal("futex operation %d is not simulated", op);
        }
        if (DST_ACTIVE && n == SYS_gettid) return tl_self->tid;
        long r = raw(n, a, b, c, d, e, f);
        if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
        return r;
    }

    // ---- clocks ---------------------------------------------------------------------------------------
    static void fill(timespec* t, i64 ns) { t->tv_sec = ns / 1000000000ll; t->tv_nsec = ns % 1000000000ll; }
    static i64 clk(i64 v)
    {
        Thread* t = tl_self;
        if (!t->clkReads || v < t->clkMin) t->clkMin = v;
        if (!t->clkReads || v > t->clkMax) t->clkMax = v;
        ++t->clkReads;
        return v;
    }
    static void clock_point() { if (!tl_self->depth) { setop("clock"); point(24, 0); note_wall(); } }
    int clock_gettime(clockid_t c, timespec* t)
    {
        if (DST_ACTIVE)
        {
            clock_point();
            if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { fill(t, clk(wall_now())); return 0; }
            if (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME) { fill(t, MONO_BASE + clk((i64)g_now)); return 0; }
            fill(t, (i64)g_now); return 0;
        }
        return (int)raw(SYS_clock_gettime, c, (long)t) < 0 ? -1 : 0;
    }
    int gettimeofday(timeval* tv, void* tz)
    {
        if (DST_ACTIVE)
        {
            clock_point();
            i64 w = wall_now(); tv->tv_sec = w / 1000000000ll; tv->tv_usec = (w % 1000000000ll) / 1000; return 0;
        }
        return (int)raw(SYS_gettimeofday, (long)tv, (long)tz) < 0 ? -1 : 0;
    }
    time_t time(time_t* p)
    {
        time_t r;
        if (DST_ACTIVE) { clock_point(); r = (time_t)(wall_now() / 1000000000ll); }
        else { timespec t; raw(SYS_clock_gettime, CLOCK_REALTIME, (long)&t); r = t.tv_sec; }
        if (p) *p = r;
        return r;
    }
    int nanosleep(const timespec* a, timespec* b)
    {
        if (DST_ACTIVE) { point(25, 0); sleep_until_mono(g_now + (u64)ts_ns(a)); return 0; }
        long r = raw(SYS_nanosleep, (long)a, (long)b); if (r < 0) { errno = (int)-r; return -1; } return 0;
    }
    int clock_nanosleep(clockid_t c, int flags, const timespec* a, timespec* b)
    {
        if (DST_ACTIVE)
        {
            point(25, 0);
            if (!(flags & TIMER_ABSTIME)) { sleep_until_mono(g_now + (u64)ts_ns(a)); return 0; }
            Thread* me = tl_self; int k; i64 d; conv(c, ts_ns(a), &k, &d);
            setop("sleep");
            me->state = T_SLEEP; timer_wait(me, k, d);
            if (deadline_mono(me) <= g_now) fire_timers();
            if (me->state == T_SLEEP) block_self();
            return 0;
        }
        long r = raw(SYS_clock_nanosleep, c, flags, (long)a, (long)b); return r < 0 ? (int)-r : 0;
    }
    int usleep(useconds_t u)
    {
        timespec t; t.tv_sec = u / 1000000; t.tv_nsec = (long)(u % 1000000) * 1000;
        return nanosleep(&t, nullptr);
    }
    unsigned sleep(unsigned s) { timespec t; t.tv_sec = s; t.tv_nsec = 0; nanosleep(&t, nullptr); return 0; }
    int sched_yield()
    {
        if (DST_ACTIVE) { setop("sched_yield"); tl_self->consec += 100; point(26, 0); return 0; }
        return (int)raw(SYS_sched_yield);
    }
    int get_nprocs() { if (DST_ACTIVE) return 3; cpu_set_t s; CPU_ZERO(&s); sched_getaffinity(0, sizeof s, &s); return CPU_COUNT(&s); }
    long sysconf(int n)
    {
        if (DST_ACTIVE && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return 3;
        static long (*r)(int); if (!r) r = (long (*)(int))real_sym("sysconf");
        return r(n);
    }

    // ---- C library functions with hidden shared state ------------------------------------------------
    // localtime and gmtime return a pointer to one static object; other threads may run between the
    // conversion and the caller's use of it.
    static struct tm g_static_tm;
    static struct tm* shared_tm(const time_t* t, bool local)
    {
        struct tm v;
        if (local) localtime_r(t, &v); else gmtime_r(t, &v);
        if (tl_self->depth) { g_static_tm = v; return &g_static_tm; }
        setop("static-tm");
        point(27, 0);
        access((u64)&g_static_tm, sizeof g_static_tm, true, false, PC);
        g_static_tm = v;
        point(28, 0);
        return &g_static_tm;
    }
    struct tm* localtime(const time_t* t)
    {
        if (DST_ACTIVE) return shared_tm(t, true);
        localtime_r(t, &g_static_tm); return &g_static_tm;
    }
    struct tm* gmtime(const time_t* t)
    {
        if (DST_ACTIVE) return shared_tm(t, false);
        gmtime_r(t, &g_static_tm); return &g_static_tm;
    }

    // building a locale: libstdc++ calls __newlocale or newlocale (bound through the PLT)
    void* __newlocale(int mask, const char* name, void* base)
    {
        static void* (*r)(int, const char*, void*); if (!r) r = (void* (*)(int, const char*, void*))real_sym("__newlocale");
        if (DST_ACTIVE && !tl_self->depth)
        {
            setop("newlocale");
            point(29, 0);
            if (K.pm[K_LOCALE] && tl_self->armed && choose(K_LOCALE, 1, K.pm[K_LOCALE])) { errno = ENOENT; return nullptr; }
        }
        return r(mask, name, base);
    }

    // ---- libstdc++ list and tree primitives: make their memory accesses visible ------------------------
}
namespace std
{
    namespace __detail
    {
        struct _List_node_base
        {
            _List_node_base *_M_next, *_M_prev;
            static void swap(_List_node_base&, _List_node_base&) noexcept;
            void _M_transfer(_List_node_base* const, _List_node_base* const) noexcept;
            void _M_hook(_List_node_base* const) noexcept;
            void _M_unhook() noexcept;
        };
        static inline void touch(void* p, bool w, u64 pc) { if (g_on) access((u64)p, 8, w, false, pc); }
        void _List_node_base::_M_hook(_List_node_base* const pos) noexcept
        {
            touch(&_M_next, true, PC); touch(&_M_prev, true, PC); touch(&pos->_M_prev, true, PC); touch(&pos->_M_prev->_M_next, true, PC);
            _M_next = pos; _M_prev = pos->_M_prev; pos->_M_prev->_M_next = this; pos->_M_prev = this;
        }
        void _List_node_base::_M_unhook() noexcept
        {
            touch(&_M_next, false, PC); touch(&_M_prev, false, PC);
            _List_node_base* n = _M_next; _List_node_base* p = _M_prev;
            touch(&p->_M_next, true, PC); touch(&n->_M_prev, true, PC);
            p->_M_next = n; n->_M_prev = p;
        }
        void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
        {
            if (this == last) return;
            touch(&last->_M_prev, true, PC); touch(&first->_M_prev, true, PC); touch(&_M_prev, true, PC);
            touch(&last->_M_prev->_M_next, true, PC); touch(&first->_M_prev->_M_next, true, PC); touch(&_M_prev->_M_next, true, PC);
            last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
            _List_node_base* const tmp = _M_prev;
            _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
        }
        void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
        {
            touch(&x, true, PC); touch(&x._M_prev, true, PC); touch(&y, true, PC); touch(&y._M_prev, true, PC);
            _List_node_base t = x;
            if (x._M_next != &x)
            {
                if (y._M_next != &y)
                {
                    x = y; y = t;
                    x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
                }
                else { y = t; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
            }
            else if (y._M_next != &y) { x = y; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
        }
    }

    // joining or detaching changes the thread object
    class thread { public: u64 id; void join(); void detach(); };
    void thread::join()
    {
        static void (*r)(thread*); if (!r) r = (void (*)(thread*))real_sym("_ZNSt6thread4joinEv");
        if (g_on) access((u64)&id, 8, false, false, PC);
        r(this);
        if (g_on) access((u64)&id, 8, true, false, PC);
    }
    void thread::detach()
    {
        static void (*r)(thread*); if (!r) r = (void (*)(thread*))real_sym("_ZNSt6thread6detachEv");
        if (g_on) access((u64)&id, 8, false, false, PC);
        r(this);
        if (g_on) access((u64)&id, 8, true, false, PC);
    }

    struct _Rb_tree_node_base { int color; _Rb_tree_node_base *parent, *left, *right; };
    static inline void touch_node(const _Rb_tree_node_base* n, bool w, u64 pc) { if (g_on) access((u64)n, 32, w, false, pc); }
    typedef _Rb_tree_node_base NB;
    void _Rb_tree_insert_and_rebalance(const bool left, NB* x, NB* p, NB& h) noexcept
    {
        static void (*r)(bool, NB*, NB*, NB&);
        if (!r) r = (void (*)(bool, NB*, NB*, NB&))real_sym("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
        touch_node(x, true, PC); touch_node(p, true, PC); touch_node(&h, true, PC);
        r(left, x, p, h);
    }
    NB* _Rb_tree_rebalance_for_erase(NB* const z, NB& h) noexcept
    {
        static NB* (*r)(NB*, NB&);
        if (!r) r = (NB * (*)(NB*, NB&))real_sym("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
        touch_node(z, true, PC); touch_node(z->parent, true, PC); touch_node(&h, true, PC);
        return r(z, h);
    }
    NB* _Rb_tree_increment(NB* x) noexcept
    {
        static NB* (*r)(NB*); if (!r) r = (NB * (*)(NB*))real_sym("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
        touch_node(x, false, PC); return r(x);
    }
    const NB* _Rb_tree_increment(const NB* x) noexcept
    {
        static NB* (*r)(const NB*); if (!r) r = (NB * (*)(const NB*))real_sym("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
        touch_node(x, false, PC); return r(x);
    }
    NB* _Rb_tree_decrement(NB* x) noexcept
    {
        static NB* (*r)(NB*); if (!r) r = (NB * (*)(NB*))real_sym("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
        touch_node(x, false, PC); return r(x);
    }
    const NB* _Rb_tree_decrement(const NB* x) noexcept
    {
        static NB* (*r)(const NB*); if (!r) r = (NB * (*)(const NB*))real_sym("_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base");
        touch_node(x, false, PC); return r(x);
    }
}
