// Scenario: pluto::thread_pool under a simulated scheduler, clock and failing resources.
#include <pluto/thread_pool.hpp>
#include "plan.hpp"
#include <algorithm>
#include <cstring>
#include <memory>
#include <new>
#include <system_error>

using namespace dst;

namespace
{
    enum { O_ASYNC, O_SYNC, O_AT, O_AFTER, O_WAIT_NONE, O_WAIT_ALL, O_RESIZE, O_QUERY, O_SLEEP, O_OPEN, O_ONSTOP, O_REST, O_SYNCDEF, O_ASYNCDEF, O_SIDE, N_OPS };
    const char* const opNames[] = { "run_async", "run_sync", "run_at", "run_after", "wait_no_waiting", "wait_all", "resize", "query", "sleep", "open_gate", "on_stop", "rest", "run_sync_default", "run_async_default", "other_pool" };
    // what a task does: d = type + 16 * param
    enum { B_PLAIN, B_SLEEP, B_GATE, B_CHILD, B_CHILD_AT, B_DTOR_QUERY, B_DTOR_SUBMIT, B_QUERY, B_RESIZE, B_BUSY, B_NESTED_SYNC, B_DTOR_VALUE, B_SIDE, N_BODY };

    enum { SK_WORKERS = KN_COUNT, SK_CLIENTS, SK_CTORFAULT, SK_INSTANCE, SK_DESTROY, SK_STOP, SK_ARMED, SK_FINALTIMERS, SK_MEM, SK_SIDE, SK_AGAIN, SK_FLOOD, SK_FLOODKIND, SK_END };
    const KnobDef knobDefs[] = { { "workers", 1 }, { "clients", 1 }, { "ctor_faults", 0 }, { "instance", 0 }, { "destroy_mode", 0 }, { "complete_tasks", 0 }, { "faults_in_calls", 0 }, { "final_timers", 0 }, { "faults_in_pool_threads", 0 }, { "second_pool", 0 }, { "pool_again", 0 }, { "flood", 1 }, { "flood_kind", 0 } };

    enum { P_ASYNC, P_SYNC, P_SCHED, P_DUE_RUN, P_WAITNONE, P_WAITALL, P_GROW, P_SHRINK, P_SHRINK0, P_REST, P_RESTBUSY, P_PRIO, P_FIFO, P_CALLFAIL, P_CTORFAIL, P_DESTROY_WAITING, P_DESTROY_COMPLETE,
        P_DESTROY_DROP, P_DTORCALL, P_CHILD, P_IDLESCHED, P_OVERDUE, P_DUEORDER, P_GATED, P_NESTED, P_INSTANCE, P_MEM, P_SIDE, P_SIDE_SYNC, P_AGAIN, P_FLOOD, P_FLOOD16, N_PROBES };
    const char* const probeNames[] = { "run_async", "run_sync", "task_scheduled", "scheduled_task_ran", "wait_no_waiting_blocked", "wait_all_blocked", "grow", "shrink", "shrink_to_zero", "rest_checked", "rest_with_waiting_tasks",
        "priority_order_constrained", "fifo_order_constrained", "call_failed_by_fault", "constructor_failed_by_fault", "destroyed_with_waiting_tasks", "destroyed_completing_tasks", "destroyed_dropping_tasks",
        "captured_state_called_pool", "task_submitted_by_task", "scheduled_while_scheduler_idle", "scheduled_in_the_past", "due_order_constrained", "gated_destruction", "nested_run_sync", "global_instance", "memory_short_in_pool_thread", "task_of_second_pool_used_first", "run_sync_on_second_pool_by_task", "pool_at_the_same_address", "thousands_of_tasks", "over_65536_tasks" };

    #define GENERIC "deadlock,livelock,terminate,crash,uaf,misuse"
    const PropInfo props[] = {
        { "C01", false, GENERIC }, { "C02", false, GENERIC }, { "C03", true, GENERIC }, { "C04", false, GENERIC },
        { "C05", true, GENERIC }, { "C06", false, GENERIC }, { "C07", false, "deadlock,livelock,terminate,crash,uaf,misuse" },
        { "C08", true, "deadlock,livelock,terminate,crash,uaf,misuse,race" }, { "C09", false, "deadlock,livelock,terminate,crash,uaf,misuse" },
    };

#ifdef SIM_STEADY
    i64 clockNow() { return (i64)now_ns(); }
    i64 clockMax() { return (i64)now_ns(); }
    const i64 CLOCK_BASE = 1000000000000ll;     // what the simulated steady clock shows at the start
#else
    const i64 CLOCK_BASE = 0;
    i64 clockNow() { return wall_ns(); }
    i64 clockMax() { return wall_max_ns(); }
#endif
    typedef pluto::thread_pool Pool;
    typedef Pool::clock_type Clock;

    constexpr i64 DISTANT_PAST = INT64_MIN, EPOCH = INT64_MIN + 1;
    constexpr int MAXTASK = 600, NGATE = 6, MAXTH = 128;
    enum { TK_ASYNC, TK_SYNC, TK_SCHED };
    struct Rec
    {
        int kind, prio, body, worker, runs, submitter; i64 param;
        bool failed, acked, started, ended, child;
        u64 subInv, subRet, start, end, prevEnd, queued;    // queued: certainly in the queue from this event on
        i64 due, dueHi, wallRet;     // the due time is in [due, dueHi]
        i64 delay; bool after;
    };
    Rec rec[MAXTASK]; int nRec;
    struct Payload { int in, out; } pay[MAXTASK];

    Pool* pool; bool poolAlive, destroying, destroyed, dropExact, growFailed;
    u64 destroyInv;
    volatile bool gate[NGATE];
    bool allOpen;
    u64 lastEnd[MAXTH]; bool isClient[MAXTH]; u64 opFrom[MAXTH]; bool inSchedOp[MAXTH];
    int running, maxTarget, lowWorkers, targetNow, resizing, nestedInFlight, minTargetEver;
    u64 resizeOverlap, sizedAt;     // sizedAt: the target is targetNow since this event (0: unknown)
    int waitersNone, waitersAll;
    bool resized, closing;
    bool usesInstance, armed;
    const Plan* plan; std::string prop;
    i64 wallBase0;
    volatile bool goDestroy;

    void checkIdle(u64);
    void doOp(const Op& o, bool isMain);

    // tasks of other pools than the one under the full checks: a second pool beside it, and one created where it was
    struct Light { int pool, runs, thread, in, out; bool sync, acked, ended, failed; };
    constexpr int MAXLIGHT = 200;
    Light light[MAXLIGHT]; int nLight;
    Pool* side; int lightWorkers[3], lightRunning[3], poolOf[MAXTH];     // pools: 0 the main one, 1 beside it, 2 after it
    alignas(64) unsigned char place[sizeof(Pool)];
    void ofPool(int which)
    {
        int me = self();
        if (poolOf[me] && poolOf[me] != which + 1) dst::fail("C01,C03:a task ran on a thread of another pool", "T%d has run tasks of two pools", me);
        poolOf[me] = which + 1;
    }

    // the pool pointer, read as the harness: the checks are about the pool, not about this variable
    struct PoolRef { Pool* operator->() const { Harness h; return pool; } } const P;

    struct Guard
    {
        int id;
        explicit Guard(int i) : id(i) {}
        ~Guard();
    };
    // captured by value: every copy calls the pool when it is destroyed
    struct ValueGuard
    {
        int id; bool on;
        ValueGuard(int i, bool o) : id(i), on(o) {}
        ValueGuard(const ValueGuard&) = default;
        ValueGuard(ValueGuard&& o) noexcept : id(o.id), on(o.on) { o.on = false; }
        ~ValueGuard();
    };
    struct TaskFn
    {
        int id; std::shared_ptr<Guard> g; ValueGuard v;
        void operator()() const;
    };

    u64 faultsSoFar() { return (u64)R->fired[K_ALLOC] + R->fired[K_THREAD]; }

    // after a failed resource request every violation is also one of C09
    #define fail(cls, ...) dst::fail(classOf(cls).s, __VA_ARGS__)
    struct Cls { char s[64]; };
    Cls classOf(const char* c)
    {
        Cls r; bool has = false;
        for (const char* p = c; *p && *p != ':'; ++p) if (!std::strncmp(p, "C09", 3)) has = true;
        std::snprintf(r.s, sizeof r.s, "%s%s", faultsSoFar() && !has ? "C09," : "", c);
        return r;
    }

    // runs f as a client of the library; false if it reported a failed resource
    template <class F> bool call(const char* what, F f)
    {
        u64 before = faultsSoFar();
        u32 threads = my_faults(K_THREAD);
        bool ok = true;
        try { Api a; f(); }
        catch (const std::bad_alloc&) { ok = false; }
        catch (const std::system_error&) { ok = false; }
        catch (...) { fail("C09,C01,C03:unexpected exception", "%s threw an exception of an unexpected type", what); }
        if (!ok)
        {
            if (faultsSoFar() == before) fail("C09,C01,C03:call failed without cause", "%s threw although no resource request had failed", what);
            probe(P_CALLFAIL);
        }
        else if (my_faults(K_THREAD) != threads) fail("C09:failure not reported", "%s returned although a thread could not be started", what);
        return ok;
    }

    bool mustPrecede(const Rec& h, const Rec& l, int* why)
    {
        // h was certainly in the queue when l was chosen, unless it had been chosen before
        if (h.failed || l.failed) return false;
        bool before = false;        // h was in the queue before l was
        if (l.kind != TK_SCHED)
            before = h.queued && h.queued < l.subInv;
        else if (h.kind != TK_SCHED)
            before = h.acked && h.wallRet < l.due;
        else
            before = h.acked && h.dueHi < l.due && h.wallRet < l.due;
        if (h.prio > l.prio)
        {
            *why = P_PRIO;
            return before || (h.queued && h.queued <= l.prevEnd);
        }
        if (h.prio == l.prio && before) { *why = h.kind == TK_SCHED && l.kind == TK_SCHED ? P_DUEORDER : P_FIFO; return true; }
        return false;
    }

    int newRec(int kind, int prio, i64 d, bool child)
    {
        if (nRec >= MAXTASK) return -1;
        int id = nRec++;
        Rec& r = rec[id]; r = Rec();
        r.kind = kind; r.prio = prio; r.body = (int)(d % 16); r.param = d / 16; r.child = child; r.worker = -1; r.submitter = self();
        if (r.body < 0 || r.body >= N_BODY) r.body = 0;
        return id;
    }

    // the due time of a run_after call still under way follows from the clock value the library has read
    void refine(Rec& r)
    {
        if (!r.after || r.acked || r.failed) return;
        i64 lo, hi;
        if (clock_reads(r.submitter, &lo, &hi)) { r.due = lo + r.delay; r.dueHi = hi + r.delay; }
    }

    void onStart(int id)
    {
        Rec& r = rec[id]; int w = self(); u64 e = event();
        ++r.runs;
        if (r.runs > 1) fail("C01,C03,C04:a task ran twice", "task %d was started a second time, on T%d", id, w);
        ofPool(0);
        if (isClient[w]) fail("C01,C03,C04,C09:a task ran on a thread of the caller", "task %d was run on client thread T%d", id, w);
        if (destroyed) fail("C07:a task ran after destruction", "task %d was started after the pool's destructor had returned", id);
        if (r.failed) fail("C09,C01:a failed submission was run", "task %d was run although its submission had thrown", id);
        r.start = e; r.started = true; r.worker = w;
        r.prevEnd = lastEnd[w] ? lastEnd[w] : thread_birth(w);
        note("start %d on T%d", id, w);
        if (r.kind == TK_SCHED)
        {
            probe(P_DUE_RUN);
            refine(r);
            if (clockMax() < r.due) fail("C04:a scheduled task ran early", "task %d was run %lld ns before its due time", id, (long long)(r.due - clockMax()));
        }
        ++running;
        if (running > maxTarget) fail("C06,C01:more tasks run than there are workers", "%d tasks run at once but there were never more than %d workers", running, maxTarget);
        if (sizedAt && !destroying && r.prevEnd > sizedAt && running > targetNow)
            fail("C06:a worker did not leave", "T%d started task %d although it had ended another one after the pool was shrunk to %d, and %d tasks run at once", w, id, targetNow, running);
        if (dropExact) fail("C07:a waiting task was not dropped", "task %d was waiting when the pool was destroyed with join_all, but was run", id);
        for (int i = 0; i < nRec; ++i)
        {
            Rec& l = rec[i]; int why = 0;
            if (i == id || !l.started) continue;
            if (l.start < r.start && l.start <= r.prevEnd && mustPrecede(r, l, &why))
            {
                const char* kind = why == P_PRIO ? "a task of higher priority was passed over" : "an earlier task of the same priority was passed over";
                char cls[64];
                std::snprintf(cls, sizeof cls, "%s:%s", r.kind == TK_SCHED || l.kind == TK_SCHED ? "C02,C04" : r.kind == TK_SYNC ? "C02,C03" : "C02", why == P_PRIO ? "higher priority passed over" : "earlier task passed over");
                fail(cls, "%s: task %d (priority %d, %s) was waiting when task %d (priority %d, %s) was started", kind, id, r.prio, r.kind == TK_SCHED ? "scheduled" : "submitted", i, l.prio, l.kind == TK_SCHED ? "scheduled" : "submitted");
            }
        }
        // how often the order was really constrained (for the evidence)
        for (int i = 0, n = 0; i < nRec && n < 3; ++i)
        {
            int why = 0;
            if (i != id && !rec[i].started && !rec[i].failed && mustPrecede(r, rec[i], &why)) { probe(why); ++n; }
        }
    }
    void onEnd(int id)
    {
        Rec& r = rec[id];
        r.end = event(); r.ended = true; --running;
        lastEnd[self()] = r.end;
        note("end %d", id);
    }

    // ---- submissions ------------------------------------------------------------------------
    void submit(int kind, int prio, i64 delay, i64 d, bool child, bool defPrio, bool after)
    {
        int id = newRec(kind, prio, d, child);
        if (id < 0) return;
        Rec& r = rec[id];
        int me = self();
        pay[id].out = 0;
        std::shared_ptr<Guard> g;
        if (r.body == B_DTOR_QUERY || r.body == B_DTOR_SUBMIT) g = std::make_shared<Guard>(id);
        std::function<void()> fn{ TaskFn{ id, g, ValueGuard{ id, r.body == B_DTOR_VALUE } } };
        g.reset();
        r.subInv = event();
        opFrom[me] = r.subInv;
        if (child) probe(P_CHILD);
        bool ok;
        if (kind == TK_ASYNC)
        {
            probe(P_ASYNC);
            ok = call("run_async", [&] { pay[id].in = id * 7 + 1; if (defPrio) P->run_async(fn); else if (id % 3) P->run_async(fn, (signed char)prio); else P->run_async(fn, (Pool::priority)prio); });
        }
        else if (kind == TK_SYNC)
        {
            probe(P_SYNC);
            int out = 0;
            ok = call("run_sync", [&] { pay[id].in = id * 7 + 1; if (defPrio) P->run_sync(fn); else if (id % 3) P->run_sync(fn, (signed char)prio); else P->run_sync(fn, (Pool::priority)prio);
                if (rec[id].ended) out = pay[id].out; });
            if (ok)
            {
                if (!r.ended) fail("C03,C01:run_sync returned too early", "run_sync returned before task %d had %s", id, r.started ? "ended" : "started");
                if (out != id * 7 + 2) fail("C03:effect of the task not visible", "the result of task %d is not visible after run_sync", id);
            }
        }
        else
        {
            probe(P_SCHED);
            bool before = false, open = false;
            for (int i = 0; i < id; ++i) if (rec[i].kind == TK_SCHED && rec[i].acked) { before = true; if (!rec[i].started) open = true; }
            if (before && !open) probe(P_IDLESCHED);
            inSchedOp[me] = true;
            if (after)
            {
                r.after = true; r.delay = delay; r.due = clockNow() + delay; r.dueHi = r.due;
                reset_clock_reads();
                ok = call("run_after", [&] { pay[id].in = id * 7 + 1; auto dur = std::chrono::duration_cast<Clock::duration>(std::chrono::nanoseconds(delay)); if (id % 3 == 1) P->run_after(dur, fn, (Pool::priority)prio); else if (prio == PLUTO_THREAD_POOL_PRIORITY_NORMAL && id % 2) P->run_after(dur, fn); else P->run_after(dur, fn, (signed char)prio); });
            }
            else
            {
                i64 at = delay == DISTANT_PAST ? DISTANT_PAST : delay == EPOCH ? 0 : wallBase0 + delay;
                r.due = r.dueHi = at;
#ifdef SIM_STEADY
                Clock::time_point tp = at <= 0 ? at ? Clock::time_point::min() : Clock::time_point() : Clock::now() + std::chrono::nanoseconds(at - clockNow());
#else
                Clock::time_point tp{ std::chrono::duration_cast<Clock::duration>(std::chrono::nanoseconds(at)) };
#endif
                if (at <= clockNow()) probe(P_OVERDUE);
                ok = call("run_at", [&] { pay[id].in = id * 7 + 1; if (id % 3 == 1) P->run_at(tp, fn, (Pool::priority)prio); else if (prio == PLUTO_THREAD_POOL_PRIORITY_NORMAL && id % 2) P->run_at(tp, fn); else P->run_at(tp, fn, (signed char)prio); });
            }
            inSchedOp[me] = false;
        }
        r.wallRet = clockMax();
        refine(r);
        r.subRet = event();
        if (ok) { r.acked = true; if (kind != TK_SCHED) r.queued = r.subRet; }
        else
        {
            r.failed = true;
            if (r.started) fail("C09,C01:a failed submission was run", "task %d was run although its submission threw", id);
        }
        { Api a; fn = nullptr; }
    }

    // ---- tasks --------------------------------------------------------------------------------
    void childFromDtor(int id)
    {
        Harness h;
        probe(P_DTORCALL);
        if (rec[id].body == B_DTOR_QUERY) { Api a; (void)P->tasks_size(); }
        else if (!rec[id].child) submit(TK_ASYNC, rec[id].param % 256 - 128, 0, B_PLAIN, true, false, false);
    }
    Guard::~Guard()
    {
        bool act;
        { Harness h; act = pool && rec[id].ended && !destroyed && !usesInstance; }
        if (act) childFromDtor(id);
    }
    ValueGuard::~ValueGuard()
    {
        if (!on) return;
        Harness h;
        if (!pool || destroyed || usesInstance || destroying) return;
        probe(P_DTORCALL);
        Api a; (void)P->tasks_size(); (void)P->scheduled_tasks_size();
    }
    void doResize(int n);

    // ---- other pools ------------------------------------------------------------------------------
    struct LightFn
    {
        int id; Op op;
        void operator()() const
        {
            {
                Harness h;
                Light& l = light[id];
                event(); note("light %d on T%d", id, self());
                if (++l.runs > 1) fail("C01,C03:a task ran twice", "task %d of pool %d was started a second time", id, l.pool);
                if (isClient[self()]) fail("C01,C03:a task ran on a thread of the caller", "task %d of pool %d was run on client thread T%d", id, l.pool, self());
                ofPool(l.pool);
                if (++lightRunning[l.pool] > lightWorkers[l.pool]) fail("C06,C01:more tasks run than there are workers", "%d tasks of pool %d run at once", lightRunning[l.pool], l.pool);
            }
            light[id].out = light[id].in + 1;
            {
                Harness h;
                if (light[id].out != id * 5 + 4) fail("C08,C03:the submitter's writes are not visible to the task", "task %d of pool %d", id, light[id].pool);
                if (op.code >= 0) { probe(P_SIDE); doOp(op, false); }
                else if (op.b) sleep_ns((u64)op.b);
                event();
                --lightRunning[light[id].pool]; light[id].ended = true;
            }
        }
    };
    void lightSubmit(Pool* p, int which, int how, const Op& op)     // how: 0 asynchronously, 1 synchronously, 2 after a while
    {
        if (nLight >= MAXLIGHT) return;
        int id = nLight++;
        Light& l = light[id]; l = Light{};
        l.pool = which; l.sync = how == 1;
        std::function<void()> fn{ LightFn{ id, op } };
        int out = 0;
        event();
        bool ok = call("a call of another pool", [&] {
            light[id].in = id * 5 + 3;
            if (how == 0) p->run_async(fn, (signed char)op.a);
            else if (how == 1) { p->run_sync(fn); if (light[id].ended) out = light[id].out; }
            else p->run_after(std::chrono::duration_cast<Clock::duration>(std::chrono::nanoseconds(op.b)), fn);
        });
        event();
        if (!ok) { l.failed = true; return; }
        l.acked = true;
        if (how == 1)
        {
            if (!l.ended) fail("C03,C01:run_sync returned too early", "run_sync of pool %d returned before its task %d had ended", which, id);
            if (out != id * 5 + 4) fail("C03:effect of the task not visible", "the result of task %d of pool %d is not visible after run_sync", id, which);
        }
    }
    void lightIdle(int which)
    {
        int waiting = 0;
        for (int i = 0; i < nLight; ++i)
        {
            Light& l = light[i];
            if (l.pool != which || l.failed) continue;
            if (l.sync && l.ended && !l.acked) fail("C03:run_sync does not return", "task %d of pool %d has ended but run_sync has not returned and the system is idle", i, which);
            if (!l.runs && (l.acked || l.sync)) ++waiting;
        }
        if (waiting && lightRunning[which] < lightWorkers[which]) fail("C01,C03:a task is not run", "%d tasks of pool %d wait while %d of %d workers are busy and the system is idle", waiting, which, lightRunning[which], lightWorkers[which]);
    }
    // everything given to the other pool has run, and it says so
    void lightDone(Pool* p, int which)
    {
        static bool before[MAXLIGHT];
        for (int i = 0; i < nLight; ++i) before[i] = light[i].pool == which && light[i].acked;
        { Api a; p->wait_until_all_tasks_complete(); }
        event();
        std::size_t w, t, s;
        { Api a; w = p->workers_size(); t = p->tasks_size(); s = p->scheduled_tasks_size(); }
        for (int i = 0; i < nLight; ++i)
            if (before[i] && !light[i].ended) fail("C01,C05:a task was forgotten", "task %d of pool %d has not ended although all of its tasks are complete", i, which);
        if (which == 1) return;
        if (w != (std::size_t)lightWorkers[which] || t || s) fail("C06:wrong size", "pool %d has %zu workers of %d, %zu tasks and %zu scheduled tasks", which, w, lightWorkers[which], t, s);
    }
    // a pool where another one was before must not be confused with it
    void poolAgain(int n)
    {
        probe(P_AGAIN);
        lightWorkers[2] = n;
        Pool* p; { Api a; p = new (place) Pool((std::size_t)n); }
        { Api a; p->on_stop(Pool::action::complete_tasks); }
        for (int i = 0; i < 3; ++i) lightSubmit(p, 2, 0, Op{ 0, -1, i, i * 1000, 0 });
        lightSubmit(p, 2, 1, Op{ 0, -1, 0, 0, 0 });
        lightSubmit(p, 2, 2, Op{ 0, -1, 0, 5000, 0 });
        quiesce(false);
        for (int i = 0; i < 5000 && !light[nLight - 1].ended; ++i) sleep_ns(20000ull << std::min(i / 20, 40));
        lightDone(p, 2);
        for (int i = 0; i < 3; ++i) lightSubmit(p, 2, 0, Op{ 0, -1, i, i * 1000, 0 });
        { Api a; p->~Pool(); }
        for (int i = 0; i < nLight; ++i) if (light[i].pool == 2 && !light[i].ended) fail("C07,C01:a waiting task was not completed", "task %d of the pool was waiting when it was destroyed with complete_tasks", i);
        quiesce(false);
        if (live_threads() != 1) fail("C07:threads left behind", "%d threads are left after the second pool was destroyed", live_threads() - 1);
    }

    void TaskFn::operator()() const
    {
        { Harness h; onStart(id); }
        int v = pay[id].in;
        pay[id].out = v + 1;
        {
            Harness h;
            if (v != id * 7 + 1) fail("C08,C03:the submitter's writes are not visible to the task", "task %d", id);
            Rec& r = rec[id]; i64 p = r.param;
            switch (r.body)
            {
            case B_SLEEP: sleep_ns((u64)p); break;
            case B_GATE: block_until(&gate[p % NGATE]); break;
            case B_CHILD: if (!r.child || nRec < 200) for (int i = 0; i < 1 + p / 256 % 3; ++i) submit(TK_ASYNC, p % 256 - 128, 0, i ? B_PLAIN : (p / 1024 % 2 ? B_CHILD : B_PLAIN), true, false, false); break;
            case B_CHILD_AT: if (!r.child) submit(TK_SCHED, 0, p, B_PLAIN, true, false, p & 1); break;
            case B_QUERY: { Api a; (void)P->tasks_size(); (void)P->workers_size(); (void)P->scheduled_tasks_size(); } break;
            case B_RESIZE: doResize(1 + p % 4); break;
            case B_BUSY: for (int i = 0; i < 1 + p % 8; ++i) yield(); break;
            case B_NESTED_SYNC:
                if (nestedInFlight < minTargetEver - 1 && !armed && !plan->k(SK_MEM) && !closing)
                {
                    ++nestedInFlight; probe(P_NESTED);
                    submit(TK_SYNC, 127, 0, B_PLAIN, true, false, false);
                    --nestedInFlight;
                }
                break;
            case B_SIDE:
                if (!side || closing) break;
                // with mode 2, tasks wait for those of the second pool, which never wait for them
                if (plan->k(SK_SIDE) == 2) { probe(P_SIDE_SYNC); lightSubmit(side, 1, 1, Op{ 0, -1, 0, p % 2 ? p % 4000 : 0, 0 }); }
                else lightSubmit(side, 1, 0, Op{ 0, -1, p % 100, 0, 0 });
                break;
            default: break;
            }
        }
        { Harness h; onEnd(id); }
    }

    // ---- calls --------------------------------------------------------------------------------
    void doResize(int n)
    {
        event();
        if (n > targetNow) probe(P_GROW); else if (n < targetNow) probe(n ? P_SHRINK : P_SHRINK0);
        resized = true;
        if (n > maxTarget) maxTarget = n;
        if (n < lowWorkers) lowWorkers = n;
        u64 my = ++resizeOverlap; ++resizing; sizedAt = 0;
        bool alone = resizing == 1;
        bool ok = call("target_workers_size", [&] { P->target_workers_size((std::size_t)n); });
        --resizing; event();
        if (destroying) return;
        if (!ok) { growFailed = true; return; }
        if (alone && resizeOverlap == my)
        {
            targetNow = n; lowWorkers = n; growFailed = false; sizedAt = event();
            std::size_t t; { Api a; t = P->target_workers_size(); }
            if (resizeOverlap == my && t != (std::size_t)n && !destroying) fail("C06:wrong target size", "target_workers_size() is %zu after it was set to %d", t, n);
        }
        else { targetNow = -1; }
    }

    void doWait(bool all)
    {
        static int ids[MAXTH][MAXTASK];     // tasks accepted before the call
        int me = self(), n = 0;
        event();
        for (int i = 0; i < nRec; ++i) if (rec[i].queued && !rec[i].failed) ids[me][n++] = i;
        bool must = false;
        for (int i = 0; i < n; ++i) if (!(all ? rec[ids[me][i]].ended : rec[ids[me][i]].started)) must = true;
        if (must) probe(all ? P_WAITALL : P_WAITNONE);
        (all ? waitersAll : waitersNone)++;
        call(all ? "wait_until_all_tasks_complete" : "wait_until_no_tasks_waiting", [&] { if (all) P->wait_until_all_tasks_complete(); else P->wait_until_no_tasks_waiting(); });
        (all ? waitersAll : waitersNone)--;
        event();
        if (all)
        {
            for (int i = 0; i < n; ++i)
            {
                Rec& r = rec[ids[me][i]];
                if (!r.ended) fail("C05:returned while tasks were outstanding", "wait_until_all_tasks_complete returned while task %d, accepted before the call, %s", ids[me][i], r.started ? "was running" : "was waiting");
            }
            int sum = 0;
            { Api a; for (int i = 0; i < n; ++i) sum += pay[ids[me][i]].out != ids[me][i] * 7 + 2; }
            if (sum) fail("C05:effects of finished tasks not visible", "%d tasks", sum);
        }
        else
        {
            int unstarted = 0;
            for (int i = 0; i < n; ++i) unstarted += !rec[ids[me][i]].started;
            // a task that was taken but has not begun needs a worker that is not inside another task
            if (unstarted > maxTarget - running)
                fail("C05:returned while tasks were waiting", "wait_until_no_tasks_waiting returned while %d tasks accepted before the call had not been started and at most %d workers were free", unstarted, maxTarget - running);
        }
    }

    // tasks certainly in the queue or certainly due, not started
    int outstanding(bool started, i64 now)
    {
        int n = 0;
        for (int i = 0; i < nRec; ++i)
        {
            Rec& r = rec[i];
            if (r.failed) continue;
            if (started ? r.started && !r.ended : !r.started && (r.acked || r.kind == TK_SYNC) && (r.kind != TK_SCHED || r.dueHi <= now)) ++n;
        }
        return n;
    }

    // the whole system is idle: nobody can run until a timer fires (or at all)
    void checkIdle(u64 next)
    {
        // the destructor must not sleep until a scheduled time
        if (pool && destroying && !destroyed && !running && next > now_ns() + 1000000000ull)
            fail("C07:destruction waits for the clock", "no task is running, but the destructor has not returned and nothing happens for %lld ns", next >> 62 ? -1ll : (long long)(next - now_ns()));
        if (!pool || !poolAlive || destroying) return;
        i64 now = clockNow();
        for (int i = 0; i < nRec; ++i)
        {
            Rec& r = rec[i];
            if (r.failed) continue;
            if (r.kind == TK_SCHED && r.acked && !r.queued && r.dueHi <= now) r.queued = event();
            if (r.kind == TK_SYNC && !r.acked && !r.queued) r.queued = event();
            if (r.kind == TK_SYNC && r.ended && !r.acked) fail("C03:run_sync does not return", "task %d has ended but run_sync has not returned and the system is idle", i);
        }
        if (side) lightIdle(1);
        bool known = !resizing;
        int wait = outstanding(false, now);
        if (wait && known && running < lowWorkers)
        {
            int first = -1;
            for (int i = 0; i < nRec && first < 0; ++i) if (!rec[i].failed && !rec[i].started && (rec[i].acked || rec[i].kind == TK_SYNC) && (rec[i].kind != TK_SCHED || rec[i].dueHi <= now)) first = i;
            const char* c = rec[first].kind == TK_SCHED ? "C04,C01:a due task is not run" : rec[first].kind == TK_SYNC ? "C03,C01,C06:a task is not run" : "C01,C06:a task is not run";
            if (growFailed) c = "C09:a task is not run";
            fail(c, "task %d waits while only %d of at least %d workers are busy and the system is idle", first, running, lowWorkers);
        }
        // tasks that may have become due while the call was under way count as waiting
        for (int i = 0; i < nRec; ++i) if (!rec[i].failed && !rec[i].started && (rec[i].kind != TK_SCHED || rec[i].due <= clockMax())) ++wait;
        if (!wait && waitersNone) fail("C05:a waiting call does not return", "wait_until_no_tasks_waiting is blocked although no task is waiting and the system is idle");
        if (!wait && !running && waitersAll) fail("C05:a waiting call does not return", "wait_until_all_tasks_complete is blocked although all tasks are complete and the system is idle");
    }

    // at rest the sizes must tell exactly what is outstanding
    void doRest()
    {
        quiesce(false);
        checkIdle(now_ns());
        event();
        i64 t0 = clockNow(); u64 e0 = event();
        std::size_t workers, target, act, ww, ts, at, wt, st;
        {
            Api a;
            workers = P->workers_size(); target = P->target_workers_size(); act = P->active_workers_size(); ww = P->waiting_workers_size();
            ts = P->tasks_size(); at = P->active_tasks_size(); wt = P->waiting_tasks_size(); st = P->scheduled_tasks_size();
        }
        i64 t1 = clockNow(), hi = clockMax();
        if (last_event() != e0 || resizing) return;
        std::size_t running0 = (std::size_t)running, waitLo = 0, sched = 0, amb = 0;
        for (int i = 0; i < nRec; ++i)
        {
            Rec& r = rec[i];
            if (r.failed || r.started) continue;
            if (!r.acked && r.kind != TK_SYNC) return;      // a submission is under way
            if (r.kind != TK_SCHED || r.dueHi <= t0) ++waitLo;
            else if (r.due <= t1) return;
            else if (r.due <= hi) ++amb;
            else ++sched;
        }
        if (amb) return;    // the clock went back: may or may not have been handed over
        probe(P_REST); if (waitLo) probe(P_RESTBUSY);
        if (targetNow >= 0 && !growFailed && target != (std::size_t)targetNow) fail("C06:wrong target size", "target_workers_size() is %zu, set was %d", target, targetNow);
        std::size_t expect = std::max(target, running0);
        if (growFailed ? workers > expect || workers < running0 : workers != expect)
            fail("C06:wrong number of workers", "at rest there are %zu workers, target %zu, %zu busy", workers, target, running0);
        if (act != running0 || at != running0) fail("C06:wrong number of active workers", "active_workers_size() %zu, active_tasks_size() %zu, but %zu tasks are running", act, at, running0);
        if (ww != workers - running0) fail("C06:wrong number of waiting workers", "waiting_workers_size() %zu with %zu workers and %zu running tasks", ww, workers, running0);
        if (wt < waitLo || wt > waitLo + amb) fail("C06:wrong number of waiting tasks", "waiting_tasks_size() is %zu, but %zu tasks are waiting", wt, waitLo);
        if (ts != wt + running0) fail("C06:wrong number of tasks", "tasks_size() is %zu, but %zu tasks are waiting and %zu running", ts, wt, running0);
        if (st + wt != sched + amb + waitLo) fail("C06,C04:wrong number of scheduled tasks", "scheduled_tasks_size() is %zu, but %zu tasks are scheduled", st, sched);
        // new bounds: nobody is left from before
        if (!growFailed) { maxTarget = (int)expect; lowWorkers = (int)target; if (running0 < expect) lowWorkers = (int)expect; }
    }

    void doQuery(int which)
    {
        std::size_t v = 0; bool bound = false;
        event();
        int mt0 = maxTarget;
        {
            Api a;
            switch (which % 8)
            {
            case 0: v = P->workers_size(); bound = true; break;
            case 1: v = P->target_workers_size(); bound = true; break;
            case 2: v = P->active_workers_size(); bound = true; break;
            case 3: v = P->waiting_workers_size(); bound = true; break;
            case 4: v = P->tasks_size(); break;
            case 5: v = P->active_tasks_size(); bound = true; break;
            case 6: v = P->waiting_tasks_size(); break;
            default: v = P->scheduled_tasks_size(); break;
            }
        }
        int mx = std::max(mt0, maxTarget);
        if (bound && v > (std::size_t)mx) fail("C06:more workers than allowed", "query %d returned %zu, but the largest target was %d", which % 8, v, mx);
        if (!bound && v > (std::size_t)nRec) fail("C06:impossible number of tasks", "query %d returned %zu, but only %d tasks were ever submitted", which % 8, v, nRec);
    }

    // the stop action, as it was set
    struct Stop { u64 inv, ret; bool complete; };
    constexpr int MAXSTOP = 100;
    Stop stops[MAXSTOP]; int nStop;
    void checkStop(bool got, u64 from, u64 to)
    {
        bool ok = false;
        for (int i = 0; i < nStop && !ok; ++i)
        {
            if (stops[i].inv > to || stops[i].complete != got) continue;
            bool gone = false;
            for (int j = 0; j < nStop; ++j) if (stops[i].ret && stops[j].inv > stops[i].ret && stops[j].ret && stops[j].ret < from) gone = true;
            ok = !gone;
        }
        if (!ok) fail("C07,C06:wrong stop action", "on_stop() is %s, which is not what was set", got ? "complete_tasks" : "join_all");
    }

    void openAll() { for (auto& g : gate) g = true; allOpen = true; event(); notify_gates(); }

    void doOp(const Op& o, bool isMain)
    {
        ++R->opsDone;
        if (usesInstance) { Pool* p; { Api a; p = &Pool::instance(); } if (!pool) pool = p; else if (pool != p) fail("C08:two instances", "instance() returned two different objects"); }
        auto canBlock = [&] { if (!isMain) return true; if (!allOpen) openAll(); return targetNow > 0 && !growFailed; };
        int prio = (int)o.a;
        switch (o.code)
        {
        case O_ASYNC: submit(TK_ASYNC, prio, 0, o.d, false, false, false); break;
        case O_ASYNCDEF: submit(TK_ASYNC, PLUTO_THREAD_POOL_PRIORITY_NORMAL, 0, o.d, false, true, false); break;
        case O_SYNC: if (canBlock()) submit(TK_SYNC, prio, 0, o.d, false, false, false); break;
        case O_SYNCDEF: if (canBlock()) submit(TK_SYNC, PLUTO_THREAD_POOL_PRIORITY_HIGH, 0, o.d, false, true, false); break;
        case O_AT: submit(TK_SCHED, prio, o.b, o.d, false, false, false); break;
        case O_AFTER: submit(TK_SCHED, prio, o.b, o.d, false, false, true); break;
        case O_WAIT_NONE: if (canBlock()) doWait(false); break;
        case O_WAIT_ALL: if (canBlock()) doWait(true); break;
        case O_RESIZE: if (isMain) doResize((int)o.a); break;
        case O_QUERY: doQuery((int)o.a); break;
        case O_SLEEP: sleep_ns((u64)o.b); break;
        case O_OPEN: gate[o.a % NGATE] = true; event(); notify_gates(); break;
        case O_ONSTOP:
        {
            auto a = o.a ? Pool::action::complete_tasks : Pool::action::join_all; Pool::action b;
            int i = nStop < MAXSTOP ? nStop++ : -1;
            if (i < 0) break;
            stops[i] = Stop{ event(), 0, o.a != 0 };
            { Api x; P->on_stop(a); }
            stops[i].ret = event();
            u64 from = event();
            { Api x; b = P->on_stop(); }
            checkStop(b == Pool::action::complete_tasks, from, event());
            break;
        }
        case O_REST: if (isMain) doRest(); break;
        case O_SIDE:
            if (side && !closing)
            {
                // one of the tasks of the second pool uses this one; only in mode 1 it may have to wait for it
                static const int ops[] = { O_ASYNC, O_AT, O_AFTER, O_QUERY, O_ASYNCDEF, O_SYNC, O_SYNCDEF };
                lightSubmit(side, 1, !isMain && o.b % 3 == 1, Op{ 0, ops[(int)(o.a % (plan->k(SK_SIDE) == 1 ? 7 : 5))], o.a / 7 % 256 - 128, o.b, o.d });
            }
            break;
        }
    }

    struct ClientArg { int id; } clientArgs[8];
    void client(void* p)
    {
        int id = ((ClientArg*)p)->id;
        isClient[self()] = true;
        arm_alloc(armed);
        for (auto& o : plan->ops) if (o.client == id) doOp(o, false);
        arm_alloc(false);
    }
    void releaser(void*)
    {
        isClient[self()] = true;
        while (!goDestroy) yield();
        quiesce(false);
        openAll();
    }

    // ---- thousands of tasks -------------------------------------------------------------------
    // A mode of its own with a smaller oracle: whatever the library counts or bounds must not depend on how much there is.
    constexpr int MAXFLOOD = 70000;
    unsigned char floodRuns[MAXFLOOD]; int floodRank[MAXFLOOD], floodByRank[MAXFLOOD], floodEnded, floodStarted, floodLow, floodWorkers, floodN; i64 floodDue[MAXFLOOD];
    bool floodOrder, floodSched; volatile bool floodGate;
    struct FloodFn
    {
        int i;
        void operator()() const
        {
            Harness h;
            if (i < 0) { block_until(&floodGate); return; }
            if (isClient[self()]) fail("C01,C09:a task ran on a caller's thread", "task %d of %d was run on a thread that is not a worker", i, floodN);
            if (floodRuns[i]++) fail("C01,C04:a task was started twice", "task %d of %d was started twice", i, floodN);
            if (!floodGate) fail("C06:more tasks than workers", "task %d was started while all %d workers were busy", i, floodWorkers);
            if (floodSched && clockMax() < floodDue[i]) fail("C04:a scheduled task ran early", "task %d of %d was run %lld ns before its due time", i, floodN, (long long)(floodDue[i] - clockMax()));
            ++floodStarted;
            if (floodOrder)
            {
                // started tasks form a prefix of the order, but for those other workers are about to start
                while (floodLow < floodN && floodRuns[floodByRank[floodLow]]) ++floodLow;
                int before = floodRank[i] - floodLow, holes = 0;
                if (before > 0) for (int k = floodLow; k < floodRank[i] && holes < floodWorkers; ++k) holes += !floodRuns[floodByRank[k]];
                if (holes >= floodWorkers) fail(floodSched ? "C04:out of due order" : "C02:out of order", "task %d was started before task %d and others (of %d) that go first", i, floodByRank[floodLow], floodN);
            }
            ++floodEnded;
        }
    };
    void floodReleaser(void*)
    {
        isClient[self()] = true;
        while (!goDestroy) yield();
        quiesce(false);
        floodGate = true; notify_gates();
    }
    void floodMain(const Plan& p)
    {
        const int n = floodN = (int)std::min<i64>(std::max<i64>(p.k(SK_FLOOD), 1), MAXFLOOD), kind = (int)p.k(SK_FLOODKIND) % 5, w = floodWorkers = (int)std::max<i64>(p.k(SK_WORKERS), 1);
        probe(n > 65536 ? P_FLOOD16 : P_FLOOD);
        Rng r((u64)(n * 31 + kind));
        Pool* q; { Api a; q = new Pool((std::size_t)w); }
        auto all = [&](const char* cls, const char* what) { for (int i = 0; i < n; ++i) if (!floodRuns[i]) fail(cls, "%s, task %d of %d was not run", what, i, n); };
        auto size = [&](std::size_t got, std::size_t want, const char* what) { if (got != want) fail("C06:wrong size", "%s is %zu instead of %zu with %d tasks", what, got, want, n); };
        auto ask = [&](std::size_t active, std::size_t waiting, std::size_t scheduled)
        {
            std::size_t a1, a2, a3, a4, a5; { Api a; a1 = q->active_tasks_size(); a2 = q->waiting_tasks_size(); a3 = q->scheduled_tasks_size(); a4 = q->tasks_size(); a5 = q->workers_size(); }
            size(a1, active, "active_tasks_size"); size(a2, waiting, "waiting_tasks_size"); size(a3, scheduled, "scheduled_tasks_size"); size(a4, active + waiting, "tasks_size"); size(a5, (std::size_t)w, "workers_size");
        };
        if (kind == 0)
        {
            // synchronous ones, one after the other
            floodGate = true;
            for (int i = 0; i < n; ++i)
            {
                { Api a; q->run_sync(FloodFn{ i }); }
                if (!floodRuns[i]) fail("C03:run_sync returned before its task has finished", "task %d of %d", i, n);
            }
            quiesce(false); ask(0, 0, 0);
        }
        else if (kind == 1 || kind == 4)
        {
            // a long queue
            for (int i = 0; i < w; ++i) { Api a; q->run_async(FloodFn{ -1 }, (signed char)127); }
            quiesce(false);
            int levels = kind == 1 ? 1 + n % 3 : 1, next = 0; static signed char prio[MAXFLOOD];
            for (int i = 0; i < n; ++i) prio[i] = (signed char)(r.below((u64)levels) * 20);
            for (int l = levels; l--;) for (int i = 0; i < n; ++i) if (prio[i] == l * 20) { floodRank[i] = next; floodByRank[next++] = i; }
            floodOrder = true;
            for (int i = 0; i < n; ++i) { Api a; q->run_async(FloodFn{ i }, prio[i]); }
            quiesce(false);
            ask((std::size_t)w, (std::size_t)n, 0);
            if (kind == 1)
            {
                floodGate = true; notify_gates();
                { Api a; q->wait_until_all_tasks_complete(); }
                all("C05,C01:a waiting function returned too early", "wait_until_all_tasks_complete has returned");
                quiesce(false); ask(0, 0, 0);
            }
        }
        else
        {
            // many timers: at one time, rising, falling or mixed
            floodGate = true; floodSched = true; int shape = n % 4;
            i64 base = clockNow() + 1000000000ll;
            static std::pair<i64, int> key[MAXFLOOD];
            for (int i = 0; i < n; ++i)
            {
                i64 d = shape == 0 ? 0 : shape == 1 ? i : shape == 2 ? n - i : (i64)r.below((u64)n * 4);
                floodDue[i] = base + d * 1000; key[i] = { floodDue[i], i };
                { Api a; q->run_at(Clock::time_point{ std::chrono::duration_cast<Clock::duration>(std::chrono::nanoseconds(CLOCK_BASE + floodDue[i])) }, FloodFn{ i }); }
            }
            std::sort(key, key + n);
            for (int i = 0; i < n; ++i) { floodByRank[i] = key[i].second; floodRank[key[i].second] = i; }
            floodOrder = shape != 0 && shape != 3;
            if (clockMax() < base && !floodStarted) { quiesce(false); if (clockMax() < base) ask(0, 0, (std::size_t)n); }
            quiesce(true);
            all("C04,C01:a scheduled task was forgotten", "all timers are over");
            quiesce(false); ask(0, 0, 0);
        }
        bool complete = kind == 4 && n % 2;
        if (complete) { Api a; q->on_stop(Pool::action::complete_tasks); }
        int rel = -1;
        if (kind == 4) { rel = spawn(floodReleaser, nullptr); isClient[rel] = true; goDestroy = true; }
        { Api a; delete q; }
        if (rel >= 0) join(rel);
        if (complete) all("C07:a waiting task was not completed", "the pool was destroyed with complete_tasks");
        else if (kind == 4 && floodStarted) fail("C07:a dropped task was run", "%d of %d waiting tasks were run although the pool was being destroyed with join_all", floodStarted, n);
        quiesce(false);
        if (live_threads() != 1) fail("C07:threads left behind", "%d threads are left after the destructor returned", live_threads() - 1);
        finish_ok();
    }

    void simMain(const Plan& p, const std::string& pr, int)
    {
        if (p.k(SK_FLOOD)) { plan = &p; prop = pr; isClient[self()] = true; floodMain(p); }
        plan = &p; prop = pr;
        isClient[self()] = true;
        wallBase0 = clockNow();
        typedef Pool::priority N;
        if (!(N::lowest < N::lower && N::lower < N::low && N::low < N::normal && N::normal < N::high && N::high < N::higher && N::higher < N::highest))
            fail("C02,C03:priorities out of order", "the named priorities are not in ascending order");
        set_idle_hook(checkIdle);
        int n = (int)p.k(SK_WORKERS);
        usesInstance = p.k(SK_INSTANCE) != 0;
        armed = p.k(SK_ARMED) != 0 && !usesInstance;
        if (p.k(SK_MEM) && !usesInstance) arm_library_threads(true, [] { probe(P_MEM); });
        minTargetEver = usesInstance ? 3 : p.k(SK_DESTROY) ? 0 : n;
        for (auto& o : p.ops)
        {
            if (o.code == O_RESIZE) minTargetEver = std::min(minTargetEver, (int)o.a);
            if (o.code >= 0 && o.d % 16 == B_RESIZE) minTargetEver = std::min(minTargetEver, 1);
        }
        if (usesInstance) { n = 3; poolAlive = true; probe(P_INSTANCE); }
        else
        {
            if (p.k(SK_CTORFAULT))
            {
                arm_alloc(true);
                Pool* created = nullptr;
                bool ok = call("the constructor", [&] { created = new Pool((std::size_t)n); });
                pool = created;
                arm_alloc(false);
                if (!ok)
                {
                    pool = nullptr; probe(P_CTORFAIL);
                    quiesce(false);
                    if (live_threads() != 1) fail("C09:workers left behind", "%d threads are left after the constructor threw", live_threads() - 1);
                }
            }
            if (!pool) { Pool* created; { Api a; created = p.k(SK_AGAIN) ? new (place) Pool((std::size_t)n) : new Pool((std::size_t)n); } pool = created; }
            poolAlive = true;
        }
        maxTarget = lowWorkers = targetNow = n;
        if (p.k(SK_SIDE)) { Pool* s; lightWorkers[1] = 1 + n % 2; { Api a; s = new Pool((std::size_t)lightWorkers[1]); } side = s; }
        { bool f = fault_enabled(); (void)f; }
        stops[nStop++] = Stop{ 1, 1, p.k(SK_STOP) && !usesInstance };
        if (p.k(SK_STOP) && !usesInstance) { Api a; P->on_stop(Pool::action::complete_tasks); }

        int nc = (int)p.k(SK_CLIENTS); if (nc > 6) nc = 6;
        int ids[8];
        for (int i = 1; i <= nc; ++i) { clientArgs[i].id = i; ids[i] = spawn(client, &clientArgs[i]); isClient[ids[i]] = true; }
        arm_alloc(armed);
        for (auto& o : p.ops) if (o.client == 0) doOp(o, true);
        arm_alloc(false);
        if (usesInstance && !pool) { Pool* q; { Api a; q = &Pool::instance(); } pool = q; }
        int mode = usesInstance ? 0 : (int)p.k(SK_DESTROY);
        openAll();
        if (mode != 3)
        {
            if (targetNow <= 0 || growFailed) doResize(1 + (int)(p.k(SK_WORKERS) % 3));
        }
        else if (nc || side)
        {
            // shrunk pool: clients may only be joined once their tasks can run
            if (targetNow <= 0 || growFailed) doResize(1);
        }
        for (int i = 1; i <= nc; ++i) join(ids[i]);
        if (side) lightDone(side, 1);
        event();
        closing = true;
        if (mode == 0)
        {
            // let everything finish, then nothing may be outstanding
            quiesce(p.k(SK_FINALTIMERS) != 0);
            for (int i = 0; i < 5000; ++i)
            {
                quiesce(false);
                checkIdle(now_ns());
                if (!running) break;
                sleep_ns(20000ull << std::min(i / 20, 40));
            }
            i64 now = clockNow(); u64 idleAt = event();
            doRest();
            for (int i = 0; i < nRec; ++i)
            {
                Rec& r = rec[i];
                if (r.failed || r.ended || !r.acked || r.subRet > idleAt) continue;
                if (r.kind != TK_SCHED) { if (!r.started) fail(growFailed ? "C09:a task was forgotten" : "C01,C06:a task was forgotten", "task %d was accepted but never run", i); }
                else if (r.dueHi <= now && !r.started) fail("C04,C01:a scheduled task was forgotten", "task %d was due but never run", i);
            }
        }
        if (usesInstance) { finish_ok(); }

        // destruction
        bool complete;
        u64 from = event();
        { Api a; complete = P->on_stop() == Pool::action::complete_tasks; }
        checkStop(complete, from, event());
        int rel = -1; bool gated = false;
        if (mode == 2)
        {
            quiesce(false); quiesce(false);
            if (!running && targetNow > 0 && !growFailed && !resizing)
            {
                for (auto& g : gate) g = false;
                allOpen = false; gated = true;
                int w = targetNow;
                for (int i = 0; i < w; ++i) submit(TK_ASYNC, 127, 0, B_GATE, false, false, false);
                quiesce(false);
                for (int i = 0; i < 3; ++i) submit(TK_ASYNC, i - 1, 0, i == 1 ? B_CHILD + 16 * 100 : B_PLAIN, false, false, false);
                quiesce(false);
                int busy = running;
                if (busy != w) gated = false;
                rel = spawn(releaser, nullptr); isClient[rel] = true;
                probe(P_GATED);
            }
        }
        int waiting = outstanding(false, clockNow());
        if (waiting) { probe(P_DESTROY_WAITING); probe(complete ? P_DESTROY_COMPLETE : P_DESTROY_DROP); }
        bool mustComplete = complete && targetNow > 0 && !growFailed && lowWorkers > 0;
        destroyInv = event();
        destroying = true; goDestroy = true;
        // with every worker inside a gated task, the tasks waiting now must not be started
        dropExact = gated && !complete;
        { Pool* q = pool; bool inPlace = (void*)pool == (void*)place; Api a; if (inPlace) q->~Pool(); else delete q; }
        destroyed = true; poolAlive = false;
        event();
        if (running) fail("C07:destroyed while a task was running", "%d tasks are still running after the destructor returned", running);
        if (rel >= 0) join(rel);
        if (mustComplete)
            for (int i = 0; i < nRec; ++i)
            {
                Rec& r = rec[i];
                if (!r.failed && r.queued && !r.ended && r.acked) fail("C07:a waiting task was not completed", "task %d was waiting when the pool was destroyed with complete_tasks, but was not run", i);
            }
        if (side) { Pool* s = side; lightDone(s, 1); side = nullptr; Api a; delete s; }
        quiesce(false);
        if (live_threads() != 1) fail("C07:threads left behind", "%d threads are left after the destructor returned", live_threads() - 1);
        if (p.k(SK_AGAIN) && (void*)pool == (void*)place) poolAgain(1 + (int)(p.k(SK_WORKERS) % 3));
        finish_ok();
    }

    // ---- generation ---------------------------------------------------------------------------
    i64 genPrio(Rng& r)
    {
        static const i64 some[] = { -128, PLUTO_THREAD_POOL_PRIORITY_LOWER, PLUTO_THREAD_POOL_PRIORITY_LOW, -1, 0, 0, PLUTO_THREAD_POOL_PRIORITY_NORMAL, PLUTO_THREAD_POOL_PRIORITY_NORMAL, 1, PLUTO_THREAD_POOL_PRIORITY_HIGH, PLUTO_THREAD_POOL_PRIORITY_HIGHER, 127 };
        return r.chance(800) ? some[r.below(12)] : r.range(-128, 127);
    }
    i64 genDelay(Rng& r, bool after)
    {
        static const i64 some[] = { 0, 1000, 5000, 5000, 20000, 20000, 100000, 1000000, 50000000, 3600000000000ll };
        if (r.chance(150)) return -(i64)r.below(2000000);
        if (r.chance(15)) return 86400ll * 365 * 1000000000ll * (r.chance(300) ? 100 : 1);
        if (!after && r.chance(15)) return r.chance(500) ? DISTANT_PAST : EPOCH;
        if (r.chance(250)) return (i64)r.below(200000);
        return some[r.below(10)];
    }
    i64 genBody(Rng& r, const std::string& prop, bool gates)
    {
        u64 x = r.below(100);
        if (x < 35) return B_PLAIN;
        if (x < 50) return B_SLEEP + 16 * (i64)(1 + r.below(r.chance(80) ? 1ull << (20 + r.below(24)) : r.chance(500) ? 2000 : 200000));
        if (x < 62) return gates ? B_GATE + 16 * (i64)r.below(NGATE) : B_BUSY + 16 * (i64)r.below(8);
        if (x < 74) return B_CHILD + 16 * (i64)(r.below(256) + 256 * r.below(8));
        if (x < 80) return B_CHILD_AT + 16 * (i64)r.below(60000);
        if (x < 84) return B_DTOR_QUERY;
        if (x < 88) return B_DTOR_SUBMIT + 16 * (i64)r.below(256);
        if (x < 89) return B_DTOR_VALUE;
        if (x < 91) return B_QUERY;
        if (x < 94) return (prop == "C06" || prop == "C07" || r.chance(300)) ? B_RESIZE + 16 * (i64)r.below(4) : (i64)B_PLAIN;
        if (x < 97) return B_NESTED_SYNC;
        return B_BUSY + 16 * (i64)r.below(8);
    }

    void gen(Rng& r, const std::string& prop, Plan& p)
    {
        gen_common(r, p, SK_END - KN_COUNT);
        auto is = [&](const char* s) { return prop == s; };
        if (!is("C08") && !is("C09") && r.below(4000) < 3)
        {
            bool huge = r.chance(60);
            p.k(SK_FLOOD) = huge ? (i64)(65600 + r.below(4000)) : (i64)(600 + r.below(r.chance(500) ? 1000 : 5000));
            p.k(SK_FLOODKIND) = is("C03") ? 0 : is("C04") ? 2 : is("C07") ? 4 : is("C05") || is("C02") ? 1 : (i64)r.below(5);
            if (huge && !p.k(SK_FLOODKIND)) p.k(SK_FLOOD) = 5000;
            p.k(SK_WORKERS) = (i64)(1 + r.below(3));
            p.k(KN_STRATEGY) = huge || r.chance(500) ? S_SEQ : S_RANDOM; p.k(KN_SWITCH) = 1 + (i64)r.below(3); p.k(KN_PLAIN) = 0; p.k(KN_DT) = std::min<i64>(p.k(KN_DT), 50);
            p.k(KN_STEPCAP) = 300000 + 300 * p.k(SK_FLOOD); p.k(KN_PM0 + K_NOTIFY) = p.k(KN_PM0 + K_STALL) = 0;
            return;
        }
        p.k(KN_PM0 + K_SPURIOUS) = r.chance(250) ? (i64)(100 + r.below(1500)) : 0;
        bool jumps = (is("C04") ? r.chance(350) : r.chance(80));
        p.k(KN_PM0 + K_CLOCKJUMP) = jumps ? (i64)(5 + r.below(60)) : 0;
        p.k(SK_WORKERS) = r.chance(60) ? 0 : (i64)(1 + r.below(r.chance(300) ? 5 : 3));
        p.k(SK_CLIENTS) = (i64)r.below(5);
        p.k(SK_INSTANCE) = is("C08") && r.chance(60);
        p.k(SK_STOP) = r.chance(500);
        p.k(SK_DESTROY) = is("C07") ? (i64)(r.chance(200) ? 0 : 1 + r.below(3)) : r.chance(750) ? 0 : (i64)(1 + r.below(3));
        p.k(SK_FINALTIMERS) = is("C04") ? r.chance(700) : r.chance(300);
        if (is("C09") || r.chance(30))
        {
            p.k(SK_ARMED) = r.chance(800);
            p.k(SK_MEM) = r.chance(400);
            p.k(SK_CTORFAULT) = r.chance(400);
            p.k(KN_PM0 + K_ALLOC) = r.chance(700) ? (i64)(100 + r.below(2500)) : 0;
            p.k(KN_PM0 + K_THREAD) = r.chance(700) ? (i64)(200 + r.below(6000)) : 0;
            p.k(KN_BUDGET) = 1 + (i64)r.below(8);
        }
        bool plain = !p.k(SK_ARMED) && !p.k(SK_MEM) && !p.k(SK_CTORFAULT) && !p.k(SK_INSTANCE);
        if (plain && r.chance(is("C01") || is("C03") || is("C08") ? 200 : 60)) p.k(SK_SIDE) = 1 + (i64)r.below(2);
        if (plain && r.chance(is("C07") || is("C08") || is("C01") ? 150 : 50)) p.k(SK_AGAIN) = 1;
        bool gates = r.chance(is("C02") ? 800 : 400);
        int nc = (int)p.k(SK_CLIENTS);
        auto add = [&](int c, int code, i64 a = 0, i64 b = 0, i64 d = 0) { p.ops.push_back(Op{ c, code, a, b, d }); };
        if (gates && r.chance(700) && p.k(SK_WORKERS) > 0)
        {
            // keep all workers busy first, so that a queue builds up
            for (int i = 0; i < p.k(SK_WORKERS); ++i) add(0, O_ASYNC, 127, 0, B_GATE + 16 * (i64)(r.chance(500) ? 0 : r.below(NGATE)));
            if (r.chance(600)) add(0, O_REST);
        }
        int n = (int)(3 + r.below(r.chance(250) ? 40 : 16));
        // now and then many workers and long queues
        bool big = r.chance(30);
        if (big) { p.k(SK_WORKERS) = (i64)(4 + r.below(21)); n = (int)(20 + r.below(60)); }
        int wAsync = 40, wSync = 10, wSched = 15, wWait = 8, wResize = 8, wQuery = 6, wSleep = 6, wOpen = gates ? 6 : 0, wRest = 4, wStop = 2;
        if (is("C02")) { wAsync = 60; wResize = 3; wSched = 20; }
        if (is("C03")) { wSync = 40; }
        if (is("C04")) { wSched = 60; wSleep = 12; }
        if (is("C05")) { wWait = 30; wResize = 12; }
        if (is("C06")) { wResize = 25; wRest = 15; wQuery = 15; }
        if (is("C07")) { wResize = 12; wStop = 8; }
        if (is("C08")) { wQuery = 15; wSched = 25; }
        if (is("C09")) { wResize = 15; wSched = 25; wRest = 10; }
        int bigResizes = 0;
        int tot = wAsync + wSync + wSched + wWait + wResize + wQuery + wSleep + wOpen + wRest + wStop;
        for (int i = 0; i < n; ++i)
        {
            int c = (int)r.below((u64)nc + 1);
            int x = (int)r.below((u64)tot);
            i64 d = genBody(r, prop, gates); if (big && d % 16 == B_RESIZE) d = B_PLAIN;
            auto in = [&](int w) { if (x < w) { x = 1 << 20; return true; } x -= w; return false; };
            if (in(wAsync)) { int k = r.chance(200) ? (int)(2 + r.below(big ? 50 : 6)) : 1; while (k--) { if (r.chance(150)) add(c, O_ASYNCDEF, 0, 0, d); else add(c, O_ASYNC, genPrio(r), 0, d); d = genBody(r, prop, gates); } }
            else if (in(wSync)) add(c, r.chance(500) ? O_SYNCDEF : O_SYNC, genPrio(r), 0, d % 16 == B_NESTED_SYNC ? 0 : d);
            else if (in(wSched)) { int k = r.chance(300) ? (int)(2 + r.below(4)) : 1; while (k--) { bool af = r.chance(400); add(c, af ? O_AFTER : O_AT, genPrio(r), genDelay(r, af), d); d = genBody(r, prop, gates); } }
            else if (in(wWait)) add(c, r.chance(500) ? O_WAIT_ALL : O_WAIT_NONE);
            else if (in(wResize)) { if (!big || bigResizes++ < 3) add(0, O_RESIZE, r.chance(120) ? 0 : (i64)(1 + r.below(big ? 24 : r.chance(200) ? 6 : 3))); }
            else if (in(wQuery)) add(c, O_QUERY, (i64)r.below(8));
            else if (in(wSleep)) add(c, O_SLEEP, 0, (i64)(1 + r.below(r.chance(80) ? 1ull << (20 + r.below(24)) : r.chance(500) ? 3000 : 300000)));
            else if (in(wOpen)) add(c, O_OPEN, (i64)r.below(NGATE));
            else if (in(wRest)) add(0, O_REST);
            else add(c, O_ONSTOP, (i64)r.below(2));
        }
        if (is("C07") && r.chance(400)) add(0, O_RESIZE, (i64)(1 + r.below(2)));
        if (p.k(SK_SIDE))
        {
            for (int i = (int)(1 + r.below(6)); i > 0; --i) p.ops.insert(p.ops.begin() + (long)r.below(p.ops.size() + 1), Op{ (int)r.below((u64)nc + 1), O_SIDE, (i64)r.below(7 * 256), r.range(-20000, 200000), genBody(r, prop, gates) });
            for (auto& o : p.ops) if ((o.code == O_ASYNC || o.code == O_SYNC || o.code == O_AT || o.code == O_AFTER) && r.chance(200)) o.d = B_SIDE + 16 * (i64)r.below(10000);
        }
    }
}

const Scenario& dst::scenario()
{
    static const Scenario s{
        SIM_NAME,
        knobDefs, SK_END - KN_COUNT, probeNames, N_PROBES, opNames, N_OPS, props, (int)(sizeof props / sizeof props[0]), gen, simMain };
    return s;
}
