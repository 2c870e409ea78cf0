// Scenario: the stopwatch under a simulated clock that stands still, drifts, is read between any two
// steps, passes days at once and (system clock) jumps.
#include <chrono>
#ifdef SIM_TICKS        // a clock of another resolution, on top of the simulated system clock
struct SimClock
{
    typedef long long rep; typedef std::ratio<1, SIM_TICKS> period;
    typedef std::chrono::duration<rep, period> duration; typedef std::chrono::time_point<SimClock> time_point;
    static constexpr bool is_steady = false;
    static rep ticks(long long ns) { return ns / 1000000000ll * SIM_TICKS + ns % 1000000000ll * SIM_TICKS / 1000000000ll; }
    static time_point now() { return time_point(duration(ticks(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count()))); }
};
#define PLUTO_STOPWATCH_CLOCK_TYPE SimClock
#endif
#include <pluto/stopwatch.hpp>
#include "plan.hpp"
#include <algorithm>
#include <cstring>

using namespace dst;

namespace
{
    enum { O_START, O_STOP, O_RESET, O_RESTART, O_TIME, O_STOPTIME, O_RUNNING, O_SLEEP, O_COPY, O_NEW, O_READERS, N_OPS };
    const char* const opNames[] = { "start", "stop", "reset", "restart", "time", "stop_and_time", "is_running", "sleep", "copy", "new", "readers" };
    enum { SK_BEGIN = KN_COUNT, SK_END };
    const KnobDef knobDefs[] = { { "start_now", 0 } };
    enum { P_START_RUNNING, P_STOP_STOPPED, P_RESUMED, P_READ_RUNNING, P_READ_STOPPED, P_JUMP_BACK, P_HOURS, P_READERS, P_COPY, P_INEXACT, P_MANY, N_PROBES };
    const char* const probeNames[] = { "start_while_running", "stop_while_stopped", "resumed_after_stop", "read_while_running", "read_while_stopped", "time_went_back", "more_than_an_hour", "concurrent_readers", "copied", "clock_read_several_times_in_a_call", "three_or_more_periods" };
    const PropInfo props[] = { { "T01", true, "livelock,terminate,crash,uaf,race" } };

    typedef pluto::stopwatch Watch;
    typedef Watch::clock_type Clock;
    typedef Clock::duration Dur;
    constexpr int NW = 3, MAXTH = 64;
    struct Span { i64 lo, hi; };        // in ticks of the clock
    struct Model { bool running; Span total, start; int periods; } model[NW];
    Watch* watch[NW];
    const Plan* plan;

    i64 ticks(i64 ns)
    {
#ifdef SIM_TICKS
        return SimClock::ticks(ns);
#else
        return ns;      // system_clock and steady_clock count nanoseconds here
#endif
    }
#if defined(SIM_SYSTEM) || defined(SIM_TICKS)
    constexpr bool steady = false;
    i64 clockNow() { return wall_ns(); }
#else
    constexpr bool steady = true;
    i64 clockNow() { return (i64)now_ns(); }
#endif

    // makes a call and tells which clock values it can have worked with
    template <class F> Span reading(F f)
    {
        i64 before = clockNow();
        reset_clock_reads();
        { Api a; f(); }
        i64 lo, hi;
        int n = clock_reads(self(), &lo, &hi);
        i64 after = clockNow();
        ++R->opsDone;
        if (n > 1) probe(P_INEXACT);
        if (!n) { lo = std::min(before, after); hi = std::max(before, after); }
        else if (steady && (lo < before || hi > after)) fail("T01:another clock was read", "the stopwatch did not use the steady clock");
        return Span{ ticks(lo), ticks(hi) };
    }
    Span expected(const Model& m, const Span& now)
    {
        if (!m.running) return m.total;
        return Span{ m.total.lo + now.lo - m.start.hi, m.total.hi + now.hi - m.start.lo };
    }
    const char* at(int w) { static char b[MAXTH][40]; char* p = b[self() % MAXTH]; std::snprintf(p, 40, "watch %d (%s)", w, model[w].running ? "running" : "stopped"); return p; }

    // a query whose result is the time cast to Unit, reduced by mod (0: not reduced)
    template <class Unit, class F> void query(int w, const char* name, i64 mod, F f)
    {
        const Watch& s = *watch[w];
        i64 got = 0;
        Span now = reading([&] { got = (i64)f(s); });
        Span e = expected(model[w], now);
        i64 a = (i64)std::chrono::duration_cast<Unit>(Dur(e.lo)).count(), b = (i64)std::chrono::duration_cast<Unit>(Dur(e.hi)).count();
        note("%s on %d = %lld", name, w, (long long)got);
        bool ok = false;
        if (!mod) ok = got >= a && got <= b;
        else for (i64 q = a; q <= b && q < a + mod && !ok; ++q) ok = q % mod == got;
        if (!ok) fail("T01:wrong time", "%s() of %s returned %lld, but the time was %lld to %lld ticks, that is %lld to %lld%s", name, at(w), (long long)got, (long long)e.lo, (long long)e.hi, (long long)a, (long long)b, mod ? " before reduction" : "");
    }
    void running(int w);
    void read(int w, i64 which)
    {
        Model& m = model[w];
        probe(m.running ? P_READ_RUNNING : P_READ_STOPPED);
        switch (which % 19)
        {
        case 0: query<Dur>(w, "time", 0, [](const Watch& s) { return s.time().count(); }); break;
        case 1: query<std::chrono::nanoseconds>(w, "in_nanoseconds", 0, [](const Watch& s) { return s.in_nanoseconds(); }); break;
        case 2: query<std::chrono::microseconds>(w, "in_microseconds", 0, [](const Watch& s) { return s.in_microseconds(); }); break;
        case 3: query<std::chrono::milliseconds>(w, "in_milliseconds", 0, [](const Watch& s) { return s.in_milliseconds(); }); break;
        case 4: query<std::chrono::seconds>(w, "in_seconds", 0, [](const Watch& s) { return s.in_seconds(); }); break;
        case 5: query<std::chrono::minutes>(w, "in_minutes", 0, [](const Watch& s) { return s.in_minutes(); }); break;
        case 6: query<std::chrono::hours>(w, "in_hours", 0, [](const Watch& s) { return s.in_hours(); }); break;
        case 7: query<std::chrono::nanoseconds>(w, "nanoseconds_part", 1000, [](const Watch& s) { return s.nanoseconds_part(); }); break;
        case 8: query<std::chrono::microseconds>(w, "microseconds_part", 1000, [](const Watch& s) { return s.microseconds_part(); }); break;
        case 9: query<std::chrono::milliseconds>(w, "milliseconds_part", 1000, [](const Watch& s) { return s.milliseconds_part(); }); break;
        case 10: query<std::chrono::seconds>(w, "seconds_part", 60, [](const Watch& s) { return s.seconds_part(); }); break;
        case 11: query<std::chrono::minutes>(w, "minutes_part", 60, [](const Watch& s) { return s.minutes_part(); }); break;
        case 12: query<std::chrono::hours>(w, "hours_part", 0, [](const Watch& s) { return s.hours_part(); }); break;
        case 13: query<std::chrono::duration<long long, std::ratio<7, 3>>>(w, "count<7/3 s>", 0, [](const Watch& s) { return s.count<std::chrono::duration<long long, std::ratio<7, 3>>>(); }); break;
        case 14: query<std::chrono::milliseconds>(w, "count<ms>(17)", 17, [](const Watch& s) { return s.count<std::chrono::milliseconds>(17); }); break;
        case 15: query<Dur>(w, "count<own>", 0, [](const Watch& s) { return s.count<Dur>(); }); break;
        case 16: query<std::chrono::hours>(w, "count<h>(24)", 24, [](const Watch& s) { return s.count<std::chrono::hours>(24); }); break;
        case 17: query<Dur>(w, "time", 0, [](const Watch& s) { return s.time().count(); }); break;
        default: running(w); return;
        }
    }
    void running(int w)
    {
        bool r = false;
        reading([&] { r = watch[w]->is_running(); });
        if (r != model[w].running) fail("T01:wrong state", "is_running() of watch %d returned %d", w, r);
    }
    void stopModel(Model& m, const Span& now) { m.total = expected(m, now); m.running = false; }
    void startModel(Model& m, const Span& now) { m.running = true; m.start = now; if (m.periods++ > 0) probe(P_RESUMED); if (m.periods > 2) probe(P_MANY); }

    struct Reader { int w; i64 from, n; };
    void reader(void* p) { auto* r = (Reader*)p; for (i64 i = 0; i < r->n; ++i) read(r->w, r->from + i * 5); }

    void simMain(const Plan& p, const std::string&, int)
    {
        plan = &p;
        for (int w = 0; w < NW; ++w)
        {
            bool now = w ? false : p.k(SK_BEGIN) != 0;
            Span s = reading([&] { watch[w] = now ? new Watch(true) : new Watch(); });
            model[w] = Model();
            if (now) startModel(model[w], s);
        }
        for (auto& o : p.ops)
        {
            int w = (int)(o.a % NW);
            Model& m = model[w];
            Span before = m.running ? expected(m, Span{ ticks(clockNow()), ticks(clockNow()) }) : m.total;
            if (before.lo < 0) probe(P_JUMP_BACK);
            if (std::chrono::duration_cast<std::chrono::hours>(Dur(before.lo)).count()) probe(P_HOURS);
            note("%s %d", opNames[o.code], w);
            switch (o.code)
            {
            case O_START:
            {
                Span s = reading([&] { watch[w]->start(); });
                if (m.running) probe(P_START_RUNNING); else startModel(m, s);
                break;
            }
            case O_STOP:
            {
                Span s = reading([&] { watch[w]->stop(); });
                if (m.running) stopModel(m, s); else probe(P_STOP_STOPPED);
                break;
            }
            case O_RESET: reading([&] { watch[w]->reset(); }); m = Model(); break;
            case O_RESTART: { Span s = reading([&] { watch[w]->restart(); }); m = Model(); startModel(m, s); break; }
            case O_STOPTIME:
            {
                i64 got = 0;
                Span s = reading([&] { got = (i64)watch[w]->stop_and_time().count(); });
                if (m.running) stopModel(m, s); else probe(P_STOP_STOPPED);
                if (got < m.total.lo || got > m.total.hi) fail("T01:wrong time", "stop_and_time() of watch %d returned %lld, but the time was %lld to %lld ticks", w, (long long)got, (long long)m.total.lo, (long long)m.total.hi);
                m.total = Span{ got, got };
                break;
            }
            case O_TIME: read(w, o.b); break;
            case O_RUNNING: running(w); break;
            case O_SLEEP: sleep_ns((u64)o.d); break;
            case O_COPY:
            {
                int v = (int)(o.b % NW);
                if (v == w) break;
                probe(P_COPY);
                if (o.d & 1) reading([&] { *watch[v] = const_cast<const Watch&>(*watch[w]); });
                else reading([&] { delete watch[v]; watch[v] = new Watch(const_cast<const Watch&>(*watch[w])); });
                model[v] = m;
                break;
            }
            case O_NEW:
            {
                bool now = o.b & 1;
                Span s = reading([&] { delete watch[w]; watch[w] = new Watch(now); });
                m = Model();
                if (now) startModel(m, s);
                break;
            }
            case O_READERS:
            {
                static Reader r[3]; int th[3], n = (int)(2 + o.b % 2);
                probe(P_READERS);
                for (int i = 0; i < n; ++i) { r[i] = Reader{ w, o.d + i * 3, 3 }; th[i] = spawn(reader, &r[i]); }
                for (int i = 0; i < n; ++i) join(th[i]);
                break;
            }
            }
        }
        for (int w = 0; w < NW; ++w) { read(w, 0); running(w); read(w, 10); Api a; delete watch[w]; }
        finish_ok();
    }

    void gen(Rng& r, const std::string&, Plan& p)
    {
        gen_common(r, p, SK_END - KN_COUNT);
        p.k(SK_BEGIN) = r.chance(300);
        p.k(KN_PM0 + K_CLOCKJUMP) = r.chance(500) ? (i64)(50 + r.below(2000)) : 0;
        p.k(KN_BUDGET) = 12;
        int n = (int)(3 + r.below(r.chance(300) ? 50 : 18));
        bool one = r.chance(600);
        static const int w[N_OPS] = { 16, 14, 4, 6, 28, 7, 4, 22, 3, 2, 5 };
        int tot = 0; for (int x : w) tot += x;
        for (int i = 0; i < n; ++i)
        {
            int x = (int)r.below((u64)tot), code = 0;
            while (x >= w[code]) x -= w[code++];
            Op o{ 0, code, one ? 0 : (i64)r.below(NW), (i64)r.below(19), (i64)r.below(19) };
            if (code == O_SLEEP)
            {
                static const i64 some[] = { 1, 999, 1000, 1001, 999999, 1000000, 59999999999ll, 60000000000ll, 3599999999999ll, 3600000000000ll, 90061001001001ll, 500000000, 333333333 };
                o.d = r.chance(500) ? some[r.below(13)] : (i64)r.below(r.chance(500) ? 5000 : 200000000000ull);
                if (r.chance(120)) o.d = (i64)1 << r.below(54);
            }
            p.ops.push_back(o);
        }
    }
}

const Scenario& dst::scenario()
{
    static const Scenario s{ SIM_NAME, knobDefs, SK_END - KN_COUNT, probeNames, N_PROBES, opNames, N_OPS, props, (int)(sizeof props / sizeof props[0]), gen, simMain };
    return s;
}
