// Scenario: thread ids, calendar conversions and shared locales used by many threads.
#include <cstdint>
#include <ctime>
#include <pluto/platform.hpp>
#include <pluto/locale.hpp>
#include "plan.hpp"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <new>
#include <stdexcept>

using namespace dst;

namespace
{
    enum { O_ID, O_LOCAL, O_GM, O_YIELD, O_SLEEP, O_CHILD, O_PROCESS, O_C, O_SYSTEM, O_DEFAULT, O_FACET, O_WFACET, N_OPS };
    const char* const opNames[] = { "thread_id", "local_time", "gm_time", "yield", "sleep", "child_thread", "process_id", "c_locale", "system_locale", "default_locale", "use_facet", "use_facet_wide" };
    enum { SK_CLIENTS = KN_COUNT, SK_ARMED, SK_ZONE, SK_TIDBASE, SK_TIDSTRIDE, SK_TIDREUSE, SK_ENV, SK_END };
    const KnobDef knobDefs[] = { { "clients", 1 }, { "faults_in_calls", 0 }, { "time_zone", 0 }, { "tid_first", 5001 }, { "tid_stride", 1 }, { "tid_reuse", 0 }, { "env_locale", 0 } };
    enum { P_MANYIDS, P_CHILD, P_REUSED, P_DST, P_NEGATIVE, P_FAR, P_OVERLAP, P_FIRST, P_CFAIL, P_RETRY, P_FACET, N_PROBES };
    const char* const probeNames[] = { "three_or_more_live_threads", "short_lived_thread", "thread_id_reused", "daylight_saving_time", "time_before_1970", "year_beyond_10000", "conversions_overlapped", "first_calls_overlapped", "locale_failed_by_fault", "locale_created_after_failure", "facet_used" };
    const PropInfo props[] = { { "P01", true, "deadlock,livelock,terminate,crash,uaf,misuse,race" }, { "P02", true, "deadlock,livelock,terminate,crash,uaf,misuse,race" } };

    const char* const zones[] = { "UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "<-12>12", "CET-1CEST,M3.5.0,M10.5.0/3", "<+14>-14" };
    const char* const envs[] = { "C", "en_US.UTF-8", "C.UTF-8", "POSIX" };

    const Plan* plan; bool armed;
    constexpr int MAXTH = 128;
    std::size_t liveId[MAXTH]; bool isLive[MAXTH], known[MAXTH];
    std::vector<std::size_t> deadIds;
    int inConversion;

    std::size_t theId() { std::size_t v; { Api a; v = pluto::thread_id(); } return v; }
    void checkId()
    {
        int me = self();
        std::size_t v = theId();
        note("thread id %zu", v);
        ++R->opsDone;
        if (known[me])
        {
            if (v != liveId[me]) fail("P01:thread id changed", "thread_id() returned %zu and before that %zu on the same thread T%d", v, liveId[me], me);
            return;
        }
        int n = 0;
        for (int i = 0; i < MAXTH; ++i)
            if (known[i] && isLive[i])
            {
                ++n;
                if (liveId[i] == v) fail("P01:two threads have the same id", "thread_id() is %zu on T%d and on T%d, which are both alive", v, me, i);
            }
        if (n > 1) probe(P_MANYIDS);
        if (std::find(deadIds.begin(), deadIds.end(), v) != deadIds.end()) probe(P_REUSED);
        known[me] = isLive[me] = true; liveId[me] = v;
    }
    void gone() { int me = self(); if (known[me]) { isLive[me] = false; deadIds.push_back(liveId[me]); } }

    // ---- calendar: the proleptic Gregorian calendar, counted independently of the C library
    bool sameTm(const std::tm& a, const std::tm& b)
    {
        return a.tm_sec == b.tm_sec && a.tm_min == b.tm_min && a.tm_hour == b.tm_hour && a.tm_mday == b.tm_mday && a.tm_mon == b.tm_mon && a.tm_year == b.tm_year && a.tm_wday == b.tm_wday && a.tm_yday == b.tm_yday;
    }
    std::tm civil(i64 t)
    {
        std::tm r{};
        i64 days = t / 86400, s = t % 86400;
        if (s < 0) { s += 86400; --days; }
        r.tm_hour = (int)(s / 3600); r.tm_min = (int)(s / 60 % 60); r.tm_sec = (int)(s % 60);
        r.tm_wday = (int)(((days + 4) % 7 + 7) % 7);
        i64 z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
        i64 doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, y = yoe + era * 400;
        i64 doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
        r.tm_mday = (int)(doy - (153 * mp + 2) / 5 + 1);
        r.tm_mon = (int)(mp < 10 ? mp + 2 : mp - 10);
        if (r.tm_mon <= 1) ++y;
        bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0;
        static const int before[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
        r.tm_yday = before[r.tm_mon] + r.tm_mday - 1 + (leap && r.tm_mon > 1);
        r.tm_year = (int)(y - 1900);
        return r;
    }
    std::string show(const std::tm& t)
    {
        char b[100]; std::snprintf(b, sizeof b, "%d-%02d-%02d %02d:%02d:%02d (day %d of the year, %d of the week)", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, t.tm_yday, t.tm_wday); return b;
    }
    void convert(bool local, i64 at)
    {
        std::time_t t = (std::time_t)at, arg = t;
        std::tm got{}, want{};
        if (local)
        {
            localtime_r(&t, &want);
            std::tm c = civil(at + want.tm_gmtoff);
            if (!sameTm(c, want)) fail("error:harness", "the reference calendar disagrees with the C library");
            if (want.tm_isdst > 0) probe(P_DST);
        }
        else want = civil(at);
        if (at < 0) probe(P_NEGATIVE);
        if (want.tm_year > 8100) probe(P_FAR);
        if (inConversion++) probe(P_OVERLAP);
        { Api a; got = local ? pluto::local_time(arg) : pluto::gm_time(arg); }
        --inConversion;
        note("%s %lld = %s", local ? "local" : "gm", (long long)at, show(got).c_str());
        ++R->opsDone;
        if (!sameTm(got, want) || (local ? got.tm_isdst != want.tm_isdst : got.tm_isdst > 0))
            fail("P01:wrong conversion", "%s(%lld) returned %s, expected %s", local ? "local_time" : "gm_time", (long long)at, show(got).c_str(), show(want).c_str());
        if (arg != t) fail("P01:wrong conversion", "the conversion changed its argument");
    }

    // ---- locales -------------------------------------------------------------------------------
    const std::locale* seen[3]; bool failedOnce[3];
    int calling[3];
    std::string systemName;
    u64 faults() { return (u64)R->fired[K_ALLOC] + R->fired[K_LOCALE]; }
    const std::locale* get(int which)
    {
        static const char* const names[] = { "c_locale", "system_locale", "default_locale" };
        const std::locale* p = nullptr;
        u64 before = faults();
        bool ok = true;
        if (calling[which]++ && !seen[which]) probe(P_FIRST);
        arm_alloc(armed);
        try { Api a; p = which == 0 ? &pluto::c_locale() : which == 1 ? &pluto::system_locale() : &pluto::default_locale(); }
        catch (const std::runtime_error&) { ok = false; }
        catch (const std::bad_alloc&) { ok = false; }
        catch (...) { fail("P02:unexpected exception", "%s() threw an exception of an unexpected type", names[which]); }
        arm_alloc(false);
        --calling[which];
        note("%s %s", names[which], ok ? "ok" : "failed");
        ++R->opsDone;
        if (!ok)
        {
            probe(P_CFAIL); failedOnce[which] = true;
            if (faults() == before) fail("P02:failed without cause", "%s() threw although nothing it used had failed", names[which]);
            return nullptr;
        }
        if (failedOnce[which] && !seen[which]) probe(P_RETRY);
        if (!seen[which]) seen[which] = p;
        if (seen[which] != p) fail("P02:two locales", "%s() returned different objects to different callers", names[which]);
        std::string name, want = which == 0 ? "C" : which == 1 ? systemName : "en_US.UTF-8";
        { Api a; name = p->name(); }
        if (name != want) fail("P02:wrong locale", "%s() returned the locale \"%s\", expected \"%s\"", names[which], name.c_str(), want.c_str());
        return p;
    }
    void facet(int which, bool wide)
    {
        const std::locale* l = get(which);
        if (!l) return;
        probe(P_FACET);
        bool ok;
        if (wide)
        {
            wchar_t u = 0, d = 0; bool al = false;
            { Api a; const auto& f = pluto::use_facet<wchar_t>(*l); u = f.toupper(L'z'); d = f.tolower(L'Q'); al = f.is(std::ctype_base::alpha, L'7'); }
            ok = u == L'Z' && d == L'q' && !al;
            // characters that only some locales know
            static const wchar_t chars[] = { L'\x00E9', L'\x00C9', L'\x00DF', L'\x0416', L'\x03C9', L'\x4E2D' };
            const auto& want = std::use_facet<std::ctype<wchar_t>>(*l);
            for (wchar_t c : chars)
            {
                { Api a; const auto& f = pluto::use_facet<wchar_t>(*l); u = f.toupper(c); d = f.tolower(c); al = f.is(std::ctype_base::alpha, c); }
                ok = ok && u == want.toupper(c) && d == want.tolower(c) && al == want.is(std::ctype_base::alpha, c);
            }
        }
        else
        {
            char u = 0, d = 0; bool al = false;
            { Api a; const auto& f = pluto::use_facet<char>(*l); u = f.toupper('z'); d = f.tolower('Q'); al = f.is(std::ctype_base::digit, '7'); }
            ok = u == 'Z' && d == 'q' && al;
            const auto& want = std::use_facet<std::ctype<char>>(*l);
            for (char c : { '\xE9', '\xC4', '_' })
            {
                { Api a; const auto& f = pluto::use_facet<char>(*l); u = f.toupper(c); d = f.tolower(c); al = f.is(std::ctype_base::alpha, c); }
                ok = ok && u == want.toupper(c) && d == want.tolower(c) && al == want.is(std::ctype_base::alpha, c);
            }
        }
        if (!ok) fail("P02:wrong locale", "the facet of the locale \"%s\" converts wrongly", l->name().c_str());
    }

    void child(void* p)
    {
        auto* o = (const Op*)p;
        probe(P_CHILD);
        checkId();
        if (o->b & 1) { Api a; yield(); }
        convert(o->b & 2, o->d);
        if (o->b & 4) { Api a; sleep_ns((u64)o->a); }
        checkId();
        gone();
    }
    void client(void* p)
    {
        int c = (int)(std::intptr_t)p;
        std::vector<int> kids;
        for (auto& o : plan->ops)
        {
            if (o.client != c) continue;
            switch (o.code)
            {
            case O_ID: checkId(); break;
            case O_LOCAL: convert(true, o.d); break;
            case O_GM: convert(false, o.d); break;
            case O_YIELD: { Api a; yield(); } break;
            case O_SLEEP: { Api a; sleep_ns((u64)o.a); } break;
            case O_CHILD: if (thread_count() < MAXTH - 10) kids.push_back(spawn(child, (void*)&o)); if (o.b & 8) { for (int k : kids) join(k); kids.clear(); } break;
            case O_PROCESS:
            {
                int v; { Api a; v = pluto::process_id(); }
                if (v != (int)::getpid()) fail("P01:wrong process id", "process_id() returned %d", v);
                break;
            }
            case O_C: get(0); break;
            case O_SYSTEM: get(1); break;
            case O_DEFAULT: get(2); break;
            case O_FACET: facet((int)(o.a % 3), false); break;
            case O_WFACET: facet((int)(o.a % 3), true); break;
            }
        }
        if (known[self()]) checkId();
        for (int k : kids) join(k);
        gone();
    }

    void simMain(const Plan& p, const std::string& prop, int)
    {
        plan = &p; armed = p.k(SK_ARMED) != 0;
        setenv("TZ", zones[p.k(SK_ZONE) % 7], 1); tzset();
        setenv("LC_ALL", envs[p.k(SK_ENV) % 4], 1);
        if (prop == "P02") systemName = std::locale("").name();
        set_tids((long)std::max<i64>(2, p.k(SK_TIDBASE)), (long)std::max<i64>(1, p.k(SK_TIDSTRIDE)), p.k(SK_TIDREUSE) != 0);
        std::vector<int> th;
        for (int c = 1; c <= p.k(SK_CLIENTS); ++c) th.push_back(spawn(client, (void*)(std::intptr_t)c));
        client(nullptr);
        for (int t : th) join(t);
        if (prop == "P02")
        {
            // nothing fails any more: every accessor must work now
            armed = false;
            for (int w = 0; w < 3; ++w) { if (!get(w)) fail("P02:failed without cause", "a locale cannot be had although nothing fails any more"); facet(w, false); facet(w, true); }
        }
        finish_ok();
    }

    i64 genTime(Rng& r)
    {
        static const i64 some[] = { 0, -1, 951782400, 951868799, 1078012800, 4107542399ll, 253402300799ll, 253402300800ll, -2208988800ll, -62135596800ll, 1709164800, 1772953199, 1772953200, 1793512799, 1793512800, 2147483647, 2147483648ll, -2147483649ll };
        u64 x = r.below(10);
        if (x < 4) return some[r.below(18)];
        if (x < 8) return (i64)r.below(4000000000ull);
        if (x < 9) return -(i64)r.below(70000000000ull);
        return (i64)r.below(60000000000000000ull);
    }
    void gen(Rng& r, const std::string& prop, Plan& p)
    {
        gen_common(r, p, SK_END - KN_COUNT);
        bool p1 = prop == "P01";
        p.k(SK_CLIENTS) = (i64)(1 + r.below(5));
        p.k(SK_ZONE) = (i64)r.below(7); p.k(SK_ENV) = (i64)r.below(4);
        static const i64 stride[] = { 1, 1, 2, 256, 1024, 32768, 65536, 131072 };
        p.k(SK_TIDSTRIDE) = stride[r.below(8)]; p.k(SK_TIDBASE) = 2 + (i64)r.below(40000); p.k(SK_TIDREUSE) = r.chance(400);
        if (r.chance(400)) p.k(KN_PLAIN) = (i64)(1 + r.below(300));
        if (!p1 && r.chance(600))
        {
            p.k(SK_ARMED) = 1;
            p.k(KN_PM0 + K_LOCALE) = r.chance(800) ? (i64)(500 + r.below(6000)) : 0;
            p.k(KN_PM0 + K_ALLOC) = r.chance(300) ? (i64)(50 + r.below(3000)) : 0;
            p.k(KN_BUDGET) = 1 + (i64)r.below(6);
        }
        int n = (int)(2 + r.below(r.chance(300) ? 40 : 16));
        static const int w1[N_OPS] = { 25, 25, 25, 8, 5, 15, 3, 0, 0, 0, 0, 0 }, w2[N_OPS] = { 0, 0, 0, 6, 4, 0, 0, 12, 15, 20, 12, 12 };
        const int* w = p1 ? w1 : w2;
        int tot = 0; for (int i = 0; i < N_OPS; ++i) tot += w[i];
        bool near = r.chance(500);      // many of the times lie close together
        i64 last = genTime(r);
        auto someTime = [&]
        {
            if (!near || r.chance(200)) return last = genTime(r);
            static const i64 d[] = { 1, 60, 900, 1800, 3600, 7200, 43200, 86400, 86400 * 31, 86400 * 366ll };
            i64 x = d[r.below(10)];
            if (r.chance(700)) x = (i64)r.below((u64)x + 1);
            return last += r.chance(500) ? x : -x;
        };
        for (int i = 0; i < n; ++i)
        {
            int x = (int)r.below((u64)tot), code = 0;
            while (x >= w[code]) x -= w[code++];
            p.ops.push_back(Op{ (int)r.below((u64)p.k(SK_CLIENTS) + 1), code, (i64)(1 + r.below(3000)), (i64)r.below(16), someTime() });
        }
    }
}

const Scenario& dst::scenario()
{
    static const Scenario s{ SIM_NAME, knobDefs, SK_END - KN_COUNT, probeNames, N_PROBES, opNames, N_OPS, props, (int)(sizeof props / sizeof props[0]), gen, simMain };
    return s;
}
