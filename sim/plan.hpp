// Plans (generated inputs of a run), scenarios, and what the driver needs to know about them.
#pragma once
#include "rt.hpp"
#include <string>
#include <vector>

#ifndef SIM_NAME         // name of the variant, written to replay files
#define SIM_NAME "dev"
#endif

namespace dst
{
    struct Op { int client, code; i64 a, b, d; };

    // knobs every scenario has; scenario knobs follow from KN_COUNT on
    enum CommonKnob : int
    {
        KN_STRATEGY = 0, KN_SWITCH, KN_PLAIN, KN_PCTDEPTH, KN_PCTSPAN, KN_DT, KN_BUDGET, KN_REUSE, KN_WALLBASE, KN_STEPCAP,
        KN_PM0, KN_COUNT = (int)KN_PM0 + (int)K_COUNT
    };

    struct KnobDef { const char* name; i64 simple; };   // `simple`: what the minimiser moves towards

    struct Plan
    {
        std::vector<i64> knobs;
        std::vector<Op>  ops;
        i64& k(int i) { return knobs[(size_t)i]; }
        i64  k(int i) const { return knobs[(size_t)i]; }
    };

    struct PropInfo
    {
        const char* id;
        bool        raceFatal;
        const char* generic;    // comma separated generic classes that count as a violation of this property
    };

    struct Scenario
    {
        const char* name;
        const KnobDef* knobs; int nKnobs;           // scenario knobs
        const char* const* probes; int nProbes;
        const char* const* opNames; int nOps;
        const PropInfo* props; int nProps;
        void (*gen)(Rng&, const std::string& prop, Plan&);
        void (*main)(const Plan&, const std::string& prop, int phase);
    };
    const Scenario& scenario();     // each check binary has exactly one

    // swarm-style choice of the runtime knobs
    inline void gen_common(Rng& r, Plan& p, int nScenarioKnobs)
    {
        p.knobs.assign((std::size_t)(KN_COUNT + nScenarioKnobs), 0);
        static const int strat[] = { S_RANDOM, S_RANDOM, S_RANDOM, S_PCT, S_PCT, S_BURST, S_BIASED, S_SEQ };
        p.k(KN_STRATEGY) = strat[r.below(8)];
        static const int sw[] = { 20, 60, 150, 350, 700 };
        p.k(KN_SWITCH) = sw[r.below(5)];
        p.k(KN_PLAIN) = r.chance(350) ? (i64)(1 + r.below(60)) : 0;
        p.k(KN_PCTDEPTH) = (i64)(1 + r.below(6));
        static const int span[] = { 100, 300, 1000, 4000, 15000 };
        p.k(KN_PCTSPAN) = span[r.below(5)];
        static const int dt[] = { 0, 50, 500, 5000, 100000 };
        p.k(KN_DT) = dt[r.below(5)];
        p.k(KN_BUDGET) = 20;
        p.k(KN_REUSE) = r.chance(700);
        // where the wall clock starts: a usual date, or shortly before a change of daylight saving, leap day, end of year or of 31 or 32 bit seconds, or anywhere between 1980 and 2130
        static const i64 edge[] = { 1772922600ll, 1793482200ll, 1835382600ll, 1835469000ll, 946672200ll, 4107529800ll, 1830285000ll, 2147483648ll, 4294967296ll, 1000000000ll };
        u64 wb = r.below(30 << 16);
        p.k(KN_WALLBASE) = wb % 30 < 18 ? 1767225600ll + (i64)(wb % 3) * 86400 * 91 : wb % 30 < 25 ? edge[wb / 30 % 10] - (i64)(wb / 300 % 3) : 315532800ll + (i64)(wb / 30) * 72200;
        p.k(KN_STEPCAP) = 300000;
        p.k((int)KN_PM0 + (int)K_NOTIFY) = r.chance(300) ? 3000 : 0;
        p.k((int)KN_PM0 + (int)K_STALL) = r.chance(250) ? (i64)(5 + r.below(60)) : 0;
    }
}
