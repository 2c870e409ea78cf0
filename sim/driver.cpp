// Driver: runs many seeds in parallel, one forked process per run; gates, minimises and replays violations.
#include "plan.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fstream>

using namespace dst;

static const char* const commonNames[] = { "strategy", "switch_pm", "plain_p10k", "pct_depth", "pct_span", "dt_max_ns",
    "fault_budget", "reuse_ids", "wall_base_s", "step_cap" };
static const i64 commonSimple[] = { S_RANDOM, 100, 0, 1, 1000, 0, 20, 0, 1767225600, 300000 };

static double real_now()
{
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}
static u64 mixseed(u64 a, u64 b) { Rng r(a * 1000003 + b); return r.next(); }
static u64 strhash(const std::string& s) { u64 h = 1469598103934665603ull; for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull; return h; }

static std::string knobName(int i)
{
    if (i < KN_PM0) return commonNames[i];
    if (i < KN_COUNT) return std::string("p10k.") + kind_names[i - KN_PM0];
    return scenario().knobs[i - KN_COUNT].name;
}
static i64 knobSimple(int i)
{
    if (i < KN_PM0) return commonSimple[i];
    if (i < KN_COUNT) return 0;
    return scenario().knobs[i - KN_COUNT].simple;
}

static Knobs toKnobs(const Plan& p)
{
    Knobs k;
    k.strategy = (int)p.k(KN_STRATEGY); k.switchPm = (u32)p.k(KN_SWITCH); k.plainPm = (u32)p.k(KN_PLAIN);
    k.pctDepth = (int)p.k(KN_PCTDEPTH); k.pctSpan = (u32)p.k(KN_PCTSPAN); k.dtMax = (u32)p.k(KN_DT);
    k.faultBudget = (u32)p.k(KN_BUDGET); k.reuseIds = p.k(KN_REUSE) != 0; k.stepCap = (u64)p.k(KN_STEPCAP);
    k.wallBase = (u64)p.k(KN_WALLBASE) * 1000000000ull;
    for (int i = 0; i < K_COUNT; ++i) k.pm[i] = (u32)p.k(KN_PM0 + i);
    return k;
}

struct Exec { const Plan* plan; const std::string* prop; int phase; };
static void mainEntry(void* p) { auto* e = (Exec*)p; scenario().main(*e->plan, *e->prop, e->phase); }

static bool gVerbose = false;

static volatile pid_t gChild = 0;
static int gHangSecs = 240;     // real time one run may take
static void onAlarm(int) { if (gChild) kill(gChild, SIGKILL); }

// one simulated run: a forked process, two if the simulated process crashes and is restarted
static void execute(const Plan& plan, const std::string& prop, ExecConfig x)
{
    for (int phase = 0; phase < 2; ++phase)
    {
        if (phase == 0) { R->steps = 0; R->accesses = 0; }
        R->verdict = V_NONE;
        gChild = 0; signal(SIGALRM, onAlarm);
        pid_t pid = fork();
        if (pid == 0)
        {
            x.phase = phase; alarm(0);
            Knobs k = toKnobs(plan);
            set_log(gVerbose);
            Exec e{ &plan, &prop, phase };
            dst::run(x, k, mainEntry, &e);
        }
        int st = 0;
        gChild = pid; alarm((unsigned)gHangSecs);
        waitpid(pid, &st, 0);
        gChild = 0; alarm(0);
        if (R->verdict == V_NONE)
        {
            R->verdict = V_ERROR;
            std::snprintf(R->cls, sizeof R->cls, "error");
            std::snprintf(R->msg, sizeof R->msg, "the run's process ended unexpectedly (status 0x%x)", st);
        }
        if (R->verdict != V_CRASHED) return;
    }
    R->verdict = V_ERROR;
    std::snprintf(R->msg, sizeof R->msg, "crashed twice");
}

static const PropInfo* propInfo(const std::string& id)
{
    for (int i = 0; i < scenario().nProps; ++i) if (id == scenario().props[i].id) return &scenario().props[i];
    return nullptr;
}
static bool inList(const std::string& list, const std::string& w)
{
    std::stringstream ss(list); std::string x;
    while (std::getline(ss, x, ',')) if (x == w) return true;
    return false;
}
static bool accepted(const std::string& prop, const std::string& cls)
{
    auto c = cls.find(':');
    if (c == std::string::npos) return inList(propInfo(prop)->generic, cls);
    return inList(cls.substr(0, c), prop);
}

struct Found { int verdict = V_NONE; std::string cls, msg; u64 hash = 0, schedHash = 0; std::vector<Choice> trace; bool overflow = false; u64 steps = 0; u32 switches = 0; };
static Found grab()
{
    Found f; f.verdict = R->verdict; f.cls = R->cls; f.msg = R->msg; f.hash = R->hash; f.schedHash = R->schedHash;
    f.trace.assign(R->trace, R->trace + R->ntrace); f.overflow = R->traceOverflow; f.steps = R->steps; f.switches = R->switches;
    return f;
}
static Found runSeed(const Plan& p, const std::string& prop, u64 seed)
{
    ExecConfig x; x.seed = seed; x.raceFatal = propInfo(prop)->raceFatal;
    execute(p, prop, x); return grab();
}
static Found runTrace(const Plan& p, const std::string& prop, const std::vector<Choice>& t)
{
    ExecConfig x; x.replay = true; x.trace = t.data(); x.ntrace = (int)t.size(); x.raceFatal = propInfo(prop)->raceFatal;
    execute(p, prop, x); return grab();
}

// ---- replay files ---------------------------------------------------------------------------------------
static void writeReplay(const std::string& path, const std::string& prop, const Plan& p, const Found& f, bool bySeed, u64 seed, const std::string& origin)
{
    std::ofstream o(path);
    o << "dst-replay 1\nscenario " << scenario().name << "\nproperty " << prop << "\norigin " << origin << "\n";
    o << "class " << f.cls << "\nhash " << f.hash << "\nmessage " << f.msg << "\n";
    for (size_t i = 0; i < p.knobs.size(); ++i) o << "knob " << knobName((int)i) << " " << p.knobs[i] << "\n";
    for (auto& op : p.ops)
        o << "op " << op.client << " " << scenario().opNames[op.code] << " " << op.a << " " << op.b << " " << op.d << "\n";
    if (bySeed) o << "execseed " << seed << "\n";
    else for (auto& c : f.trace) o << "choice " << kind_names[c.kind] << " T" << c.tid << " #" << c.idx << " = " << c.value << "\n";
    o << "end\n";
}
static bool readReplay(const std::string& path, std::string& prop, Plan& p, std::vector<Choice>& t, u64& hash, std::string& cls, bool& bySeed, u64& seed)
{
    std::ifstream in(path); std::string line; bool ok = false; bySeed = false;
    std::map<std::string, int> kn; int total = KN_COUNT + scenario().nKnobs;
    for (int i = 0; i < total; ++i) kn[knobName(i)] = i;
    p.knobs.assign((size_t)total, 0);
    for (int i = 0; i < total; ++i) p.knobs[(size_t)i] = knobSimple(i);
    while (std::getline(in, line))
    {
        std::stringstream ss(line); std::string w; ss >> w;
        if (w == "dst-replay") ok = true;
        else if (w == "scenario") { std::string n; ss >> n; if (n != scenario().name) return false; }
        else if (w == "property") ss >> prop;
        else if (w == "class") { std::getline(ss, cls); cls.erase(0, 1); }
        else if (w == "hash") ss >> hash;
        else if (w == "knob") { std::string n; i64 v; ss >> n >> v; if (kn.count(n)) p.knobs[(size_t)kn[n]] = v; }
        else if (w == "op")
        {
            Op o{}; std::string n; ss >> o.client >> n >> o.a >> o.b >> o.d;
            for (int i = 0; i < scenario().nOps; ++i) if (n == scenario().opNames[i]) o.code = i;
            p.ops.push_back(o);
        }
        else if (w == "execseed") { ss >> seed; bySeed = true; }
        else if (w == "choice")
        {
            Choice c{}; std::string k, tt, ii, eq; ss >> k >> tt >> ii >> eq >> c.value;
            for (int i = 0; i < K_COUNT; ++i) if (k == kind_names[i]) c.kind = i;
            c.tid = std::atoi(tt.c_str() + 1); c.idx = (u32)std::strtoul(ii.c_str() + 1, nullptr, 10);
            t.push_back(c);
        }
    }
    return ok;
}

// ---- minimisation ---------------------------------------------------------------------------------------
struct Shrinker
{
    std::string prop, cls; Plan plan; Found best; double deadline; int execs = 0; u64 seedBase;
    bool same(const Found& f) const { return f.verdict == V_VIOLATION && f.cls == cls; }
    bool tryPlan(const Plan& p)
    {
        if (real_now() > deadline) return false;
        Found f = runTrace(p, prop, best.trace); ++execs;
        if (!same(f) || f.overflow)
        {
            bool ok = false;
            for (int i = 0; i < 12 && !ok && real_now() < deadline; ++i)
            {
                f = runSeed(p, prop, mixseed(seedBase, (u64)i)); ++execs;
                ok = same(f) && !f.overflow;
            }
            if (!ok) return false;
        }
        plan = p; best = f;
        return true;
    }
    void ops()
    {
        for (size_t chunk = std::max<size_t>(1, plan.ops.size() / 2);; chunk /= 2)
        {
            bool any = true;
            while (any)
            {
                any = false;
                for (size_t i = 0; i < plan.ops.size();)
                {
                    Plan p = plan; size_t e = std::min(i + chunk, p.ops.size());
                    p.ops.erase(p.ops.begin() + (long)i, p.ops.begin() + (long)e);
                    if (tryPlan(p)) any = true; else i += chunk;
                    if (real_now() > deadline) return;
                }
                if (chunk > 1) break;
            }
            if (chunk <= 1) break;
        }
    }
    void ints()
    {
        for (size_t i = 0; i < plan.ops.size(); ++i)
            for (int f = 0; f < 3; ++f)
            {
                i64 v = f == 0 ? plan.ops[i].a : f == 1 ? plan.ops[i].b : plan.ops[i].d;
                i64 cand[3] = { 0, 1, v / 2 };
                for (i64 c : cand)
                {
                    i64 curv = f == 0 ? plan.ops[i].a : f == 1 ? plan.ops[i].b : plan.ops[i].d;
                    if (std::llabs(c) >= std::llabs(curv)) continue;
                    Plan p = plan; (f == 0 ? p.ops[i].a : f == 1 ? p.ops[i].b : p.ops[i].d) = c;
                    if (tryPlan(p)) break;
                }
                if (real_now() > deadline) return;
            }
        for (size_t i = 0; i < plan.knobs.size(); ++i)
        {
            if (i == KN_STRATEGY || i == KN_SWITCH || i == KN_STEPCAP || plan.knobs[i] == knobSimple((int)i)) continue;
            Plan p = plan; p.knobs[i] = knobSimple((int)i);
            tryPlan(p);
        }
    }
    void choices()
    {
        if (best.overflow) return;
        // first drop whole chunks, then single choices
        size_t n = 2;
        std::vector<Choice> t = best.trace;
        while (t.size() >= 1 && real_now() < deadline)
        {
            size_t chunk = (t.size() + n - 1) / n; bool reduced = false;
            for (size_t i = 0; i < t.size(); i += chunk)
            {
                std::vector<Choice> c(t.begin(), t.begin() + (long)i);
                c.insert(c.end(), t.begin() + (long)std::min(i + chunk, t.size()), t.end());
                Found f = runTrace(plan, prop, c); ++execs;
                if (same(f)) { t = f.trace.size() <= c.size() ? f.trace : c; Found g = runTrace(plan, prop, t); if (!same(g)) t = c; reduced = true; n = n > 2 ? n - 1 : 2; break; }
                if (real_now() > deadline) break;
            }
            if (!reduced) { if (chunk <= 1) break; n = std::min(t.size(), n * 2); }
        }
        Found f = runTrace(plan, prop, t);
        if (same(f)) { std::vector<Choice> tt = f.trace; Found g = runTrace(plan, prop, tt); if (same(g) && g.hash == f.hash) best = f; }
    }
};

// ---- batch ------------------------------------------------------------------------------------------------
struct WorkerStats
{
    u64 runs, ok, viol, other, steps, simNs, switches, accesses, opsDone, idleJumps, crashes, racesSeen, threads;
    u64 fired[K_COUNT], firedRuns[K_COUNT], probes[MAX_PROBES], strat[S_COUNT];
    int foundVerdict; u64 foundRun; char foundCls[64]; char foundMsg[1500];
    char otherCls[64]; char otherMsg[300];
    u64 nh;
};
static std::string esc(const std::string& s)
{
    std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o;
}
static Plan makePlan(const std::string& prop, u64 seed, u64 run, u64* execSeed)
{
    Rng r(mixseed(mixseed(seed, strhash(prop + "/" + scenario().name)), run));
    Plan p; scenario().gen(r, prop, p);
    *execSeed = r.next();
    return p;
}

// ended processes may give their memory back late; wait for it rather than run out
static void throttle()
{
    for (int i = 0; i < 200; ++i)
    {
        long kb = 1 << 30;
        if (FILE* f = std::fopen("/proc/meminfo", "r"))
        {
            char l[128];
            while (std::fgets(l, sizeof l, f)) if (std::sscanf(l, "MemAvailable: %ld", &kb) == 1) break;
            std::fclose(f);
        }
        if (kb > 5000000) return;
        usleep(50000);
    }
}

static int cmdRun(std::map<std::string, std::string>& a)
{
    std::string prop = a["prop"];
    if (!propInfo(prop)) { std::fprintf(stderr, "unknown property %s\n", prop.c_str()); return 3; }
    u64 seed = std::strtoull(a["seed"].c_str(), nullptr, 10);
    u64 N = std::strtoull(a["runs"].c_str(), nullptr, 10);
    int W = a.count("workers") ? std::atoi(a["workers"].c_str()) : 8;
    double secs = a.count("secs") ? std::atof(a["secs"].c_str()) : 1e9;
    double shrinkSecs = a.count("shrink") ? std::atof(a["shrink"].c_str()) : 45;
    auto* st = (WorkerStats*)mmap(nullptr, sizeof(WorkerStats) * (size_t)W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    u64 per = N / (u64)W + 2;
    auto* hashes = (u64*)mmap(nullptr, sizeof(u64) * (size_t)W * per * 2, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    auto* stop = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = real_now();
    cpu_set_t all; sched_getaffinity(0, sizeof all, &all);
    std::vector<int> cpus; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all)) cpus.push_back(i);
    std::vector<pid_t> pids;
    for (int w = 0; w < W; ++w)
    {
        pid_t pid = fork();
        if (pid == 0)
        {
            cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpus[(size_t)w % cpus.size()], &s); sched_setaffinity(0, sizeof s, &s);
            R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            WorkerStats& m = st[w];
            for (u64 i = (u64)w; i < N; i += (u64)W)
            {
                if (*stop || real_now() - t0 > secs) break;
                if (m.runs % 256 == 0) throttle();
                u64 es; Plan p = makePlan(prop, seed, i, &es);
                ExecConfig x; x.seed = es; x.raceFatal = propInfo(prop)->raceFatal;
                execute(p, prop, x);
                ++m.runs; m.steps += R->steps; m.simNs += R->simNs; m.switches += R->switches; m.accesses += R->accesses;
                m.opsDone += R->opsDone; m.idleJumps += R->idleJumps; m.racesSeen += R->races != 0; m.threads += R->threads;
                m.crashes += R->fired[K_IO_CRASH] != 0; ++m.strat[p.k(KN_STRATEGY) % S_COUNT];
                for (int k = 0; k < K_COUNT; ++k) { m.fired[k] += R->fired[k]; m.firedRuns[k] += R->fired[k] != 0; }
                for (int k = 0; k < MAX_PROBES; ++k) m.probes[k] += R->probes[k] != 0;
                if (m.nh < per)
                {
                    // runs of a single thread are told apart by everything that happened
                    bool faults = false;
                    for (int k = K_STALL; k < K_COUNT; ++k) if (R->fired[k]) faults = true;
                    hashes[((u64)w * per + m.nh) * 2] = R->switches ? R->schedHash : R->hash;
                    hashes[((u64)w * per + m.nh) * 2 + 1] = (R->switches || faults) && R->opsDone;
                    ++m.nh;
                }
                if (R->verdict == V_OK) ++m.ok;
                else if (R->verdict == V_ERROR || (R->verdict == V_VIOLATION && accepted(prop, R->cls)))
                {
                    m.foundVerdict = R->verdict; m.foundRun = i; std::memcpy(m.foundCls, R->cls, 64); std::memcpy(m.foundMsg, R->msg, sizeof m.foundMsg);
                    ++m.viol; *stop = 1; break;
                }
                else { ++m.other; std::memcpy(m.otherCls, R->cls, 64); std::snprintf(m.otherMsg, sizeof m.otherMsg, "%.280s", R->msg); }
            }
            _exit(0);
        }
        pids.push_back(pid);
    }
    for (pid_t p : pids) { int s; waitpid(p, &s, 0); }
    double t1 = real_now();
    WorkerStats tot{}; std::vector<u64> hs; int fw = -1;
    std::string otherCls, otherMsg;
    for (int w = 0; w < W; ++w)
    {
        WorkerStats& m = st[w];
        tot.runs += m.runs; tot.ok += m.ok; tot.viol += m.viol; tot.other += m.other; tot.steps += m.steps; tot.simNs += m.simNs; tot.switches += m.switches;
        tot.accesses += m.accesses; tot.opsDone += m.opsDone; tot.idleJumps += m.idleJumps; tot.crashes += m.crashes; tot.racesSeen += m.racesSeen; tot.threads += m.threads;
        for (int k = 0; k < K_COUNT; ++k) { tot.fired[k] += m.fired[k]; tot.firedRuns[k] += m.firedRuns[k]; }
        for (int k = 0; k < MAX_PROBES; ++k) tot.probes[k] += m.probes[k];
        for (int k = 0; k < S_COUNT; ++k) tot.strat[k] += m.strat[k];
        for (u64 i = 0; i < m.nh; ++i) if (hashes[((u64)w * per + i) * 2 + 1]) hs.push_back(hashes[((u64)w * per + i) * 2]);
        if (m.foundVerdict == V_VIOLATION && (fw < 0 || st[fw].foundVerdict == V_ERROR || m.foundRun < st[fw].foundRun)) fw = w;
        else if (m.foundVerdict == V_ERROR && fw < 0) fw = w;
        if (m.other && otherCls.empty()) { otherCls = m.otherCls; otherMsg = m.otherMsg; }
    }
    u64 nontrivial = hs.size();
    std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());

    int rc = 0; std::string replay, cls, msg, why; int execs = 0; size_t origOps = 0, origChoices = 0, minOps = 0, minChoices = 0;
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    { cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpus[0], &s); sched_setaffinity(0, sizeof s, &s); }
    if (fw >= 0 && st[fw].foundVerdict == V_ERROR)
    {
        rc = 2; why = std::string("run ") + std::to_string(st[fw].foundRun) + ": " + st[fw].foundMsg;
    }
    else if (fw >= 0)
    {
        u64 es; Plan p = makePlan(prop, seed, st[fw].foundRun, &es);
        Found f1 = runSeed(p, prop, es), f2 = runSeed(p, prop, es);
        cls = f1.cls; msg = f1.msg; origOps = p.ops.size(); origChoices = f1.trace.size();
        if (f1.verdict != V_VIOLATION || f1.hash != f2.hash || f1.cls != f2.cls || f1.cls != st[fw].foundCls)
        { rc = 2; why = "not reproducible with the same seed: run " + std::to_string(st[fw].foundRun) + " " + st[fw].foundCls + " / " + f1.cls + " / " + f2.cls; }
        else
        {
            bool bySeed = f1.overflow;
            Shrinker s; s.prop = prop; s.cls = f1.cls; s.plan = p; s.best = f1; s.deadline = real_now() + shrinkSecs; s.seedBase = mixseed(seed, st[fw].foundRun);
            if (!bySeed)
            {
                Found f3 = runTrace(p, prop, f1.trace);
                if (!(f3.verdict == V_VIOLATION && f3.cls == f1.cls && f3.hash == f1.hash)) { rc = 2; why = "the recorded choices do not replay: " + f1.cls + " / " + f3.cls + ": " + f3.msg; }
            }
            if (rc == 0)
            {
                s.ops(); s.ints(); s.ops();
                if (!s.best.overflow) { bySeed = false; s.deadline = std::max(s.deadline, real_now() + 15); s.choices(); }
                Found g1 = bySeed ? runSeed(s.plan, prop, es) : runTrace(s.plan, prop, s.best.trace);
                Found g2 = bySeed ? runSeed(s.plan, prop, es) : runTrace(s.plan, prop, s.best.trace);
                if (g1.verdict != V_VIOLATION || g1.cls != f1.cls || g1.hash != g2.hash)
                {
                    // fall back to the unminimised run
                    s.plan = p; g1 = f1;
                    bySeed = f1.overflow; s.best = f1;
                }
                else if (!bySeed) g1.trace = s.best.trace;
                execs = s.execs; minOps = s.plan.ops.size(); minChoices = g1.trace.size(); msg = g1.msg;
                replay = a["replaydir"] + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(st[fw].foundRun) + ".replay";
                writeReplay(replay, prop, s.plan, g1, bySeed, es, "seed " + std::to_string(seed) + " run " + std::to_string(st[fw].foundRun));
                rc = 1;
            }
        }
    }
    // sample plans, for the evidence
    std::string samples;
    for (u64 i = 0; i < 2 && i < N; ++i)
    {
        u64 es; Plan p = makePlan(prop, seed, i, &es);
        std::string s = "run " + std::to_string(i) + ":";
        for (int k = KN_COUNT; k < (int)p.knobs.size(); ++k) if (p.k(k)) s += " " + knobName(k) + "=" + std::to_string(p.k(k));
        s += " strategy=" + std::to_string(p.k(KN_STRATEGY)) + " ops:";
        for (size_t k = 0; k < p.ops.size() && k < 14; ++k)
            s += " T" + std::to_string(p.ops[k].client) + "." + scenario().opNames[p.ops[k].code] + "(" + std::to_string(p.ops[k].a) + "," + std::to_string(p.ops[k].b) + "," + std::to_string(p.ops[k].d) + ")";
        samples += (i ? ", " : "") + ("\"" + esc(s) + "\"");
    }
    std::ofstream o(a["out"]);
    o << "{\"rc\": " << rc << ", \"runs\": " << tot.runs << ", \"runs_ok\": " << tot.ok << ", \"planned_runs\": " << N << ", \"search_s\": " << (t1 - t0)
      << ", \"steps\": " << tot.steps << ", \"sim_ns\": " << tot.simNs << ", \"switches\": " << tot.switches << ", \"accesses\": " << tot.accesses
      << ", \"ops_done\": " << tot.opsDone << ", \"idle_jumps\": " << tot.idleJumps << ", \"crash_restart_runs\": " << tot.crashes
      << ", \"sim_threads\": " << tot.threads << ", \"runs_with_race\": " << tot.racesSeen << ", \"nontrivial\": " << nontrivial << ", \"distinct_schedules\": " << hs.size()
      << ", \"other_violations\": " << tot.other << ", \"other_class\": \"" << esc(otherCls) << "\", \"other_msg\": \"" << esc(otherMsg) << "\"";
    o << ", \"fired\": {"; bool first = true;
    for (int k = 0; k < K_COUNT; ++k) if (k != K_SCHED && tot.fired[k]) { o << (first ? "" : ", ") << "\"" << kind_names[k] << "\": {\"count\": " << tot.fired[k] << ", \"runs\": " << tot.firedRuns[k] << "}"; first = false; }
    o << "}, \"probes\": {"; first = true;
    for (int k = 0; k < scenario().nProbes; ++k) { o << (first ? "" : ", ") << "\"" << scenario().probes[k] << "\": " << tot.probes[k]; first = false; }
    static const char* sn[] = { "sequential", "random", "pct", "burst", "starving" };
    o << "}, \"strategies\": {"; first = true;
    for (int k = 0; k < S_COUNT; ++k) { o << (first ? "" : ", ") << "\"" << sn[k] << "\": " << tot.strat[k]; first = false; }
    o << "}, \"samples\": [" << samples << "], \"replay\": \"" << esc(replay) << "\", \"class\": \"" << esc(cls) << "\", \"msg\": \"" << esc(msg) << "\", \"why\": \"" << esc(why)
      << "\", \"shrink_execs\": " << execs << ", \"orig_ops\": " << origOps << ", \"orig_choices\": " << origChoices << ", \"min_ops\": " << minOps << ", \"min_choices\": " << minChoices << "}\n";
    return rc;
}

static int cmdReplay(std::map<std::string, std::string>& a)
{
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    gVerbose = a.count("verbose") != 0;
    std::string prop, cls; Plan p; std::vector<Choice> t; u64 hash = 0, seed = 0; bool bySeed = false;
    if (!readReplay(a["file"], prop, p, t, hash, cls, bySeed, seed)) { std::fprintf(stderr, "cannot read %s\n", a["file"].c_str()); return 3; }
    Found f = bySeed ? runSeed(p, prop, seed) : runTrace(p, prop, t);
    std::printf("verdict %d class %s hash %llu expected-hash %llu steps %llu\n%s\n", f.verdict, f.cls.c_str(), (unsigned long long)f.hash, (unsigned long long)hash, (unsigned long long)f.steps, f.msg.c_str());
    if (f.verdict == V_VIOLATION && f.cls == cls && f.hash == hash) { std::printf("REPRODUCED\n"); return 1; }
    if (f.verdict == V_VIOLATION) { std::printf("DIFFERENT VIOLATION\n"); return 4; }
    std::printf("NOT REPRODUCED\n");
    return f.verdict == V_OK ? 0 : 2;
}

static int cmdOne(std::map<std::string, std::string>& a)
{
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    gVerbose = a.count("verbose") != 0;
    u64 es; Plan p = makePlan(a["prop"], std::strtoull(a["seed"].c_str(), nullptr, 10), std::strtoull(a["run"].c_str(), nullptr, 10), &es);
    for (size_t i = 0; i < p.knobs.size(); ++i) std::printf("knob %s %lld\n", knobName((int)i).c_str(), (long long)p.knobs[i]);
    for (auto& op : p.ops) std::printf("op %d %s %lld %lld %lld\n", op.client, scenario().opNames[op.code], (long long)op.a, (long long)op.b, (long long)op.d);
    std::fflush(stdout);
    Found f = runSeed(p, a["prop"], es);
    std::printf("verdict %d class %s hash %llu steps %llu switches %u choices %zu\n%s\n", f.verdict, f.cls.c_str(), (unsigned long long)f.hash, (unsigned long long)f.steps, f.switches, f.trace.size(), f.msg.c_str());
    return 0;
}

// every run twice; prints a digest of all event-log hashes which must not depend on the number of workers
static int cmdDeterminism(std::map<std::string, std::string>& a)
{
    u64 N = std::strtoull(a["runs"].c_str(), nullptr, 10), seed = std::strtoull(a["seed"].c_str(), nullptr, 10);
    int W = a.count("workers") ? std::atoi(a["workers"].c_str()) : 8;
    std::string prop = a["prop"];
    auto* h = (u64*)mmap(nullptr, sizeof(u64) * (N + 1) * 2, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids;
    for (int w = 0; w < W; ++w)
    {
        pid_t pid = fork();
        if (pid == 0)
        {
            R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            for (u64 i = (u64)w; i < N; i += (u64)W)
            {
                u64 es; Plan p = makePlan(prop, seed, i, &es);
                Found f = runSeed(p, prop, es), g = runSeed(p, prop, es);
                u64 bad = f.hash != g.hash || f.verdict != g.verdict || f.cls != g.cls;
                if (!f.overflow && !bad)
                {
                    Found t = runTrace(p, prop, f.trace);
                    if (t.hash != f.hash || t.verdict != f.verdict) { bad = 1; if (i < 2000) std::printf("run %llu: recorded choices replay differently: %d %s / %d %s %s\n", (unsigned long long)i, f.verdict, f.cls.c_str(), t.verdict, t.cls.c_str(), t.msg.c_str()); }
                }
                h[2 * i] = f.hash; h[2 * i + 1] = bad;
            }
            std::fflush(stdout);
            _exit(0);
        }
        pids.push_back(pid);
    }
    for (pid_t p : pids) { int s; waitpid(p, &s, 0); }
    u64 d = 14695981039346656037ull, bad = 0;
    for (u64 i = 0; i < N; ++i) { d = (d ^ h[2 * i]) * 1099511628211ull; if (h[2 * i + 1]) { ++bad; if (bad < 5) std::printf("run %llu is not deterministic\n", (unsigned long long)i); } }
    std::printf("runs %llu nondeterministic %llu digest %llu\n", (unsigned long long)N, (unsigned long long)bad, (unsigned long long)d);
    return bad != 0;
}

static void envInit() { if (const char* e = getenv("DST_HANG_SECS")) gHangSecs = std::max(1, std::atoi(e)); }
int main(int argc, char** argv)
{
    envInit();
    // same addresses in every process; not needed for determinism, but it makes traces easier to compare
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("DST_REEXEC"))
    {
        setenv("DST_REEXEC", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> a;
    for (int i = 2; i < argc; ++i)
    {
        std::string s = argv[i];
        if (s.rfind("--", 0) == 0) { s.erase(0, 2); if (i + 1 < argc && std::strncmp(argv[i + 1], "--", 2)) a[s] = argv[++i]; else a[s] = "1"; }
        else a["file"] = s;
    }
    init_process();
    std::string c = argc > 1 ? argv[1] : "";
    int rc = 3;
    if (c == "run") rc = cmdRun(a);
    else if (c == "replay") rc = cmdReplay(a);
    else if (c == "one") rc = cmdOne(a);
    else if (c == "determinism") rc = cmdDeterminism(a);
    else std::fprintf(stderr, "usage: run|replay|one|determinism\n");
    std::fflush(stdout);
    _exit(rc);
}
