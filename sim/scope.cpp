// Scenario: the scope guards under exceptions at every point, nested unwinding, failing and throwing
// tasks, tasks that add tasks, and several threads leaving scopes at the same time.
#include <pluto/scope.hpp>
#include "plan.hpp"
#include <cstring>
#include <exception>
#include <memory>
#include <new>
#include <utility>

using namespace dst;

namespace
{
    enum { O_EXIT, O_SUCCESS, O_FAIL, O_END, O_ADD, O_ADDBODY, O_THROW, O_TRY, O_HANDLER, O_DTOR, O_YIELD, O_RETHROW, N_OPS };
    const char* const opNames[] = { "on_scope_exit", "on_scope_success", "on_scope_fail", "end", "add", "add_body", "throw", "try", "handler", "destructor", "yield", "rethrow" };
    enum { T_COUNT, T_THROW, T_EMPTY, T_ADD, T_ADDTHROW, T_YIELD, T_ADDOUTER, N_TASKS };
    enum { SK_CLIENTS = KN_COUNT, SK_ARMED, SK_FLOOD, SK_END };
    const KnobDef knobDefs[] = { { "clients", 1 }, { "faults_in_calls", 0 }, { "flood", 1 } };
    enum { P_EXIT, P_SUCCESS_RAN, P_SUCCESS_NOT, P_FAIL_RAN, P_FAIL_NOT, P_THROWTASK, P_EMPTY, P_ADDED, P_NESTED_NORMAL, P_NESTED_THROW, P_HANDLER, P_ADDFAILED, P_CTORFAILED, P_DEEP, P_BODY, P_OUTER, P_FLOOD, N_PROBES };
    const char* const probeNames[] = { "exit_tasks_ran", "success_tasks_ran", "success_tasks_dropped", "fail_tasks_ran", "fail_tasks_dropped", "task_threw", "empty_task", "task_added_by_its_own_guard", "scope_left_normally_during_unwinding",
        "scope_left_by_exception_during_unwinding", "scope_in_exception_handler", "add_failed", "constructor_failed", "three_exceptions_in_flight", "scopes_inside_task", "task_added_to_outer_guard_by_task", "thousands_of_tasks" };
    const PropInfo props[] = { { "S01", true, "deadlock,livelock,terminate,crash,uaf,misuse,race" } };

    struct Node { Op op; std::vector<Node> in; };
    struct Boom { int id; };
    struct CopyFailed {};

    constexpr int MAXG = 400, MAXTASK = 900, MAXTH = 64;
    struct AnyGuard { virtual void add(const std::function<void()>&) = 0; virtual ~AnyGuard() {} };
    struct G
    {
        int kind, thread; AnyGuard* box;
        bool normalEnd, dying, unwindingCtor, ranAny;
        std::vector<int> tasks;         // model: tasks still to be run, last added at the end
    } g[MAXG];
    int nG;
    struct T { int guard, type, runs; bool added; const Node* body; } t[MAXTASK];
    int nT, liveFns;
    bool armed; u32 copyPm;
    const Plan* plan;
    std::vector<int> scopeOf[MAXTH];    // guards alive on each thread, innermost last
    bool armedT[MAXTH];
    int inFlight[MAXTH];                // scopes being left by an exception
    std::vector<Node> prog[8];

    void block(const std::vector<Node>& v, std::size_t i);

    int pendingExceptions()
    {
#if __cplusplus >= 201703L
        return std::uncaught_exceptions();
#else
        return std::uncaught_exception() ? 1 : 0;
#endif
    }
    u64 faults() { return (u64)R->fired[K_ALLOC] + R->fired[K_COPY]; }

    // calls into the library with faults armed, if this run has any
    struct Arm
    {
        bool a; int me;
        Arm() : a(armed), me(self()) { arm_alloc(a); armedT[me] = a; }
        ~Arm() { arm_alloc(false); armedT[me] = false; }
    };

    int newTask(int guard, int type, const Node* body)
    {
        if (nT >= MAXTASK) return -1;
        t[nT] = T{ guard, type, 0, false, body };
        return nT++;
    }

    void addTask(int guard, int type, const Node* body);

    void runTask(int id)
    {
        T& k = t[id]; G& x = g[k.guard];
        note("task %d of guard %d", id, k.guard);
        ++R->opsDone;
        if (!k.added) fail("S01:a task ran that was not added", "task %d ran although adding it had failed", id);
        if (++k.runs > 1) fail("S01:a task ran twice", "task %d of guard %d (%s) ran twice", id, k.guard, opNames[x.kind]);
        if (!x.dying) fail("S01:a task ran before the end of the scope", "task %d of guard %d (%s) ran before the scope was left", id, k.guard, opNames[x.kind]);
        if (!x.unwindingCtor)
        {
            if (x.kind == O_SUCCESS && !x.normalEnd) fail("S01:a success task ran on failure", "task %d of a success guard ran although the scope was left by an exception", id);
            if (x.kind == O_FAIL && x.normalEnd) fail("S01:a fail task ran on success", "task %d of a fail guard ran although the scope was left without an exception", id);
        }
        if (x.thread != self()) fail("S01:a task ran on another thread", "task %d ran on another thread than the one that left the scope", id);
        x.ranAny = true;
        while (!x.tasks.empty() && t[x.tasks.back()].type == T_EMPTY) x.tasks.pop_back();
        if (x.tasks.empty() || x.tasks.back() != id) fail("S01:wrong order", "task %d of guard %d (%s) ran when task %d was the last one added", id, k.guard, opNames[x.kind], x.tasks.empty() ? -1 : x.tasks.back());
        x.tasks.pop_back();
        switch (k.type)
        {
        case T_THROW: probe(P_THROWTASK); throw Boom{ id };
        case T_ADD: probe(P_ADDED); addTask(k.guard, (id * 7 + nT) % 5 == 0 ? T_ADD : T_COUNT, nullptr); break;
        case T_ADDTHROW: probe(P_ADDED); addTask(k.guard, T_COUNT, nullptr); throw Boom{ id };
        case T_YIELD: { Api a; yield(); } break;
        case T_ADDOUTER:
        {
            auto& s = scopeOf[self()];
            for (std::size_t i = s.size(); i--;) if (s[i] != k.guard && !g[s[i]].dying) { probe(P_OUTER); addTask(s[i], T_COUNT, nullptr); break; }
            break;
        }
        default: break;
        }
        if (k.body) { probe(P_BODY); block(k.body->in, 0); }
    }
    struct Fn
    {
        int id;
        long pad[4] = {};       // too big for std::function to store in place
        explicit Fn(int i) : id(i) { Harness h; ++liveFns; }
        Fn(const Fn& o) : id(o.id)
        {
            Harness h;
            if (armedT[self()] && copyPm && choose(K_COPY, 1, copyPm)) throw CopyFailed();
            ++liveFns;
        }
        ~Fn() { Harness h; --liveFns; }
        void operator()() const
        {
            Harness h; int i = id;
            // nothing fails inside the task but what it asks for itself
            int me = self(); bool a = armedT[me]; armedT[me] = false; arm_alloc(false);
            struct Back { int me; bool a; ~Back() { armedT[me] = a; arm_alloc(a); } } back{ me, a };
            runTask(i);
        }
    };
    std::function<void()> makeFn(int id) { return t[id].type == T_EMPTY ? std::function<void()>() : std::function<void()>(Fn(id)); }

    void addTask(int guard, int type, const Node* body)
    {
        int id = newTask(guard, type, body);
        if (id < 0) return;
        if (type == T_EMPTY) probe(P_EMPTY);
        std::function<void()> f = makeFn(id);
        u64 before = faults();
        // known to the model before the call; taken back if it fails
        t[id].added = true;
        g[guard].tasks.push_back(id);
        note("add %d to guard %d", id, guard);
        bool ok = false;
        struct Undo { bool& ok; int id, guard; u64 before; ~Undo()
        {
            if (ok) return;
            probe(P_ADDFAILED);
            if (faults() == before) fail("S01:call failed without cause", "add() threw although nothing it used had failed");
            t[id].added = false; g[guard].tasks.pop_back();
        } } undo{ ok, id, guard, before };
        AnyGuard* b = g[guard].box;
        { Arm arm; Api a; b->add(f); }
        ok = true;
    }

    template <class Guard> struct Box : AnyGuard
    {
        int id; alignas(Guard) char mem[sizeof(Guard)];
        explicit Box(int i, int first) : id(i)
        {
            u64 before = faults();
            bool ok = false;
            struct Undo { bool& ok; int first; u64 before; ~Undo()
            {
                if (ok) return;
                probe(P_CTORFAILED);
                if (faults() == before) fail("S01:call failed without cause", "a constructor threw although nothing it used had failed");
                if (first >= 0) t[first].added = false;
            } } undo{ ok, first, before };
            if (first >= 0)
            {
                std::function<void()> f = makeFn(first);
                t[first].added = true; g[id].tasks.push_back(first);
                { Arm arm; Api a; new (mem) Guard(f); }
            }
            else { Arm arm; Api a; new (mem) Guard(); }
            ok = true;
            g[id].box = this;
        }
        void add(const std::function<void()>& f) override { reinterpret_cast<Guard*>(mem)->add(f); }
        ~Box()
        {
            G& x = g[id]; int me = self();
            int pe = pendingExceptions();
            note("leave guard %d %s %s", id, opNames[x.kind], x.normalEnd ? "normally" : "by an exception");
            if (pe - !x.normalEnd > 0) probe(x.normalEnd ? P_NESTED_NORMAL : P_NESTED_THROW);
            if (pe > 2) probe(P_DEEP);
            x.dying = true;
            inFlight[me] = pe;
            { Arm arm; Api a; reinterpret_cast<Guard*>(mem)->~Guard(); }
            while (!x.tasks.empty() && t[x.tasks.back()].type == T_EMPTY) x.tasks.pop_back();
            bool due = x.kind == O_EXIT || (x.kind == O_SUCCESS) == x.normalEnd;
            if (x.unwindingCtor && x.kind != O_EXIT) due = x.ranAny;      // cannot be decided before C++17
            if (due && !x.tasks.empty()) fail("S01:a task was not run", "task %d of guard %d (%s) was not run although the scope was left %s", x.tasks.back(), id, opNames[x.kind], x.normalEnd ? "normally" : "by an exception");
            if (x.ranAny) probe(x.kind == O_EXIT ? P_EXIT : x.kind == O_SUCCESS ? P_SUCCESS_RAN : P_FAIL_RAN);
            else if (!x.tasks.empty()) probe(x.kind == O_SUCCESS ? P_SUCCESS_NOT : P_FAIL_NOT);
            x.box = nullptr; x.tasks.clear();
        }
    };

    template <class Guard> void guardScope(const Node& n)
    {
        if (nG >= MAXG) return;
        int id = nG++;
        g[id] = G(); g[id].kind = n.op.code; g[id].thread = self();
#if __cplusplus < 201703L
        g[id].unwindingCtor = pendingExceptions() != 0;
#endif
        int first = n.op.a ? newTask(id, (int)(n.op.b % N_TASKS), nullptr) : -1;
        Box<Guard> box(id, first);
        scopeOf[self()].push_back(id);
        struct Pop { ~Pop() { scopeOf[self()].pop_back(); } } pop;
        block(n.in, 0);
        g[id].normalEnd = true;
    }
    // runs its part of the program when it is destroyed, normally or by an exception
    struct Deferred
    {
        const Node* n;
        ~Deferred()
        {
            try { block(n->in, 0); } catch (...) {}
        }
    };
    void block(const std::vector<Node>& v, std::size_t i)
    {
        for (; i < v.size(); ++i)
        {
            const Node& n = v[i];
            auto& s = scopeOf[self()];
            switch (n.op.code)
            {
            case O_EXIT: guardScope<pluto::on_scope_exit>(n); break;
            case O_SUCCESS: guardScope<pluto::on_scope_success>(n); break;
            case O_FAIL: guardScope<pluto::on_scope_fail>(n); break;
            case O_ADD: case O_ADDBODY:
            {
                std::size_t up = (std::size_t)n.op.a;
                if (up >= s.size() || g[s[s.size() - 1 - up]].dying) break;
                addTask(s[s.size() - 1 - up], n.op.code == O_ADD ? (int)(n.op.b % N_TASKS) : T_COUNT, n.op.code == O_ADD ? nullptr : &n);
                break;
            }
            case O_THROW: note("throw"); throw Boom{ -1 };
            case O_RETHROW: if (std::current_exception()) { note("rethrow"); throw; } break;
            case O_TRY:
                try { block(n.in, 0); }
                catch (...)
                {
                    for (auto& h : n.in) if (h.op.code == O_HANDLER) { probe(P_HANDLER); block(h.in, 0); }
                }
                break;
            case O_DTOR: { Deferred d{ &n }; block(v, i + 1); return; }
            case O_YIELD: { Api a; yield(); } break;
            default: break;
            }
        }
    }

    void client(void* p)
    {
        try { block(prog[(std::intptr_t)p], 0); } catch (...) {}
    }

    std::size_t parse(const std::vector<Op>& ops, std::size_t i, std::vector<Node>& out, int depth)
    {
        for (; i < ops.size();)
        {
            const Op& o = ops[i];
            if (o.code == O_END) { if (depth) return i + 1; ++i; continue; }
            out.push_back(Node{ o, {} });
            ++i;
            bool opens = o.code <= O_FAIL || o.code == O_ADDBODY || o.code == O_TRY || o.code == O_HANDLER || o.code == O_DTOR;
            if (opens && depth < 24) { std::vector<Node> in; i = parse(ops, i, in, depth + 1); out.back().in.swap(in); }
        }
        return i;
    }

    // thousands of tasks in one guard
    int floodNext, floodRun;
    template <class Guard> void floodScope(int n, bool thrown, bool expected)
    {
        floodNext = n; floodRun = 0;
        try
        {
            Api a; Guard guard{};
            for (int i = 1; i <= n; ++i) guard.add([i, n]
            {
                Harness h;
                if (i != floodNext--) fail("S01:wrong order", "task %d of %d is run although task %d was to be run", i, n, floodNext + 1);
                ++floodRun; if (i % 5 == 0) throw Boom{ i };
            });
            if (thrown) throw Boom{ 0 };
        }
        catch (const Boom& b) { if (!thrown || b.id) fail("S01:exception escaped", "an exception of task %d of %d left the scope", b.id, n); }
        if (floodRun != (expected ? n : 0)) fail("S01:tasks not run", "%d of %d tasks were run", floodRun, n);
    }
    void floodMain(const Plan& p)
    {
        int n = (int)p.k(SK_FLOOD); probe(P_FLOOD);
        bool thrown = n % 2;
        switch (n / 2 % 3)
        {
        case 0: floodScope<pluto::on_scope_exit>(n, thrown, true); break;
        case 1: floodScope<pluto::on_scope_success>(n, thrown, !thrown); break;
        default: floodScope<pluto::on_scope_fail>(n, thrown, thrown); break;
        }
        finish_ok();
    }

    void simMain(const Plan& p, const std::string&, int)
    {
        if (p.k(SK_FLOOD)) floodMain(p);
        plan = &p; armed = p.k(SK_ARMED) != 0; copyPm = (u32)p.k(KN_PM0 + K_COPY);
        int nc = (int)std::min<i64>(p.k(SK_CLIENTS), 6);
        for (int c = 0; c <= nc; ++c)
        {
            std::vector<Op> ops;
            for (auto& o : p.ops) if (o.client == c) ops.push_back(o);
            parse(ops, 0, prog[c], 0);
        }
        u64 blocks = live_blocks();
        std::vector<int> th;
        for (int c = 1; c <= nc; ++c) th.push_back(spawn(client, (void*)(std::intptr_t)c));
        client(nullptr);
        for (int x : th) join(x);
        if (liveFns) fail("S01:leaked", "%d tasks are left after all scopes were left", liveFns);
        if (live_blocks() != blocks) fail("S01:leaked", "%lld blocks of memory are left after all scopes were left", (long long)(live_blocks() - blocks));
        finish_ok();
    }

    void genBlock(Rng& r, Plan& p, int client, int depth, int& budget, bool inGuard)
    {
        int n = (int)(1 + r.below(depth ? 4 : 5));
        auto add = [&](int code, i64 a = 0, i64 b = 0) { p.ops.push_back(Op{ client, code, a, b, 0 }); };
        for (int i = 0; i < n && budget > 0; ++i)
        {
            --budget;
            int x = (int)r.below(100);
            i64 task = r.chance(400) ? (i64)T_COUNT : (i64)r.below(N_TASKS);
            if (depth < 7 && x < 34)
            {
                add((int)(O_EXIT + r.below(3)), r.chance(500), task);
                genBlock(r, p, client, depth + 1, budget, true);
                add(O_END);
            }
            else if (x < 60 && inGuard)
            {
                i64 up = r.chance(800) ? 0 : (i64)r.below(3);
                if (depth < 7 && r.chance(250)) { add(O_ADDBODY, up); genBlock(r, p, client, depth + 1, budget, true); add(O_END); }
                else add(O_ADD, up, task);
            }
            else if (depth < 7 && x < 72)
            {
                add(O_DTOR); genBlock(r, p, client, depth + 1, budget, inGuard); add(O_END);
            }
            else if (depth < 7 && x < 84)
            {
                add(O_TRY); genBlock(r, p, client, depth + 1, budget, inGuard);
                if (r.chance(500)) { add(O_HANDLER); genBlock(r, p, client, depth + 1, budget, inGuard); if (r.chance(300)) add(O_RETHROW); add(O_END); }
                add(O_END);
            }
            else if (x < 90) add(O_YIELD);
            else if (depth && i == n - 1) add(O_THROW);
            else if (inGuard) add(O_ADD, 0, task);
        }
        if (depth && r.chance(200)) add(O_THROW);
    }
    void gen(Rng& r, const std::string&, Plan& p)
    {
        gen_common(r, p, SK_END - KN_COUNT);
        if (r.below(4000) < 2) { p.k(SK_FLOOD) = r.chance(50) ? (i64)(65600 + r.below(4000)) : (i64)(300 + r.below(5000)); p.k(KN_STEPCAP) = 100000000; p.k(KN_STRATEGY) = S_SEQ; p.k(KN_PLAIN) = 0; return; }
        p.k(SK_CLIENTS) = r.chance(400) ? 0 : (i64)(1 + r.below(3));
        if (r.chance(400))
        {
            p.k(SK_ARMED) = 1;
            p.k(KN_PM0 + K_ALLOC) = r.chance(700) ? (i64)(50 + r.below(2000)) : 0;
            p.k(KN_PM0 + K_COPY) = r.chance(500) ? (i64)(50 + r.below(2000)) : 0;
            p.k(KN_BUDGET) = 1 + (i64)r.below(6);
        }
        for (int c = 0; c <= p.k(SK_CLIENTS); ++c) { int budget = (int)(4 + r.below(r.chance(300) ? 40 : 14)); genBlock(r, p, c, 0, budget, false); }
    }
}

const Scenario& dst::scenario()
{
    static const Scenario s{ SIM_NAME, knobDefs, SK_END - KN_COUNT, probeNames, N_PROBES, opNames, N_OPS, props, (int)(sizeof props / sizeof props[0]), gen, simMain };
    return s;
}
