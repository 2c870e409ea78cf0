// Scenario: pluto::lru_cache and pluto::safe_lru_cache with throwing key and value types, failing
// allocations and, for the safe cache, many simulated threads.
#include <pluto/lru_cache.hpp>
#include <pluto/safe_lru_cache.hpp>
#include "plan.hpp"
#include <algorithm>
#include <cstring>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <utility>

using namespace dst;

namespace
{
    enum { O_INSERT, O_ASSIGN, O_GET, O_REMOVE, O_CONTAINS, O_SIZE, O_EMPTY, O_GETCAP, O_CAP, O_CLEAR, O_COPY, O_COPYASSIGN, O_MOVE, O_MOVEASSIGN, O_SWAP, O_RENEW, O_SLEEP, N_OPS };
    const char* const opNames[] = { "insert", "insert_or_assign", "get", "remove", "contains", "size", "empty", "capacity", "set_capacity", "clear", "copy", "copy_assign", "move", "move_assign", "swap", "renew", "sleep" };
    enum { SK_CAP = KN_COUNT, SK_KEYS, SK_CLIENTS, SK_SAFE, SK_ARMED, SK_FINAL, SK_OBSERVE, SK_FLOOD, SK_END };
    const KnobDef knobDefs[] = { { "capacity", 1 }, { "keys", 1 }, { "clients", 1 }, { "safe_cache", 0 }, { "faults_in_calls", 0 }, { "final_probe", 0 }, { "observe_each", 0 }, { "flood", 1 } };
    enum { P_EVICT, P_ASSIGN_OLD, P_INSERT_OLD, P_CAP0, P_SHRINK, P_FAILED, P_FAILED_FULL, P_COPIED, P_MOVED, P_OVERLAP, P_READERS, P_INCONCLUSIVE, P_DRAIN_CAP, P_DRAIN_GET, P_SELF, P_AMBIGUOUS, P_FLOOD, P_FLOOD16, N_PROBES };
    const char* const probeNames[] = { "eviction", "assigned_existing_key", "inserted_existing_key", "insert_at_capacity_0", "capacity_lowered_below_size", "call_failed_by_fault", "insert_into_full_cache_failed", "cache_copied", "cache_moved",
        "overlapping_calls", "readers_overlapped", "history_search_given_up", "order_probed_by_shrinking", "values_probed_by_get", "self_assignment", "several_model_states_possible", "thousands_of_entries", "over_65536_entries" };
    const PropInfo props[] = { { "K01", true, "deadlock,livelock,terminate,crash,uaf,misuse,race" }, { "K02", false, "deadlock,livelock,terminate,crash,uaf,misuse" } };

    constexpr int MAXTH = 128, MAXKEY = 48, NSLOT = 3, MAXOPS = 3000;
    bool armedT[MAXTH];
    int liveKeys, liveValues;
    u32 copyPm;
    std::string prop;

    struct CopyFailed {};
    void userOp()
    {
        Harness h;
        int t = self();
        if (t < MAXTH && armedT[t] && copyPm && choose(K_COPY, 1, copyPm)) throw CopyFailed();
    }
    struct Key
    {
        int* p;
        explicit Key(int v) : p(new int(v)) { Harness h; ++liveKeys; }
        Key(const Key& o) : p(nullptr) { userOp(); p = new int(o.get()); Harness h; ++liveKeys; }
        Key(Key&& o) noexcept : p(o.p) { o.p = nullptr; Harness h; ++liveKeys; }
        Key& operator=(const Key& o) { userOp(); int* q = new int(o.get()); delete p; p = q; return *this; }
        Key& operator=(Key&& o) noexcept { std::swap(p, o.p); return *this; }
        ~Key() { delete p; p = nullptr; Harness h; --liveKeys; }
        int get() const { if (!p) fail("K01,K02:a moved-from key was used", "a key that had been moved from was copied or compared"); return *p; }
        bool operator<(const Key& o) const { userOp(); return get() < o.get(); }
    };
    struct Value
    {
        int* p;
        explicit Value(int v) : p(new int(v)) { Harness h; ++liveValues; }
        Value(const Value& o) : p(nullptr) { userOp(); p = new int(o.get()); Harness h; ++liveValues; }
        Value(Value&& o) noexcept : p(o.p) { o.p = nullptr; Harness h; ++liveValues; }
        Value& operator=(const Value& o) { userOp(); int* q = new int(o.get()); delete p; p = q; return *this; }
        Value& operator=(Value&& o) noexcept { std::swap(p, o.p); return *this; }
        ~Value() { delete p; p = nullptr; Harness h; --liveValues; }
        int get() const { if (!p) fail("K01,K02:a moved-from value was used", "a value that had been moved from was copied"); return *p; }
    };
    typedef pluto::lru_cache<Key, Value> Lru;
    typedef pluto::safe_lru_cache<Key, Value> Safe;

    struct Cache
    {
        virtual ~Cache() {}
        virtual bool insert(const Key&, const Value&) = 0;
        virtual bool assign(const Key&, const Value&) = 0;
        virtual bool get(const Key&, Value&) = 0;
        virtual bool remove(const Key&) = 0;
        virtual bool contains(const Key&) const = 0;
        virtual std::size_t size() const = 0;
        virtual bool empty() const = 0;
        virtual std::size_t capacity() const = 0;
        virtual void capacity(std::size_t) = 0;
        virtual void clear() = 0;
    };
    template <class C> struct CacheOf : Cache
    {
        C c;
        explicit CacheOf(std::size_t n) : c(n) {}
        explicit CacheOf(const C& o) : c(o) {}
        explicit CacheOf(C&& o) : c(std::move(o)) {}
        bool insert(const Key& k, const Value& v) override { return c.insert(k, v); }
        bool assign(const Key& k, const Value& v) override { return c.insert_or_assign(k, v); }
        bool get(const Key& k, Value& v) override { return c.get(k, v); }
        bool remove(const Key& k) override { return c.remove(k); }
        bool contains(const Key& k) const override { return c.contains(k); }
        std::size_t size() const override { return c.size(); }
        bool empty() const override { return c.empty(); }
        std::size_t capacity() const override { return c.capacity(); }
        void capacity(std::size_t n) override { c.capacity(n); }
        void clear() override { c.clear(); }
    };

    // ---- reference model -------------------------------------------------------------------
    struct State
    {
        int cap, n;
        std::pair<short, short> e[MAXKEY + 1];      // key and value, most recently used first
        State() : cap(0), n(0) {}
        bool operator<(const State& o) const
        {
            if (cap != o.cap) return cap < o.cap;
            if (n != o.n) return n < o.n;
            return std::lexicographical_compare(e, e + n, o.e, o.e + o.n);
        }
        int find(int k) const { for (int i = 0; i < n; ++i) if (e[i].first == k) return i; return -1; }
        void front(int i) { auto x = e[i]; for (int j = i; j > 0; --j) e[j] = e[j - 1]; e[0] = x; }
        void erase(int i) { for (int j = i; j + 1 < n; ++j) e[j] = e[j + 1]; --n; }
        void push(int k, int v) { for (int j = n; j > 0; --j) e[j] = e[j - 1]; e[0] = { (short)k, (short)v }; ++n; }
    };
    typedef std::set<State> States;

    struct Call
    {
        int code, key, arg;         // arg: value or capacity
        bool failed; i64 result;    // result: bool or size
        int got;                    // value returned by get
        u64 inv, ret; int client;
    };
    std::string text(const Call& c)
    {
        char b[160];
        std::string r = c.failed ? "failed" : std::to_string(c.result);
        if (c.code == O_GET && c.result && !c.failed) r += " (" + std::to_string(c.got) + ")";
        if (c.code == O_INSERT || c.code == O_ASSIGN) std::snprintf(b, sizeof b, "%s(%d, %d)", opNames[c.code], c.key, c.arg);
        else if (c.code == O_CAP) std::snprintf(b, sizeof b, "%s(%d)", opNames[c.code], c.arg);
        else if (c.code == O_GET || c.code == O_REMOVE || c.code == O_CONTAINS) std::snprintf(b, sizeof b, "%s(%d)", opNames[c.code], c.key);
        else std::snprintf(b, sizeof b, "%s()", opNames[c.code]);
        return std::string(b) + " = " + r;
    }
    std::string text(const State& s)
    {
        std::string r = "capacity " + std::to_string(s.cap) + " [";
        for (int i = 0; i < s.n; ++i) r += (i ? " " : "") + std::to_string(s.e[i].first) + ":" + std::to_string(s.e[i].second);
        return r + "]";
    }

    // all states in which the cache may be after the call, given its result
    void next(const State& s, const Call& c, States& out)
    {
        int i = s.find(c.key);
        State t = s;
        switch (c.code)
        {
        case O_INSERT: case O_ASSIGN:
            if (c.failed)
            {
                out.insert(s);
                if (i >= 0)
                {
                    if (c.code == O_INSERT) return;
                    t.erase(i); out.insert(t);
                    t = s; t.front(i); t.e[0].second = (short)c.arg; out.insert(t);
                    t = s; t.e[i].second = (short)c.arg; out.insert(t);
                }
                else if (s.cap)
                {
                    if (t.n == t.cap) { --t.n; out.insert(t); }
                    t.push(c.key, c.arg); out.insert(t);
                }
                return;
            }
            if (i >= 0)
            {
                if (c.result) return;
                if (c.code == O_ASSIGN) { t.front(i); t.e[0].second = (short)c.arg; }
            }
            else
            {
                if (!c.result) return;
                if (t.cap) { if (t.n == t.cap) --t.n; t.push(c.key, c.arg); }
            }
            out.insert(t); return;
        case O_GET:
            if (c.failed)
            {
                out.insert(s);
                if (i >= 0) { t.erase(i); out.insert(t); }
                return;
            }
            if ((i >= 0) != (c.result != 0)) return;
            if (i >= 0) { if (s.e[i].second != c.got) return; t.front(i); }
            out.insert(t); return;
        case O_REMOVE:
            if (c.failed) { out.insert(s); if (i >= 0) { t.erase(i); out.insert(t); } return; }
            if ((i >= 0) != (c.result != 0)) return;
            if (i >= 0) t.erase(i);
            out.insert(t); return;
        case O_CONTAINS: if (c.failed || (i >= 0) == (c.result != 0)) out.insert(s); return;
        case O_SIZE: if (c.result == s.n) out.insert(s); return;
        case O_EMPTY: if ((c.result != 0) == (s.n == 0)) out.insert(s); return;
        case O_GETCAP: if (c.result == s.cap) out.insert(s); return;
        case O_CLEAR: t.n = 0; out.insert(t); return;
        case O_CAP:
            if (c.failed)
            {
                // entries due for eviction may be gone already; the new capacity holds only if nothing exceeds it
                for (int n = s.n; n >= std::min(s.n, c.arg); --n)
                {
                    t = s; t.n = n; out.insert(t);
                    if (n <= c.arg) { t.cap = c.arg; out.insert(t); }
                }
                return;
            }
            t.cap = c.arg; t.n = std::min(t.n, c.arg);
            out.insert(t); return;
        default: return;
        }
    }

    // ---- making calls ------------------------------------------------------------------------
    const Plan* plan;
    int nKeys;
    bool armed;
    Cache* cache[NSLOT];
    u64 faults() { return (u64)R->fired[K_ALLOC] + R->fired[K_COPY]; }

    template <class F> bool guarded(bool arm, F f)
    {
        u64 before = faults();
        bool ok = true;
        int me = self();
        arm_alloc(arm); armedT[me] = arm;
        try { Api a; f(); }
        catch (const std::bad_alloc&) { ok = false; }
        catch (const CopyFailed&) { ok = false; }
        catch (...) { fail("K01,K02:unexpected exception", "a call threw an exception of an unexpected type"); }
        arm_alloc(false); armedT[me] = false;
        if (!ok)
        {
            probe(P_FAILED);
            if (faults() == before) fail("K01,K02:call failed without cause", "a call threw although nothing it used had failed");
        }
        return ok;
    }
    void invoke(Cache* c, Call& r, bool arm)
    {
        Key k(r.key); Value v(r.arg), out(-1);
        r.failed = false; r.result = 0; r.got = -1;
        r.client = self();
        r.inv = event();
        bool ok = guarded(arm, [&]
        {
            switch (r.code)
            {
            case O_INSERT: r.result = c->insert(k, v); break;
            case O_ASSIGN: r.result = c->assign(k, v); break;
            case O_GET: r.result = c->get(k, out); break;
            case O_REMOVE: r.result = c->remove(k); break;
            case O_CONTAINS: r.result = const_cast<const Cache*>(c)->contains(k); break;
            case O_SIZE: r.result = (i64)c->size(); break;
            case O_EMPTY: r.result = c->empty(); break;
            case O_GETCAP: r.result = (i64)c->capacity(); break;
            case O_CAP: c->capacity((std::size_t)r.arg); break;
            case O_CLEAR: c->clear(); break;
            default: break;
            }
        });
        r.ret = event();
        r.failed = !ok;
        if (r.code == O_GET && !r.result && out.get() != -1 && ok) fail("K01,K02:get changed the value", "get() returned false but changed the value passed to it");
        if (r.code == O_GET) r.got = out.get();
        if (k.get() != r.key || v.get() != r.arg) fail("K01,K02:argument changed", "a call changed its argument");
        note("%s", text(r).c_str());
        ++R->opsDone;
    }

    // ---- K02: one thread ------------------------------------------------------------------------
    States model[NSLOT];
    std::string lastOps;

    void step(int s, const Call& c)
    {
        States out;
        for (auto& m : model[s]) next(m, c, out);
        if (out.empty())
        {
            std::string was;
            int n = 0;
            for (auto& m : model[s]) if (n++ < 3) was += (was.empty() ? "" : " or ") + text(m);
            fail("K02:differs from the model", "%s does not fit the model state %s (cache %d, after%s)", text(c).c_str(), was.c_str(), s, lastOps.c_str());
        }
        if (c.code == O_INSERT || c.code == O_ASSIGN || c.code == O_CAP)
            for (auto& m : model[s])
            {
                int i = m.find(c.key);
                if (c.code == O_CAP) { if (m.n > c.arg) probe(P_SHRINK); }
                else if (i >= 0) probe(c.code == O_ASSIGN ? P_ASSIGN_OLD : P_INSERT_OLD);
                else if (!m.cap) probe(P_CAP0);
                else if (m.n == m.cap) probe(c.failed ? P_FAILED_FULL : P_EVICT);
                break;
            }
        model[s].swap(out);
        if (model[s].size() > 1) probe(P_AMBIGUOUS);
        // keep the last few calls for the report
        if (c.code != O_CONTAINS || c.failed) lastOps += " " + text(c) + ";";
        if (lastOps.size() > 600) lastOps.erase(0, lastOps.size() - 600);
    }
    void ask(int s, int code, int key, int arg)
    {
        Call c{}; c.code = code; c.key = key; c.arg = arg;
        invoke(cache[s], c, false);
        if (c.failed) fail("K02:call failed without cause", "a call threw although nothing it used had failed");
        step(s, c);
    }
    void observe(int s)
    {
        if (!cache[s] || model[s].empty()) return;
        ask(s, O_SIZE, 0, 0); ask(s, O_GETCAP, 0, 0); ask(s, O_EMPTY, 0, 0);
        for (int k = 0; k < nKeys; ++k) ask(s, O_CONTAINS, k, 0);
    }
    void drain(int s, int how)
    {
        if (!cache[s] || model[s].empty()) return;
        if (how & 1)
        {
            // order of all entries, by shrinking the cache to nothing
            probe(P_DRAIN_CAP);
            if (how & 2) { ask(s, O_CAP, 0, MAXKEY + 1); ask(s, O_ASSIGN, nKeys, 7777); }
            for (int n = nKeys + 1; n >= 1; --n)
            {
                ask(s, O_CAP, 0, n);
                for (int k = 0; k < nKeys; ++k) ask(s, O_CONTAINS, k, 0);
                ask(s, O_SIZE, 0, 0);
            }
            if (how & 4) for (int k = 0; k <= nKeys; ++k) ask(s, O_GET, k, 0);
        }
        else
        {
            probe(P_DRAIN_GET);
            for (int k = 0; k < nKeys; ++k) ask(s, O_GET, how & 2 ? nKeys - 1 - k : k, 0);
            for (int n = nKeys; n >= 1; --n) { ask(s, O_CAP, 0, n); observe(s); }
        }
    }
    void destroy(int s) { if (cache[s]) { Api a; delete cache[s]; } cache[s] = nullptr; model[s].clear(); }
    void addState(int s, int cap) { State z; z.cap = cap; model[s].insert(z); }

    void special(const Op& o)
    {
        int a = (int)(o.a % NSLOT), b = (int)(o.b % NSLOT);
        bool arm = armed;
        CacheOf<Lru>* A = static_cast<CacheOf<Lru>*>(cache[a]);
        CacheOf<Lru>* B = static_cast<CacheOf<Lru>*>(cache[b]);
        bool known = A && !model[a].empty();
        switch (o.code)
        {
        case O_COPY:        // a copy of a becomes b
            if (a == b || !known) return;
            destroy(b);
            {
                CacheOf<Lru>* n = nullptr;
                if (guarded(arm, [&] { n = new CacheOf<Lru>(const_cast<const Lru&>(A->c)); })) { cache[b] = n; model[b] = model[a]; probe(P_COPIED); lastOps += " copy;"; }
            }
            return;
        case O_COPYASSIGN:
            if (!known || !B) return;
            if (guarded(arm, [&] { B->c = const_cast<const Lru&>(A->c); })) { model[b] = model[a]; probe(a == b ? P_SELF : P_COPIED); lastOps += " copy-assign;"; }
            else if (a != b)
            {
                // a failed assignment leaves the target as it was, empty, or as the source
                States t = model[b];
                bool any = model[b].empty();
                for (auto& m : model[b]) { State e; e.cap = m.cap; t.insert(e); for (auto& q : model[a]) { State f; f.cap = q.cap; t.insert(f); } }
                for (auto& q : model[a]) t.insert(q);
                if (!any) model[b] = t; else { Api x; B->c.clear(); }     // moved-from before: still only clear() and assignment
                lastOps += " copy-assign failed;";
            }
            return;
        case O_MOVE:
            if (a == b || !known) return;
            destroy(b);
            {
                CacheOf<Lru>* n = nullptr;
                // the list's move constructor may allocate, so only the harness allocation can fail here
                if (guarded(false, [&] { n = new CacheOf<Lru>(std::move(A->c)); })) { cache[b] = n; model[b] = model[a]; model[a].clear(); probe(P_MOVED); lastOps += " move;"; }
            }
            return;
        case O_MOVEASSIGN:
            if (a == b || !known || !B) return;
            if (guarded(false, [&] { B->c = std::move(A->c); })) { model[b] = model[a]; model[a].clear(); probe(P_MOVED); lastOps += " move-assign;"; }
            return;
        case O_SWAP:
            if (a == b || !known || !B) return;
            guarded(false, [&] { using std::swap; swap(A->c, B->c); });
            model[a].swap(model[b]); probe(P_MOVED); lastOps += " swap;";
            return;
        case O_RENEW:
            destroy(a);
            { CacheOf<Lru>* n = nullptr; if (guarded(arm, [&] { n = new CacheOf<Lru>((std::size_t)o.d); })) { cache[a] = n; addState(a, (int)o.d); } }
            return;
        }
    }
    Call fromOp(const Op& o, int i)
    {
        Call c{};
        c.code = o.code; c.key = (int)(o.a % nKeys); c.arg = 100 + i;
        if (o.code == O_CAP) c.arg = (int)std::min<i64>(o.d, MAXKEY);
        return c;
    }
    void sequential()
    {
        bool safe = plan->k(SK_SAFE) != 0;
        int cap = (int)plan->k(SK_CAP);
        u64 blocks = live_blocks();
        int k0 = liveKeys, v0 = liveValues;
        { Api a; if (safe) cache[0] = new CacheOf<Safe>((std::size_t)cap); else cache[0] = new CacheOf<Lru>((std::size_t)cap); }
        addState(0, cap);
        for (std::size_t i = 0; i < plan->ops.size(); ++i)
        {
            const Op& o = plan->ops[i];
            if (o.code >= O_COPY && o.code <= O_RENEW)
            {
                if (safe) continue;
                special(o);
                for (int s = 0; s < NSLOT; ++s) if (plan->k(SK_OBSERVE)) observe(s);
                continue;
            }
            if (o.code == O_SLEEP) continue;
            int s = safe ? 0 : (int)(o.b % NSLOT);
            if (!cache[s]) s = 0;
            if (!cache[s] || model[s].empty()) continue;
            Call c = fromOp(o, (int)i);
            invoke(cache[s], c, armed);
            step(s, c);
            if (plan->k(SK_OBSERVE)) observe(s);
        }
        for (int s = 0; s < NSLOT; ++s) drain(s, (int)plan->k(SK_FINAL) + s);
        for (int s = 0; s < NSLOT; ++s) destroy(s);
        if (liveKeys != k0 || liveValues != v0) fail("K02:leaked", "%d keys and %d values are left after all caches were destroyed", liveKeys - k0, liveValues - v0);
        if (live_blocks() != blocks) fail("K02:leaked", "%lld blocks of memory are left after all caches were destroyed", (long long)(live_blocks() - blocks));
        finish_ok();
    }

    // ---- K01: many threads ------------------------------------------------------------------------
    Call hist[MAXOPS]; int nHist;
    int pendingReads;
    void doOp(int i)
    {
        const Op& o = plan->ops[(std::size_t)i];
        if (o.code == O_SLEEP) { Api a; sleep_ns((u64)o.d); return; }
        if (o.code >= O_COPY || nHist >= MAXOPS) return;
        bool rd = o.code == O_CONTAINS || o.code == O_SIZE || o.code == O_EMPTY || o.code == O_GETCAP;
        if (rd && pendingReads++) probe(P_READERS);
        Call c = fromOp(o, i);
        invoke(cache[0], c, armed);
        if (rd) --pendingReads;
        hist[nHist++] = c;
    }
    void client(void* p)
    {
        int c = (int)(std::intptr_t)p;
        for (std::size_t i = 0; i < plan->ops.size(); ++i) if (plan->ops[i].client == c) doOp((int)i);
    }
    struct Config
    {
        State s; std::vector<int> done;     // pending calls already taken effect
        bool operator<(const Config& o) const { if (done != o.done) return done < o.done; return s < o.s; }
    };
    void linearize(int cap)
    {
        std::vector<std::pair<u64, int>> ev;
        for (int i = 0; i < nHist; ++i) { ev.push_back({ hist[i].inv, i }); ev.push_back({ hist[i].ret, -i - 1 }); }
        std::sort(ev.begin(), ev.end());
        std::vector<int> pending;
        std::set<Config> cur;
        Config z; z.s.cap = cap; cur.insert(z);
        std::size_t work = 0;
        std::string recent;
        for (auto& e : ev)
        {
            if (e.second >= 0) { if (!pending.empty()) probe(P_OVERLAP); pending.push_back(e.second); continue; }
            int o = -e.second - 1;
            std::set<Config> out, seen;
            std::vector<Config> todo(cur.begin(), cur.end());
            while (!todo.empty())
            {
                if (++work > (nKeys > 8 ? 40000 : 300000)) { probe(P_INCONCLUSIVE); return; }
                Config c = todo.back(); todo.pop_back();
                if (std::find(c.done.begin(), c.done.end(), o) != c.done.end())
                {
                    c.done.erase(std::find(c.done.begin(), c.done.end(), o));
                    out.insert(c);
                    continue;
                }
                for (int p : pending)
                {
                    if (std::find(c.done.begin(), c.done.end(), p) != c.done.end()) continue;
                    States n;
                    next(c.s, hist[p], n);
                    for (auto& s : n)
                    {
                        Config d = c; d.s = s; d.done.push_back(p); std::sort(d.done.begin(), d.done.end());
                        if (seen.insert(d).second) todo.push_back(d);
                    }
                }
            }
            if (out.empty())
            {
                std::string was, pend;
                int n = 0;
                for (auto& c : cur) if (n++ < 3) was += (was.empty() ? "" : " or ") + text(c.s);
                for (int p : pending) if (p != o) pend += " " + text(hist[p]) + ";";
                fail("K01:not linearizable", "%s by T%d fits no order of the calls: after%s the cache was %s, overlapping calls:%s", text(hist[o]).c_str(), hist[o].client, recent.c_str(), was.c_str(), pend.c_str());
            }
            cur.swap(out);
            pending.erase(std::find(pending.begin(), pending.end(), o));
            recent += " " + text(hist[o]) + ";";
            if (recent.size() > 500) recent.erase(0, recent.size() - 500);
        }
    }
    void concurrent()
    {
        int cap = (int)plan->k(SK_CAP), nc = (int)plan->k(SK_CLIENTS);
        { Api a; cache[0] = new CacheOf<Safe>((std::size_t)cap); }
        std::vector<int> th;
        for (int c = 1; c <= nc; ++c) th.push_back(spawn(client, (void*)(std::intptr_t)c));
        client(nullptr);
        for (int t : th) join(t);
        // what is left in the cache, and in which order
        armed = false;
        auto put = [&](int code, int key, int arg) { if (nHist >= MAXOPS) return; Call c{}; c.code = code; c.key = key; c.arg = arg; invoke(cache[0], c, false); hist[nHist++] = c; };
        put(O_SIZE, 0, 0); put(O_GETCAP, 0, 0);
        if (plan->k(SK_FINAL) & 1) for (int n = nKeys; n >= 1; --n) { put(O_CAP, 0, n); for (int k = 0; k < nKeys; ++k) put(O_CONTAINS, k, 0); }
        else for (int k = 0; k < nKeys; ++k) put(O_GET, k, 0);
        linearize(cap);
        { Api a; delete cache[0]; }
        if (liveKeys || liveValues) fail("K01,K02:leaked", "%d keys and %d values are left after the cache was destroyed", liveKeys, liveValues);
        finish_ok();
    }

    // thousands of entries, capacities beyond 32 bits: a mode of its own with a plain reference model
    template <class C> void floodMain(const Plan& p, const char* cls)
    {
        const int n = (int)std::max<i64>(1, p.k(SK_FLOOD)); Rng r((u64)n * 7 + 1);
        probe(n > 65536 ? P_FLOOD16 : P_FLOOD);
        u64 cap = r.chance(300) ? (1ull << 32) + r.below(4) : r.chance(500) ? (u64)n : 1 + r.below((u64)n);
        const u64 keys = (u64)n * 3 / 2;
        std::list<std::pair<i64, int>> order; std::map<i64, std::list<std::pair<i64, int>>::iterator> at;   // most recent first
        auto trim = [&] { while (order.size() > cap) { at.erase(order.back().first); order.pop_back(); } };
        auto touch = [&](i64 k) { order.splice(order.begin(), order, at[k]); };
        C* q; { Api a; q = new C((std::size_t)cap); }
        u64 size; bool got; int done = 0;
        auto bad = [&](const char* what, i64 k, i64 is, i64 want) { fail(cls, "call %d, %s of key %lld gives %lld instead of %lld with %zu entries and a capacity of %llu", done, what, (long long)k, (long long)is, (long long)want, order.size(), (unsigned long long)cap); };
        for (; done < n * 3; ++done)
        {
            i64 k = done < n ? done * 7919ll % (i64)keys : (i64)r.below(keys); int v = (int)r.below(1000000), x = done < n ? 0 : (int)r.below(100);
            if (done && done % (n / 3 + 1) == 0 && r.chance(500))
            {
                cap = r.chance(200) ? (1ull << 32) + 1 : std::max<u64>(order.size() * (3 + r.below(8)) / 8, 1);
                { Api a; q->capacity((std::size_t)cap); } trim();
            }
            auto it = at.find(k); bool has = it != at.end();
            if (x < 35) { { Api a; got = q->insert(k, v); } if (got == has) bad("insert", k, got, !has); if (!has) { order.emplace_front(k, v); at[k] = order.begin(); trim(); } }
            else if (x < 60) { { Api a; got = q->insert_or_assign(k, v); } if (!has) { order.emplace_front(k, v); at[k] = order.begin(); trim(); } else { it->second->second = v; touch(k); } }
            else if (x < 80) { int w = -1; { Api a; got = q->get(k, w); } if (got != has || (has && w != it->second->second)) bad("get", k, w, has ? it->second->second : -1); if (has) touch(k); }
            else if (x < 90) { { Api a; got = q->contains(k); } if (got != has) bad("contains", k, got, has); }
            else { { Api a; got = q->remove(k); } if (got != has) bad("remove", k, got, has); if (has) { order.erase(it->second); at.erase(it); } }
            if (done % 16 == 0) { { Api a; size = q->size(); } if (size != order.size()) bad("size", 0, (i64)size, (i64)order.size()); }
        }
        { Api a; size = q->capacity(); } if (size != cap) bad("capacity", 0, (i64)size, (i64)cap);
        // the order, by shrinking
        for (int i = 0; i < 8 && order.size() > 1; ++i)
        {
            cap = order.size() * 2 / 3; { Api a; q->capacity((std::size_t)cap); } trim();
            for (u64 k = 0; k < keys; ++k) { { Api a; got = q->contains((i64)k); } if (got != (at.count((i64)k) != 0)) bad("contains", (i64)k, got, !got); }
        }
        { Api a; q->clear(); size = q->size(); } if (size) bad("size after clear", 0, (i64)size, 0);
        { Api a; delete q; }
        finish_ok();
    }

    void simMain(const Plan& p, const std::string& pr, int)
    {
        if (p.k(SK_FLOOD))
        {
            plan = &p; prop = pr;
            if (p.k(SK_SAFE)) floodMain<pluto::safe_lru_cache<i64, int>>(p, "K01,K02:not as the model");
            else floodMain<pluto::lru_cache<i64, int>>(p, "K02:not as the model");
        }
        plan = &p; prop = pr;
        nKeys = (int)std::max<i64>(1, std::min<i64>(p.k(SK_KEYS), MAXKEY - 1));
        armed = p.k(SK_ARMED) != 0;
        copyPm = (u32)p.k(KN_PM0 + K_COPY);
        if (prop == "K01") concurrent(); else sequential();
    }

    void gen(Rng& r, const std::string& prop, Plan& p)
    {
        gen_common(r, p, SK_END - KN_COUNT);
        bool k1 = prop == "K01";
        if (r.below(4000) < 3)
        {
            bool huge = r.chance(40);
            p.k(SK_FLOOD) = huge ? (i64)(65600 + r.below(4000)) : (i64)(300 + r.below(r.chance(500) ? 1500 : 5000)); p.k(SK_SAFE) = k1 || r.chance(200);
            p.k(KN_STRATEGY) = S_SEQ; p.k(KN_PLAIN) = 0; p.k(KN_STEPCAP) = 100000000; p.k(KN_PM0 + K_STALL) = 0;
            return;
        }
        int keys = (int)(1 + r.below(r.chance(300) ? 7 : 4));
        bool large = r.chance(k1 ? 50 : 120);
        if (large) keys = (int)(8 + r.below(40));
        p.k(SK_KEYS) = keys;
        p.k(SK_CAP) = r.chance(80) ? 0 : (i64)(1 + r.below(large || r.chance(300) ? (u64)keys + 1 : 3));
        p.k(SK_CLIENTS) = k1 ? (i64)(1 + r.below(4)) : 0;
        p.k(SK_SAFE) = k1 || r.chance(150);
        p.k(SK_FINAL) = (i64)r.below(8);
        p.k(SK_OBSERVE) = r.chance(400);
        if (k1 && r.chance(600)) p.k(KN_PLAIN) = (i64)(1 + r.below(300));
        if (r.chance(k1 ? 200 : 700))
        {
            p.k(SK_ARMED) = 1;
            p.k(KN_PM0 + K_ALLOC) = r.chance(700) ? (i64)(50 + r.below(2000)) : 0;
            p.k(KN_PM0 + K_COPY) = r.chance(700) ? (i64)(20 + r.below(1500)) : 0;
            p.k(KN_BUDGET) = 1 + (i64)r.below(8);
        }
        int n = k1 ? (int)(3 + r.below(r.chance(300) ? 36 : 16)) : (int)(2 + r.below(r.chance(300) ? 60 : 20));
        if (large) n = n * 3 + 20;
        int nc = (int)p.k(SK_CLIENTS);
        int wCopy = k1 || p.k(SK_SAFE) || r.chance(400) ? 0 : 4;
        int w[N_OPS] = { 25, 20, 20, 8, 8, 4, 3, 3, r.chance(500) ? 6 : 1, r.chance(300) ? 4 : 1, wCopy, wCopy, wCopy / 2, wCopy / 2, wCopy / 2, wCopy / 4, k1 ? 3 : 0 };
        int tot = 0; for (int x : w) tot += x;
        for (int i = 0; i < n; ++i)
        {
            int x = (int)r.below((u64)tot), code = 0;
            while (x >= w[code]) x -= w[code++];
            Op o{ nc ? (int)r.below((u64)nc + 1) : 0, code, 0, 0, 0 };
            o.a = (i64)r.below((u64)keys); o.b = r.chance(500) ? 0 : (i64)r.below(NSLOT);
            if (code >= O_COPY && code <= O_RENEW) { o.a = (i64)r.below(NSLOT); o.b = (i64)r.below(NSLOT); if (code != O_COPYASSIGN && o.a == o.b) o.b = (o.b + 1) % NSLOT; }
            o.d = code == O_SLEEP ? (i64)(1 + r.below(3000)) : (i64)r.below(r.chance(700) ? 4 : (u64)keys + 2);
            p.ops.push_back(o);
        }
    }
}

const Scenario& dst::scenario()
{
    static const Scenario s{ SIM_NAME, knobDefs, SK_END - KN_COUNT, probeNames, N_PROBES, opNames, N_OPS, props, (int)(sizeof props / sizeof props[0]), gen, simMain };
    return s;
}
