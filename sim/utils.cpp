// Scenario: the string, Unicode, container and iterator functions called by many threads, with memory running out.
#include <cstdint>
#include <pluto/container.hpp>
#include <pluto/string.hpp>
#include <pluto/unicode.hpp>
#include <list>
#include <set>
#include <deque>
#include "plan.hpp"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <new>
#include <stdexcept>

using namespace dst;

namespace
{
    enum { O_CASE, O_ISCASE, O_ICMP, O_CMP, O_SPLITWS, O_SPLIT, O_SPLITANY, O_JOIN, O_MAPJOIN, O_REPLACE, O_REPLACEANY, O_STRIP, O_BASE, O_UNICODE, O_SEARCH, O_REDUCE, O_SORT, O_FILTER, O_MAP, O_STREAM, O_YIELD, N_OPS };
    const char* const opNames[] = { "case", "is_case", "compare_nocase", "compare", "split_space", "split", "split_any_of", "join", "map_join", "replace", "replace_any_of", "strip", "base", "unicode", "search", "reduce", "sort", "filter", "map", "stream", "yield" };
    enum { SK_CLIENTS = KN_COUNT, SK_ARMED, SK_ALONE, SK_SHARED, SK_END };
    const KnobDef knobDefs[] = { { "clients", 1 }, { "faults_in_calls", 0 }, { "all_called_alone_first", 0 }, { "shared_seed", 1 } };
    enum { P_OVERLAP, P_SAME, P_SHAREDARG, P_FAILED, P_INPLACE, P_AGAIN, P_WIDE, P_LONG, P_FIRST, P_LOCALE, P_NESTED, P_BYVALUE, P_STREAM, N_PROBES };
    const char* const probeNames[] = { "calls_overlapped", "calls_of_the_same_function_overlapped", "shared_argument", "call_ran_out_of_memory", "call_ran_out_of_memory_while_changing_its_argument", "call_worked_after_failure", "wide_characters_beyond_ascii", "long_argument", "no_call_before_the_threads_started", "locale_failed_by_fault", "call_made_from_inside_a_call", "function_took_elements_by_value", "stream_ran_out_of_memory" };
    const PropInfo props[] = { { "M01", true, "deadlock,livelock,terminate,crash,uaf,misuse,race" } };

    template<class E> using Str = std::basic_string<E>;
    template<class E> using Strs = std::vector<Str<E>>;

    const Plan* plan;
    bool armed;
    int inCall, inOp[N_OPS];
    const std::locale* refC; const std::locale* refDefault;

    u64 faults() { return (u64)my_faults(K_ALLOC) + my_faults(K_LOCALE); }

    // ---- showing values -------------------------------------------------------------------------
    template<class E> std::string show(const Str<E>& s)
    {
        std::string r = "\"";
        for (E c : s)
        {
            if (r.size() > 150) { r += "..."; break; }
            unsigned long v = sizeof(E) == 1 ? (unsigned char)c : (unsigned long)c;
            if (v >= 32 && v < 127) r += (char)v;
            else { char b[20]; std::snprintf(b, sizeof b, "\\x%lx;", v); r += b; }
        }
        return r + "\"";
    }
    std::string show(long long v) { return std::to_string(v); }
    std::string show(unsigned long long v) { return std::to_string(v); }
    std::string show(int v) { return std::to_string(v); }
    std::string show(long v) { return std::to_string(v); }
    std::string show(unsigned long v) { return std::to_string(v); }
    std::string show(bool v) { return v ? "true" : "false"; }
    std::string show(char v) { return show(std::string(1, v)); }
    std::string show(wchar_t v) { return show(std::wstring(1, v)); }
    template<class A, class B> std::string show(const std::pair<A, B>& p) { return show(p.first) + "=" + show(p.second); }
    template<class C> std::string showAll(const C& c)
    {
        std::string r = "[";
        for (auto& e : c) { if (r.size() > 250) { r += " ..."; break; } if (r.size() > 1) r += ", "; r += show(e); }
        return r + "]";
    }
    template<class T> std::string show(const std::vector<T>& v) { return showAll(v); }
    template<> std::string show(const std::vector<bool>& v) { std::string r; for (bool b : v) r += b ? '1' : '0'; return r; }
    template<class T> std::string show(const std::list<T>& v) { return showAll(v); }
    template<class T> std::string show(const std::deque<T>& v) { return showAll(v); }
    template<class T> std::string show(const std::set<T>& v) { return showAll(v); }

    // what "usable" means for an argument after a failed call: it can be read to its end
    template<class E> bool usable(const Str<E>& s)
    {
        if (s.size() > s.capacity() || s.c_str()[s.size()] != E()) return false;
        return Str<E>(s) == s;
    }
    template<class C> auto usable(const C& c) -> decltype(c.begin(), c.end(), true)
    {
        std::size_t n = 0;
        for (auto& e : c) { (void)e; ++n; }
        C copy(c);
        return n == c.size() && copy == c;
    }

    // ---- calling --------------------------------------------------------------------------------
    struct InCall
    {
        int op;
        explicit InCall(int o) : op(o) { if (inCall++) probe(P_OVERLAP); if (inOp[op]++) probe(P_SAME); }
        ~InCall() { --inCall; --inOp[op]; }
    };

    // Calls f, which returns the result; false if it failed because memory ran out or the locale could not be loaded.
    template<class T, class F> bool attempt(int op, const char* what, T& out, F f)
    {
        u64 before = faults();
        bool ok = true;
        {
            InCall in(op);
            arm_alloc(armed);
            try { Api a; out = f(); }
            catch (const std::bad_alloc&) { ok = false; }
            catch (const std::runtime_error&) { ok = false; }
            catch (...) { fail("M01:unexpected exception", "%s threw an exception of an unexpected type", what); }
            arm_alloc(false);
        }
        if (!ok && faults() == before) fail("M01:failed without cause", "%s threw although nothing it used had failed", what);
        if (!ok) probe(P_FAILED);
        note("%s %s", what, ok ? "ok" : "failed");
        return ok;
    }
    // f(): the call; want: what it must return; same(): whether the arguments are unchanged
    template<class T, class F, class S> void pure(int op, const char* what, const T& want, F f, S same)
    {
        for (int i = 0; i < 4; ++i)
        {
            bool was = armed;
            if (i == 3) armed = false;
            T got{};
            bool ok = attempt(op, what, got, f);
            armed = was;
            if (!same()) fail("M01:argument changed", "%s changed an argument it only reads%s", what, ok ? "" : " when memory ran out");
            if (!ok) continue;
            if (i) probe(P_AGAIN);
            if (!(got == want)) fail("M01:wrong result", "%s returned %s, expected %s", what, show(got).c_str(), show(want).c_str());
            ++R->opsDone;
            return;
        }
    }
    // f(x): the call that changes x
    template<class T, class F, class S> void inplace(int op, const char* what, const T& start, const T& want, F f, S same)
    {
        T x(start);
        for (int i = 0; i < 4; ++i)
        {
            bool was = armed;
            if (i == 3) armed = false;
            bool dummy = false;
            bool ok = attempt(op, what, dummy, [&] { f(x); return true; });
            armed = was;
            if (!same()) fail("M01:argument changed", "%s changed an argument it only reads%s", what, ok ? "" : " when memory ran out");
            if (!ok)
            {
                probe(P_INPLACE);
                if (!usable(x)) fail("M01:argument broken", "%s left the argument it was changing unusable when memory ran out", what);
                x = start;
                continue;
            }
            if (i) probe(P_AGAIN);
            if (!(x == want)) fail("M01:wrong result", "%s changed %s to %s, expected %s", what, show(start).c_str(), show(x).c_str(), show(want).c_str());
            ++R->opsDone;
            return;
        }
    }

    // ---- arguments ------------------------------------------------------------------------------
    template<class E> E genChar(Rng& r, int kind)
    {
        static const char text[] = "aAbBcCxyzZ09", space[] = " \t\n\v\f\r", sep[] = ",;:-";
        u64 x = r.below(20);
        if (kind == 0 ? x < 4 : x < 1) return (E)space[r.below(6)];
        if (kind == 1 ? x < 8 : x < 2) return (E)sep[r.below(4)];
        if (x == 18 && r.chance(100)) return E();
        if (x == 19 && sizeof(E) > 1)
        {
            static const char32_t far[] = { 0xE9, 0xC9, 0xDF, 0x416, 0x436, 0x3C9, 0x3A9, 0x4E2D, 0x2003, 0xA0 };
            return (E)far[r.below(10)];
        }
        if (x == 19) return (E)(char)(0xC0 + r.below(40));
        return (E)text[r.below(r.chance(500) ? 4 : 12)];
    }
    template<class E> Str<E> genStr(Rng& r, int kind)
    {
        std::size_t n = r.chance(100) ? 0 : r.chance(600) ? r.below(12) : r.chance(900) ? r.below(50) : r.chance(960) ? r.below(400) : r.below(9000);
        if (n > 400) probe(P_LONG);
        Str<E> s;
        for (std::size_t i = 0; i < n; ++i) s += genChar<E>(r, kind);
        return s;
    }
    template<class E> Str<E> genSep(Rng& r)
    {
        Str<E> s;
        for (std::size_t n = 1 + r.below(r.chance(700) ? 2 : 4); n; --n) s += genChar<E>(r, 1);
        return s;
    }
    template<class E> Str<E> genNew(Rng& r) { Str<E> s; for (std::size_t n = r.below(r.chance(700) ? 4 : 40); n; --n) s += genChar<E>(r, 2); return s; }
    std::vector<int> genInts(Rng& r)
    {
        std::vector<int> v;
        for (std::size_t n = r.chance(100) ? 0 : r.below(r.chance(800) ? 12 : r.chance(990) ? 70 : 3000); n; --n) v.push_back((int)r.below(9) - 4);
        return v;
    }
    std::u32string genPoints(Rng& r)
    {
        std::u32string s;
        for (std::size_t n = r.below(r.chance(700) ? 12 : r.chance(990) ? 60 : 6000); n; --n)
        {
            static const char32_t edge[] = { 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF };
            u64 x = r.below(10);
            char32_t c = x < 4 ? (char32_t)(1 + r.below(0x7E)) : x < 6 ? edge[r.below(10)] : x < 7 ? (char32_t)r.below(0x800) : x < 8 ? (char32_t)r.below(0xD800) : x < 9 ? (char32_t)(0xE000 + r.below(0x2000)) : (char32_t)(0x10000 + r.below(0x100000));
            s += c;
        }
        return s;
    }

    // arguments that several threads use at the same time, with a copy to compare them with
    template<class E> struct Pool
    {
        Strs<E> text, sep, fresh, textWas, sepWas, freshWas;
        Strs<E> parts, partsWas;
        void fill(Rng& r)
        {
            for (int i = 0; i < 5; ++i) { text.push_back(genStr<E>(r, i % 3)); sep.push_back(genSep<E>(r)); fresh.push_back(genNew<E>(r)); }
            for (int i = 0; i < 6; ++i) parts.push_back(genNew<E>(r));
            textWas = text; sepWas = sep; freshWas = fresh; partsWas = parts;
        }
        bool same() const { return text == textWas && sep == sepWas && fresh == freshWas && parts == partsWas; }
    };
    struct Shared
    {
        Pool<char> c; Pool<wchar_t> w; Pool<char16_t> h; Pool<char32_t> u;
        std::vector<std::vector<int>> ints, intsWas;
        std::list<std::string> names, namesWas;
        std::u32string u32; std::u16string u16; std::string u8;
        std::u32string u32Was; std::u16string u16Was; std::string u8Was;
        bool same() const { return c.same() && w.same() && h.same() && u.same() && ints == intsWas && names == namesWas && u32 == u32Was && u16 == u16Was && u8 == u8Was; }
    };
    Shared* shared;
    void get(const Pool<char>*& p) { p = &shared->c; }
    void get(const Pool<wchar_t>*& p) { p = &shared->w; }
    void get(const Pool<char16_t>*& p) { p = &shared->h; }
    void get(const Pool<char32_t>*& p) { p = &shared->u; }

    // the arguments of one call: its own, or shared ones
    template<class E> struct Args
    {
        Str<E> ownText, ownSep, ownFresh, wasText, wasSep, wasFresh;
        const Str<E>* text; const Str<E>* sep; const Str<E>* fresh;
        Args(Rng& r, int kind, bool useShared)
        {
            const Pool<E>* p; get(p);
            ownText = genStr<E>(r, kind); ownSep = genSep<E>(r); ownFresh = genNew<E>(r);
            std::size_t i = (std::size_t)r.below(5), j = (std::size_t)r.below(5), k = (std::size_t)r.below(5);
            if (useShared) probe(P_SHAREDARG);
            text = useShared ? &p->text[i] : &ownText; sep = useShared ? &p->sep[j] : &ownSep; fresh = useShared ? &p->fresh[k] : &ownFresh;
            wasText = *text; wasSep = *sep; wasFresh = *fresh;
        }
        bool same() const { return *text == wasText && *sep == wasSep && *fresh == wasFresh; }
    };

    // ---- reference models -----------------------------------------------------------------------
    template<class E> const std::ctype<E>& ct(const std::locale& l) { return std::use_facet<std::ctype<E>>(l); }
    template<class E> Str<E> changeCase(Str<E> s, bool up, const std::locale& l) { for (auto& c : s) c = up ? ct<E>(l).toupper(c) : ct<E>(l).tolower(c); return s; }
    template<class E> bool sameNoCase(E a, E b, const std::locale& l) { return ct<E>(l).toupper(a) == ct<E>(l).toupper(b); }
    template<class E, class Eq> long findIn(const Str<E>& a, const Str<E>& b, bool last, Eq eq)
    {
        long found = (long)a.size();
        for (std::size_t i = 0; i + b.size() <= a.size(); ++i)
        {
            bool all = true;
            for (std::size_t j = 0; j < b.size() && all; ++j) all = eq(a[i + j], b[j]);
            if (all) { found = (long)i; if (!last) break; }
        }
        return found;
    }
    template<class E> Strs<E> splitIf(const Str<E>& s, bool (*isSep)(E, const void*), const void* x)
    {
        Strs<E> v; Str<E> cur;
        for (E c : s)
            if (isSep(c, x)) { if (!cur.empty()) v.push_back(cur); cur.clear(); }
            else cur += c;
        if (!cur.empty()) v.push_back(cur);
        return v;
    }
    template<class E> bool at(const Str<E>& s, std::size_t i, const Str<E>& f)
    {
        if (i + f.size() > s.size()) return false;
        for (std::size_t j = 0; j < f.size(); ++j) if (s[i + j] != f[j]) return false;
        return true;
    }
    template<class E> Strs<E> splitAt(const Str<E>& s, const Str<E>& sep)
    {
        Strs<E> v(1);
        for (std::size_t i = 0; i < s.size();)
            if (at(s, i, sep)) { v.emplace_back(); i += sep.size(); }
            else v.back() += s[i++];
        return v;
    }
    template<class E> Str<E> replaceAt(const Str<E>& s, const Str<E>& f, const Str<E>& by)
    {
        Str<E> v;
        for (std::size_t i = 0; i < s.size();)
            if (at(s, i, f)) { v += by; i += f.size(); }
            else v += s[i++];
        return v;
    }
    template<class E> bool oneOf(E c, const Str<E>& s) { for (E x : s) if (x == c) return true; return false; }
    template<class C> auto joined(const C& parts, const typename C::value_type& sep) -> typename C::value_type
    {
        typename C::value_type v; bool first = true;
        for (auto& p : parts) { if (!first) v += sep; first = false; v += p; }
        return v;
    }
    std::string based(unsigned long long v, unsigned bits, const char* prefix)
    {
        unsigned base = prefix[1] == 'b' ? 2 : prefix[1] == 'o' ? 8 : 16;
        if (bits < 64) v &= (1ull << bits) - 1;
        std::string d;
        do { d.insert(d.begin(), "0123456789abcdef"[v % base]); v /= base; } while (v);
        return prefix + d;
    }
    std::string encode8(const std::u32string& s)
    {
        std::string v;
        for (char32_t c : s)
            if (c < 0x80) v += (char)c;
            else if (c < 0x800) { v += (char)(0xC0 | c >> 6); v += (char)(0x80 | (c & 63)); }
            else if (c < 0x10000) { v += (char)(0xE0 | c >> 12); v += (char)(0x80 | (c >> 6 & 63)); v += (char)(0x80 | (c & 63)); }
            else { v += (char)(0xF0 | c >> 18); v += (char)(0x80 | (c >> 12 & 63)); v += (char)(0x80 | (c >> 6 & 63)); v += (char)(0x80 | (c & 63)); }
        return v;
    }
    std::u16string encode16(const std::u32string& s)
    {
        std::u16string v;
        for (char32_t c : s)
            if (c < 0x10000) v += (char16_t)c;
            else { v += (char16_t)(0xD800 + ((c - 0x10000) >> 10)); v += (char16_t)(0xDC00 + ((c - 0x10000) & 0x3FF)); }
        return v;
    }

    // ---- operations -----------------------------------------------------------------------------
    // which locale a call is given: none (the default one), the same one as an argument, the "C" locale, or a locale of the caller's
    const std::locale& ref(int which) { return which == 2 || which == 4 ? *refC : *refDefault; }
    template<class F0, class F1> auto with(int which, F0 f0, F1 f1) -> decltype(f0())
    {
        if (which == 0) return f0();
        if (which > 2) { const std::locale mine(ref(which)); return f1(mine); }
        return which == 1 ? f1(pluto::default_locale()) : f1(pluto::c_locale());
    }
#define WITH(call, ...) with(lo, [&] { return call(__VA_ARGS__); }, [&](const std::locale& l) { return call(__VA_ARGS__, l); })

    template<class E> void opCase(Rng& r, bool sh)
    {
        Args<E> a(r, 2, sh);
        bool up = r.chance(500); int lo = (int)r.below(5), how = (int)r.below(3);
        const std::locale& l = ref(lo);
        Str<E> want = changeCase(*a.text, up, l);
        for (E c : want) if (sizeof(E) > 1 && (unsigned long)c > 127) probe(P_WIDE);
        auto same = [&] { return a.same(); };
        if (how == 2)
        {
            E c = genChar<E>(r, 2);
            pure(O_CASE, up ? "upper(character)" : "lower(character)", up ? ct<E>(l).toupper(c) : ct<E>(l).tolower(c), [&] { return up ? WITH(pluto::upper, c) : WITH(pluto::lower, c); }, same);
            return;
        }
        inplace(O_CASE, up ? "upper" : "lower", *a.text, want, [&](Str<E>& x)
        {
            if (how == 1 && !x.empty()) { if (up) WITH(pluto::upper, &x[0], x.size()); else WITH(pluto::lower, &x[0], x.size()); }
            else if (up) WITH(pluto::upper, x);
            else WITH(pluto::lower, x);
        }, same);
    }
    template<class E> void opIsCase(Rng& r, bool sh)
    {
        Args<E> a(r, 2, sh);
        bool up = r.chance(500); int lo = (int)r.below(5), how = (int)r.below(3);
        const std::locale& l = ref(lo);
        if (r.chance(600)) { a.ownText = changeCase(*a.text, up, l); a.text = &a.ownText; a.wasText = a.ownText; }
        bool want = true;
        for (E c : *a.text) if (ct<E>(l).is(up ? std::ctype_base::lower : std::ctype_base::upper, c)) want = false;
        const Str<E>& t = *a.text;
        if (how == 2)
        {
            E c = genChar<E>(r, 2);
            want = !ct<E>(l).is(up ? std::ctype_base::lower : std::ctype_base::upper, c);
            pure(O_ISCASE, up ? "is_upper(character)" : "is_lower(character)", want, [&] { return up ? WITH(pluto::is_upper, c) : WITH(pluto::is_lower, c); }, [&] { return a.same(); });
            return;
        }
        pure(O_ISCASE, up ? "is_upper" : "is_lower", want, [&]
        {
            if (how) return up ? WITH(pluto::is_upper, t.c_str(), t.size()) : WITH(pluto::is_lower, t.c_str(), t.size());
            return up ? WITH(pluto::is_upper, t) : WITH(pluto::is_lower, t);
        }, [&] { return a.same(); });
    }
    template<class E> Str<E> partOf(Rng& r, const Str<E>& s, int what)
    {
        std::size_t n = s.size(), b = (std::size_t)r.below(n + 1), e = b + (std::size_t)r.below(n - b + 1);
        Str<E> v = what == 0 ? s : what == 1 ? s.substr(0, e) : what == 2 ? s.substr(b) : s.substr(b, std::min<std::size_t>(e - b, 5));
        if (!v.empty() && r.chance(250)) v[r.below(v.size())] = genChar<E>(r, 2);
        return v;
    }
    template<class E> void opCompare(Rng& r, bool sh, bool noCase)
    {
        Args<E> a(r, 2, sh);
        int lo = (int)r.below(5), what = (int)r.below(6), how = (int)r.below(2);
        const std::locale& l = ref(lo);
        const Str<E>& t = *a.text;
        Str<E> p = partOf(r, t, what > 3 ? 3 : what);
        if (noCase) for (auto& c : p) if (r.chance(500)) c = r.chance(500) ? ct<E>(l).toupper(c) : ct<E>(l).tolower(c);
        if ((what == 4 || what == 3) && p.empty()) p = *a.sep;
        Str<E> was = p;
        auto same = [&] { return a.same() && p == was; };
        auto eq = [&](E x, E y) { return noCase ? sameNoCase(x, y, l) : x == y; };
        long n = (long)t.size(), m = (long)p.size(), first = findIn(t, p, false, eq), last = findIn(t, p, true, eq);
        auto eqAt = [&](long i) { if (i < 0 || i + m > n) return false; for (long j = 0; j < m; ++j) if (!eq(t[(std::size_t)(i + j)], p[(std::size_t)j])) return false; return true; };
        int op = noCase ? O_ICMP : O_CMP;
        if (noCase && what == 5 && r.chance(500))
        {
            E x = genChar<E>(r, 2), y = r.chance(500) ? genChar<E>(r, 2) : r.chance(500) ? ct<E>(l).toupper(x) : ct<E>(l).tolower(x);
            E ux = ct<E>(l).toupper(x), uy = ct<E>(l).toupper(y);
            // by a comparator that was made before, or one made for this comparison
#define COMPARATOR(name, want) pure(op, #name, want, [&] { return with(lo, [&] { return pluto::name<E>{}(x, y); }, [&](const std::locale& loc) { return pluto::name<E>{ loc }(x, y); }); }, same)
            switch (r.below(6))
            {
            case 0: COMPARATOR(is_iequal, ux == uy); break;
            case 1: COMPARATOR(is_not_iequal, ux != uy); break;
            case 2: COMPARATOR(is_iless, ux < uy); break;
            case 3: COMPARATOR(is_igreater, ux > uy); break;
            case 4: COMPARATOR(is_iless_equal, ux <= uy); break;
            default: COMPARATOR(is_igreater_equal, ux >= uy); break;
            }
            return;
        }
        if (noCase)
        {
#define NOCASE(f) (how ? WITH(pluto::f, t, p) : WITH(pluto::f, t.c_str(), t.size(), p.c_str(), p.size()))
            if (what == 0) pure(op, "iequals", n == m && eqAt(0), [&] { return NOCASE(iequals); }, same);
            else if (what == 1) pure(op, "istarts_with", eqAt(0), [&] { return NOCASE(istarts_with); }, same);
            else if (what == 2) pure(op, "iends_with", eqAt(n - m), [&] { return NOCASE(iends_with); }, same);
            else if (what == 3) pure(op, "ifind", first, [&] { return how ? (long)(WITH(pluto::ifind, t, p) - t.begin()) : (long)(WITH(pluto::ifind, t.c_str(), t.size(), p.c_str(), p.size()) - t.c_str()); }, same);
            else if (what == 4)
            {
#if __cplusplus >= 201703L
                pure(op, "irfind", last, [&] { return how ? (long)(WITH(pluto::irfind, t, p) - t.begin()) : (long)(WITH(pluto::irfind, t.c_str(), t.size(), p.c_str(), p.size()) - t.c_str()); }, same);
#endif
            }
            else pure(op, "icontains", first < n || !m, [&] { return NOCASE(icontains); }, same);
            return;
        }
        if (what == 0) pure(op, "equals", n == m && eqAt(0), [&] { return how ? pluto::equals(t, p) : pluto::equals(t.c_str(), t.size(), p.c_str(), p.size()); }, same);
        else if (what == 1) pure(op, "starts_with", eqAt(0), [&] { return how ? pluto::starts_with(t, p) : pluto::starts_with(t.c_str(), t.size(), p.c_str(), p.size()); }, same);
        else if (what == 2) pure(op, "ends_with", eqAt(n - m), [&] { return how ? pluto::ends_with(t, p) : pluto::ends_with(t.c_str(), t.size(), p.c_str(), p.size()); }, same);
        else if (what == 3) pure(op, "find_sequence", first, [&] { return (long)(pluto::find_sequence(t, p) - t.begin()); }, same);
        else if (what == 4)
        {
#if __cplusplus >= 201703L
            pure(op, "rfind_sequence", last, [&] { return (long)(pluto::rfind_sequence(t, p) - t.begin()); }, same);
#endif
        }
        else pure(op, "contains_sequence", first < n || !m, [&] { return pluto::contains_sequence(t, p); }, same);
    }
    template<class E> void opSplitWs(Rng& r, bool sh)
    {
        Args<E> a(r, 0, sh);
        int lo = (int)r.below(5);
        Strs<E> want = splitIf<E>(*a.text, [](E c, const void* l) { return ct<E>(*(const std::locale*)l).is(std::ctype_base::space, c); }, &ref(lo));
        pure(O_SPLITWS, "split at white space", want, [&] { return WITH(pluto::split, *a.text); }, [&] { return a.same(); });
    }
    template<class E> void opSplit(Rng& r, bool sh)
    {
        Args<E> a(r, 1, sh);
        Strs<E> want = splitAt(*a.text, *a.sep);
        pure(O_SPLIT, "split at a separator", want, [&] { return pluto::split(*a.text, *a.sep); }, [&] { return a.same(); });
    }
    template<class E> void opSplitAny(Rng& r, bool sh)
    {
        Args<E> a(r, 1, sh);
        Strs<E> want = splitIf<E>(*a.text, [](E c, const void* s) { return oneOf(c, *(const Str<E>*)s); }, a.sep);
        pure(O_SPLITANY, "split_any_of", want, [&] { return pluto::split_any_of(*a.text, *a.sep); }, [&] { return a.same(); });
    }
    // functions given to the calls; some of them call the same functions again
    template<class E> struct Same { const Str<E>& operator()(const Str<E>& s) const { return s; } };
    template<class E> struct ByValue { Str<E> operator()(Str<E> s) const { s += Str<E>(s); return s; } };
    template<class E> struct Twice
    {
        int mode;
        Str<E> operator()(const Str<E>& s) const
        {
            if (mode == 1) return pluto::map_join(Strs<E>{ s, s }, Str<E>(), Same<E>{});
            if (mode == 2) return pluto::join(Strs<E>{ s, s }, Str<E>());
            if (mode == 3) { Str<E> x(1, (E)'%'); pluto::replace(x, Str<E>(1, (E)'%'), s + s); return x; }
            return s + s;
        }
    };
    template<class E> void opJoin(Rng& r, bool sh, bool mapped)
    {
        Args<E> a(r, 1, sh);
        Strs<E> own; std::list<Str<E>> ownList;
        for (std::size_t n = r.below(r.chance(900) ? 8 : r.chance(980) ? 40 : 1000); n; --n) { own.push_back(genNew<E>(r)); ownList.push_back(genNew<E>(r)); }
        const Pool<E>* p; get(p);
        const Strs<E>& v = sh ? p->parts : own;
        Strs<E> was = v; std::list<Str<E>> wasList = ownList;
        int how = (int)r.below(3);
        auto same = [&] { return a.same() && v == was && ownList == wasList; };
        const Str<E>& sep = *a.sep;
        if (!mapped)
        {
            if (how == 0) pure(O_JOIN, "join(container)", joined(v, sep), [&] { return pluto::join(v, sep); }, same);
            else if (how == 1) pure(O_JOIN, "join(iterators)", joined(v, sep), [&] { return pluto::join(v.begin(), v.end(), sep); }, same);
            else pure(O_JOIN, "join(list)", joined(ownList, sep), [&] { return pluto::join(ownList, sep); }, same);
            return;
        }
        Strs<E> v2; for (auto& s : v) v2.push_back(s + s);
        Strs<E> l2; for (auto& s : ownList) l2.push_back(s + s);
        int mode = (int)r.below(5);
        if (mode) probe(mode == 4 ? P_BYVALUE : P_NESTED);
        if (mode == 4) pure(O_MAPJOIN, "map_join", joined(v2, sep), [&] { return how ? pluto::map_join(v.begin(), v.end(), sep, ByValue<E>{}) : pluto::map_join(v, sep, ByValue<E>{}); }, same);
        else if (how == 0) pure(O_MAPJOIN, "map_join(container)", joined(v2, sep), [&] { return pluto::map_join(v, sep, Twice<E>{ mode }); }, same);
        else if (how == 1) pure(O_MAPJOIN, "map_join(iterators)", joined(v2, sep), [&] { return pluto::map_join(v.begin(), v.end(), sep, Twice<E>{ mode }); }, same);
        else pure(O_MAPJOIN, "map_join(list)", joined(l2, sep), [&] { return pluto::map_join(ownList, sep, Twice<E>{ mode }); }, same);
    }
    template<class E> void opReplace(Rng& r, bool sh, bool any)
    {
        Args<E> a(r, 1, sh);
        if (any)
        {
            Str<E> want; for (E c : *a.text) { if (oneOf(c, *a.sep)) want += *a.fresh; else want += c; }
            inplace(O_REPLACEANY, "replace_any_of", *a.text, want, [&](Str<E>& x) { pluto::replace_any_of(x, *a.sep, *a.fresh); }, [&] { return a.same(); });
        }
        else inplace(O_REPLACE, "replace", *a.text, replaceAt(*a.text, *a.sep, *a.fresh), [&](Str<E>& x) { pluto::replace(x, *a.sep, *a.fresh); }, [&] { return a.same(); });
    }
    template<class E> void opStrip(Rng& r, bool sh)
    {
        Args<E> a(r, 0, sh);
        int lo = (int)r.below(5), what = (int)r.below(3);
        Str<E> start = *a.text;
        static const char sp[] = " \t\n\r ";
        for (u64 n = r.below(4); n; --n) start.insert(start.begin(), (E)sp[r.below(5)]);
        for (u64 n = r.below(4); n; --n) start.push_back((E)sp[r.below(5)]);
        const std::locale& l = ref(lo);
        Str<E> want = start;
        if (what != 1) while (!want.empty() && ct<E>(l).is(std::ctype_base::space, want.front())) want.erase(want.begin());
        if (what != 0) while (!want.empty() && ct<E>(l).is(std::ctype_base::space, want.back())) want.pop_back();
        inplace(O_STRIP, what == 0 ? "lstrip" : what == 1 ? "rstrip" : "strip", start, want, [&](Str<E>& x) { if (what == 0) WITH(pluto::lstrip, x); else if (what == 1) WITH(pluto::rstrip, x); else WITH(pluto::strip, x); }, [&] { return a.same(); });
    }
    template<class V> void opBase(Rng& r)
    {
        V v = (V)(r.next() >> r.below(64));
        if (r.chance(150)) v = 0; else if (r.chance(150)) v = (V)-1; else if (r.chance(300)) v = (V)r.below(20);
        unsigned long long u = (unsigned long long)v;
        unsigned bits = sizeof(V) * 8;
        V was = v;
        auto same = [&] { return v == was; };
        u64 w = r.below(3);
        if (w == 0) pure(O_BASE, "bin", based(u, bits, "0b"), [&] { return pluto::bin(v); }, same);
        else if (w == 1) pure(O_BASE, "oct", based(u, bits, "0o"), [&] { return pluto::oct(v); }, same);
        else pure(O_BASE, "hex", based(u, bits, "0x"), [&] { return pluto::hex(v); }, same);
    }
    template<class A, class B, class F> void conv(const char* what, const A& from, const B& want, F f)
    {
        A was = from;
        pure(O_UNICODE, what, want, [&] { B b; f(from, b); return b; }, [&] { return from == was; });
    }
    void opUnicode(Rng& r, bool sh)
    {
        std::u32string own32 = genPoints(r); std::u16string own16 = encode16(own32); std::string own8 = encode8(own32);
        const std::u32string& a32 = sh ? shared->u32 : own32; const std::u16string& a16 = sh ? shared->u16 : own16; const std::string& a8 = sh ? shared->u8 : own8;
        if (sh) probe(P_SHAREDARG);
        std::wstring aw(a32.begin(), a32.end()), wasw = aw;
        auto same = [&] { return aw == wasw && a32 == std::u32string(aw.begin(), aw.end()); };
        switch (r.below(20))
        {
        case 0: conv("utf8_to_utf16", a8, a16, [](const std::string& x, std::u16string& y) { pluto::utf8_to_utf16(x, y); }); break;
        case 1: conv("utf8_to_utf32", a8, a32, [](const std::string& x, std::u32string& y) { pluto::utf8_to_utf32(x, y); }); break;
        case 2: conv("utf16_to_utf8", a16, a8, [](const std::u16string& x, std::string& y) { pluto::utf16_to_utf8(x, y); }); break;
        case 3: conv("utf16_to_utf32", a16, a32, [](const std::u16string& x, std::u32string& y) { pluto::utf16_to_utf32(x, y); }); break;
        case 4: conv("utf32_to_utf8", a32, a8, [](const std::u32string& x, std::string& y) { pluto::utf32_to_utf8(x, y); }); break;
        case 5: conv("utf32_to_utf16", a32, a16, [](const std::u32string& x, std::u16string& y) { pluto::utf32_to_utf16(x, y); }); break;
        case 6: pure(O_UNICODE, "str(wide)", a8, [&] { return pluto::str(aw); }, same); break;
        case 7: pure(O_UNICODE, "str(UTF-16)", a8, [&] { return pluto::str(a16); }, same); break;
        case 8: pure(O_UNICODE, "str(UTF-32)", a8, [&] { return pluto::str(a32); }, same); break;
        case 9: pure(O_UNICODE, "wstr(UTF-8)", aw, [&] { return pluto::wstr(a8); }, same); break;
        case 10: pure(O_UNICODE, "wstr(UTF-16)", aw, [&] { return pluto::wstr(a16); }, same); break;
        case 11: pure(O_UNICODE, "wstr(UTF-32)", aw, [&] { return pluto::wstr(a32); }, same); break;
        case 12: pure(O_UNICODE, "u16str(UTF-8)", a16, [&] { return pluto::u16str(a8); }, same); break;
        case 13: pure(O_UNICODE, "u16str(wide)", a16, [&] { return pluto::u16str(aw); }, same); break;
        case 14: pure(O_UNICODE, "u16str(UTF-32)", a16, [&] { return pluto::u16str(a32); }, same); break;
        case 15: pure(O_UNICODE, "u32str(UTF-8)", a32, [&] { return pluto::u32str(a8); }, same); break;
        case 16: pure(O_UNICODE, "u32str(wide)", a32, [&] { return pluto::u32str(aw); }, same); break;
        case 17: pure(O_UNICODE, "u32str(UTF-16)", a32, [&] { return pluto::u32str(a16); }, same); break;
#if __cplusplus >= 202002L
        case 18:
        {
            std::u8string b(a8.begin(), a8.end());
            switch (r.below(6))
            {
            case 0: pure(O_UNICODE, "u8str(UTF-16)", true, [&] { return pluto::u8str(a16) == b; }, same); break;
            case 1: pure(O_UNICODE, "u8str(UTF-32)", true, [&] { return pluto::u8str(a32) == b; }, same); break;
            case 2: pure(O_UNICODE, "u8str(narrow)", true, [&] { return pluto::u8str(a8) == b; }, same); break;
            case 3: pure(O_UNICODE, "str(UTF-8)", a8, [&] { return pluto::str(b); }, same); break;
            case 4: pure(O_UNICODE, "u16str(UTF-8)", a16, [&] { return pluto::u16str(b); }, same); break;
            default: pure(O_UNICODE, "wstr(UTF-8)", aw, [&] { return pluto::wstr(b); }, same); break;
            }
            break;
        }
#endif
        default: pure(O_UNICODE, "u16str(characters)", a16, [&] { return pluto::u16str(a32.c_str(), a32.size()); }, same); break;
        }
    }
    // text that is not well-formed: U+FFFD for each stray surrogate or number that is no code point
    std::u32string repaired(std::u32string s) { for (auto& c : s) if ((c >= 0xD800 && c < 0xE000) || c > 0x10FFFF) c = 0xFFFD; return s; }
    std::u32string repaired(const std::u16string& s)
    {
        std::u32string v;
        for (std::size_t i = 0; i < s.size(); ++i)
            if (s[i] < 0xD800 || s[i] > 0xDFFF) v += s[i];
            else if (s[i] < 0xDC00 && i + 1 < s.size() && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000) { v += (char32_t)(0x10000 + ((s[i] - 0xD800u) << 10) + (s[i + 1] - 0xDC00u)); ++i; }
            else v += 0xFFFD;
        return v;
    }
    // UTF-8: only that the calls leave nothing behind that disturbs later ones
    template<class A, class F> void bad(const A& from, F f)
    {
        bool done = false;
        A was = from;
        attempt(O_UNICODE, "conversion of ill-formed text", done, [&] { f(from); return true; });
        if (from != was) fail("M01:argument changed", "a conversion of ill-formed text changed its argument");
    }
    void opIllFormed(Rng& r)
    {
        std::u32string t = genPoints(r); std::string a8 = encode8(t); std::u16string a16 = encode16(t);
        if (!a8.empty()) { if (r.chance(700)) a8.resize((std::size_t)r.below(a8.size()) + 1); if (r.chance(500)) a8[(std::size_t)r.below(a8.size())] = (char)r.below(256); }
        if (r.chance(500)) a8 += (char)(0xC0 + r.below(0x38));
        if (!a16.empty() && r.chance(500)) a16.resize((std::size_t)r.below(a16.size()) + 1);
        a16 += (char16_t)(0xD800 + r.below(0x800)); if (r.chance(600)) a16.insert(a16.begin(), (char16_t)(0xDC00 + r.below(0x400)));
        t += (char32_t)(r.chance(500) ? 0xD800 + r.below(0x800) : 0x110000 + r.below(0x1000));
        switch (r.below(6))
        {
        case 0: bad(a8, [](const std::string& x) { std::u16string y; pluto::utf8_to_utf16(x, y); }); break;
        case 1: bad(a8, [](const std::string& x) { std::u32string y; pluto::utf8_to_utf32(x, y); }); break;
        case 2: conv("utf16_to_utf8 of ill-formed text", a16, encode8(repaired(a16)), [](const std::u16string& x, std::string& y) { pluto::utf16_to_utf8(x, y); }); break;
        case 3: conv("utf16_to_utf32 of ill-formed text", a16, repaired(a16), [](const std::u16string& x, std::u32string& y) { pluto::utf16_to_utf32(x, y); }); break;
        case 4: conv("utf32_to_utf8 of ill-formed text", t, encode8(repaired(t)), [](const std::u32string& x, std::string& y) { pluto::utf32_to_utf8(x, y); }); break;
        default: conv("utf32_to_utf16 of ill-formed text", t, encode16(repaired(t)), [](const std::u32string& x, std::u16string& y) { pluto::utf32_to_utf16(x, y); }); break;
        }
    }
    template<class C> std::size_t refFind(const C& v, int x, bool last, bool eq)
    {
        std::size_t i = 0, f = v.size();
        for (int e : v) { if ((e == x) == eq) { f = i; if (!last) break; } ++i; }
        return f;
    }
    template<class C> void opSearch(Rng& r, const C& v)
    {
        C was(v);
        auto same = [&] { return v == was; };
        int x = (int)r.below(9) - 4;
        auto is = [x](int e) { return e == x; };
        auto pos = [&](decltype(v.begin()) it) { return (std::size_t)std::distance(v.begin(), it); };
        switch (r.below(9))
        {
        case 0: pure(O_SEARCH, "find_elem", refFind(v, x, false, true), [&] { return pos(pluto::find_elem(v, x)); }, same); break;
        case 1: pure(O_SEARCH, "rfind_elem", refFind(v, x, true, true), [&] { return pos(pluto::rfind_elem(v, x)); }, same); break;
        case 2: pure(O_SEARCH, "find_if", refFind(v, x, false, true), [&] { return pos(pluto::find_if(v, is)); }, same); break;
        case 3: pure(O_SEARCH, "rfind_if", refFind(v, x, true, true), [&] { return pos(pluto::rfind_if(v, is)); }, same); break;
        case 4: pure(O_SEARCH, "find_if_not", refFind(v, x, false, false), [&] { return pos(pluto::find_if_not(v, is)); }, same); break;
        case 5: pure(O_SEARCH, "rfind_if_not", refFind(v, x, true, false), [&] { return pos(pluto::rfind_if_not(v, is)); }, same); break;
        case 6: pure(O_SEARCH, "contains_elem", refFind(v, x, false, true) < v.size(), [&] { return pluto::contains_elem(v, x); }, same); break;
        default:
        {
            C w(v);
            if (r.chance(600) && !w.empty()) { if (r.chance(500)) w.pop_back(); else w.erase(w.begin()); }
            if (r.chance(300)) w.push_back(x);
            std::vector<int> a(v.begin(), v.end()), b(w.begin(), w.end());
            auto sameW = [&] { return v == was && std::equal(w.begin(), w.end(), b.begin()); };
            bool fits = b.size() <= a.size();
            switch (r.below(3))
            {
            case 0: pure(O_SEARCH, "equals", a == b, [&] { return pluto::equals(v, w); }, sameW); break;
            case 1: pure(O_SEARCH, "starts_with", fits && std::vector<int>(a.begin(), a.begin() + (long)std::min(a.size(), b.size())) == b, [&] { return pluto::starts_with(v, w); }, sameW); break;
            default: pure(O_SEARCH, "ends_with", fits && std::vector<int>(a.end() - (long)std::min(a.size(), b.size()), a.end()) == b, [&] { return pluto::ends_with(v, w); }, sameW); break;
            }
        }
        }
    }
    template<class C> void opReduce(Rng& r, const C& v)
    {
        C was(v);
        auto same = [&] { return v == was; };
        int x = (int)r.below(9) - 4;
        auto less = [x](int e) { return e < x; };
        std::size_t n = 0, m = 0; int total = 0, lo = 0, hi = 0; bool first = true;
        for (int e : v) { n += e == x; m += e < x; total += e; if (first || e < lo) lo = e; if (first || e > hi) hi = e; first = false; }
        switch (r.below(10))
        {
        case 0: pure(O_REDUCE, "count", n, [&] { return pluto::count(v, x); }, same); break;
        case 1: pure(O_REDUCE, "count_if", m, [&] { return pluto::count_if(v, less); }, same); break;
        case 2: pure(O_REDUCE, "sum", total, [&] { return pluto::sum(v); }, same); break;
        case 3: pure(O_REDUCE, "any", m > 0, [&] { return pluto::any(v, less); }, same); break;
        case 4: pure(O_REDUCE, "all", m == v.size(), [&] { return pluto::all(v, less); }, same); break;
        case 5: if (!first) pure(O_REDUCE, "min", lo, [&] { return (pluto::min)(v); }, same); break;
        case 6: if (!first) pure(O_REDUCE, "max", hi, [&] { return (pluto::max)(v); }, same); break;
        case 7: if (!first) pure(O_REDUCE, "max by an order", lo, [&] { return (pluto::max)(v, pluto::is_greater{}); }, same); break;
        default:
        {
#if __cplusplus >= 201703L
            long long size = (long long)v.size(), b = r.range(-size - 2, size + 2), e = r.range(-size - 2, size + 2);
            bool one = r.chance(250);
            if (one) b = 0;
            long long from = b < 0 ? std::max(0ll, b + size) : b, to = e < 0 ? e + size : std::min(e, size);
            C want; long long i = 0;
            for (int el : v) { if (i >= from && i < to) want.insert(want.end(), el); ++i; }
            pure(O_REDUCE, "slice", want, [&] { return one ? pluto::slice(v, e) : pluto::slice(v, b, e); }, same);
#else
            pure(O_REDUCE, "any", total != 0 || m > 0 || true, [&] { return pluto::any(v) || true; }, same);
#endif
        }
        }
    }
    template<class C> void opSort(Rng& r, const C& start)
    {
        C want(start);
        auto yes = [] { return true; };
        switch (r.below(4))
        {
        case 3:
            probe(P_NESTED);
            std::sort(want.begin(), want.end());
            inplace(O_SORT, "sort by a function that sorts", start, want, [](C& x) { pluto::sort(x, [](const typename C::value_type& a, const typename C::value_type& b) { C two; two.push_back(b); two.push_back(a); pluto::sort(two); return !(a == b) && two.front() == a; }); }, yes);
            break;
        case 0: std::sort(want.begin(), want.end()); inplace(O_SORT, "sort", start, want, [](C& x) { pluto::sort(x); }, yes); break;
        case 1: std::sort(want.begin(), want.end()); std::reverse(want.begin(), want.end()); inplace(O_SORT, "sort by an order", start, want, [](C& x) { pluto::sort(x, pluto::is_greater{}); }, yes); break;
        default: std::reverse(want.begin(), want.end()); inplace(O_SORT, "reverse", start, want, [](C& x) { pluto::reverse(x); }, yes); break;
        }
    }
    bool keeps(int e) { return e > 0; }
    bool keeps(const std::string& e) { return e.size() > 20; }
    template<class C> void opFilter(Rng& r, const C& start)
    {
        auto yes = [] { return true; };
        C want;
        bool nested = r.chance(300);
        if (nested) probe(P_NESTED);
        auto keep = [nested](const typename C::value_type& e)
        {
            if (!nested) return keeps(e);
            C one(1, e);
            pluto::filter(one, [](const typename C::value_type& x) { return keeps(x); });
            return !one.empty();
        };
        if (r.chance(700))
        {
            for (auto& e : start) if (keep(e)) want.push_back(e);
            inplace(O_FILTER, "filter", start, want, [&](C& x) { pluto::filter(x, keep); }, yes);
        }
        else
        {
            for (auto& e : start) want.push_back(e + e);
            inplace(O_FILTER, "for_each", start, want, [](C& x) { pluto::for_each(x, [](typename C::value_type& e) { e += typename C::value_type(e); }); }, yes);
        }
    }
    void opMap(Rng& r, bool sh)
    {
        std::vector<int> own = genInts(r); std::size_t i = (std::size_t)r.below(4);
        const std::vector<int>& v = sh ? shared->ints[i] : own;
        std::vector<int> was = v;
        auto same = [&] { return v == was; };
        bool nested = r.chance(300);
        if (nested) probe(P_NESTED);
        auto text = [nested](int e)
        {
            if (nested) { auto part = pluto::map(std::vector<int>{ e, e }, [](int x) { return std::string((std::size_t)(x + 5) * 2, 'x'); }); return part[0] + std::string((std::size_t)(e + 5), 'x') + part[1]; }
            return std::string((std::size_t)(e + 5) * 5, 'x');
        };
        if (r.chance(200))
        {
            // a function that takes its elements by value
            probe(P_BYVALUE);
            const auto& parts = shared->c.parts;
            std::list<std::string> twice; for (auto& e : parts) twice.push_back(e + e);
            pure(O_MAP, "map", twice, [&] { return pluto::map<std::list<std::string>>(parts, ByValue<char>{}); }, [&] { return shared->c.same(); });
            return;
        }
        std::vector<std::string> want; for (int e : v) want.push_back(text(e));
        switch (r.below(4))
        {
        case 0: pure(O_MAP, "map to the same kind of container", want, [&] { return pluto::map(v, text); }, same); break;
        case 1: pure(O_MAP, "map to a list", std::list<std::string>(want.begin(), want.end()), [&] { return pluto::map<std::list<std::string>>(v, text); }, same); break;
        case 2: pure(O_MAP, "map to a set", std::set<std::string>(want.begin(), want.end()), [&] { return pluto::map<std::set<std::string>>(v, text); }, same); break;
        default:
        {
            std::vector<std::string> start{ "one", "two" }, end(start);
            end.insert(end.end(), want.begin(), want.end());
            inplace(O_MAP, "map into a container", start, end, [&](std::vector<std::string>& x) { pluto::map(v, x, text); }, same);
        }
        }
    }
    // Functions that use streams: a stream swallows the failure of an allocation, so the result of such a call is not
    // compared; nothing of it may remain.
    template<class T, class F, class S> void streamed(const char* what, const T& want, F f, S same)
    {
        for (int i = 0; i < 3; ++i)
        {
            bool was = armed;
            if (i == 2) armed = false;
            u64 before = faults();
            T got{};
            bool ok = attempt(O_STREAM, what, got, f);
            armed = was;
            if (!same()) fail("M01:argument changed", "%s changed an argument it only reads", what);
            if (faults() != before) { probe(P_STREAM); continue; }
            if (!ok) continue;
            if (!(got == want)) fail("M01:wrong result", "%s returned %s, expected %s", what, show(got).c_str(), show(want).c_str());
            ++R->opsDone;
            return;
        }
    }
    struct InHex { long long v; };
    template<class S> S& operator<<(S& s, const InHex& x) { s << std::hex << std::showbase << x.v; return s; }
    void opStream(Rng& r)
    {
        long long v = (long long)r.next() >> r.below(64);
        std::string s = std::to_string(v); std::wstring w(s.begin(), s.end()), wasW = w; std::string wasS = s;
        std::string word(r.below(60), 'w');
        auto same = [&] { return s == wasS && w == wasW; };
        switch (r.below(8))
        {
        case 0: streamed("str(number)", s, [&] { return pluto::str(v); }, same); break;
        case 1: streamed("wstr(number)", w, [&] { return pluto::wstr(v); }, same); break;
        case 2: streamed("str_to<number>", v, [&] { return pluto::str_to<long long>(s); }, same); break;
        case 3: streamed("wstr_to<number>", v, [&] { return pluto::wstr_to<long long>(w); }, same); break;
        case 4: streamed("str(word)", word, [&] { return pluto::str(word.c_str()); }, same); break;
        case 5: word += 'z'; streamed("str_to<word>", word, [&] { return pluto::str_to<std::string>(word); }, same); break;
        case 6: streamed("str_to<number> of its characters", v, [&] { return pluto::str_to<long long>(s.c_str(), s.size()); }, same); break;
        default: { if (v < 0) v = -(v + 1); if (!v) v = 1; char b[40]; std::snprintf(b, sizeof b, "0x%llx", v); streamed("str(value that sets flags)", std::string(b), [&] { return pluto::str(InHex{ v }); }, same); }
        }
    }

    void doOp(const Op& o)
    {
        Rng r((u64)o.d);
        bool sh = o.b & 1; int width = (int)o.a;
#define EACH2(f, ...) do { if (width & 1) f<wchar_t>(__VA_ARGS__); else f<char>(__VA_ARGS__); } while (0)
#define EACH4(f, ...) do { switch (width & 3) { case 0: f<char>(__VA_ARGS__); break; case 1: f<wchar_t>(__VA_ARGS__); break; case 2: f<char16_t>(__VA_ARGS__); break; default: f<char32_t>(__VA_ARGS__); } } while (0)
        switch (o.code)
        {
        case O_CASE: EACH2(opCase, r, sh); break;
        case O_ISCASE: EACH2(opIsCase, r, sh); break;
        case O_ICMP: EACH2(opCompare, r, sh, true); break;
        case O_CMP: EACH2(opCompare, r, sh, false); break;
        case O_SPLITWS: EACH2(opSplitWs, r, sh); break;
        case O_SPLIT: EACH4(opSplit, r, sh); break;
        case O_SPLITANY: EACH4(opSplitAny, r, sh); break;
        case O_JOIN: EACH4(opJoin, r, sh, false); break;
        case O_MAPJOIN: EACH4(opJoin, r, sh, true); break;
        case O_REPLACE: EACH4(opReplace, r, sh, false); break;
        case O_REPLACEANY: EACH4(opReplace, r, sh, true); break;
        case O_STRIP: EACH2(opStrip, r, sh); break;
        case O_BASE:
            switch (width & 7)
            {
            case 0: opBase<signed char>(r); break; case 1: opBase<unsigned char>(r); break; case 2: opBase<short>(r); break; case 3: opBase<unsigned short>(r); break;
            case 4: opBase<int>(r); break; case 5: opBase<unsigned>(r); break; case 6: opBase<long long>(r); break; default: opBase<unsigned long long>(r);
            }
            break;
        case O_UNICODE: if (r.chance(150)) opIllFormed(r); else opUnicode(r, sh); break;
        case O_SEARCH: { std::vector<int> v = sh ? shared->ints[r.below(4)] : genInts(r); if (sh) { probe(P_SHAREDARG); opSearch(r, shared->ints[(std::size_t)r.below(4)]); } else if (width & 1) opSearch(r, std::list<int>(v.begin(), v.end())); else opSearch(r, v); } break;
        case O_REDUCE: { std::vector<int> v = genInts(r); if (sh) { probe(P_SHAREDARG); opReduce(r, shared->ints[(std::size_t)r.below(4)]); } else if (width & 1) opReduce(r, std::list<int>(v.begin(), v.end())); else opReduce(r, std::deque<int>(v.begin(), v.end())); } break;
        case O_SORT: case O_FILTER:
        {
            std::vector<int> v = genInts(r); std::vector<std::string> t;
            for (int e : v) t.push_back(std::string((std::size_t)(e + 5) * 4, (char)('a' + e + 4)));
            if (o.code == O_SORT) { if (width & 1) opSort(r, t); else opSort(r, v); }
            else if (width & 1) opFilter(r, t); else opFilter(r, v);
            break;
        }
        case O_MAP: opMap(r, sh); break;
        case O_STREAM: opStream(r); break;
        case O_YIELD: { Api a; yield(); } break;
        }
    }
    void client(void* p)
    {
        int c = (int)(std::intptr_t)p;
        for (auto& o : plan->ops) if (o.client == c) doOp(o);
    }
    void together()
    {
        std::vector<int> th;
        for (int c = 1; c <= plan->k(SK_CLIENTS); ++c) th.push_back(spawn(client, (void*)(std::intptr_t)c));
        client(nullptr);
        for (int t : th) join(t);
    }

    void simMain(const Plan& p, const std::string&, int)
    {
        plan = &p;
        refC = new std::locale(std::locale::classic()); refDefault = new std::locale("en_US.UTF-8");
        Rng r((u64)p.k(SK_SHARED));
        shared = new Shared;
        shared->c.fill(r); shared->w.fill(r); shared->h.fill(r); shared->u.fill(r);
        for (int i = 0; i < 4; ++i) shared->ints.push_back(genInts(r));
        shared->u32 = genPoints(r); shared->u16 = encode16(shared->u32); shared->u8 = encode8(shared->u32);
        shared->intsWas = shared->ints; shared->u32Was = shared->u32; shared->u16Was = shared->u16; shared->u8Was = shared->u8;
        if (p.k(SK_ALONE))
        {
            // every call alone first: whatever is created once and kept exists afterwards
            armed = false;
            for (auto& o : p.ops) doOp(o);
            (void)pluto::default_locale(); (void)pluto::c_locale();
        }
        else probe(P_FIRST);
        u64 blocks = live_blocks();
        armed = p.k(SK_ARMED) != 0;
        together();
        armed = false;
        if (R->fired[K_LOCALE]) probe(P_LOCALE);
        if (p.k(SK_ALONE) && live_blocks() > blocks) fail("M01:leaked", "%lld blocks of memory are left after all calls returned", (long long)(live_blocks() - blocks));
        if (!shared->same()) fail("M01:argument changed", "an argument that several threads read was changed");
        // once more, when nothing fails any more
        for (auto& o : p.ops) if (o.client == 0) doOp(o);
        finish_ok();
    }

    void gen(Rng& r, const std::string&, Plan& p)
    {
        gen_common(r, p, SK_END - KN_COUNT);
        p.k(SK_CLIENTS) = (i64)r.below(5); p.k(SK_SHARED) = (i64)r.below(1u << 30);
        p.k(SK_ALONE) = r.chance(600);
        if (r.chance(800)) p.k(KN_PLAIN) = (i64)(1 + r.below(r.chance(700) ? 400 : 3000));
        if (r.chance(550))
        {
            p.k(SK_ARMED) = 1;
            p.k(KN_PM0 + K_ALLOC) = (i64)(50 + r.below(r.chance(700) ? 2500 : 6000));
            p.k(KN_PM0 + K_LOCALE) = r.chance(300) ? (i64)(500 + r.below(6000)) : 0;
            p.k(KN_BUDGET) = 1 + (i64)r.below(30);
        }
        int n = (int)(2 + r.below(r.chance(300) ? 50 : 20));
        int only = r.chance(400) ? (int)r.below(O_YIELD) : -1;    // many calls of one function
        bool few = r.chance(300); u64 pool[3] = { r.next() >> 2, r.next() >> 2, r.next() >> 2 };   // the same calls again and again
        for (int i = 0; i < n; ++i)
        {
            int code = only >= 0 && r.chance(800) ? only : (int)r.below(N_OPS);
            p.ops.push_back(Op{ (int)r.below((u64)p.k(SK_CLIENTS) + 1), code, (i64)r.below(8), (i64)r.below(2), (i64)(few ? pool[r.below(3)] : r.next() >> 2) });
        }
    }
}

const Scenario& dst::scenario()
{
    static const Scenario s{ SIM_NAME, knobDefs, SK_END - KN_COUNT, probeNames, N_PROBES, opNames, N_OPS, props, (int)(sizeof props / sizeof props[0]), gen, simMain };
    return s;
}
