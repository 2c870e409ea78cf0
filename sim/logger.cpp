// Scenario: pluto::logger under a simulated scheduler, clock, file system and process crashes.
#include <cstddef>
#include <functional>
#include <iosfwd>
#ifdef SIM_INITIAL
// The initial settings are configurable with macros: here they are whatever the run needs.
namespace pluto { struct log_entry; }
namespace sim_initial
{
    extern std::size_t flush, max, rotation, limit; extern bool header, dirs;
    extern std::function<void(std::ostream&, const pluto::log_entry&)> writer; extern std::function<void(std::ostream&)> headerWriter;
}
#define PLUTO_LOGGER_INITIAL_LEVEL debug
#define PLUTO_LOGGER_INITIAL_CREATE_DIRS sim_initial::dirs
#define PLUTO_LOGGER_INITIAL_WRITE_HEADER sim_initial::header
#define PLUTO_LOGGER_INITIAL_BUFFER_MAX_SIZE sim_initial::max
#define PLUTO_LOGGER_INITIAL_BUFFER_FLUSH_SIZE sim_initial::flush
#define PLUTO_LOGGER_INITIAL_FILE_ROTATION_SIZE sim_initial::rotation
#define PLUTO_LOGGER_INITIAL_FILE_ROTATION_LIMIT sim_initial::limit
#define PLUTO_LOGGER_INITIAL_LOG_WRITER sim_initial::writer
#define PLUTO_LOGGER_INITIAL_HEADER_WRITER sim_initial::headerWriter
#endif
#ifdef SIM_CLOCK
// Another clock: ticks of 125 ns since some second in 1971, derived from the system clock
#include <chrono>
#include <ctime>
struct SimClock
{
    typedef std::chrono::duration<long long, std::ratio<1, 8000000>> duration;
    typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<SimClock> time_point;
    static constexpr bool is_steady = false; static constexpr long long epoch = 37000003;
    static time_point now() noexcept { return time_point{ std::chrono::duration_cast<duration>(std::chrono::system_clock::now().time_since_epoch()) - std::chrono::seconds(epoch) }; }
    static std::time_t to_time_t(const time_point& t) noexcept { return (std::time_t)(std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count() + epoch); }
};
#define PLUTO_LOGGER_CLOCK_TYPE SimClock
#endif
#include <pluto/logger.hpp>
#include "plan.hpp"
#include <algorithm>
#include <cstring>
#include <ctime>
#include <new>

using namespace dst;

#ifdef SIM_INITIAL
namespace sim_initial
{
    std::size_t flush, max, rotation, limit; bool header, dirs;
    std::function<void(std::ostream&, const pluto::log_entry&)> writer; std::function<void(std::ostream&)> headerWriter;
    void defaults() { flush = 1; max = rotation = limit = 0; header = dirs = true; writer = pluto::logger::default_log_writer; headerWriter = pluto::logger::default_header_writer; }
}
#endif

namespace
{
#ifdef SIM_CLOCK
    constexpr i64 CLOCK_EPOCH = SimClock::epoch * 1000000000, CLOCK_TICK = 124;
#else
    constexpr i64 CLOCK_EPOCH = 0, CLOCK_TICK = 0;
#endif
    enum { O_LOG, O_FLUSH, O_MAX, O_LEVEL, O_ROT, O_LIMIT, O_WRITER, O_QUERY, O_SLEEP, O_REST, O_FREEZE, O_BURST, O_RESET, O_HEADERW, O_HEADER, O_CREATEDIRS, O_HEAL, O_EXTERN, N_OPS };
    const char* const opNames[] = { "log", "set_flush_size", "set_max_size", "set_level", "set_rotation_size", "set_rotation_limit", "set_writer", "query", "sleep", "rest", "freeze", "burst", "reset_discarded", "set_header_writer", "write_header", "set_create_dirs", "heal", "removed_by_others" };
    enum { I_WRITE, I_WRITEF, I_FORMAT, I_STREAM, I_MACRO, I_MACROF, I_MACROS, I_WRITEF2, I_STREAM_TEMP, I_STREAM_NAMED, N_IFACE };

    enum { SK_CLIENTS = KN_COUNT, SK_FILES, SK_FILESET, SK_FLUSH, SK_MAX, SK_ROT, SK_LIMIT, SK_HEADER, SK_WRITER, SK_DESTROY, SK_INIT, SK_CRASHOP, SK_TORN, SK_INSTANCE, SK_ARMED, SK_RESTART, SK_READCONF, SK_FAULTYEND, SK_DIRS, SK_NODIRS, SK_TWO, SK_BLOCKED, SK_HEAL, SK_MEM, SK_PLACE, SK_FLOOD, SK_FLOODKIND, SK_MACROS, SK_END };
    const KnobDef knobDefs[] = { { "clients", 0 }, { "files", 1 }, { "file_set", 0 }, { "flush_size", 1 }, { "max_size", 0 }, { "rotation_size", 0 }, { "rotation_limit", 0 }, { "header", 0 }, { "writer", 0 }, { "destroy_mode", 0 },
        { "initial_files", 0 }, { "crash_at_file_op", 0 }, { "torn_permille", 0 }, { "instance", 0 }, { "faults_in_calls", 0 }, { "restart", 0 }, { "writer_reads_config", 0 }, { "faults_until_end", 0 }, { "dirs_missing", 0 }, { "create_dirs_off", 0 }, { "second_logger", 0 }, { "unwritable_file", 0 }, { "heal_at_end", 0 }, { "faults_in_writer_thread", 0 }, { "same_address", 0 }, { "flood", 1 }, { "flood_kind", 0 }, { "set_by_macros", 0 } };

    enum { P_DISCARD, P_FULL, P_ROTATE, P_DELETE, P_IDLE_PENDING, P_IDLE_ALL, P_FREEZE, P_EMPTY, P_LONG, P_FILTERED, P_CRASH, P_TORN, P_RESTART, P_APPEND, P_DESTROY_PENDING, P_DESTROY_BUSY, P_WRITEFAULT_LOST, P_RETRY, P_DIRS, P_TWOFILES, P_UNTOUCHED,
        P_LOWERED, P_FLUSH0, P_HEADER, P_ROTATED_OLD, P_CALLFAIL, P_INSTANCE, P_CRASH_MIDROT, P_ODD, P_TWO, P_BLOCKED, P_BLOCKED_PENDING, P_HEALED, P_SPIN_OTHERS, P_EXT_FILE, P_EXT_ROTATED, P_EXT_DIR, P_EXT_OPEN, P_MEM, P_PLACE, P_RESETBUSY, P_FLOOD, P_FLOOD16, P_MACROS, N_PROBES };
    const char* const probeNames[] = { "log_discarded", "buffer_known_full", "rotated", "oldest_file_deleted", "idle_with_pending_logs", "idle_all_written", "logged_while_disk_stalled", "empty_message", "long_message", "filtered_by_level", "crashed", "torn_last_line",
        "second_lifetime", "appended_to_existing_file", "destroyed_with_pending_logs", "destroyed_while_writer_busy", "logs_lost_by_failing_write", "retried_after_fault", "directories_created", "several_files", "default_writer_untouched",
        "flush_size_lowered", "flush_size_zero", "header_written", "existing_file_rotated", "call_failed_by_fault", "global_instance", "crashed_with_main_file_missing", "control_characters_in_message", "two_loggers", "file_permanently_unwritable", "unwritable_at_destruction", "unwritable_file_became_writable", "others_written_meanwhile", "log_file_removed_by_others", "rotated_file_removed_by_others", "directory_removed_by_others", "removed_while_being_written", "memory_short_in_writer_thread", "logger_at_the_same_address", "reset_while_logging", "thousands_of_logs", "over_65536_logs", "settings_from_macros" };

    const PropInfo props[] = {
        { "L01", false, "deadlock,livelock,terminate,crash,uaf,misuse" },
        { "L02", false, "deadlock,livelock,terminate,crash,uaf,misuse" },
        { "L03", false, "deadlock,livelock,terminate,crash,uaf,misuse" },
        { "L04", false, "deadlock,livelock,terminate,crash,uaf,misuse" },
        { "L05", false, "deadlock,livelock,terminate,crash,uaf,misuse" },
        { "L06", false, "deadlock,livelock,terminate,crash,uaf,misuse" },
        { "L07", false, "deadlock,livelock,terminate,crash,uaf,misuse" },
        { "L08", false, "deadlock,livelock,terminate,crash,uaf,misuse" },
        { "L09", true, "deadlock,livelock,terminate,crash,uaf,misuse,race" },
    };

    constexpr int MAXLOG = 420, MAXF = 5, MAXTH = 128, MAXHIST = 160;
    typedef pluto::logger Logger;

    struct Log
    {
        int file, iface, level, len, client, line, disc, srcIdx, odd;    // disc: -1 unknown, 0 accepted, 1 discarded
        bool issued, threw, maybeFiltered, filtered, onDisk, faulty, wrongLife;
        u64 inv, ret, fmt, erased, session;
        i64 clkLo, clkHi, time; long tid; int life, nFmt, phase;
    };
    struct Init { int nPre[4]; int rotated; bool hasHeader; int len[4]; };
    struct Shared      // what the checker knows; survives the simulated crash
    {
        int nLog, life, discardBase, nFiles; bool countFuzzy;
        bool crashMode, writeFaults, rotConst, hdrConst, settingsStrict, untouched, overflowed;
        u64 ev0, fmtSeq, issuedPass, discardedTotal;
        i64 rotMin, rotMax, limMin, limMax;
        Init init[MAXF];
        u64 resetInv, resetRet; // the counter was reset at last between these
        u64 cutFrom;            // formatted logs of earlier lives beyond the crash point do not exist
        char torn[MAXF][600]; int tornLen[MAXF];
        bool crashed;
        Log log[MAXLOG];
    };
    static_assert(sizeof(Shared) < AUX_MAX, "too large");
    Shared* S;

    Logger* lg; Logger* lg2; bool alive, destroying, frozen;     // lg2: a second logger for the last file
    const Plan* plan; std::string prop; int phaseNo;
    int nFiles; const char* fname[MAXF];
    bool header, headerAlways, headerEver, customHeader, faultsPossible;
    bool inCall[MAXTH]; int activeLogs, activeResets; u64 overlap;
    // a file that cannot be written: 1 its name is a directory, 2 its directory's name is a file, 3 its directory is missing and is not to be created
    bool blocked[MAXF], everBlocked[MAXF]; std::string obstacle; int blockKind; const char* const obstacleText = "in the way\n";
    // files removed by somebody else; logs being written to one of them at that moment are lost with it
    int removed[MAXF]; u64 lostSession[64]; int nLostSession;
    u64 memSession[64]; int nMemSession;        // memory ran out in the writer thread
    void onMemFault() { if (nMemSession < 64) memSession[nMemSession++] = fs::opens(); probe(P_MEM); }
    bool anyBlocked() { for (bool b : blocked) if (b) return true; return false; }
    bool mayRetry() { return plan->k(SK_BLOCKED) && plan->k(SK_FLUSH) < 1000 && anyBlocked(); }     // the writer may try again and again
    u64 lastIdle; bool armed, usesInstance;
    int callLog[MAXTH];

    u64 ev() { return event() + ((u64)phaseNo << 40); }

    // ---- settings with their history --------------------------------------------------------------
    enum { H_FLUSH, H_MAX, H_LEVEL, H_ROT, H_LIMIT, H_WRITER, N_HIST };
    struct Set { u64 inv, ret; i64 v; };
    Set hist[N_HIST][MAXHIST]; int nHist[N_HIST];
    void setInit(int h, i64 v) { hist[h][0] = Set{ 0, 0, v }; nHist[h] = 1; }
    template <class F> void possible(int h, u64 a, u64 b, F f)      // values that may have been current somewhere in [a, b]
    {
        for (int i = 0; i < nHist[h]; ++i)
        {
            Set& s = hist[h][i];
            if (s.inv > b) continue;
            bool gone = false;
            for (int j = 0; j < nHist[h] && !gone; ++j) gone = j != i && s.ret && hist[h][j].inv > s.ret && hist[h][j].ret && hist[h][j].ret < a;
            if (i == 0 && !gone) for (int j = 1; j < nHist[h] && !gone; ++j) gone = hist[h][j].ret && hist[h][j].ret < a;
            if (!gone) f(s.v);
        }
    }
    bool stable(int h) { for (int i = 1; i < nHist[h]; ++i) if (!hist[h][i].ret) return false; return true; }

    // ---- messages and lines -------------------------------------------------------------------------
    const char* const srcFiles[] = { "/src/deep/dir/alpha.cpp", "beta_with_a_very_long_name_indeed.cpp", "C:\\win\\gamma.cpp" };
    const char* const srcBase[] = { "alpha.cpp", "beta_with_a_very_long_name_indeed.cpp", "gamma.cpp" };
    const char* const srcFuncs[] = { "run", "operator()", "a_function_with_quite_a_long_name" };
    const char* const levelTitle[] = { "Verbose", "Trace", "Debug", "Info", "Notice", "Warning", "Error", "Critical", "Fatal", "Unknown" };
    const char* const macroFile = __FILE__; const char* const macroFunc = "macroLog";

    void message(int id, int len, std::string& out)
    {
        out.clear();
        if (!len) return;
        out = "m" + std::to_string(id) + ".";
        static const char fill[] = "abc %d {} |xyz #~ \\n %s 12-";
        for (int i = 0; (int)out.size() < len; ++i) out += fill[(i + id) % (int)(sizeof fill - 1)];
        static const char odd[] = { 0, '\0', '\n', '\xff', '\r', '\t' };
        if (S->log[id].odd) out[out.size() - 2] = odd[S->log[id].odd];
    }
    std::string cut20(const char* s) { std::string t(s); if (t.size() > 20) t.resize(20); t.resize(std::max<std::size_t>(20, t.size()), ' '); return t; }
    std::string stamp(i64 ns)
    {
        std::time_t t = (std::time_t)(ns / 1000000000); std::tm tm; localtime_r(&t, &tm);
        char b[80]; std::snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d.%06lld", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, (long long)(ns / 1000 % 1000000));
        return b;
    }
    long utcOffset(i64 ns) { std::time_t t = (std::time_t)(ns / 1000000000); std::tm tm; localtime_r(&t, &tm); return tm.tm_gmtoff; }
    // source position -1: a macro used in this file, -2: none given
#if PLUTO_LOGGER_HIDE_SOURCE_INFO
    constexpr bool HIDE = true;
#else
    constexpr bool HIDE = false;
#endif
    const char* expFile(const Log& l) { return l.srcIdx == -2 ? "" : l.srcIdx < 0 ? macroFile : srcFiles[l.srcIdx]; }
    const char* expFunc(const Log& l) { return l.srcIdx == -2 ? "" : l.srcIdx < 0 ? macroFunc : srcFuncs[l.srcIdx]; }
    void defaultRest(int id, const Log& l, std::string& out)    // what follows the time stamp
    {
        const char* base = l.srcIdx < 0 ? "logger.cpp" : srcBase[l.srcIdx];
        char b[64]; std::snprintf(b, sizeof b, "|%7ld|%-8s|", l.tid, levelTitle[l.level]);
        out = b;
        if (!HIDE) {
        out += cut20(base); std::snprintf(b, sizeof b, "|%5d|", l.line); out += b; out += cut20(expFunc(l)); out += '|'; }
        std::string m; message(id, l.len, m); out += m;
    }
    std::string headerText;

    struct Item { int type, id, k; std::size_t off; u64 pos; };      // type: 0 log, 1 earlier content, 2 header, 3 garbage
    bool starts(const char* d, std::size_t n, const std::string& s) { return n >= s.size() && !std::memcmp(d, s.data(), s.size()); }

    // one complete item at the start of d, or 0
    std::size_t match(const char* d, std::size_t n, Item& it)
    {
        if (n && d[0] == '=' && starts(d, n, headerText)) { it.type = 2; it.id = 0; return headerText.size(); }
        if (n && d[0] == 'T' && starts(d, n, headerText)) { it.type = 2; it.id = 0; return headerText.size(); }
        if (n > 3 && d[0] == 'P' && d[1] == '<')
        {
            const char* e = (const char*)std::memchr(d, '\n', n);
            if (!e) return 0;
            it.type = 1; it.id = std::atoi(d + 2); return (std::size_t)(e - d) + 1;
        }
        std::string m;
        if (n > 2 && (d[0] == '#' || d[0] == '@') && d[1] >= '0' && d[1] <= '9')
        {
            int id = std::atoi(d + 1);
            if (id < 0 || id >= S->nLog) return 0;
            message(id, S->log[id].len, m);
            std::string exp = d[0] + std::to_string(id) + "~" + m + "\n";
            if (!starts(d, n, exp)) return 0;
            it.type = 0; it.id = id; return exp.size();
        }
        if (n > 40 && d[4] == '-' && d[7] == '-' && d[26] == '|')
        {
            const char* e = (const char*)std::memchr(d, '\n', n);
            if (!e) return 0;
            int bars = 0; const char* p = d; const char* col[8] = {};
            constexpr int BARS = HIDE ? 3 : 6;
            for (; p < e && bars < BARS; ++p) if (*p == '|') col[++bars] = p + 1;
            if (bars < BARS) return 0;
            const char* msg = col[BARS];
            int id = *msg == 'm' ? std::atoi(msg + 1) : HIDE ? -1 : std::atoi(col[4]);
            if (id < 0 || id >= S->nLog) return 0;
            const Log& l = S->log[id];
            defaultRest(id, l, m); m += '\n';
            if (!starts(d + 26, n - 26, m)) return 0;
            std::string ts(d, 26);
            if (l.time) { if (ts != stamp(l.time)) return 0; }
            else if (l.clkLo && l.clkHi >= l.clkLo)
            {
                std::string a = stamp(l.clkLo - CLOCK_TICK), b = stamp(l.clkHi);
                if (a <= b && (ts < a || ts > b) && utcOffset(l.clkLo) == utcOffset(l.clkHi)) return 0;
            }
            it.type = 0; it.id = id; return 26 + m.size();
        }
        return 0;
    }
    void parse(const char* d, std::size_t n, int k, std::vector<Item>& out)
    {
        std::size_t p = 0;
        while (p < n)
        {
            Item it{}; it.k = k; it.off = p;
            std::size_t l = match(d + p, n - p, it);
            if (!l)
            {
                std::size_t q = p + 1;
                Item x{};
                while (q < n && !match(d + q, n - q, x)) ++q;
                it.type = 3; it.id = (int)(q - p); l = q - p;
            }
            out.push_back(it); p += l;
        }
    }
    std::string absName(int f) { std::string n = fname[f]; if (n[0] == '/') return n; if (!n.compare(0, 2, "./")) n.erase(0, 2); return "/sim/work/" + n; }
    std::string rotName(int f, int k)
    {
        std::string p = absName(f);
        if (!k) return p;
        std::size_t sl = p.rfind('/'), dot = p.rfind('.');
        std::string ext;
        if (dot != std::string::npos && dot > sl + (__cplusplus < 201703L ? 0 : 1)) {  // before C++17 a leading dot starts an extension
            ext = p.substr(dot); p.resize(dot); }
        return p + "_" + std::to_string(k) + ext;
    }


    // unrelated files which must stay as they are
    struct Other { const char* path; const char* text; } const others[] = {
        { "/sim/work/app_x.log", "unrelated 1\n" }, { "/sim/work/app.log.bak", "unrelated 2\n" }, { "/sim/work/xapp_1.log", "unrelated 3\n" }, { "/sim/work/app_1.txt", "unrelated 4\n" },
        { "/sim/work/app_01.log", "unrelated 5\n" }, { "/sim/work/logs/sub2/app_1.log", "unrelated 6\n" } };

    enum When { AT_IDLE, AT_END, AT_CRASH };

    // ---- the files against what is known to have been written ------------------------------------------
    void checkDisk(When when)
    {
        bool seen[MAXLOG] = {};
        bool exempt = (S->writeFaults && fs::write_faults() > 0) || nMemSession;
        if (exempt)
            for (int i = 0; i < S->nLog; ++i)
                for (int w = 0; w < fs::write_faults() && w < 64; ++w)
                    if (S->log[i].fmt && S->log[i].phase == phaseNo && S->log[i].session == fs::write_fault_open(w)) S->log[i].faulty = true;
        for (int i = 0; i < S->nLog; ++i)
            for (int w = 0; w < nMemSession; ++w)
                if (S->log[i].fmt && S->log[i].session == memSession[w]) S->log[i].faulty = true;
        if (anyBlocked())
        {
            std::size_t n = 0; const char* d = fs::data(obstacle.c_str(), &n);
            if (blockKind == 1 && d) fail("L05,L04:directory replaced", "%s was a directory and is a file now", obstacle.c_str());
            if (blockKind == 2 && (!d || n != std::strlen(obstacleText) || std::memcmp(d, obstacleText, n))) fail("L05,L04:unrelated file changed", "%s is not as it was", obstacle.c_str());
            if (blockKind == 3 && fs::exists(obstacle.c_str())) fail("L05:directory created", "%s was created although directories are not to be created", obstacle.c_str());
        }
        for (int i = 0; i < S->nLog; ++i)
            for (int w = 0; w < nLostSession; ++w)
                if (S->log[i].fmt && removed[S->log[i].file] && S->log[i].session == lostSession[w]) S->log[i].faulty = true;
        for (int f = 0; f < nFiles; ++f)
        {
            if (blocked[f]) continue;
            std::vector<Item> items; int rotated = 0, top = -1;
            std::size_t size[80] = {}; bool have[80] = {};
            int firstOf[80], lastOf[80]; for (int k = 0; k < 80; ++k) firstOf[k] = lastOf[k] = -1;
            for (int k = 70; k >= 0; --k)
            {
                std::size_t n = 0; std::string path = rotName(f, k);
                const char* d = fs::data(path.c_str(), &n);
                if (!d) continue;
                have[k] = true; size[k] = n; if (k) ++rotated; if (top < 0) top = k;
                firstOf[k] = (int)items.size();
                parse(d, n, k, items);
                lastOf[k] = (int)items.size() - 1;
                if (firstOf[k] > lastOf[k]) firstOf[k] = lastOf[k] = -1;
            }
            const char* fn = fname[f];
            // garbage
            int garbage = 0;
            for (std::size_t i = 0; i < items.size(); ++i)
                if (items[i].type == 3)
                {
                    ++garbage;
                    if (exempt) continue;
                    std::string path = rotName(f, items[i].k); std::size_t n; const char* d = fs::data(path.c_str(), &n);
                    std::string g(d + items[i].off, (std::size_t)items[i].id);
                    if (when == AT_CRASH && i + 1 == items.size() && g.size() < sizeof S->torn[0]) { S->tornLen[f] = (int)g.size(); std::memcpy(S->torn[f], g.data(), g.size()); probe(P_TORN); continue; }
                    if (when == AT_CRASH && i + 1 == items.size()) { S->overflowed = true; continue; }
                    if (S->crashed && (S->overflowed || (S->tornLen[f] == (int)g.size() && !std::memcmp(S->torn[f], g.data(), g.size())))) continue;
                    for (auto& c : g) if (c == '\n') c = '/';
                    fail(when == AT_CRASH ? "L06:damaged line" : S->life || S->crashed ? "L06,L01,L07:damaged line" : "L01,L07,L04:damaged line", "%s: at offset %zu of file %d there is no complete line as issued: %.120s", fn, items[i].off, items[i].k, g.c_str());
                }
            if (garbage && !exempt && when != AT_CRASH && garbage > 1) fail("L06:damaged line", "%s has %d damaged places", fn, garbage);
            // every log at most once, in its own file, and only if it was to be recorded
            for (auto& it : items)
                if (it.type == 0)
                {
                    Log& l = S->log[it.id];
                    if (l.file != f) fail("L07,L01:log in the wrong file", "log %d for %s is in %s", it.id, fname[l.file], fn);
                    if (l.threw) fail("L01:a failed call's log was written", "log %d", it.id);
                    if (l.filtered) fail("L07:log below the level was written", "log %d", it.id);
                    if (l.disc == 1) fail("L03:a discarded log was written", "log %d was counted as discarded but is in %s", it.id, fn);
                    if (seen[it.id] && !l.faulty)
                        fail(faultsPossible ? "L05,L01,L06:a log was written twice" : S->life || S->crashed ? "L06,L01:a log was written twice" : "L01:a log was written twice", "log %d is in %s twice", it.id, fn);
                    seen[it.id] = true; l.onDisk = true;
                }
            // order of calls that did not overlap
            u64 maxInv = 0; int maxId = -1;
            for (auto& it : items)
                if (it.type == 0 && !S->log[it.id].faulty)
                {
                    Log& l = S->log[it.id];
                    if (l.ret && l.ret < maxInv)
                        fail(rotated ? "L01,L04,L06,L05:order" : faultsPossible ? "L01,L05:order" : "L01,L06:order", "%s: log %d was issued before log %d but is written after it", fn, it.id, maxId);
                    if (l.inv > maxInv) { maxInv = l.inv; maxId = it.id; }
                }
                else if (it.type == 1 && maxId >= 0) fail("L04,L06:earlier content after new logs", "%s: earlier content comes after log %d", fn, maxId);
            // gap-free suffix of everything written, if the order of writing is known
            Init& in = S->init[f];
            int preTotal = 0; for (int k = 0; k < 4; ++k) preTotal += in.nPre[k];
            bool missing = false;
            {
                int firstPre = -1, prev = -1;
                for (auto& it : items)
                    if (it.type == 1)
                    {
                        if (firstPre < 0) firstPre = it.id;
                        if (prev >= 0 && it.id != prev + 1 && !removed[f]) fail("L04,L06,L05:earlier content damaged", "%s: earlier line %d is followed by %d", fn, prev, it.id);
                        prev = it.id;
                    }
                if (preTotal && firstPre != 0 && !removed[f]) missing = true;
                if (prev >= 0 && prev != preTotal - 1 && !removed[f]) fail("L04,L06,L05:earlier content damaged", "%s: earlier lines after %d are gone", fn, prev);
            }
            if (!S->untouched)
            {
                std::vector<std::pair<u64, int>> exp; std::vector<int> obs;
                for (int i = 0; i < S->nLog; ++i) if (S->log[i].file == f && S->log[i].fmt && !S->log[i].faulty) exp.push_back({ S->log[i].fmt, i });
                std::sort(exp.begin(), exp.end());
                for (auto& it : items) if (it.type == 0 && !S->log[it.id].faulty) obs.push_back(it.id);
                bool preLeft = false; for (auto& it : items) preLeft |= it.type == 1;
                std::size_t e = exp.size(), b = 0;
                if (!obs.empty())
                {
                    while (b < e && exp[b].second != obs[0]) ++b;
                    if (b == e) fail("L07:log written without its writer", "%s: log %d", fn, obs[0]);
                    if (b && preLeft) fail("L04,L01,L05,L06:logs missing inside the files", "%s: log %d is missing although older content is kept", fn, exp[0].second);
                    for (std::size_t i = 0; i < obs.size(); ++i)
                        if (b + i >= e || exp[b + i].second != obs[i])
                            fail(faultsPossible ? "L05,L01,L04,L06:logs missing inside the files" : S->life || when == AT_CRASH ? "L06,L04,L01:logs missing inside the files" : "L01,L04:logs missing inside the files", "%s: after %zu logs there is log %d instead of %d", fn, i, obs[i], b + i < e ? exp[b + i].second : -1);
                    if (when == AT_CRASH)
                    {
                        // everything that was seen on disk before the crash must be there
                        for (std::size_t i = b + obs.size(); i < e; ++i)
                        {
                            if (S->log[exp[i].second].erased) fail("L06:flushed logs lost by a crash", "%s: log %d was on disk before the crash", fn, exp[i].second);
                            S->log[exp[i].second].fmt = 0; S->log[exp[i].second].wrongLife = true;
                        }
                    }
                    else if (b + obs.size() != e)
                        fail(faultsPossible ? "L05,L01:written logs are missing" : "L01,L08,L04,L06:written logs are missing", "%s: log %d was given to the writer but is not at the end of the file", fn, exp[b + obs.size()].second);
                    if (b) missing = true;
                }
                else if (e)
                {
                    bool laterFaulty = false;   // a later log, whose writing failed, made them rotate away
                    if (S->rotMin) for (int i = 0; i < S->nLog; ++i) if (S->log[i].file == f && S->log[i].faulty && S->log[i].fmt > exp.back().first) laterFaulty = true;
                    // ... or a due rotation which keeps nothing succeeded only in part
                    if (S->rotMin && !S->limMin && faultsPossible && fs::unlinks()) for (int i = 0; i < S->nLog; ++i) if (S->log[i].file == f && !S->log[i].fmt && !S->log[i].threw && !S->log[i].filtered) laterFaulty = true;
                    if (laterFaulty) { missing = true; }
                    else if (when != AT_CRASH)
                        fail(faultsPossible ? "L05,L01:written logs are missing" : "L01,L08,L04,L06:written logs are missing", "%s: log %d was given to the writer but no log is in the file", fn, exp[0].second);
                    if (when == AT_CRASH) for (auto& x : exp) { if (S->log[x.second].erased && (!S->rotMax || fs::unlinks() == 0) && !S->rotMin) fail("L06:flushed logs lost by a crash", "%s: log %d was on disk before the crash", fn, x.second); S->log[x.second].fmt = 0; S->log[x.second].wrongLife = true; }
                }
            }
            // rotation
            if (missing)
            {
                probe(P_DELETE);
                if (!S->rotMin) fail("L04,L01,L06,L05:logs deleted without rotation", "%s: the beginning is gone although rotation is off", fn);
                if (rotated + removed[f] + (faultsPossible || S->crashed ? 1 : 0) < S->limMin && when != AT_CRASH)
                    fail(faultsPossible ? "L05,L04:logs deleted although fewer files are kept than allowed" : "L04,L06:logs deleted although fewer files are kept than allowed", "%s: older logs are gone but only %d rotated files of %lld are kept", fn, rotated, (long long)S->limMin);
            }
            if (rotated) probe(P_ROTATE);
            for (int k = 1; k <= 70; ++k)
            {
                if (!have[k]) continue;
                bool anyNew = false; for (int i = firstOf[k]; i >= 0 && i <= lastOf[k]; ++i) anyNew |= items[(std::size_t)i].type == 0;
                bool asInit = k < 4 && in.rotated >= k && in.len[k] == (int)size[k] && !anyNew;
                if (k > S->limMax && !asInit && when != AT_CRASH) fail("L04,L06:too many rotated files", "%s: file %d exists, the limit is %lld", fn, k, (long long)S->limMax);
                if (!anyNew) { if (!asInit) probe(P_ROTATED_OLD); continue; }
                if (S->rotMin && (i64)size[k] < S->rotMin && !exempt)
                    fail(faultsPossible ? "L04,L05:rotated too early" : S->life ? "L04,L06:rotated too early" : "L04:rotated too early", "%s: rotated file %d has %zu bytes, the rotation size is %lld", fn, k, size[k], (long long)S->rotMin);
                if (!S->rotMin) fail("L04,L06:rotated without rotation size", "%s: file %d exists", fn, k);
            }
            if (when != AT_CRASH) for (int k = 2; k <= 70; ++k) if (have[k] && !have[k - 1] && !faultsPossible && !S->crashed) fail("L04:gap in the rotated files", "%s: file %d exists but %d does not", fn, k, k - 1);
            for (int k = 0; k <= 70; ++k)
            {
                if (firstOf[k] < 0) continue;
                bool prevContent = false;
                for (int i = firstOf[k]; i <= lastOf[k]; ++i)
                {
                    Item& it = items[(std::size_t)i];
                    if (it.type == 0)
                    {
                        if (prevContent && S->rotMax && (i64)it.off >= S->rotMax && !exempt)
                            fail(S->life || S->crashed ? "L04,L06:not rotated" : "L04:not rotated", "%s: log %d was written at offset %zu of file %d, the rotation size is %lld", fn, it.id, it.off, k, (long long)S->rotMax);
                        prevContent = true;
                    }
                    else if (it.type == 1 || it.type == 3) prevContent = true;
                    else if (it.off != 0 && !exempt)
                        fail(S->life || S->crashed || in.nPre[0] ? "L04,L06:header inside a file" : "L04:header inside a file", "%s: there is a header at offset %zu of file %d", fn, it.off, k);
                }
                Item& a = items[(std::size_t)firstOf[k]];
                if (a.type == 2) probe(P_HEADER);
                if (headerAlways && a.type == 0 && !exempt) fail("L04:header missing", "%s: file %d does not start with the header", fn, k);
                if (!headerEver && a.type == 2 && !in.hasHeader) fail("L04:header although headers are off", "%s: file %d starts with a header", fn, k);
                if (k == 0 && in.nPre[0] && a.type != 0) probe(P_APPEND);
            }
        }
        // nothing else may have been touched or created
        int n = fs::count();
        int found = 0;
        for (int i = 0; i < n; ++i)
        {
            std::string p = fs::path_at(i); bool ok = false;
            for (auto& o : others) if (p == o.path)
            {
                std::size_t l; const char* d = fs::data(o.path, &l);
                if (l != std::strlen(o.text) || std::memcmp(d, o.text, l)) fail("L04:unrelated file changed", "%s", o.path);
                ok = true; ++found;
            }
            if (anyBlocked() && blockKind == 2 && p == obstacle) ok = true;
            for (int f = 0; f < nFiles && !ok; ++f) for (int k = 0; k <= 70 && !ok; ++k) ok = !blocked[f] && p == rotName(f, k);
            if (!ok) fail("L04,L07,L01:unexpected file", "%s was created", p.c_str());
        }
        if (found != (int)(sizeof others / sizeof others[0])) fail("L04:unrelated file deleted", "only %d of the unrelated files are left", found);
    }

    // a log file is moved away only when it has reached the rotation size
    void onMove(const char* path, std::size_t len, std::size_t lost)
    {
        int d = push_harness();
        for (int f = 0; f < nFiles; ++f)
            if (absName(f) == path)
            {
                if (!S->rotMin) fail("L04,L05,L06:moved or deleted without rotation", "%s has %zu bytes and rotation is off", path, len);
                if ((i64)(len + lost) < S->rotMin) fail(lost ? "L05,L04:rotated too early" : faultsPossible ? "L04,L05:rotated too early" : S->life ? "L04,L06:rotated too early" : "L04:rotated too early", "%s is moved away or deleted with %zu bytes, the rotation size is %lld", path, len, (long long)S->rotMin);
            }
        pop_harness(d);
    }

    // ---- the log writer --------------------------------------------------------------------------------
    int idOf(const pluto::log_entry& e)
    {
        const std::string& m = e.message;
        if (m.size() > 2 && m[0] == 'm') return std::atoi(m.c_str() + 1);
        return e.source.line;
    }
    void onFmt(const pluto::log_entry& e, int variant)
    {
        int id = idOf(e); u64 now = ev();
        if (id < 0 || id >= S->nLog || !S->log[id].issued) fail("L07,L01:unknown log", "an entry with message '%.60s' and line %d was given to the writer", e.message.c_str(), e.source.line);
        Log& l = S->log[id];
        std::string m; message(id, l.len, m);
        if (e.message != m) fail("L07:wrong message", "log %d: '%.80s' instead of '%.80s' (%zu and %zu characters)", id, e.message.c_str(), m.c_str(), e.message.size(), m.size());
        if ((int)e.level != l.level) fail("L07:wrong level", "log %d: %d instead of %d", id, (int)e.level, l.level);
        if (std::strcmp(e.source.file, expFile(l)) || std::strcmp(e.source.function, expFunc(l)) || e.source.line != l.line)
            fail("L07:wrong source position", "log %d: %s:%d %s instead of %s:%d %s", id, e.source.file, e.source.line, e.source.function, expFile(l), l.line, expFunc(l));
        if ((long)e.thread_id != l.tid) fail("L07:wrong thread id", "log %d: %ld instead of %ld", id, (long)e.thread_id, l.tid);
        i64 t = (i64)std::chrono::duration_cast<std::chrono::nanoseconds>(e.time.time_since_epoch()).count();
        i64 lo = l.clkLo, hi = l.clkHi;
        if (!l.ret) { if (!clock_reads(l.client, &lo, &hi)) lo = hi = 0; }
        t += CLOCK_EPOCH;
        if (lo) lo -= CLOCK_TICK;
        if (lo && (t < lo || t > hi)) fail("L07:wrong time", "log %d: time %lld is not between %lld and %lld", id, (long long)t, (long long)lo, (long long)hi);
        if (l.filtered) fail("L07:log below the level was written", "log %d", id);
        if (l.threw) fail("L01:a failed call's log was written", "log %d", id);
        if (l.disc == 1) fail("L03:a discarded log was written", "log %d was counted as discarded but is written", id);
        if (l.nFmt && l.life == S->life && !faultsPossible) fail("L01:a log was written twice", "log %d was given to the writer twice", id);
        bool ok = false;
        possible(H_WRITER, lastIdle, now, [&](i64 v) { ok |= v == variant; });
        if (!ok) fail("L07:wrong writer", "log %d was written by writer %d which was not installed", id, variant);
        l.fmt = now; l.time = t; ++l.nFmt; l.session = fs::opens(); l.phase = phaseNo;
        note("fmt %d", id);
        // nothing is written while fewer logs than the flush size are pending
        if (!destroying)
        {
            i64 mf = 1 << 30;
            possible(H_FLUSH, lastIdle, now, [&](i64 v) { mf = std::min(mf, v); });
            i64 ub = 0;
            for (int i = 0; i < S->nLog; ++i)
            {
                Log& x = S->log[i];
                if (x.file == l.file && x.issued && !x.threw && !x.filtered && x.disc != 1 && !x.erased && x.life == S->life) ++ub;
            }
            if (ub < mf) fail("L02:written before the flush size was reached", "log %d of %s is written while at most %lld logs are pending, the flush size is %lld", id, fname[l.file], (long long)ub, (long long)mf);
        }
    }
    struct Writer
    {
        int variant;    // 1 and 2: own formats, 3: the default format
        void operator()(std::ostream& s, const pluto::log_entry& e) const
        {
            std::string line; bool conf;
            {
                Harness h;
                onFmt(e, variant);
                conf = plan->k(SK_READCONF) != 0 && !destroying;
                int id = idOf(e);
                if (variant != 3) line = (variant == 1 ? "#" : "@") + std::to_string(id) + "~";
            }
            if (conf)
            {
                Logger* l; { Harness h; l = lg; }
                if (l) { (void)l->level(); (void)l->buffer_flush_size(); (void)(bool)l->log_writer(); (void)(bool)l->header_writer(); (void)l->num_discarded_logs(); }
            }
            if (variant == 3) Logger::default_log_writer(s, e); else s << line << e.message;
        }
    };

    struct HeaderWriter
    {
        std::string text;       // owns memory, so that using it after it was replaced is noticed
        void operator()(std::ostream& s) const
        {
            bool conf;
            { Harness h; conf = plan->k(SK_READCONF) != 0 && !destroying; }
            if (conf)
            {
                Logger* l; { Harness h; l = lg; }
                if (l) { (void)l->write_header(); (void)l->level(); (void)(bool)l->header_writer(); (void)(bool)l->log_writer(); }
            }
            s << text;
        }
    };

    // ---- calls --------------------------------------------------------------------------------------------
    u64 faultsSoFar() { return (u64)R->fired[K_ALLOC]; }
    template <class F> bool call(F f)
    {
        int me = self(); inCall[me] = true; u64 before = faultsSoFar(); bool ok = true;
        try { Api a; f(); }
        catch (const std::bad_alloc&) { ok = false; }
        catch (...) { fail("L07,L01,L09:unexpected exception", "a logger call threw"); }
        inCall[me] = false;
        if (!ok && faultsSoFar() == before) fail("L01:call failed without cause", "a logger call threw bad_alloc although no allocation had failed");
        if (!ok) probe(P_CALLFAIL);
        return ok;
    }
    Logger* loggerOf(int f) { return lg2 && f == nFiles - 1 ? lg2 : lg; }
    i64 discarded() { return (i64)lg->num_discarded_logs() + (lg2 ? (i64)lg2->num_discarded_logs() : 0); }
    struct Lg { int f; Logger* get() const { Harness h; return f < 0 ? lg : loggerOf(f); } Logger* operator->() const { return get(); } Logger& operator*() const { return *get(); } } const L{ -1 };

    // the logging macros; each notes the line it is used on before it is used
#define HERE(l) { Harness h; if (!HIDE) (l).line = __LINE__; }
    void macroLog(Logger& q, Log& l, const std::string& file, int id, const std::string& msg, const std::string& tail)
    {
        int iface, level; bool inst; { Harness h; iface = l.iface; level = l.level; inst = usesInstance; }
        if (iface == I_MACRO)
        {
            if (inst) { HERE(l) PLUTO_LOG_WRITE(file, notice, msg); }
            else if (level == 4) { HERE(l) PLUTO_LOG_WRITE_WITH(q, file, notice, msg); }
            else { HERE(l) PLUTO_LOG_WRITE_WITH(q, file, error, msg); }
        }
        else if (iface == I_MACROF)
        {
            if (inst) { HERE(l) PLUTO_LOG_WRITEF(file, notice, "m%d.%s", id, tail.c_str()); }
            else if (level == 4) { HERE(l) PLUTO_LOG_WRITEF_WITH(q, file, notice, "m%d.%s", id, tail.c_str()); }
#if PLUTO_UTILS_HAS_FORMAT
            else { HERE(l) PLUTO_LOG_FORMAT_WITH(q, file, error, "m{}.{}", id, tail); }
#else
            else { HERE(l) PLUTO_LOG_WRITEF_WITH(q, file, error, "m%d.%s", id, tail.c_str()); }
#endif
        }
        else if (inst) { HERE(l) PLUTO_LOG_STREAM(file, info, "m" << id << '.' << tail); }
        else { HERE(l) PLUTO_LOG_STREAM_WITH(q, file, info, "m" << id << '.' << tail); }
    }

    void doLog(int f, int iface, int level, int len, int src, int odd = 0)
    {
        if (S->nLog >= MAXLOG) return;
        int id = S->nLog++, me = self();
        Log& l = S->log[id]; std::memset(&l, 0, sizeof l);
        if (armed && iface != I_WRITE) iface = I_WRITE;
        if ((len || HIDE) && len < 8) len = 8;
        if (HIDE && src == 2) src = -2;     // through the overloads without a source position
        l.file = f; l.iface = iface; l.level = level; l.len = len; l.client = me; l.srcIdx = src; l.line = id; l.disc = -1; l.tid = sim_tid(me); l.life = S->life; l.issued = true; l.phase = phaseNo;
        if (iface == I_MACRO || iface == I_MACROF || iface == I_MACROS)
        {
            if (!len) l.len = len = 8;
            l.srcIdx = HIDE ? -2 : -1; l.line = 0;
            if (iface != I_MACROS && (usesInstance || (level != 4 && level != 6))) l.level = level = 4;
            if (iface == I_MACROS) l.level = level = 3;
        }
        const Lg L{ f };
        l.odd = !l.len || odd > 5 ? 0 : odd == 1 && iface == I_MACROF ? 2 : odd;
        if (l.odd) probe(P_ODD);
        if (!len) probe(P_EMPTY);
        if (len > 1000) probe(P_LONG);
        std::string msg; message(id, len, msg);
        std::string file = fname[f];
        std::string head = msg.substr(0, len ? msg.find('.') : 0), tail = len ? msg.substr(head.size() + 1) : std::string();
        pluto::source_info si{ expFile(l), l.line, expFunc(l) };
        if (l.srcIdx == -2) l.line = 0;
        auto lv = (pluto::log_level)level;
        int before = (int)discarded(); u64 ov = overlap; bool alone = activeLogs == 0 && activeResets == 0;
        ++activeLogs; ++overlap;
        reset_clock_reads();
        callLog[me] = id;
        l.inv = ev();
        bool ok = call([&] {
#if PLUTO_LOGGER_HIDE_SOURCE_INFO
            if (src == -2)
            {
                switch (iface)
                {
                case I_WRITE: L->write(file, lv, msg); return;
                case I_WRITEF: case I_WRITEF2: if (l.odd == 1) L->writef(file, lv, "%s%c%s", msg.c_str(), 0, msg.c_str() + msg.size() - 1); else L->writef(file, lv, "m%d.%s", id, tail.c_str()); return;
#if PLUTO_UTILS_HAS_FORMAT
                case I_FORMAT: { int n = id; L->format(file, lv, "m{}.{}", n, tail); return; }
#else
                case I_FORMAT: L->write(file, lv, msg); return;
#endif
                case I_STREAM: { auto& q = *L; (q.stream(file, lv) << 'm' << id << "." << tail).end(); return; }
                case I_STREAM_TEMP: { auto& q = *L; q.stream(file, lv) << msg; return; }
                case I_STREAM_NAMED: { auto&& s = L->stream(file, lv); s << msg; return; }
                default: break;
                }
            }
#endif
            switch (iface)
            {
            case I_STREAM_TEMP: { auto& q = *L; if (msg.empty()) (void)q.stream(file, lv, si); else q.stream(file, lv, si) << head << '.' << tail; break; }
            case I_STREAM_NAMED:
            {
                auto&& s = L->stream(file, lv, si);
                if (!msg.empty()) { s << "m"; s << id << '.'; if (id % 3 == 0) s << std::string(); s << tail; }
                if (id % 2) { s.end(); if (id % 4 == 1) s.end(); }
                break;
            }
            case I_WRITE: L->write(file, lv, si, msg); break;
            case I_WRITEF: if (l.odd == 1) L->writef(file, lv, si, "%s%c%s", msg.c_str(), 0, msg.c_str() + msg.size() - 1); else L->writef(file, lv, si, "%s", msg.c_str()); break;
            case I_WRITEF2: if (msg.empty()) L->writef(file, lv, si, "%s%s", "", ""); else if (l.odd == 1) L->writef(file, lv, si, "m%d%c%s%c%c", id, '.', tail.c_str(), 0, tail.back()); else L->writef(file, lv, si, "m%d%c%.*s%s", id, '.', (int)tail.size() / 2, tail.c_str(), tail.c_str() + tail.size() / 2); break;
            case I_FORMAT:
#if PLUTO_UTILS_HAS_FORMAT
                if (msg.empty()) L->format(file, lv, si, "{}", ""); else { int n = id; L->format(file, lv, si, "m{}.{}", n, tail); }
#else
                L->write(file, lv, si, msg);
#endif
                break;
            case I_STREAM: if (msg.empty()) L->stream(file, lv, si).end(); else { auto& q = *L; (q.stream(file, lv, si) << 'm' << id << "." << tail).end(); } break;
            default: break;
            }
            if (iface >= I_MACRO && iface <= I_MACROS) macroLog(*L, l, file, id, msg, tail);
        });
        l.ret = ev();
        if (!clock_reads(me, &l.clkLo, &l.clkHi)) l.clkLo = l.clkHi = 0;
        --activeLogs;
        callLog[me] = -1;
        bool yes = false, no = false;
        possible(H_LEVEL, l.inv, l.ret, [&](i64 v) { if (v <= level) yes = true; else no = true; });
        l.filtered = !yes; l.maybeFiltered = yes && no; l.threw = !ok;
        if (l.filtered) probe(P_FILTERED);
        if (l.filtered && l.fmt) fail("L07:log below the level was written", "log %d", id);
        if (l.threw && l.fmt) fail("L01:a failed call's log was written", "log %d", id);
        if (alone && overlap == ov + 1 && !destroying)
        {
            int d = (int)discarded() - before;
            if (d < 0 || d > 1) fail("L03:discarded logs miscounted", "one call changed the number of discarded logs by %d", d);
            if (d == 1 && (l.filtered || l.threw || l.fmt)) fail("L03:discarded logs miscounted", "log %d was counted as discarded but was %s", id, l.fmt ? "written" : "not to be recorded");
            l.disc = d; if (d) probe(P_DISCARD);
        }
    }
    Logger* other() { Harness h; return lg2; }
    template <class F> void doSet(int h, i64 v, F f)
    {
        if (nHist[h] >= MAXHIST) return;
        int i = nHist[h]++;
        hist[h][i] = Set{ ev(), 0, v };
        call([&] { f(*L); if (Logger* q = other()) f(*q); });
        hist[h][i].ret = ev();
    }

    // ---- idle: nobody can run until a timer fires -------------------------------------------------------------
    void checkIdle(u64)
    {
        if (!lg || !alive) return;
        if (frozen || fs::stalled())
        {
            for (int i = 0; i < MAXTH; ++i)
                if (inCall[i] && (frozen || !destroying)) fail("L09:a call waits for the disk", "a call of T%d does not return while the file system is stalled", i);
            return;
        }
        if (destroying) return;
        for (int i = 0; i < MAXTH; ++i) if (inCall[i]) return;      // will be reported as a deadlock
        checkDisk(AT_IDLE);
        i64 known[MAXF] = {}, maxPend[MAXF] = {}; i64 pass = 0, disk = 0; bool exact = true;
        for (int i = 0; i < S->nLog; ++i)
        {
            Log& l = S->log[i];
            if (l.life != S->life || l.threw || l.filtered || l.wrongLife) continue;
            if (l.maybeFiltered && !l.fmt) { exact = false; continue; }
            ++pass;
            bool written = S->untouched ? l.onDisk : l.fmt != 0;
            if (written) { ++disk; if (!l.erased) l.erased = ev(); continue; }
            if (l.disc == 1) continue;
            ++maxPend[l.file];
            if (l.disc == 0) ++known[l.file];
        }
        i64 flush = -1; bool maxZero = true;
        if (stable(H_FLUSH)) possible(H_FLUSH, ~0ull, ~0ull, [&](i64 v) { flush = flush == -1 || flush == v ? v : -2; });
        possible(H_MAX, 0, ~0ull, [&](i64 v) { if (v) maxZero = false; });
        i64 d = discarded();
        if (maxZero && d && !S->discardBase && !S->countFuzzy) fail("L03,L01:log discarded without a maximum", "%lld logs are counted as discarded although the buffer is unlimited", (long long)d);
        i64 pendTotal = 0;
        for (int f = 0; f < nFiles; ++f) if (maxPend[f]) pendTotal += maxPend[f];
        if (S->untouched && S->rotMin) { lastIdle = ev(); return; }
        if (pendTotal) probe(P_IDLE_PENDING); else probe(P_IDLE_ALL);
        if (flush == -2 || flush < 0) { lastIdle = ev(); return; }
        for (int f = 0; f < nFiles; ++f)
        {
            i64 p = maxZero ? maxPend[f] : known[f];
            if (p && p >= flush && !blocked[f])
                fail(R->fired[K_IO_OPEN] + R->fired[K_IO_MKDIR] + R->fired[K_IO_RENAME] + R->fired[K_IO_UNLINK] + R->fired[K_IO_STAT] + R->fired[K_IO_CWD] + R->fired[K_EXTERN] ? "L02,L05,L01:logs are not written" : "L02,L01:logs are not written",
                    "%lld logs are pending for %s, the flush size is %lld and the system is idle", (long long)p, fname[f], (long long)flush);
        }
        (void)pass; (void)disk; (void)exact;
        lastIdle = ev();
    }

    // somebody else removes a log file, a rotated one, or the directory
    void removeByOthers(const Op& o)
    {
        if (nLostSession > 60) return;
        int f = (int)(o.a % nFiles);
        int oldest = 0;
        if (o.b % 4 == 0) for (int k = 1; k <= 70; ++k) if (fs::exists(rotName(f, k).c_str())) oldest = k;
        std::string path = rotName(f, oldest), dir = absName(f);
        dir.resize(dir.rfind('/'));
        bool wholeDir = o.d && dir != "/sim/work";
        for (auto& x : others) if (!std::strncmp(x.path, dir.c_str(), dir.size()) && x.path[dir.size()] == '/') wholeDir = false;
        if (wholeDir && !fs::exists(dir.c_str())) return;
        if (!wholeDir && !fs::exists(path.c_str())) return;
        for (int g = 0; g < nFiles; ++g)
            for (int k = 0; k <= 70; ++k)
            {
                std::string p = rotName(g, k); std::size_t n = 0; const char* d;
                if (wholeDir ? p.compare(0, dir.size() + 1, dir + "/") != 0 : p != path) continue;
                if (!(d = fs::data(p.c_str(), &n))) continue;
                ++removed[g];
                std::vector<Item> items; parse(d, n, k, items);
                for (auto& it : items) if (it.type == 0) S->log[it.id].faulty = true;
                if (fs::is_open(p.c_str())) { lostSession[nLostSession++] = fs::opens(); probe(P_EXT_OPEN); }
                probe(k ? P_EXT_ROTATED : P_EXT_FILE);
            }
        if (wholeDir) probe(P_EXT_DIR);
        fs::remove_external(wholeDir ? dir.c_str() : path.c_str());
        count_fault(K_EXTERN);
        ev();
    }

    void heal()
    {
        if (!anyBlocked()) return;
        std::string dir = obstacle;
        if (blockKind != 3) fs::remove_external(obstacle.c_str());
        if (blockKind != 1) fs::mkdir_p(dir.c_str());
        for (auto& b : blocked) b = false;
        probe(P_HEALED);
        ev();
    }

    void doRest()
    {
        if (mayRetry()) return;     // the writer may be busy for ever
        quiesce(false);
        for (int i = 0; i < 60 && fs::stalled(); ++i) { sleep_ns(2000000ull << (i < 35 ? i : 35)); quiesce(false); }
        if (!fs::stalled() && !frozen) checkIdle(0);
    }

    void doFreeze(const Op& o)
    {
        fs::set_freeze_writes(true); frozen = true; ev();
        for (int i = 0; i < 1 + (int)(o.a % 4); ++i) doLog((int)(o.a + i) % nFiles, I_WRITE, 8, 8, 0);
        doSet(H_FLUSH, hist[H_FLUSH][nHist[H_FLUSH] - 1].v, [&](Logger& q) { q.buffer_flush_size((std::size_t)hist[H_FLUSH][nHist[H_FLUSH] - 1].v); });
        if (o.b & 1) { call([&] { (void)L->level(); (void)L->num_discarded_logs(); (void)(bool)L->header_writer(); }); }
        quiesce(false);
        checkIdle(0);
        probe(P_FREEZE);
        frozen = false; ev();
        fs::set_freeze_writes(false);
    }

    void doOp(const Op& o, bool isMain)
    {
        ++R->opsDone;
        if (usesInstance) { Logger* p; { Api a; p = &Logger::instance(); } if (!lg) { lg = p; alive = true; } else if (lg != p) fail("L09:two instances", "instance() returned two different objects"); }
        switch (o.code)
        {
        case O_LOG: doLog((int)(o.a % 16) % nFiles, (int)(o.a / 16 % 16) % N_IFACE, (int)(o.a / 256 % 16) % 9, (int)o.b, (int)(o.d % 3), (int)(o.d / 3 % 6)); break;
        case O_BURST: for (int i = 0; i < (int)o.d && i < 40; ++i) doLog((int)(o.a % 16) % nFiles, I_WRITE, 8, (int)o.b, i % 3); break;
        case O_FLUSH: if (o.a < hist[H_FLUSH][nHist[H_FLUSH] - 1].v) probe(P_LOWERED); doSet(H_FLUSH, o.a, [&](Logger& q) { q.buffer_flush_size((std::size_t)o.a); }); break;
        case O_MAX: doSet(H_MAX, o.a, [&](Logger& q) { q.buffer_max_size((std::size_t)o.a); }); break;
        case O_LEVEL: doSet(H_LEVEL, o.a, [&](Logger& q) { q.level((pluto::log_level)o.a); }); break;
        case O_ROT: doSet(H_ROT, o.a, [&](Logger& q) { q.file_rotation_size((std::size_t)o.a); }); break;
        case O_LIMIT: doSet(H_LIMIT, o.a, [&](Logger& q) { q.file_rotation_limit((std::size_t)o.a); }); break;
        case O_WRITER: if (!S->untouched) { int v = 1 + (int)(o.a % 3); doSet(H_WRITER, v, [&](Logger& q) { q.log_writer(Writer{ v }); }); } break;
        case O_HEADER: call([&] { L->write_header(o.a != 0); if (Logger* q = other()) q->write_header(o.a != 0); }); break;
        case O_CREATEDIRS: call([&] { L->create_dirs(o.a != 0); if (Logger* q = other()) q->create_dirs(o.a != 0); }); break;
        case O_HEADERW: call([&] { if (customHeader && o.a == 1) L->header_writer(HeaderWriter{ "=HDR=" }); else L->header_writer(L->header_writer()); }); break;
        case O_QUERY: call([&] { (void)L->level(); (void)L->buffer_flush_size(); (void)L->buffer_max_size(); (void)L->file_rotation_size(); (void)L->file_rotation_limit(); (void)L->num_discarded_logs();
            (void)L->create_dirs(); (void)L->write_header(); (void)L->is_logging(); (void)L->should_log(pluto::log_level::info); (void)(bool)L->log_writer(); (void)(bool)L->header_writer(); }); break;
        case O_SLEEP: sleep_ns(plan->k(SK_BLOCKED) ? (u64)(o.b % 100000) : (u64)o.b); break;
        case O_HEAL: if (isMain) heal(); break;
        case O_EXTERN: removeByOthers(o); break;
        case O_REST: if (isMain) doRest(); break;
        case O_FREEZE: if (isMain && !mayRetry() && !plan->k(KN_PM0 + K_IO_STALL)) doFreeze(o); break;
        case O_RESET:
            if (!isMain || o.a)
            {
                // while others may be logging
                u64 inv = ev();
                ++overlap; ++activeResets;
                call([&] { L->reset_num_discarded_logs(); if (Logger* q = other()) q->reset_num_discarded_logs(); });
                ++overlap; --activeResets;
                S->countFuzzy = true; S->resetInv = std::max(S->resetInv, inv); S->resetRet = std::max(S->resetRet, ev());
                if (activeLogs) probe(P_RESETBUSY);
                break;
            }
            if (isMain && !mayRetry())
            {
                quiesce(false);
                if (activeLogs || fs::stalled()) break;
                u64 ov = ++overlap, inv = ev(); i64 before = discarded();
                call([&] { L->reset_num_discarded_logs(); if (Logger* q = other()) q->reset_num_discarded_logs(); });
                bool quiet = overlap == ov && !activeLogs && !activeResets;
                S->resetInv = std::max(S->resetInv, inv); S->resetRet = std::max(S->resetRet, ev());
                ++overlap;
                if (!quiet) S->countFuzzy = true;       // somebody logged meanwhile: how many were counted before is not known
                else { S->discardBase += (int)before; if (discarded()) fail("L03:counter not reset", "num_discarded_logs() is %d after a reset", (int)lg->num_discarded_logs()); }
            }
            break;
        }
    }

    struct ClientArg { int id; } clientArgs[8];
    void client(void* p)
    {
        int id = ((ClientArg*)p)->id;
        arm_alloc(armed);
        for (auto& o : plan->ops) if (o.client == id) doOp(o, false);
        arm_alloc(false);
    }

    // after destruction (or at a final idle point) everything accepted must be on disk
    void finalCheck(bool destroyed, i64 counter)
    {
        checkDisk(AT_END);
        if (plan->k(SK_FAULTYEND)) return;
        i64 notWritten = 0, ambiguous = 0; int firstMissing = -1;
        bool rotDel = S->untouched && S->rotMin;
        if (rotDel) return;
        bool anyFaulty = false;
        for (int i = 0; i < S->nLog; ++i)
        {
            Log& l = S->log[i];
            if (l.life != S->life || l.threw || l.filtered || blocked[l.file]) continue;
            anyFaulty |= l.faulty;
            bool written = S->untouched ? l.onDisk : l.fmt != 0;
            if (written) continue;
            if (l.maybeFiltered) { ++ambiguous; continue; }
            if (l.disc == 0) fail(faultsPossible ? "L05,L08,L01,L03:an accepted log was not written" : nHist[H_LEVEL] > 1 ? "L01,L07,L08,L02,L03:an accepted log was not written" : "L01,L08,L02,L03:an accepted log was not written", "log %d for %s was accepted but not written%s", i, fname[l.file], destroyed ? " when the logger was destroyed" : "");
            ++notWritten; if (firstMissing < 0) firstMissing = i;
        }
        i64 disc = counter + S->discardBase;
        bool maxZero = true; possible(H_MAX, 0, ~0ull, [&](i64 v) { if (v) maxZero = false; });
        if (maxZero && notWritten) fail(faultsPossible ? "L05,L08,L01:a log was not written" : nHist[H_LEVEL] > 1 ? "L01,L07,L08,L02:a log was not written" : "L01,L08,L02:a log was not written", "log %d for %s was issued but not written%s", firstMissing, fname[S->log[firstMissing].file], destroyed ? " when the logger was destroyed" : "");
        if (!S->countFuzzy && (disc < notWritten || disc > notWritten + ambiguous))
            fail(disc < notWritten ? "L03,L01,L08:logs missing and not counted" : "L03:discarded logs miscounted", "%lld logs were not written but %lld are counted as discarded", (long long)notWritten, (long long)disc);
        if (S->countFuzzy)
        {
            // those discarded after the last reset are counted, those before are not
            i64 must = 0, may = 0;
            for (int i = 0; i < S->nLog; ++i)
            {
                Log& l = S->log[i];
                if (l.life != S->life || l.threw || l.filtered || blocked[l.file] || (S->untouched ? l.onDisk : l.fmt != 0)) continue;
                if (!l.maybeFiltered && l.inv > S->resetRet) ++must;
                if (l.ret >= S->resetInv) ++may;
            }
            if (counter < must || counter > may) fail("L03:discarded logs miscounted", "%lld logs are counted as discarded since the counter was reset, between %lld and %lld were", (long long)counter, (long long)must, (long long)may);
        }
        // a log is discarded exactly when its buffer is full
        for (int i = 0; i < S->nLog; ++i)
        {
            Log& l = S->log[i];
            if (l.life != S->life || l.threw || l.filtered || l.maybeFiltered || blocked[l.file]) continue;
            bool written = S->untouched ? l.onDisk : l.fmt != 0;
            i64 minMax = 1 << 30, maxMax = 0; bool zero = false;
            possible(H_MAX, l.inv, l.ret, [&](i64 v) { if (!v) zero = true; else { minMax = std::min(minMax, v); maxMax = std::max(maxMax, v); } });
            i64 pend = 0;
            for (int j = 0; j < S->nLog; ++j)
            {
                Log& w = S->log[j];
                if (j == i || w.file != l.file || w.life != l.life || w.threw || w.filtered) continue;
                bool wWritten = S->untouched ? w.onDisk : w.fmt != 0;
                if (!wWritten) continue;
                if (!written) { if (w.inv < l.ret && !(w.erased && w.erased < l.inv)) ++pend; }
                else if (!S->untouched && w.ret < l.inv && w.fmt > l.ret) ++pend;
            }
            if (written && !S->untouched && !anyFaulty)
            {
                // accepted before this call returned and not written before that
                i64 most = 0, together = 0; bool unlimited = false;
                possible(H_MAX, 0, l.ret, [&](i64 v) { if (!v) unlimited = true; most = std::max(most, v); });
                if (!unlimited) for (int j = 0; j < S->nLog; ++j)
                {
                    Log& w = S->log[j];
                    if (w.file == l.file && w.life == l.life && !w.threw && !w.filtered && w.ret && w.ret <= l.ret && w.fmt > l.ret) ++together;
                }
                if (together > most && !unlimited) fail("L03:more logs buffered than allowed", "%lld logs were pending for %s when log %d had been accepted, the maximum is %lld", (long long)together, fname[l.file], i, (long long)most);
            }
            if (!written && pend < minMax) fail("L03:discarded although the buffer was not full", "log %d was discarded although at most %lld logs were pending, the maximum is %lld", i, (long long)pend, (long long)(minMax == 1 << 30 ? 0 : minMax));
            if (!written && pend >= minMax) probe(P_FULL);
            if (written && !S->untouched && !zero && maxMax && pend >= maxMax && !anyFaulty) fail("L03:more logs buffered than allowed", "log %d was accepted while at least %lld logs were pending, the maximum is %lld", i, (long long)pend, (long long)maxMax);
        }
    }

    void prepareDisk(const Plan& p)
    {
        fs::mkdir_p("/sim/work");
        for (auto& o : others) fs::put(o.path, o.text, std::strlen(o.text));
        int init = (int)p.k(SK_INIT);
        for (auto& b : blocked) b = false;
        blockKind = (int)(p.k(SK_BLOCKED) ? 1 + p.k(SK_BLOCKED) % 3 : 0);
        if (blockKind)
        {
            int f = (int)(p.k(SK_BLOCKED) / 3) % nFiles;
            obstacle = absName(f);
            std::string dir = obstacle.substr(0, obstacle.rfind('/'));
            if (blockKind > 1 && fs::exists(dir.c_str())) blockKind = 1;
            if (blockKind == 1) { fs::mkdir_p(obstacle.c_str()); blocked[f] = true; }
            else
            {
                obstacle = dir;
                if (blockKind == 2) { fs::mkdir_p(dir.substr(0, dir.rfind('/')).c_str()); fs::put(dir.c_str(), obstacleText, std::strlen(obstacleText)); }
                for (int i = 0; i < nFiles; ++i) if (!absName(i).compare(0, dir.size() + 1, dir + "/")) blocked[i] = true;
            }
            probe(P_BLOCKED);
        }
        for (int f = 0; f < nFiles; ++f) everBlocked[f] = blocked[f];
        for (int f = 0; f < nFiles; ++f)
        {
            Init& in = S->init[f]; std::memset(&in, 0, sizeof in);
            std::string path = absName(f);
            std::string dir = path.substr(0, path.rfind('/'));
            if (blocked[f]) continue;
            if (!p.k(SK_DIRS) || init || blockKind == 3) fs::mkdir_p(dir.c_str());
            else if (!fs::exists(dir.c_str())) probe(P_DIRS);
            if (!init) continue;
            in.rotated = init % 4 > 1 ? init % 4 - 1 : 0;       // 1: main only, 2, 3: also rotated ones
            in.hasHeader = (init / 4) % 2;
            int next = 0;
            for (int k = in.rotated; k >= 0; --k)
            {
                std::string text;
                if (init / 8 % 2 && k == 0) text = "";      // an empty main file
                else
                {
                    if (in.hasHeader) text = headerText;
                    int lines = 1 + (init / 16 + k) % 4;
                    for (int i = 0; i < lines; ++i) { text += "P<" + std::to_string(next++) + "> earlier content " + std::string((std::size_t)((i * 7 + init) % 30), '.') + "\n"; ++in.nPre[k]; }
                }
                in.len[k] = (int)text.size();
                fs::put(rotName(f, k).c_str(), text.data(), text.size());
            }
        }
    }

    alignas(64) unsigned char place[2][sizeof(Logger)];     // a second logger may come to where the first was
    void openLogger(const Plan& p)
    {
        setInit(H_FLUSH, 1); setInit(H_MAX, 0); setInit(H_LEVEL, 0); setInit(H_ROT, 0); setInit(H_LIMIT, 0); setInit(H_WRITER, 3);
        destroying = false; activeLogs = 0; lastIdle = 0;
        int w = (int)p.k(SK_WRITER);
        bool hdr = header, ch = customHeader, byMacros = false, dirs = !p.k(SK_NODIRS) && blockKind != 3;
#ifdef SIM_INITIAL
        sim_initial::defaults();
        byMacros = p.k(SK_MACROS) != 0;
        if (byMacros)
        {
            sim_initial::flush = (std::size_t)p.k(SK_FLUSH); sim_initial::max = (std::size_t)p.k(SK_MAX); sim_initial::rotation = (std::size_t)p.k(SK_ROT); sim_initial::limit = (std::size_t)p.k(SK_LIMIT);
            sim_initial::header = hdr; sim_initial::dirs = dirs;
            if (ch) sim_initial::headerWriter = HeaderWriter{ "=HDR=" };
            if (w) sim_initial::writer = Writer{ w };
            setInit(H_LEVEL, 2); probe(P_MACROS);
        }
#endif
        Logger* created; Logger* more = nullptr; bool two = p.k(SK_TWO) && nFiles > 1;
        if (usesInstance) { Api a; created = &Logger::instance(); probe(P_INSTANCE); }
        else if (p.k(SK_PLACE)) { Api a; created = new (place[0]) Logger(); if (two) more = new (place[1]) Logger(); }
        else { Api a; created = new Logger(); if (two) more = new Logger(); }
        if (p.k(SK_PLACE) && S->life) probe(P_PLACE);
        lg = created; lg2 = more; alive = true;
        if (two) probe(P_TWO);
        S->discardBase = 0; S->countFuzzy = false; S->resetInv = S->resetRet = 0;
        for (Logger* x : { created, more })
        {
            if (!x || byMacros) continue;
            Api a;
#ifdef SIM_INITIAL
            x->level(pluto::log_level::verbose);
#endif
            x->buffer_flush_size((std::size_t)p.k(SK_FLUSH)).buffer_max_size((std::size_t)p.k(SK_MAX)).file_rotation_size((std::size_t)p.k(SK_ROT)).file_rotation_limit((std::size_t)p.k(SK_LIMIT)).write_header(hdr).create_dirs(dirs);
            if (ch) x->header_writer(HeaderWriter{ "=HDR=" });
            if (w) x->log_writer(Writer{ w });
        }
        setInit(H_FLUSH, p.k(SK_FLUSH)); setInit(H_MAX, p.k(SK_MAX)); setInit(H_ROT, p.k(SK_ROT)); setInit(H_LIMIT, p.k(SK_LIMIT)); setInit(H_WRITER, w ? w : 3);
        if (!p.k(SK_FLUSH)) probe(P_FLUSH0);
        lastIdle = ev();
    }

    void lifetime(const Plan& p, bool second)
    {
        armed = p.k(SK_ARMED) != 0 && !second;
        openLogger(p);
        int nc = second ? 0 : (int)std::min<i64>(p.k(SK_CLIENTS), 5), ids[8];
        for (int i = 1; i <= nc; ++i) { clientArgs[i].id = i; ids[i] = spawn(client, &clientArgs[i]); }
        arm_alloc(armed);
        for (auto& o : p.ops) if (second ? o.client == 9 : o.client == 0) doOp(o, true);
        arm_alloc(false);
        for (int i = 1; i <= nc; ++i) join(ids[i]);
        int mode = usesInstance ? 0 : (int)p.k(SK_DESTROY);
        if (!p.k(SK_FAULTYEND)) set_fault_enabled(false);
        if (p.k(SK_HEAL)) heal();
        if (mayRetry())
        {
            // the other files must be written although this one cannot be
            ev();
            auto open = [&]
            {
                i64 flush = 0, pend[MAXF] = {};
                possible(H_FLUSH, ~0ull, ~0ull, [&](i64 v) { flush = std::max(flush, v); });
                for (int i = 0; i < S->nLog; ++i) { Log& l = S->log[i]; if (l.life == S->life && !l.threw && !l.filtered && !l.maybeFiltered && l.disc != 1 && !blocked[l.file] && !l.fmt && ++pend[l.file] >= std::max<i64>(flush, 1)) return i; }
                return -1;
            };
            if (!S->untouched && p.k(SK_MAX) == 0)
            {
                for (int i = 0; i < 400 && open() >= 0; ++i) sleep_ns(50000);
                int i = open();
                if (i >= 0) fail("L05,L02:logs are not written", "log %d for %s is not written while another file cannot be written", i, fname[S->log[i].file]);
                probe(P_SPIN_OTHERS);
            }
        }
        if (mode == 0 || !p.k(SK_FAULTYEND))
        {
            // a retrying writer must get through now that nothing fails any more
            if (mode == 0 || (faultsPossible && mode != 2)) doRest();
        }
        ev();
        i64 counter = discarded();
        if (usesInstance)
        {
            doSet(H_FLUSH, 1, [&](Logger& q) { q.buffer_flush_size(1); });
            quiesce(true);
            checkIdle(0);
            finalCheck(false, counter);
            return;
        }
        bool pending = false, busy = fs::open_handles() > 0;
        for (int i = 0; i < S->nLog; ++i) { Log& l = S->log[i]; if (l.life == S->life && !l.threw && !l.filtered && !(S->untouched ? l.onDisk : l.fmt != 0)) pending = true; }
        if (pending) probe(P_DESTROY_PENDING);
        if (anyBlocked()) for (int i = 0; i < S->nLog; ++i) if (blocked[S->log[i].file] && S->log[i].life == S->life && !S->log[i].threw && !S->log[i].filtered) { probe(P_BLOCKED_PENDING); break; }
        if (busy) probe(P_DESTROY_BUSY);
        ev();
        destroying = true;
        {
            Logger* x = lg; Logger* y = lg2; bool inPlace = p.k(SK_PLACE) != 0;
            arm_alloc(p.k(SK_MEM) && p.k(SK_FAULTYEND));
            { Api a; if (!inPlace) { delete y; delete x; } else { if (y) y->~Logger(); x->~Logger(); } }
            arm_alloc(false);
        }
        alive = false; lg = lg2 = nullptr;
        ev();
        quiesce(false);
        if (live_threads() != 1) fail("L08:threads left behind", "%d threads are left after the destructor returned", live_threads() - 1);
        finalCheck(true, counter);
        for (int i = 0; i < S->nLog; ++i) { Log& l = S->log[i]; if (l.life == S->life && !l.erased && (S->untouched ? l.onDisk : l.fmt != 0)) l.erased = ev(); }
        if (fs::open_handles()) fail("L08:files left open", "%d files are open after the destructor returned", fs::open_handles());
    }

    // the longest name whose rotated files can still be named
    #define N50 "abcdefghijklmnopqrstuvwxyz-ABCDEFGHIJKLMNOPQRSTUVW"
    #define LONGNAME "logs/" N50 N50 N50 N50 "0123456789012345678901234567890123456789012345.log"

    // ---- large numbers: thousands of logs, hundreds of files, megabytes of text, settings beyond 32 bits ----------
    // A mode of its own with a smaller oracle: nothing may depend on how much there is.
    u64 floodFormatted;
    void floodClient(void* p)
    {
        Logger& q = *lg; int n = *(int*)p;
        for (int i = 0; i < n; ++i) { std::string m = "c1." + std::to_string(i); Api a; q.write("logs/flood.log", pluto::log_level::fatal, pluto::source_info{ "f.cpp", 1, "g" }, m); }
    }
    void floodMain(const Plan& p)
    {
#ifdef SIM_INITIAL
        sim_initial::defaults();
#endif
        const int n = (int)std::max<i64>(1, p.k(SK_FLOOD)), kind = (int)p.k(SK_FLOODKIND) % 6; const u64 B32 = 1ull << 32;
        static const std::size_t wide[] = { 0, 1, 2, 3, 5 };
        Rng r((u64)(n * 31 + kind));
        probe(n > 65536 ? P_FLOOD16 : P_FLOOD);
        Logger* q; { Api a; q = lg = new Logger(); }
        const std::string file = "logs/flood.log", path = "/sim/work/logs/flood.log";
        const auto si = pluto::source_info{ "f.cpp", 1, "g" }; const auto lv = pluto::log_level::fatal;
        { Api a; q->log_writer([](std::ostream& s, const pluto::log_entry& l) { { Harness h; ++floodFormatted; } s << l.message; }).write_header(false); }
        auto lines = [&](const std::string& name)
        {
            std::vector<std::string> out; std::size_t len = 0; const char* d = fs::data(name.c_str(), &len);
            for (std::size_t i = 0; d && i < len;) { const char* e = (const char*)std::memchr(d + i, '\n', len - i); std::size_t k = e ? (std::size_t)(e - d) - i : len - i; out.emplace_back(d + i, k); i += k + 1; }
            return out;
        };
        auto expect = [&](const char* cls, const std::string& name, int from, int to)
        {
            auto v = lines(name);
            for (std::size_t i = 0; i < v.size() || (int)i < to - from; ++i)
                if (i >= v.size() || (int)i >= to - from || v[i] != std::to_string(from + (int)i)) fail(cls, "%s has %zu lines instead of %d, line %zu is '%.40s' instead of %d", name.c_str(), v.size(), to - from, i, i < v.size() ? v[i].c_str() : "", from + (int)i);
        };
        auto log = [&](const std::string& f, const std::string& m) { Api a; q->write(f, lv, si, m); };
        auto destroy = [&] { lg = nullptr; { Api a; delete q; } quiesce(false); if (live_threads() != 1) fail("L08:threads left behind", "%d threads are left after the destructor returned", live_threads() - 1); };
        if (kind == 0 || kind == 1)
        {
            // far fewer than the flush size
            bool two = kind == 0 && n % 3 == 0;
            std::size_t flush = n % 2 ? (std::size_t)n * 2 + 1 : (std::size_t)(B32 * (1 + (u64)n % 7) + wide[n % 5]);
            std::size_t max = kind == 0 ? 0 : n % 5 == 0 ? (std::size_t)(B32 + wide[n / 5 % 5]) : (std::size_t)(n / 2 + n % 97);
            { Api a; q->buffer_flush_size(flush).buffer_max_size(max); }
            int id = -1, m = n; if (two) id = spawn(floodClient, &m);
            for (int i = 0; i < n; ++i) log(file, std::to_string(i));
            if (two) join(id);
            quiesce(true);
            int kept = max && max < (std::size_t)n ? (int)max : n;
            if (floodFormatted || fs::exists(path.c_str())) fail("L02:written too early", "logs were written with %d pending and a flush size of %zu", n, flush);
            std::size_t lost; { Api a; lost = q->num_discarded_logs(); }
            if (lost != (std::size_t)(n - kept)) fail("L03:wrong number of discarded logs", "%zu instead of %d of %d logs are discarded with a maximum of %zu", lost, n - kept, n, max);
            destroy();
            if (two)
            {
                auto v = lines(path); int at[2] = { 0, 0 };
                for (auto& l : v) { bool c = !l.compare(0, 3, "c1."); if (l.substr(c ? 3 : 0) != std::to_string(at[c]++)) fail("L01,L08:wrong lines", "line %d of thread %d is '%.40s'", at[c] - 1, c, l.c_str()); }
                if (at[0] != n || at[1] != n) fail("L01,L08:logs missing", "%d and %d of %d logs of two threads are in the file", at[0], at[1], n);
            }
            else expect(kind == 0 ? "L01,L08:wrong lines" : "L03,L01,L08:wrong lines", path, 0, kept);
        }
        else if (kind == 2)
        {
            // large batches
            int flush = 200 + (int)r.below((u64)n);
            { Api a; q->buffer_flush_size((std::size_t)flush); }
            for (int i = 0; i < n; ++i) log(file, std::to_string(i));
            quiesce(true);
            auto v = lines(path);
            if (n - (int)v.size() >= flush) fail("L02:not written", "%d of %d logs are pending with a flush size of %d", n - (int)v.size(), n, flush);
            if (n < flush && floodFormatted) fail("L02:written too early", "logs were written with %d pending and a flush size of %d", n, flush);
            destroy();
            expect("L01,L08:wrong lines", path, 0, n);
        }
        else if (kind == 3)
        {
            // many rotated files, or limits beyond 32 bits
            int m = n % 200 + 20, limit = n % 3 ? 10 + n % 130 : -1; bool one = n % 7 == 0;
            { Api a; q->buffer_flush_size(n % 2 ? 1 : 9).file_rotation_size(one ? (std::size_t)(B32 + wide[n % 5]) : 1).file_rotation_limit(limit < 0 ? (std::size_t)(B32 + wide[n / 3 % 5]) : (std::size_t)limit); }
            if (limit < 0 && m > 60) m = 60;
            for (int i = 0; i < m; ++i) { log(file, std::to_string(i)); if (i % 10 == 0) quiesce(true); }
            quiesce(true);
            destroy();
            if (one) expect("L04:wrong lines", path, 0, m);
            else
            {
                // one log per file
                int kept = limit < 0 ? m - 1 : std::min(m - 1, limit);
                for (int k = 0; k <= kept; ++k) expect("L04:wrong content of a rotated file", k ? "/sim/work/logs/flood_" + std::to_string(k) + ".log" : path, m - 1 - k, m - k);
                for (int k = kept + 1; k <= m; ++k) if (fs::exists(("/sim/work/logs/flood_" + std::to_string(k) + ".log").c_str())) fail("L04:too many files", "rotated file %d exists, the limit is %d", k, limit);
            }
        }
        else if (kind == 4)
        {
            // many files
            int nf = 100 + n % 900; bool early = n % 2;
            { Api a; q->buffer_flush_size(early ? 2 : 1000); }
            for (int i = 0; i < 3 * nf; ++i) log("logs/f" + std::to_string(i % nf) + ".log", std::to_string(i / nf));
            quiesce(true);
            if (early) for (int i = 0; i < nf; ++i) if (lines("/sim/work/logs/f" + std::to_string(i) + ".log").size() < 2) fail("L02,L01:not written", "only %zu logs of file %d of %d are written with a flush size of 2", lines("/sim/work/logs/f" + std::to_string(i) + ".log").size(), i, nf);
            if (!early && floodFormatted) fail("L02:written too early", "logs of %d files were written with 3 pending for each", nf);
            destroy();
            for (int i = 0; i < nf; ++i) expect("L01,L08:wrong lines", "/sim/work/logs/f" + std::to_string(i) + ".log", 0, 3);
        }
        else
        {
            // long messages
            static const int len[] = { 65535, 65536, 70001, 131072, 300007, 1000003, 4095, 4096, 1023, 1024, 8191, 16384 };
            std::vector<std::string> want;
            { Api a; q->buffer_flush_size(1 + n % 3); }
            for (int i = 0; i < 6; ++i)
            {
                std::string m((std::size_t)len[(n + i * 5) % 12], (char)('a' + i)); for (std::size_t k = 0; k < m.size(); k += 97) m[k] = (char)('A' + k / 97 % 26);
                want.push_back(m);
                Api a;
                switch ((n / 12 + i) % 5)
                {
                case 0: q->write(file, lv, si, m); break;
                case 1: q->writef(file, lv, si, "%s", m.c_str()); break;
                case 2: q->stream(file, lv, si) << m; break;
                case 3: q->writef(file, lv, si, "%.*s%s", (int)m.size() / 3, m.c_str(), m.c_str() + m.size() / 3); break;
                default:
#if PLUTO_UTILS_HAS_FORMAT
                    q->format(file, lv, si, "{}", m); break;
#else
                    q->stream(file, lv, si) << m.substr(0, 10) << m.substr(10); break;
#endif
                }
            }
            destroy();
            auto v = lines(path);
            for (std::size_t i = 0; i < want.size(); ++i) if (i >= v.size() || v[i] != want[i]) fail("L07,L01:wrong message", "message %zu of %zu characters is written as one of %zu", i, want[i].size(), i < v.size() ? v[i].size() : 0);
        }
        if (fs::open_handles()) fail("L08:files left open", "%d files are open after the destructor returned", fs::open_handles());
        finish_ok();
    }

    void simMain(const Plan& p, const std::string& pr, int phase)
    {
        if (p.k(SK_FLOOD)) { plan = &p; prop = pr; phaseNo = 0; S = (Shared*)(void*)R->aux; floodMain(p); }
        plan = &p; prop = pr; phaseNo = phase; S = (Shared*)(void*)R->aux;
        for (auto& c : callLog) c = -1;
        static const char* const sets[][3] = {
            { "app.log", "logs/sub/app.log", "/var/sim/x.y.log" }, { "noext", "./rel.log", "logs/other.txt" }, { "logs/sub/app.log", "app.log", "logs/sub/app.txt" }, { ".hid", "a.b/c", "app.log" },
            { "my app 1.log", "logs/a b/c_d.log", "/var/sim/UPPER.LOG" }, { "upper.log", "UPPER.log", "a_1.b_2/app_x_.log" }, { "v1.2.3/app", "trail.", "..x.log" }, { "t\xc3\xbcr.log", LONGNAME, "logs/l.o.g/.a/#%{}.log" } };
        static const char* const more[] = { "zz/z3.log", "logs/z4.log" };
        nFiles = (int)std::max<i64>(1, std::min<i64>(p.k(SK_FILES), MAXF));
        for (int f = 0; f < nFiles; ++f) fname[f] = f < 3 ? sets[p.k(SK_FILESET) % 8][f] : more[f - 3];
        header = p.k(SK_HEADER) != 0; customHeader = p.k(SK_HEADER) != 2;
        headerAlways = headerEver = header;
        for (auto& o : p.ops) if (o.code == O_HEADER) { if (o.a) headerEver = true; else headerAlways = false; }
        if (customHeader) headerText = "=HDR=\n";
        else { std::ostringstream o; Logger::default_header_writer(o); headerText = o.str() + "\n"; }
        usesInstance = p.k(SK_INSTANCE) != 0;
        faultsPossible = false;
        for (int k = K_IO_OPEN; k <= K_IO_WRITE; ++k) if (p.k(KN_PM0 + k)) faultsPossible = true;
        for (auto& o : p.ops) if (o.code == O_EXTERN) faultsPossible = true;
        if (p.k(SK_MEM)) { faultsPossible = true; arm_library_threads(true, onMemFault); }
        set_idle_hook(checkIdle); fs::set_move_hook(onMove);
        if (nFiles > 1) probe(P_TWOFILES);
        if (phase == 0)
        {
            std::memset((void*)S, 0, sizeof *S);
            S->nFiles = nFiles;
            S->writeFaults = p.k(KN_PM0 + K_IO_WRITE) != 0;
            S->untouched = p.k(SK_WRITER) == 0;
            if (S->untouched) probe(P_UNTOUCHED);
            S->rotMin = S->rotMax = p.k(SK_ROT); S->limMin = S->limMax = p.k(SK_LIMIT);
            bool rotZero = !S->rotMin;
            for (auto& o : p.ops)
            {
                if (o.code == O_ROT) { if (!o.a) rotZero = true; else { S->rotMin = S->rotMin ? std::min(S->rotMin, o.a) : o.a; S->rotMax = std::max(S->rotMax, o.a); } }
                if (o.code == O_LIMIT) { S->limMin = std::min(S->limMin, o.a); S->limMax = std::max(S->limMax, o.a); }
            }
            if (rotZero) S->rotMax = 0;      // at times there is no rotation at all
            prepareDisk(p);
            if (p.k(SK_CRASHOP)) fs::set_crash_at((u64)p.k(SK_CRASHOP), (u32)p.k(SK_TORN));
        }
        else
        {
            fs::load_blob();
            probe(P_CRASH);
            for (int f = 0; f < nFiles; ++f) if (!fs::exists(absName(f).c_str()) && fs::exists(rotName(f, 1).c_str())) probe(P_CRASH_MIDROT);
            set_fault_enabled(false);
            checkDisk(AT_CRASH);
            S->crashed = true;
            S->life = 1;
        }
        if (phase == 0) lifetime(p, false);
        if (phase == 1 || (p.k(SK_RESTART) && !usesInstance))
        {
            if (phase == 0) { S->life = 1; set_fault_enabled(false); }
            probe(P_RESTART);
            lifetime(p, true);
        }
        finish_ok();
    }

    // ---- generation -----------------------------------------------------------------------------------------
    bool genLong;
    i64 genLen(Rng& r)
    {
        if (genLong && r.chance(500)) return 2000 + (i64)r.below(8000);
        static const i64 some[] = { 0, 8, 8, 12, 20, 20, 40, 90 };
        if (r.chance(25)) return 1000 + (i64)r.below(12000);
        return some[r.below(8)];
    }
    void gen(Rng& r, const std::string& prop, Plan& p)
    {
        gen_common(r, p, SK_END - KN_COUNT);
        genLong = false; bool many = false;
        auto is = [&](const char* s) { return prop == s; };
        if (!is("L05") && !is("L06") && !is("L09") && r.below(4000) < 4)
        {
            static const int kinds[] = { 0, 1, 2, 3, 4, 5 };
            bool huge = r.chance(30);
            p.k(SK_FLOODKIND) = is("L03") ? 1 : is("L04") ? 3 : is("L07") ? 5 : is("L02") ? (r.chance(500) ? 2 : 0) : is("L01") || is("L08") ? kinds[r.below(3) * 2] : 0;
            if (p.k(SK_FLOODKIND) > 2) huge = false;
            p.k(SK_FLOOD) = huge ? (i64)(65600 + r.below(4000)) : (i64)(600 + r.below(r.chance(700) ? 1000 : 5000));
            p.k(KN_STRATEGY) = huge || r.chance(500) ? S_SEQ : S_RANDOM; p.k(KN_SWITCH) = 1 + (i64)r.below(3); p.k(KN_PLAIN) = 0; p.k(KN_DT) = std::min<i64>(p.k(KN_DT), 50);
            p.k(KN_STEPCAP) = 1000000 + 300 * p.k(SK_FLOOD); p.k(KN_PM0 + K_NOTIFY) = p.k(KN_PM0 + K_STALL) = 0;
            return;
        }
        p.k(SK_CLIENTS) = (i64)r.below(is("L04") || is("L06") ? 3 : 5);
        p.k(SK_FILES) = r.chance(600) ? 1 : (i64)(2 + r.below(r.chance(200) ? 4 : 2));
        p.k(SK_FILESET) = (i64)r.below(8);
        static const i64 flush[] = { 0, 1, 1, 1, 2, 3, 5, 9, 1000 };
        p.k(SK_FLUSH) = flush[r.below(9)];
        if (is("L03") || r.chance(200)) p.k(SK_MAX) = r.chance(750) ? (i64)(1 + r.below(6)) : 0;
        if (is("L03") && r.chance(500)) p.k(SK_FLUSH) = r.chance(500) ? p.k(SK_MAX) : (i64)(1 + r.below(8));
        bool wide = r.chance(60);      // large buffers
        if (wide)
        {
            if (p.k(SK_FLUSH) < 1000) p.k(SK_FLUSH) = (i64)(10 + r.below(90));
            if (p.k(SK_MAX)) p.k(SK_MAX) = (i64)(10 + r.below(100));
        }
        if (is("L04") || r.chance(is("L05") || is("L06") ? 650 : 250))
        {
            static const i64 rot[] = { 1, 20, 40, 64, 100, 150, 300, 700 };
            p.k(SK_ROT) = r.chance(60) ? (i64)(1000 + r.below(20000)) : rot[r.below(8)]; p.k(SK_LIMIT) = (i64)r.below(5);
            if (r.chance(120)) { many = true; p.k(SK_LIMIT) = (i64)(5 + r.below(10)); p.k(SK_ROT) = rot[r.below(3)]; }     // rotated files with numbers of two digits
        }
        p.k(SK_HEADER) = (i64)r.below(3);
        p.k(SK_WRITER) = r.chance(70) ? 0 : (i64)(1 + r.below(3));
        p.k(SK_DESTROY) = is("L08") ? r.chance(850) : r.chance(500);
        if (r.chance(is("L04") || is("L06") ? 450 : 200)) p.k(SK_INIT) = 1 + (i64)r.below(64);
        if (p.k(SK_INIT) && p.k(SK_INIT) % 4 == 0) p.k(SK_INIT) += 1;
        p.k(SK_DIRS) = r.chance(500);
        p.k(SK_NODIRS) = (!p.k(SK_DIRS) || p.k(SK_INIT)) && r.chance(200);
        p.k(SK_READCONF) = r.chance(is("L09") ? 500 : 100);
        bool noSpur = is("L02") || is("L08");
        p.k(KN_PM0 + K_SPURIOUS) = noSpur ? (r.chance(50) ? 300 : 0) : r.chance(150) ? (i64)(100 + r.below(1000)) : 0;
        p.k(KN_PM0 + K_CLOCKJUMP) = r.chance(is("L07") ? 300 : 50) ? (i64)(5 + r.below(60)) : 0;
        p.k(KN_PM0 + K_IO_STALL) = r.chance(200) ? (i64)(100 + r.below(1500)) : 0;
        p.k(KN_PM0 + K_IO_SHORT) = r.chance(is("L05") ? 400 : 80) ? (i64)(500 + r.below(6000)) : 0;
        p.k(KN_PM0 + K_IO_EINTR) = r.chance(is("L05") ? 400 : 80) ? (i64)(500 + r.below(6000)) : 0;
        if (is("L05"))
        {
            static const int ks[] = { K_IO_OPEN, K_IO_MKDIR, K_IO_RENAME, K_IO_UNLINK, K_IO_STAT, K_IO_CWD };
            for (int k : ks) if (r.chance(500)) p.k(KN_PM0 + k) = (i64)(300 + r.below(6000));
            if (r.chance(350)) p.k(KN_PM0 + K_IO_WRITE) = (i64)(300 + r.below(4000));
            p.k(KN_BUDGET) = 1 + (i64)r.below(20);
            if (p.k(KN_PM0 + K_IO_WRITE))
            {
                if (!p.k(SK_WRITER)) p.k(SK_WRITER) = 1;
                if (r.chance(400))
                {
                    genLong = true;     // buffers overflow while logs are being written
                    static const i64 rot[] = { 0, 3000, 15000, 40000, 100000 };
                    p.k(SK_ROT) = rot[r.below(5)]; p.k(SK_LIMIT) = (i64)r.below(3); if (r.chance(600)) p.k(SK_FLUSH) = (i64)(2 + r.below(6));
                }
            }
        }
        // libstdc++'s experimental create_directories is noexcept and allocates: not with that one
        if (!PLUTO_FILESYSTEM_IS_EXPERIMENTAL && is("L05") && !p.k(KN_PM0 + K_IO_WRITE) && r.chance(200))
        {
            p.k(SK_MEM) = 1; p.k(KN_PM0 + K_ALLOC) = (i64)(50 + r.below(r.chance(300) ? 9000 : 1500)); p.k(KN_BUDGET) = 1 + (i64)r.below(r.chance(200) ? 60 : 6);
            if (r.chance(500)) for (int k = K_IO_OPEN; k < K_IO_WRITE; ++k) if (k != K_IO_SHORT && k != K_IO_EINTR) p.k(KN_PM0 + k) = 0;
            if (r.chance(200)) p.k(SK_FAULTYEND) = 1;
            if (!p.k(SK_WRITER)) p.k(SK_WRITER) = 1;
        }
        p.k(SK_PLACE) = r.chance(300);
        p.k(SK_MACROS) = r.chance(300);
        if (is("L08") && r.chance(150))
        {
            p.k(KN_PM0 + K_IO_OPEN) = 3000; p.k(KN_PM0 + K_IO_RENAME) = 3000; p.k(KN_BUDGET) = 1 + (i64)r.below(30); p.k(SK_FAULTYEND) = 1;
        }
        bool tail = false;
        if ((is("L08") || is("L05")) && !p.k(SK_FAULTYEND) && r.chance(is("L08") ? 300 : 100))
        {
            // faults up to a moment before the destructor runs, with logs left pending
            static const int ks[] = { K_IO_OPEN, K_IO_MKDIR, K_IO_RENAME, K_IO_STAT, K_IO_CWD };
            for (int k : ks) if (r.chance(500)) p.k(KN_PM0 + k) = (i64)(3000 + r.below(6001));
            p.k(KN_PM0 + K_IO_WRITE) = 0;
            p.k(KN_BUDGET) = (i64)(10 + r.below(30)); p.k(SK_DESTROY) = 2; tail = true;
            if (r.chance(700)) { p.k(SK_DIRS) = 1; p.k(SK_INIT) = 0; p.k(SK_NODIRS) = 0; }
        }
        p.k(SK_INSTANCE) = (is("L09") || is("L01")) && r.chance(50);
        p.k(SK_ARMED) = (is("L01") || is("L09")) && r.chance(80);
        if (p.k(SK_ARMED)) { p.k(KN_PM0 + K_ALLOC) = (i64)(100 + r.below(1500)); p.k(KN_BUDGET) = 1 + (i64)r.below(6); }
        if (is("L06"))
        {
            if (r.chance(750)) { p.k(SK_CRASHOP) = (i64)(1 + r.below(r.chance(500) ? 40 : 200)); p.k(SK_TORN) = r.chance(600) ? (i64)(1 + r.below(999)) : 0; }
            else p.k(SK_RESTART) = 1;
            if (!p.k(SK_WRITER)) p.k(SK_WRITER) = 1;
        }
        else if (r.chance(60)) p.k(SK_RESTART) = 1;
        if (p.k(SK_INSTANCE)) { p.k(SK_RESTART) = 0; }

        int nc = (int)p.k(SK_CLIENTS), nf = (int)p.k(SK_FILES);
        auto add = [&](int c, int code, i64 a = 0, i64 b = 0, i64 d = 0) { p.ops.push_back(Op{ c, code, a, b, d }); };
        auto logOp = [&](int c)
        {
            i64 lvl = is("L07") || r.chance(100) ? (i64)r.below(9) : 8;
            add(c, O_LOG, (i64)r.below((u64)nf) + 16 * (i64)(r.chance(500) ? 0 : r.below(N_IFACE)) + 256 * lvl, genLen(r), (i64)r.below(3) + 3 * (r.chance(is("L07") ? 200 : 60) ? (i64)(1 + r.below(5)) : 0));
        };
        auto nap = [&](int c) { add(c, O_SLEEP, 0, r.chance(250) ? (i64)1 << r.below(45) : (i64)(1 + r.below(r.chance(500) ? 3000 : 3000000))); };
        bool setters = is("L09") || is("L02") || r.chance(200), levels = is("L07") || (is("L09") && r.chance(500)), rots = (is("L09") || (is("L04") && r.chance(200))) && p.k(SK_ROT);
        int n = (int)(3 + r.below(r.chance(250) ? 50 : 20));
        if (many) n += 15;
        for (int i = 0; i < n; ++i)
        {
            int c = (int)r.below((u64)nc + 1);
            u64 x = r.below(100);
            if ((is("L04") || is("L09")) && r.chance(15)) add(c, O_HEADER, (i64)r.below(2));
            if (wide && r.chance(300)) x = 60;
            if (x < 58) logOp(c);
            else if (x < 66) add(c, O_BURST, (i64)r.below((u64)nf), r.chance(700) ? 12 : genLen(r) % 200, wide ? (i64)(10 + r.below(30)) : (i64)(2 + r.below(r.chance(300) ? 20 : 6)));
            else if (x < 76) { if (r.chance(500)) add(0, O_REST); else nap(c); }
            else if (x < 80) add(c, O_SLEEP, 0, (i64)(1 + r.below(100000)));
            else if (x < 84) { if (is("L09") || is("L02") ? true : r.chance(150)) add(0, O_FREEZE, (i64)r.below(16), (i64)r.below(2)); else logOp(c); }
            else if (x < 87) add(c, O_QUERY);
            else if (x < 92) { if (setters) add(is("L02") || is("L09") ? c : 0, O_FLUSH, flush[r.below(8)]); else logOp(c); }
            else if (x < 95) { if (is("L03") || (setters && r.chance(300))) add(c, O_MAX, r.chance(300) ? 0 : (i64)(1 + r.below(6))); else if (is("L03")) { bool own = r.chance(500); add(own ? 0 : c, O_RESET, !own); } else logOp(c); }
            else if (x < 98) { if (levels) add(c, O_LEVEL, (i64)r.below(10)); else if (rots) add(c, r.chance(500) ? O_ROT : O_LIMIT, r.chance(400) ? (i64)r.below(5) : r.chance(300) ? (i64)r.below(15) : (i64)(20 + r.below(100))); else if (is("L03")) { bool own = r.chance(500); add(own ? 0 : c, O_RESET, !own); } else logOp(c); }
            else { if (is("L07") || is("L09")) add(c, r.chance(700) ? O_WRITER : O_HEADERW, (i64)r.below(3)); else logOp(c); }
        }
        if (tail)
        {
            int m = (int)(1 + r.below(4));
            for (int i = 0; i < m; ++i) { if (r.chance(700)) logOp(0); else add(0, O_BURST, (i64)r.below((u64)nf), 12, (i64)(1 + r.below(5))); }
            if (r.chance(300)) nap(0);
            add(0, O_FLUSH, 1000);
            if (r.chance(500)) logOp(0);
            if (r.chance(300)) nap(0);
        }
        if ((is("L09") || r.chance(30)) && (!p.k(SK_DIRS) || p.k(SK_INIT)) && r.chance(300))
            for (int i = 0; i < 3; ++i) p.ops.insert(p.ops.begin() + (long)r.below(p.ops.size() + 1), Op{ (int)r.below((u64)nc + 1), O_CREATEDIRS, (i64)r.below(2), 0, 0 });
        bool io0 = false;
        if (!p.k(SK_CRASHOP) && !p.k(SK_INSTANCE) && !p.k(SK_ARMED) && !p.k(SK_FAULTYEND) && !tail && r.chance(is("L08") ? 200 : is("L05") ? 150 : is("L02") ? 60 : 20))
        {
            // a file that can never be written, or only later
            p.k(SK_BLOCKED) = 1 + (i64)r.below(30);
            if (nf == 1 && r.chance(700)) { p.k(SK_FILES) = nf = 2; for (auto& o : p.ops) if ((o.code == O_LOG || o.code == O_BURST) && r.chance(500)) o.a += 1; }
            if (!p.k(SK_WRITER)) p.k(SK_WRITER) = 1;
            p.k(SK_MAX) = 0;
            p.k(SK_HEAL) = r.chance(is("L05") ? 600 : 300);
            p.k(KN_PM0 + K_IO_WRITE) = 0;
            if (r.chance(600)) p.k(SK_FLUSH) = 1000;
            bool retry = p.k(SK_FLUSH) < 1000;
            if (retry)
            {
                p.k(KN_STRATEGY) = S_RANDOM; p.k(KN_STEPCAP) = 2000000; p.k(KN_DT) = 500; p.k(KN_PLAIN) = 0; p.k(KN_PM0 + K_IO_STALL) = 0; p.k(SK_DESTROY) = 1;
                if (p.ops.size() > 25) p.ops.resize(25);
            }
            std::vector<Op> keep;
            for (auto& o : p.ops) if (o.code != O_MAX && o.code != O_CREATEDIRS && o.code != O_RESET && (o.code != O_FLUSH || retry)) keep.push_back(o);
            p.ops = keep;
            if (r.chance(is("L05") ? 400 : 200)) p.ops.insert(p.ops.begin() + (long)r.below(p.ops.size() + 1), Op{ 0, O_HEAL, 0, 0, 0 });
        }
        else if (!p.k(SK_CRASHOP) && !p.k(SK_INSTANCE) && !p.k(SK_ARMED) && !p.k(SK_FAULTYEND) && !p.k(SK_RESTART) && !tail && !p.k(KN_PM0 + K_IO_WRITE) && r.chance(is("L05") ? 350 : is("L04") ? 40 : 10))
        {
            if (!p.k(SK_WRITER)) p.k(SK_WRITER) = 1;
            p.k(SK_NODIRS) = 0;
            std::vector<Op> keep;
            for (auto& o : p.ops) if (o.code != O_CREATEDIRS && o.code != O_LIMIT) keep.push_back(o);
            p.ops = keep;
            for (int i = (int)(1 + r.below(4)); i > 0; --i) p.ops.insert(p.ops.begin() + (long)r.below(p.ops.size() + 1), Op{ (int)r.below((u64)nc + 1), O_EXTERN, (i64)r.below((u64)nf), (i64)r.below(12), (i64)r.below(2) });
        }
        for (auto& o : p.ops) io0 |= o.code == O_EXTERN;
        bool io = io0 || p.k(SK_CRASHOP) != 0 || p.k(SK_INSTANCE);
        for (int k = K_IO_OPEN; k <= K_IO_WRITE; ++k) io |= p.k(KN_PM0 + k) != 0;
        if (nf > 1 && !io && r.chance(is("L07") || is("L09") ? 300 : 150)) p.k(SK_TWO) = 1;
        for (auto& o : p.ops) if (o.code == O_LIMIT && o.a > 40) o.a = 3;
        for (auto& o : p.ops) if (o.code == O_ROT && o.a && o.a < 5) o.a = 50;
        if (p.k(SK_RESTART) || p.k(SK_CRASHOP)) { int m = (int)(1 + r.below(8)); for (int i = 0; i < m; ++i) logOp(9); if (r.chance(300)) add(9, O_REST); }
        // a log file and a rotation limit far apart never fill the kept files: keep sizes small enough
        for (auto& o : p.ops) if (is("L06") && o.b > 4000) o.b = 600;
    }
}

const Scenario& dst::scenario()
{
    static const Scenario s{ SIM_NAME, knobDefs, SK_END - KN_COUNT, probeNames, N_PROBES, opNames, N_OPS, props, (int)(sizeof props / sizeof props[0]), gen, simMain };
    return s;
}
