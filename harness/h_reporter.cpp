// The status report file: always a complete JSON document that tells the latest
// state, progress, errors, warnings and events, whatever the file system does.
#include "wsym.h"
#include "wsrep/reporter.hpp"
#include "wsrep/server_state.hpp"
#include "wsrep/mutex.hpp"
#include <cerrno>
#include <cstring>
#include <string>
#include <deque>
#include <vector>
#include <sys/types.h>
#ifndef PART
#define PART 0
#endif
#ifndef STEPS
#define STEPS 3
#endif
#ifndef PREEMPT
#define PREEMPT 2
#endif
#ifndef MSGLEN
#define MSGLEN 2
#endif
typedef wsrep::server_state SS;
static const char* const REPORT = "/report/dir/r.json";

// ---- file system model ----------------------------------------------------
struct file { std::string name; std::string data; bool open; };
static std::vector<file>* fs;
static int faults;            // how many more faults may happen
static bool faulted;          // a fault happened during the current call
static unsigned tmpcount;
static bool threads;
static file* find(const char* n)
{
    for (auto& f : *fs) if (f.name == n) return &f;
    return nullptr;
}
static int fault(const char* what, int max)
{
    if (threads) wsym_yield(what);
    if (faults <= 0) return 0;
    const int k = int(wsym_concretize(wsym_range(what, 0, uint64_t(max))));
    if (k) { --faults; faulted = true; }
    return k;
}
extern "C" int __wrap_mkstemp(char* t)
{
    const size_t n = strlen(t);
    wsym_assert(n > 6 && strcmp(t + n - 6, "XXXXXX") == 0, "bad template for a temporary file");
    wsym_assert(n > strlen("/report/dir/") && strncmp(t, "/report/dir/", 12) == 0, "temporary file not next to the report (rename would not be atomic)");
    if (fault("mkstemp", 1)) { errno = EACCES; wsym_cover("no_temp"); return -1; }
    const unsigned k = ++tmpcount;
    for (int i = 0; i < 6; ++i) t[n - 6 + i] = '0';
    t[n - 1] = char('0' + k % 10); t[n - 2] = char('0' + k / 10 % 10);
    wsym_assert(!find(t), "temporary name");
    file f; f.name = t; f.open = true;
    fs->push_back(f);
    return 100 + int(k);
}
static file* by_fd(int fd)
{
    char t[64];
    const size_t n = strlen(REPORT);
    const unsigned k = unsigned(fd - 100);
    for (auto& f : *fs)
        if (f.open && f.name.size() > 2 && f.name[f.name.size() - 1] == char('0' + k % 10) && f.name[f.name.size() - 2] == char('0' + k / 10 % 10)) return &f;
    (void)t; (void)n;
    return nullptr;
}
extern "C" ssize_t __wrap_write(int fd, const void* p, size_t n)
{
    file* f = by_fd(fd);
    wsym_assert(f != nullptr, "write to a file that is not open");
    switch (fault("write", 2))
    {
    case 1: errno = ENOSPC; wsym_cover("write_failed"); return -1;
    case 2: wsym_cover("short_write"); if (n > 1) n /= 2; break;
    }
    f = by_fd(fd);
    f->data.append((const char*)p, n);
    return ssize_t(n);
}
extern "C" int __wrap_close(int fd)
{
    file* f = by_fd(fd);
    wsym_assert(f != nullptr, "close of a file that is not open");
    f->open = false;
    if (threads) wsym_yield("close");
    return 0;
}
extern "C" int __wrap_fsync(int fd) { wsym_assert(by_fd(fd) != nullptr, "fsync of a file that is not open"); return 0; }
extern "C" int __wrap_rename(const char* a, const char* b)
{
    file* f = find(a);
    if (!f) { errno = ENOENT; return -1; }
    if (fault("rename", 1)) { errno = EIO; wsym_cover("rename_failed"); return -1; }
    file c = *find(a);
    c.name = b;
    std::vector<file> n;
    for (auto& x : *fs) if (x.name != a && x.name != b) n.push_back(x);
    n.push_back(c);
    fs->swap(n);
    return 0;
}
extern "C" int __wrap_unlink(const char* a)
{
    std::vector<file> n;
    bool had = false;
    for (auto& x : *fs) if (x.name != a) n.push_back(x); else had = true;
    fs->swap(n);
    if (!had) errno = ENOENT;
    return had ? 0 : -1;
}
extern "C" int __wrap_remove(const char* a) { return __wrap_unlink(a); }

// ---- JSON -----------------------------------------------------------------
struct parser
{
    const char* p; const char* e;
    bool ok;
    std::vector<std::string> err, warn, ev;
    std::string state, comment, progress;
    int seen;
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
    bool lit(char c) { ws(); if (p < e && *p == c) { ++p; return true; } return ok = false; }
    bool peek(char c) { ws(); return p < e && *p == c; }
    static int hex(char c)
    {
        if (c >= '0' && c <= '9') return c - '0';
        if (c >= 'a' && c <= 'f') return c - 'a' + 10;
        if (c >= 'A' && c <= 'F') return c - 'A' + 10;
        return -1;
    }
    std::string str()
    {
        std::string r;
        if (!lit('"')) return r;
        for (;;)
        {
            if (p >= e) { ok = false; return r; }
            const char c = *p++;
            if (c == '"') return r;
            if ((unsigned char)c < 0x20) { ok = false; return r; }
            if (c != '\\') { r.push_back(c); continue; }
            if (p >= e) { ok = false; return r; }
            const char x = *p++;
            switch (x)
            {
            case '"': case '\\': case '/': r.push_back(x); break;
            case 'b': r.push_back('\b'); break;
            case 'f': r.push_back('\f'); break;
            case 'n': r.push_back('\n'); break;
            case 'r': r.push_back('\r'); break;
            case 't': r.push_back('\t'); break;
            case 'u':
            {
                if (e - p < 4) { ok = false; return r; }
                int v = 0;
                for (int i = 0; i < 4; ++i) { const int h = hex(p[i]); if (h < 0) { ok = false; return r; } v = v * 16 + h; }
                p += 4;
                if (v > 0x7f) ok = false;         // only control characters are escaped
                r.push_back(char(v));
                break;
            }
            default: ok = false; return r;
            }
        }
    }
    void num()
    {
        ws();
        const char* s = p;
        if (p < e && *p == '-') ++p;
        const char* d = p;
        while (p < e && *p >= '0' && *p <= '9') ++p;
        if (p == d || (*d == '0' && p - d > 1)) ok = false;
        if (p < e && *p == '.')
        {
            ++p;
            const char* q = p;
            while (p < e && *p >= '0' && *p <= '9') ++p;
            if (p == q) ok = false;
        }
        if (p < e && (*p == 'e' || *p == 'E'))
        {
            ++p;
            if (p < e && (*p == '+' || *p == '-')) ++p;
            const char* q = p;
            while (p < e && *p >= '0' && *p <= '9') ++p;
            if (p == q) ok = false;
        }
        if (p == s) ok = false;
    }
    // any value; returns its text
    std::string any()
    {
        ws();
        const char* s = p;
        if (peek('"')) str();
        else if (peek('{'))
        {
            ++p;
            if (peek('}')) ++p;
            else for (;;) { str(); lit(':'); any(); if (!ok) break; if (peek(',')) { ++p; continue; } lit('}'); break; }
        }
        else if (peek('['))
        {
            ++p;
            if (peek(']')) ++p;
            else for (;;) { any(); if (!ok) break; if (peek(',')) { ++p; continue; } lit(']'); break; }
        }
        else num();
        return std::string(s, size_t(p - s));
    }
    void entries(std::vector<std::string>& out, bool text)
    {
        lit('[');
        if (peek(']')) { ++p; return; }
        while (ok)
        {
            lit('{');
            if (str() != "timestamp") ok = false;
            lit(':'); num(); lit(',');
            if (str() != (text ? "msg" : "event")) ok = false;
            lit(':');
            out.push_back(text ? str() : any());
            lit('}');
            if (peek(',')) { ++p; continue; }
            lit(']');
            break;
        }
    }
    explicit parser(const std::string& s) : p(s.data()), e(s.data() + s.size()), ok(true), seen(0)
    {
        lit('{');
        while (ok)
        {
            const std::string k(str());
            lit(':');
            if (k == "date") { if (str().size() != 23) ok = false; seen |= 1; }
            else if (k == "timestamp") { num(); seen |= 2; }
            else if (k == "errors") { entries(err, true); seen |= 4; }
            else if (k == "warnings") { entries(warn, true); seen |= 8; }
            else if (k == "events") { entries(ev, false); seen |= 16; }
            else if (k == "status")
            {
                lit('{');
                while (ok)
                {
                    const std::string n(str());
                    lit(':');
                    if (n == "state") state = str();
                    else if (n == "comment") comment = str();
                    else if (n == "progress") progress = any();
                    else any();
                    if (peek(',')) { ++p; continue; }
                    lit('}');
                    break;
                }
                seen |= 32;
            }
            else any();
            if (peek(',')) { ++p; continue; }
            lit('}');
            break;
        }
        ws();
        if (p != e || seen != 63) ok = false;
    }
};

// ---- oracle ---------------------------------------------------------------
static const char* const INDEF = "{ \"from\": -1, \"to\": -1, \"total\": -1, \"done\": -1, \"indefinite\": -1 }";
static const char* const STEADY = "{ \"from\": -1, \"to\": -1, \"total\": 0, \"done\": 0, \"indefinite\": -1 }";
struct model
{
    size_t max;
    int st; bool init; bool joining;      // joining: on the way from joiner to joined
    std::vector<std::string> err, warn, ev;
    std::string progress;
    static void put(std::vector<std::string>& v, const std::string& s, size_t max)
    {
        std::vector<std::string> n;
        for (size_t i = v.size() < max ? 0 : 1; i < v.size(); ++i) n.push_back(v[i]);
        n.push_back(s);
        v.swap(n);
    }
    void log(std::vector<std::string>& v, const std::string& s)
    {
        if (!v.empty() && v.back() == s) { wsym_cover("repeated"); return; }
        put(v, s, max);
    }
    const char* state() const
    {
        switch (st)
        {
        case SS::s_disconnected: return "DISCONNECTED";
        case SS::s_initializing: case SS::s_initialized: return joining ? "JOINING" : "DISCONNECTED";
        case SS::s_connected: return "CONNECTED";
        case SS::s_joiner: return "JOINING";
        case SS::s_joined: return "JOINED";
        case SS::s_donor: return "DONOR";
        case SS::s_synced: return "SYNCED";
        }
        return "DISCONNECTING";
    }
    const char* comment() const
    {
        switch (st)
        {
        case SS::s_disconnected: return "Disconnected";
        case SS::s_initializing: return "Initializing";
        case SS::s_initialized: return joining ? "Receiving IST" : "Connecting";
        case SS::s_connected: return "Waiting";
        case SS::s_joiner: return init ? "Receiving state" : "Receiving SST";
        case SS::s_joined: return "Syncing";
        case SS::s_donor: return "Donating SST";
        case SS::s_synced: return "Operational";
        }
        return "Disconnecting";
    }
    void to(int s)
    {
        if (s == SS::s_disconnected) { init = false; joining = false; }
        if (s == SS::s_connected) joining = false;
        if (s == SS::s_joiner) joining = true;
        if (s == SS::s_initialized) init = true;
        if (s != st) progress = s == SS::s_synced ? STEADY : INDEF;
        st = s;
    }
};
static model* M;
static void same(const std::vector<std::string>& a, const std::vector<std::string>& b, const char* what)
{
    wsym_assert(a.size() == b.size(), what);
    for (size_t i = 0; i < a.size(); ++i) wsym_assert(a[i] == b[i], what);
}
static void check_current(const std::string& d)
{
    parser p(d);
    wsym_assert(p.ok, "the report is not a complete JSON document");
    same(p.err, M->err, "errors in the report");
    same(p.warn, M->warn, "warnings in the report");
    same(p.ev, M->ev, "events in the report");
    wsym_assert(p.state == M->state(), "state in the report");
    wsym_assert(p.comment == M->comment(), "state comment in the report");
    wsym_assert(p.progress == M->progress, "progress in the report");
}
static std::string content()
{
    file* f = find(REPORT);
    return f ? f->data : std::string();
}
static bool stale;
static void after(const std::string& before, const char* what)
{
    size_t n = 0;
    for (auto& f : *fs) { ++n; wsym_assert(!f.open, "file left open"); }
    const std::string now(content());
    if (faulted) stale = true;
    if (stale && now == before) wsym_cover("kept");      // to be brought up to date by the next change
    else { check_current(now); stale = false; }
    wsym_assert(n == (find(REPORT) ? 1 : 0), "temporary file left behind");
    wsym_note(what, n);
}
// messages as an application may write them
static std::string message()
{
    static const char* const m[6] = { "a", "\"", "\\\"", "\n", "\\n", "" };
    return m[wsym_concretize(wsym_range("msg", 0, PART == 1 ? 1 : 5))];
}
static std::string json_piece(int k)
{
    static const char* const m[3] = { "{ \"from\": 1, \"to\": 3, \"total\": 5, \"done\": 2, \"indefinite\": -1 }",
                                      "{ \"from\": 1, \"to\": 3, \"total\": 5, \"done\": 5, \"indefinite\": -1 }", INDEF };
    return m[k];
}
static bool sst_first, inited;
static bool legal(int from, int to)
{
    static const char a[9][9] =
        {
            {  0,   1,   0,    1,    0,   0,   0,   0,   0}, /* dis */
            {  1,   0,   1,    0,    0,   0,   0,   0,   1}, /* ing */
            {  1,   0,   0,    1,    0,   1,   0,   0,   1}, /* ized */
            {  1,   0,   0,    1,    1,   0,   0,   1,   1}, /* cted */
            {  1,   1,   0,    0,    0,   1,   0,   0,   1}, /* jer */
            {  1,   0,   0,    1,    0,   0,   1,   1,   1}, /* jed */
            {  1,   0,   0,    1,    0,   1,   0,   0,   1}, /* dor */
            {  1,   0,   0,    1,    0,   1,   1,   0,   1}, /* sed */
            {  1,   0,   0,    0,    0,   0,   0,   0,   0}  /* ding */
        };
    if (!a[from][to]) return false;
    if (to == SS::s_initializing) return !inited && (from == SS::s_joiner) == sst_first;
    if (from == SS::s_disconnected && to == SS::s_connected) return inited || sst_first;
    if (from == SS::s_initialized && to == SS::s_joined) return sst_first;
    if (from == SS::s_joiner && to == SS::s_joined) return inited;
    return true;
}
static void one_step(wsrep::reporter& r)
{
    faulted = false;
    const std::string before(content());
    switch (wsym_concretize(wsym_range("op", 0, 3)))
    {
    case 0:
    {
        int opts[10], n = 0;
        opts[n++] = M->st;
        for (int s = 0; s < 9; ++s) if (s != M->st && legal(M->st, s)) opts[n++] = s;
        // reporting again the state it is in is allowed, except where the server never does it
        const int s = opts[wsym_concretize(wsym_range("state", M->st == SS::s_initialized || M->st == SS::s_initializing ? 1 : 0, uint64_t(n - 1)))];
        M->to(s);
        if (s == SS::s_initialized) inited = true;
        r.report_state((enum SS::state)s);
        after(before, "state");
        break;
    }
    case 1:
    {
        const std::string j(json_piece(int(wsym_concretize(wsym_range("progress", 0, PART == 1 ? 0 : 2)))));
        if (M->st != SS::s_synced) M->progress = j; else wsym_cover("synced");
        r.report_progress(j);
        after(before, "progress");
        break;
    }
    case 2:
    {
        const std::string j(json_piece(int(wsym_concretize(wsym_range("event", 0, PART == 1 ? 0 : 1)))));
        model::put(M->ev, j, M->max);
        r.report_event(j);
        after(before, "event");
        break;
    }
    default:
    {
        const bool e = wsym_concretize(wsym_range("error", 0, 1)) != 0;
        const std::string m(message());
        M->log(e ? M->err : M->warn, m);
        const double t = wsym_concretize(wsym_range("tstamp", 0, PART == 1 ? 0 : 1)) ? 1234.5 : 0.0;
        wsym_clock_ns += 1000000;
        r.report_log_msg(e ? wsrep::reporter::error : wsrep::reporter::warning, m, t);
        after(before, "log");
        break;
    }
    }
}
static wsrep::reporter* R;
static std::vector<std::string>* done[2];
static void watcher(void*)
{
    for (int i = 0; i < 1; ++i)
    {
        wsym_yield("look");
        const std::string d(content());
        parser p(d);
        wsym_assert(p.ok, "a reader sees an incomplete report");
    }
}
static void thread_a(void*)
{
    R->report_log_msg(wsrep::reporter::error, "e1", 1.0);
    R->report_state(SS::s_connected);
}
static void thread_b(void*)
{
    R->report_event("{ \"x\": 1 }");
    R->report_log_msg(wsrep::reporter::warning, "w1", 1.0);
}

extern "C" void wsym_main()
{
    std::vector<file> store;
    fs = &store;
    wsrep::default_mutex mtx;
    model m;
    M = &m;
    m.max = 2; m.st = SS::s_disconnected; m.init = m.joining = false; m.progress = INDEF;
    switch (PART)
    {
    case 0:       // any sequence of reports, no faults
    case 1:       // and faults
    {
        m.max = size_t(wsym_concretize(wsym_range("max", 1, 2)));
        sst_first = wsym_concretize(wsym_range("sst_first", 0, 1)) != 0;
        faults = PART;
        faulted = false;
        const int f = faults;
        const int from = int(wsym_concretize(wsym_range("from", 0, 7)));
        if (from) faults = 0;
        wsrep::reporter r(mtx, REPORT, m.max);
        after("", "open");
        // somewhere in the life of a server
        static const int life[2][8] = {
            { SS::s_disconnected, SS::s_initializing, SS::s_initialized, SS::s_connected, SS::s_joiner, SS::s_joined, SS::s_synced, SS::s_donor },
            { SS::s_disconnected, SS::s_connected, SS::s_joiner, SS::s_initializing, SS::s_initialized, SS::s_joined, SS::s_synced, SS::s_donor } };
        for (int i = 1; i <= from; ++i)
        {
            const int to = life[sst_first][i];
            M->to(to);
            if (to == SS::s_initialized) inited = true;
            r.report_state((enum SS::state)to);
        }
        faults = f;
        for (int i = 0; i < STEPS; ++i) one_step(r);
        // and when the disk works again the report is up to date
        faults = 0; faulted = false;
        const std::string before(content());
        const std::string j("{ \"last\": 1 }");
        model::put(M->ev, j, M->max);
        r.report_event(j);
        after(before, "last");
        break;
    }
    case 2:       // any message
    {
        faults = 0;
        wsrep::reporter r(mtx, REPORT, m.max);
        char b[MSGLEN];
        const uint64_t v = wsym_u64("bytes");
        for (int i = 0; i < MSGLEN; ++i) b[i] = char(v >> (8 * i));
        const std::string msg(b, MSGLEN);
        m.log(m.err, msg);
        r.report_log_msg(wsrep::reporter::error, msg, 1.0);
        after("", "any");
        break;
    }
    case 3:       // life of a server
    {
        faults = 0;
        sst_first = wsym_concretize(wsym_range("sst_first", 0, 1)) != 0;
        wsrep::reporter r(mtx, REPORT, m.max);
        const int busy = int(wsym_concretize(wsym_range("busy", 0, STEPS)));
        for (int i = 0; i < STEPS; ++i)
        {
            if (i == busy) // progress, and something that writes the report again
            {
                const std::string j(json_piece(1));
                if (M->st != SS::s_synced) M->progress = j; else wsym_cover("progress_synced");
                r.report_progress(j);
                std::string was(content());
                M->log(M->warn, "w");
                r.report_log_msg(wsrep::reporter::warning, "w", 1.0);
                after(was, "busy");
            }
            int opts[10], n = 0;
            for (int s = 0; s < 9; ++s) if (s != M->st && legal(M->st, s)) opts[n++] = s;
            const int s = opts[wsym_concretize(n > 1 ? wsym_range("state", 0, uint64_t(n - 1)) : 0)];
            M->to(s);
            if (s == SS::s_initialized) inited = true;
            if (s == SS::s_donor) wsym_cover("donor");
            if (s == SS::s_initialized && M->joining) wsym_cover("ist");
            faulted = false;
            const std::string before(content());
            r.report_state((enum SS::state)s);
            after(before, "state");
        }
        break;
    }
    case 4:       // threads
    {
        faults = 0;
        wsrep::reporter r(mtx, REPORT, m.max);
        R = &r;
        threads = true;
        wsym_sched(PREEMPT, 0);
        wsym_spawn(thread_a, nullptr);
        wsym_spawn(thread_b, nullptr);
        wsym_spawn(watcher, nullptr);
        wsym_join_all();
        m.err.push_back("e1"); m.warn.push_back("w1"); m.ev.push_back("{ \"x\": 1 }");
        m.to(SS::s_connected);
        after("", "threads");
        break;
    }
    }
    (void)done;
    wsym_cover("end");
}
