// Text form of identifiers and positions.
#include "wsym.h"
#include "wsrep/gtid.hpp"
#include "wsrep/id.hpp"
#include "wsrep/seqno.hpp"
#include "uuid.hpp"
#include <sstream>
#include <string>
#include <cstring>
#ifndef PART
#define PART 0
#endif
#ifndef SEQ
#define SEQ 999
#endif
#ifndef SCAN
#define SCAN 5
#endif
static void bytes(void* p, unsigned n)
{
    uint64_t v = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        if (i % 8 == 0) v = wsym_u64("bytes");
        ((unsigned char*)p)[i] = (unsigned char)(v >> (i % 8 * 8));
    }
}
static bool alnum(unsigned char c) { return bool(int((unsigned)(c - 48) < 10u) | int((unsigned)((c | 32) - 97) < 26u)); }
static char hexd(unsigned v) { return char(v < 10 ? '0' + v : 'a' + v - 10); }

// every identifier: what is printed reads back as the same identifier
static void print_and_read()
{
    unsigned char b[16];
    // k leading bytes arbitrary, the rest zero
    const unsigned k = unsigned(wsym_concretize(wsym_range("len", 0, 16)));
    for (unsigned i = 0; i < 16; ++i) b[i] = 0;
    bytes(b, k);
    if (k) wsym_assume(b[k - 1] != 0);
    const wsrep::id id(b, 16);
    const std::string t(id.to_string());
    bool text = k > 0 && k < 16;
    for (unsigned i = 0; i < k; ++i) text = text & alnum(b[i]);
    wsym_note("size", t.size());
    if (text)
    {
        wsym_assert(t.size() == k && memcmp(t.data(), b, k) == 0, "textual identifier not printed as it is");
        wsym_cover("text");
    }
    else
    {
        wsym_assert(t.size() == 36, "identifier not printed as UUID");
        char e[36];
        unsigned n = 0;
        for (unsigned i = 0; i < 16; ++i)
        {
            if (i == 4 || i == 6 || i == 8 || i == 10) e[n++] = '-';
            e[n++] = hexd(b[i] >> 4); e[n++] = hexd(b[i] & 15);
        }
        wsym_assert(memcmp(t.data(), e, 36) == 0, "identifier printed wrong");
        wsym_cover("uuid");
    }
    wsym_cover("end");
}
// every UUID text: the identifier read is the one it denotes
static void read_uuid()
{
    char s[37];
    unsigned char e[16];
    unsigned n = 0;
    for (unsigned i = 0; i < 16; ++i)
    {
        if (i == 4 || i == 6 || i == 8 || i == 10) s[n++] = '-';
        unsigned char d[2];
        bytes(d, 2);
        unsigned v = 0;
        for (int j = 0; j < 2; ++j)
        {
            const unsigned x = d[j] & 15, up = d[j] >> 4;
            const unsigned c = 48 + x + unsigned(x > 9) * (7 + 32 * (up & 1));
            s[n++] = char(c);
            v = v * 16 + x;
        }
        e[i] = (unsigned char)v;
    }
    s[n] = 0;
    const wsrep::id id{std::string(s)};
    wsym_assert(memcmp(id.data(), e, 16) == 0, "UUID read wrong");
    wsym_cover("end");
}
// every short text
static void read_text()
{
    const unsigned k = unsigned(wsym_concretize(wsym_range("len", 0, 18)));
    char s[20];
    bytes(s, k);
    std::string t(s, k);
    bool thrown = false;
    unsigned char e[16];
    memset(e, 0, 16);
    try
    {
        const wsrep::id id(t);
        wsym_assert(k <= 16, "too long text accepted");
        memcpy(e, s, k);
        wsym_assert(memcmp(id.data(), e, 16) == 0, "text read wrong");
        wsym_assert(id.is_undefined() == (memcmp(e, "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 16) == 0), "undefined wrong");
        wsym_cover("text");
    }
    catch (const wsrep::runtime_error&) { thrown = true; wsym_cover("refused"); }
    wsym_assert(thrown == (k > 16), "text refused");
    // as bytes
    thrown = false;
    try { const wsrep::id id(s, k); memset(e, 0, 16); memcpy(e, s, k); wsym_assert(memcmp(id.data(), e, 16) == 0, "bytes read wrong"); }
    catch (const wsrep::runtime_error&) { thrown = true; }
    wsym_assert(thrown == (k > 16), "bytes refused");
    wsym_cover("end");
}

static int64_t seqno_input()
{
    const int64_t special[] = { INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1, 1000000000000000000LL, -1000000000000000000LL,
                                4294967296LL, 4294967295LL, -4294967296LL, 2147483648LL, -2147483649LL };
    const unsigned n = sizeof(special) / sizeof(special[0]);
    const unsigned k = unsigned(wsym_concretize(wsym_range("special", 0, n)));
    if (k < n) return special[k];
    return int64_t(wsym_range("seqno", 0, 2 * SEQ)) - SEQ;
}
// positions
static void gtids()
{
    const wsrep::id ids[4] = { wsrep::id(), wsrep::id("abc"), wsrep::id("0123456789abcdeF"), wsrep::id("6a20d44a-6e17-11e8-b1e2-9061aec0cdad") };
    const unsigned which = unsigned(wsym_concretize(wsym_range("id", 0, 3)));
    const wsrep::gtid g(ids[which], wsrep::seqno(seqno_input()));
    std::ostringstream os;
    os << g;
    const std::string t(os.str());
    // text is <id>:<seqno>
    std::ostringstream is, ss;
    is << g.id();
    ss << g.seqno();
    std::string num;
    {
        const long long v = g.seqno().get();
        unsigned long long u = v < 0 ? 0ULL - (unsigned long long)v : (unsigned long long)v;
        char d[24]; int n = 24;
        do { d[--n] = char('0' + u % 10); u /= 10; } while (u);
        if (v < 0) d[--n] = '-';
        num.assign(d + n, size_t(24 - n));
    }
    wsym_assert(ss.str() == num, "seqno printed wrong");
    wsym_assert(t == is.str() + ":" + num, "position printed wrong");
    wsym_assert(t.size() <= wsrep::gtid_c_str_len(), "text longer than announced");
    // bounded buffer
    const unsigned len = unsigned(wsym_concretize(wsym_range("buffer", 0, 4)));
    const size_t room = len == 0 ? 0 : len == 1 ? 1 : len == 2 ? t.size() - 1 : len == 3 ? t.size() : t.size() + 1;
    char buf[80];
    memset(buf, 0x55, sizeof buf);
    const ssize_t n = wsrep::print_to_c_str(g, buf, room);
    if (room < t.size())
    {
        wsym_assert(n < 0, "printed into a too small buffer");
        for (size_t i = 0; i < sizeof buf; ++i) wsym_assert(buf[i] == 0x55, "too small buffer was written to");
        wsym_cover("too_small");
        return;
    }
    wsym_assert(n == ssize_t(t.size()) && memcmp(buf, t.data(), t.size()) == 0, "printed wrong text");
    for (size_t i = room; i < sizeof buf; ++i) wsym_assert(buf[i] == 0x55, "printed beyond the buffer");
    wsrep::gtid r;
    const ssize_t m = wsrep::scan_from_c_str(buf, t.size(), r);
    wsym_assert(m == n && r == g, "position does not read back");
    wsym_assert(r.is_undefined() == (r.id().is_undefined() && r.seqno().get() == -1), "undefined wrong");
    // something after it
    char more[82];
    memcpy(more, t.data(), t.size());
    more[t.size()] = ' '; more[t.size() + 1] = '7';
    wsrep::gtid q;
    wsym_assert(wsrep::scan_from_c_str(more, t.size() + 2, q) == n && q == g, "end of the position not found");
    wsym_cover("round_trip");
    wsym_cover("end");
}
static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// every short text read as a position
static void scan_any()
{
    const unsigned k = unsigned(wsym_concretize(wsym_range("len", 0, SCAN)));
    char s[24];
    bytes(s, k);
    const wsrep::gtid old(wsrep::id("old"), wsrep::seqno(77));
    wsrep::gtid g(old);
    const ssize_t n = wsrep::scan_from_c_str(s, k, g);
    // reference
    size_t c = 0;
    while (c < k && s[c] != ':') ++c;
    bool ok = false;
    int64_t v = 0;
    size_t p = c + 1;
    if (c < k)
    {
        while (p < k && space(s[p])) ++p;
        bool neg = false;
        if (p < k && (s[p] == '-' || s[p] == '+')) { neg = s[p] == '-'; ++p; }
        while (p < k && s[p] >= '0' && s[p] <= '9') { v = v * 10 + (s[p] - '0'); ++p; ok = true; }
        if (neg) v = -v;
    }
    wsym_note("n", uint64_t(n));
    wsym_assert(ok == (n > 0), "text accepted or refused wrongly");
    if (ok)
    {
        wsym_assert(size_t(n) == p, "wrong number of characters read");
        wsym_assert(g == wsrep::gtid(wsrep::id(std::string(s, c)), wsrep::seqno(v)), "position read wrong");
        wsym_cover("accepted");
    }
    else { wsym_assert(g == old, "refused text changed the position"); wsym_cover("refused"); }
    wsym_cover("end");
}
extern "C" void wsym_main()
{
    switch (PART)
    {
    case 0: print_and_read(); break;
    case 1: read_uuid(); break;
    case 2: read_text(); break;
    case 3: gtids(); break;
    default: scan_any(); break;
    }
}
