// The values the library hands around: views, keys, XIDs, identifiers, write set metadata.
#include "wsym.h"
#include "wsrep/view.hpp"
#include "wsrep/key.hpp"
#include "wsrep/xid.hpp"
#include "wsrep/buffer.hpp"
#include "wsrep/provider.hpp"
#include "wsrep/sr_key_set.hpp"
#include <cstring>
#include <string>
#include <vector>
#ifndef PART
#define PART 0
#endif
#ifndef KEYLEN
#define KEYLEN 2
#endif
#ifndef MEMBERS
#define MEMBERS 3
#endif
static void bytes(void* p, unsigned n)
{
    uint64_t v = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        if (i % 8 == 0) v = wsym_u64("bytes");
        ((unsigned char*)p)[i] = (unsigned char)(v >> (i % 8 * 8));
    }
}
struct rawid { uint64_t a, b; };
static bool eq(const rawid& x, const rawid& y) { return bool(int(x.a == y.a) & int(x.b == y.b)); }
static rawid any_raw()
{
    rawid r;
    r.a = wsym_u64("id.a"); r.b = wsym_u64("id.b");
    return r;
}
// identifiers that differ in their first and last byte at most
static rawid few_raw()
{
    const uint64_t v = wsym_range("id", 0, 65535);
    rawid r;
    r.a = v & 255; r.b = v >> 8 << 56;
    return r;
}
static wsrep::id mk(const rawid& r)
{
    char b[16];
    memcpy(b, &r.a, 8); memcpy(b + 8, &r.b, 8);
    return wsrep::id(b, 16);
}
static bool b2(int x) { return bool(x); }

static void views()
{
    rawid m[2][MEMBERS];
    unsigned n[2];
    std::vector<wsrep::view::member> mem[2];
    for (int v = 0; v < 2; ++v)
    {
        n[v] = unsigned(wsym_concretize(wsym_range("members", 0, MEMBERS)));
        for (unsigned i = 0; i < n[v]; ++i)
        {
            m[v][i] = few_raw();
            for (unsigned j = 0; j < i; ++j) wsym_assume(!eq(m[v][i], m[v][j]));   // members are distinct
            mem[v].push_back(wsrep::view::member(mk(m[v][i]), "", ""));
        }
    }
    const int st = int(wsym_concretize(wsym_range("status", 0, 2)));
    const ssize_t own = ssize_t(wsym_range("own", 0, 4)) - 1;
    const rawid rg = any_raw();
    const long long sq = (long long)wsym_u64("seqno"), vq = (long long)wsym_u64("vseqno");
    const int caps = int(wsym_range("caps", 0, 0xffffff)), pv = int(wsym_range("proto", 0, 10));
    const wsrep::view a(wsrep::gtid(mk(rg), wsrep::seqno(sq)), wsrep::seqno(vq), (enum wsrep::view::status)st, caps, own, pv, mem[0]);
    const wsrep::view b(wsrep::gtid(), wsrep::seqno(2), wsrep::view::primary, 0, 0, 0, mem[1]);
    // same set of members?
    int same = n[0] == n[1];
    for (unsigned i = 0; i < n[0]; ++i)
    {
        int in = 0;
        for (unsigned j = 0; j < n[1]; ++j) in |= eq(m[0][i], m[1][j]);
        same &= in;
    }
    const bool ab = a.equal_membership(b), ba = b.equal_membership(a);
    wsym_assert(ab == b2(same), "equal_membership is not equality of the member sets");
    wsym_assert(ba == ab, "equal_membership is not symmetric");
    if (n[0] > 1 && ab) wsym_cover("equal");
    if (n[0] == n[1] && !ab) wsym_cover("different");
    for (unsigned i = 0; i < n[0]; ++i)
        wsym_assert(a.member_index(mk(m[0][i])) == int(i), "member_index of a member");
    const rawid x = few_raw();
    int idx = -1;
    for (unsigned i = n[0]; i-- > 0;) idx = eq(m[0][i], x) ? int(i) : idx;
    const wsrep::id xi(mk(x));
    wsym_assert(a.member_index(xi) == idx, "member_index");
    wsym_assert(a.is_member(xi) == (idx != -1), "is_member");
    wsym_assert(a.is_final() == (st != wsrep::view::primary && n[0] == 0 && own == -1), "is_final");
    wsym_assert(int(a.status()) == st && a.own_index() == own && a.capabilities() == caps && a.protocol_version() == pv &&
                a.view_seqno().get() == vq && a.state_id().seqno().get() == sq && a.state_id().id() == mk(rg) && a.members().size() == n[0], "view does not hold what it was made of");
    wsym_note("same", ab);
    const wsrep::view none;
    wsym_assert(none.is_final() && none.status() == wsrep::view::disconnected && none.state_id().is_undefined() && none.view_seqno().is_undefined() && none.members().empty(), "default view");
}

static void keys()
{
    static const char text[8] = "abcdefg";
    const int t = int(wsym_concretize(wsym_range("type", 0, 3)));
    wsrep::key k((enum wsrep::key::type)t);
    const unsigned n = unsigned(wsym_concretize(wsym_range("parts", 0, 5)));
    const void* p[5]; size_t l[5];
    unsigned have = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        p[i] = text + wsym_concretize(wsym_range("off", 0, 3));
        l[i] = size_t(wsym_u64("len"));
        bool thrown = false;
        try { k.append_key_part(p[i], l[i]); }
        catch (const wsrep::runtime_error&) { thrown = true; }
        wsym_assert(thrown == (i >= 3), "a key has at most three parts");
        if (!thrown) ++have; else wsym_cover("refused");
        wsym_assert(k.size() == have && int(k.type()) == t, "key size or type");
        for (unsigned j = 0; j < have; ++j)
            wsym_assert(k.key_parts()[j].ptr() == p[j] && k.key_parts()[j].size() == l[j], "key part changed");
    }
    const wsrep::key c(k);
    wsym_assert(c.size() == have && int(c.type()) == t, "copied key");
    for (unsigned j = 0; j < have; ++j)
        wsym_assert(c.key_parts()[j].ptr() == p[j] && c.key_parts()[j].size() == l[j], "copied key part");
    wsym_note("have", have);
}

static void key_set()
{
    struct pair { char a[3], b[3]; unsigned la, lb; } in[3];
    wsrep::sr_key_set s;
    wsym_assert(s.empty(), "fresh set is empty");
    const unsigned n = unsigned(wsym_concretize(wsym_range("inserts", 0, 3)));
    for (unsigned i = 0; i < n; ++i)
    {
        pair& x = in[i];
        x.la = unsigned(wsym_concretize(wsym_range("la", 0, KEYLEN)));
        x.lb = unsigned(wsym_concretize(wsym_range("lb", 0, 1)));
        for (unsigned j = 0; j < x.la; ++j) x.a[j] = char(wsym_concretize(wsym_range("ca", 0, 1)));   // bytes may be zero
        for (unsigned j = 0; j < x.lb; ++j) x.b[j] = char(wsym_concretize(wsym_range("cb", 0, 1)));
        wsrep::key k(wsrep::key::exclusive);
        k.append_key_part(x.a, x.la); k.append_key_part(x.b, x.lb);
        if (wsym_concretize(wsym_range("third", 0, 1))) k.append_key_part("zz", 2);
        s.insert(k);
        wsym_assert(!s.empty(), "set empty after insert");
        memset(&x.a[x.la], 7, 3 - x.la);
    }
    // exactly the pairs inserted
    size_t count = 0;
    for (auto& r : s.root())
    {
        wsym_assert(!r.second.empty(), "branch without leaves");
        for (auto& l : r.second)
        {
            ++count;
            bool found = false;
            for (unsigned i = 0; i < n; ++i)
                found = found || (r.first == std::string(in[i].a, in[i].la) && l == std::string(in[i].b, in[i].lb));
            wsym_assert(found, "set holds a key never inserted");
        }
    }
    size_t distinct = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        const std::string a(in[i].a, in[i].la), b(in[i].b, in[i].lb);
        auto it = s.root().find(a);
        wsym_assert(it != s.root().end() && it->second.count(b) == 1, "inserted key missing");
        bool dup = false;
        for (unsigned j = 0; j < i; ++j) dup = dup || (a == std::string(in[j].a, in[j].la) && b == std::string(in[j].b, in[j].lb));
        if (dup) wsym_cover("duplicate"); else ++distinct;
    }
    wsym_assert(count == distinct, "set size");
    wsym_note("count", count);
    s.clear();
    wsym_assert(s.empty() && s.root().empty(), "cleared set is empty");
}

static void xids()
{
    // lengths around the limit
    static const long L[6] = { 0, 1, 2, 63, 64, 65 };
    char d[132];
    memset(d, 3, sizeof d);
    bytes(d, 4);
    const long g = L[wsym_concretize(wsym_range("g", 0, 5))];
    const long q = L[wsym_concretize(wsym_range("b", 0, 5))];
    const long f = long(wsym_u64("format"));
    bool thrown = false;
    try { wsrep::xid x(f, g, q, d); }
    catch (const wsrep::runtime_error&) { thrown = true; }
    wsym_assert(thrown == (g > 64 || q > 64), "size limit of an XID");
    if (thrown) { wsym_cover("refused"); return; }
    const wsrep::xid x(f, g, q, d);
    wsym_assert(x.is_null() == (f == -1), "is_null");
    const std::string t(to_string(x));
    wsym_assert(t.size() == size_t(g + q) && memcmp(t.data(), d, size_t(g + q)) == 0, "bytes of an XID");
    // another one
    char e[132];
    memset(e, 3, sizeof e);
    bytes(e, 4);
    const long g2 = L[wsym_concretize(wsym_range("g", 0, 4))];
    const long q2 = L[wsym_concretize(wsym_range("b", 0, 4))];
    const long f2 = long(wsym_u64("format"));
    const wsrep::xid y(f2, g2, q2, e);
    int same = int(f == f2) & int(g == g2) & int(q == q2);
    if (g + q == g2 + q2) for (long i = 0; i < g + q; ++i) same &= d[i] == e[i];
    const bool r = x == y;
    wsym_assert(r == b2(same), "equality of XIDs");
    if (r) wsym_cover("equal"); else wsym_cover("different");
    wsrep::xid c(y);
    wsym_assert(c == y, "copied XID");
    c = x;
    wsym_assert(c == x && to_string(c) == t, "assigned XID");
    c.clear();
    wsym_assert(c.is_null() && to_string(c).empty() && c == wsrep::xid(), "cleared XID");
    wsym_assert(to_string(x) == t, "copy shares bytes");
    wsym_note("eq", r);
}

static void ids()
{
    const rawid a = any_raw(), b = any_raw();
    const wsrep::id x(mk(a)), y(mk(b));
    wsym_assert((x == y) == eq(a, b) && (x != y) == !eq(a, b), "equality of identifiers");
    // the order is total
    const int lt = x < y, gt = y < x;
    wsym_assert(lt + gt + int(eq(a, b)) == 1, "order of identifiers");
    wsym_assert(x.is_undefined() == b2(int(a.a == 0) & int(a.b == 0)), "undefined identifier");
    wsym_assert(wsrep::id().is_undefined() && wsrep::id::undefined() == wsrep::id() && x.size() == 16 && memcmp(x.data(), &a.a, 8) == 0, "identifier bytes");
    const unsigned len = unsigned(wsym_concretize(wsym_range("len", 0, 18)));
    char raw[18]; bytes(raw, 18);
    bool thrown = false;
    try
    {
        const wsrep::id z(raw, len);
        char w[16]; memset(w, 0, 16); memcpy(w, raw, len < 16 ? len : 16);
        wsym_assert(memcmp(z.data(), w, 16) == 0, "identifier from bytes");
    }
    catch (const wsrep::runtime_error&) { thrown = true; }
    wsym_assert(thrown == (len > 16), "size limit of an identifier");
    // sequence numbers
    const long long s = (long long)wsym_u64("s"), u = (long long)wsym_u64("u");
    const wsrep::seqno S(s), U(u);
    wsym_assert(S.get() == s && (S < U) == (s < u) && (S > U) == (s > u) && (S <= U) == (s <= u) && (S >= U) == (s >= u) &&
                (S == U) == (s == u) && (S != U) == (s != u) && S.is_undefined() == (s == -1), "order of sequence numbers");
    wsym_assert(wsrep::seqno().is_undefined() && wsrep::seqno::undefined() == wsrep::seqno(), "undefined sequence number");
    const long long w = (long long)wsym_range("w", 0, 1000000000);
    wsym_assert(wsrep::seqno(w).prev().get() == w - 1 && (wsrep::seqno(w) + 1).get() == w + 1 && (wsrep::seqno(w) + wsrep::seqno(w)).get() == 2 * w, "arithmetic of sequence numbers");
    // positions
    const wsrep::gtid G(x, S), K(y, U);
    wsym_assert((G == K) == (eq(a, b) && s == u), "equality of positions");
    wsym_assert(G.is_undefined() == (s == -1 && a.a == 0 && a.b == 0), "undefined position");
    wsym_assert(G.id() == x && G.seqno() == S && wsrep::gtid().is_undefined() && wsrep::gtid::undefined() == wsrep::gtid(), "position");
    // transaction and client ids
    const unsigned long long t = wsym_u64("t"), v = wsym_u64("v");
    const wsrep::transaction_id T(t), V(v);
    wsym_assert((T == V) == (t == v) && (T != V) == (t != v) && (T < V) == (t < v) && T.get() == t && T.is_undefined() == (t == ~0ull) &&
                wsrep::transaction_id().is_undefined() && wsrep::transaction_id::undefined().is_undefined(), "transaction identifiers");
    const wsrep::client_id C(v), D(t);
    wsym_assert((C == D) == (t == v) && (C < D) == (v < t) && C.get() == v, "client identifiers");
}

static void metas()
{
    struct raw { rawid g, s; long long seq, dep; unsigned long long t, c; int f; };
    raw r[2];
    for (int i = 0; i < 2; ++i)
    {
        r[i].g = any_raw(); r[i].s = any_raw();
        r[i].seq = (long long)wsym_u64("seq"); r[i].dep = (long long)wsym_u64("dep");
        r[i].t = wsym_u64("t"); r[i].c = wsym_u64("c"); r[i].f = int(wsym_range("f", 0, 0xffff));
    }
    const wsrep::stid s0(mk(r[0].s), wsrep::transaction_id(r[0].t), wsrep::client_id(r[0].c)), s1(mk(r[1].s), wsrep::transaction_id(r[1].t), wsrep::client_id(r[1].c));
    const int ss = int(eq(r[0].s, r[1].s)) & int(r[0].t == r[1].t) & int(r[0].c == r[1].c);
    wsym_assert((s0 == s1) == b2(ss), "equality of source identifiers");
    const wsrep::ws_meta m0(wsrep::gtid(mk(r[0].g), wsrep::seqno(r[0].seq)), s0, wsrep::seqno(r[0].dep), r[0].f);
    const wsrep::ws_meta m1(wsrep::gtid(mk(r[1].g), wsrep::seqno(r[1].seq)), s1, wsrep::seqno(r[1].dep), r[1].f);
    const int ms = ss & int(eq(r[0].g, r[1].g)) & int(r[0].seq == r[1].seq) & int(r[0].dep == r[1].dep) & int(r[0].f == r[1].f);
    wsym_assert((m0 == m1) == b2(ms), "equality of write set metadata");
    wsym_assert(m0.seqno().get() == r[0].seq && m0.depends_on().get() == r[0].dep && m0.flags() == r[0].f && m0.transaction_id().get() == r[0].t &&
                m0.client_id().get() == r[0].c && m0.server_id() == mk(r[0].s) && m0.group_id() == mk(r[0].g) && m0.gtid().seqno().get() == r[0].seq, "write set metadata");
    wsym_assert(m0.ordered() == !b2(int(r[0].seq == -1) & int(r[0].g.a == 0) & int(r[0].g.b == 0)), "ordered");
    const wsrep::ws_meta none, only(s0);
    wsym_assert(!none.ordered() && none.transaction_id().is_undefined() && none.flags() == 0 && none.depends_on().is_undefined(), "default metadata");
    wsym_assert(!only.ordered() && only.server_id() == s0.server_id() && only.transaction_id() == s0.transaction_id() && only.client_id() == s0.client_id() && only.flags() == 0, "metadata of a source");
    int dummy, dummy2;
    void* p[2] = { &dummy, &dummy2 };
    const unsigned pa = unsigned(wsym_concretize(wsym_range("pa", 0, 1))), pb = unsigned(wsym_concretize(wsym_range("pb", 0, 1)));
    const wsrep::ws_handle h0(wsrep::transaction_id(r[0].t), p[pa]), h1(wsrep::transaction_id(r[1].t), p[pb]);
    wsym_assert((h0 == h1) == (r[0].t == r[1].t && pa == pb) && h0.opaque() == p[pa] && h0.transaction_id().get() == r[0].t, "write set handles");
    wsym_cover("compared");
}

static void buffers()
{
    // push_back appends, copies are independent
    char a[4], b[4];
    bytes(a, 4); bytes(b, 4);
    const unsigned n = unsigned(wsym_concretize(wsym_range("n", 0, 4)));
    const unsigned k = unsigned(wsym_concretize(wsym_range("k", 0, 4)));
    wsrep::mutable_buffer x;
    x.push_back(a, a + n);
    wsrep::mutable_buffer y(x);
    if (wsym_concretize(wsym_range("how", 0, 1))) x.push_back(std::string(b, k)); else x.push_back(b, b + k);
    wsym_assert(x.size() == n + k, "size of a buffer");
    int ok = 1;
    for (unsigned i = 0; i < n; ++i) ok &= x.data()[i] == a[i];
    for (unsigned i = 0; i < k; ++i) ok &= x.data()[n + i] == b[i];
    wsym_assert(b2(ok), "bytes of a buffer");
    wsym_assert(y.size() == n && (n == 0 || memcmp(y.data(), a, n) == 0), "copied buffer");
    wsrep::mutable_buffer z;
    z.push_back(b, b + k);
    int same = n == k;
    if (n == k) for (unsigned i = 0; i < n; ++i) same &= a[i] == b[i];
    wsym_assert((y == z) == b2(same), "equality of buffers");
    z = x;
    wsym_assert(z == x, "assigned buffer");
    z.clear();
    wsym_assert(z.size() == 0 && x.size() == n + k, "cleared buffer");
    x.resize(n);
    wsym_assert(x == y, "resized buffer");
}

extern "C" void wsym_main()
{
    wsym_note("part", PART);
    switch (PART)
    {
    case 0: views(); break;
    case 1: keys(); break;
    case 2: key_set(); break;
    case 3: xids(); break;
    case 4: ids(); break;
    case 5: metas(); break;
    case 6: buffers(); break;
    }
    wsym_cover("end");

}
