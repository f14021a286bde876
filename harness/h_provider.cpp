// A server and the provider it was told to load.
#include "world.hpp"
using namespace W;
#ifndef OPS
#define OPS 3
#endif
static int alive, made;
struct rec;
static rec* cur;
struct rec : public W::prov
{
    rec(wsrep::server_state& ss) : W::prov(ss) { ++alive; ++made; }
    ~rec() override { --alive; if (cur == this) cur = 0; }
    // connecting
    int n_conn = 0; std::string c_name, c_addr, c_donor; bool c_boot = false; pstatus answer = success;
    pstatus connect(const std::string& n, const std::string& a, const std::string& d, bool b) override
    { ++n_conn; c_name = n; c_addr = a; c_donor = d; c_boot = b; return answer; }
    int n_disc = 0, disc_ret = 0;
    int disconnect() override { ++n_disc; return disc_ret; }
    // key
    int n_key = 0; std::vector<unsigned char> key;
    pstatus enc_set_key(const wsrep::const_buffer& k) override
    {
        ++n_key;
        key.clear();
        for (size_t i = 0; i < k.size(); ++i) key.push_back((unsigned char)k.data()[i]);
        return answer;
    }
    mutable int n_status = 0;
    std::vector<status_variable> vars;
    std::vector<status_variable> status() const override { ++n_status; return vars; }
    // positions
    mutable int n_read = 0, n_wait = 0, t_arg = 0;
    mutable wsrep::gtid g_arg;
    wsrep::gtid g_ret;
    std::pair<wsrep::gtid, pstatus> causal_read(int t) const override { ++n_read; t_arg = t; return std::make_pair(g_ret, answer); }
    pstatus wait_for_gtid(const wsrep::gtid& g, int t) const override { ++n_wait; t_arg = t; g_arg = g; return answer; }
    // state transfer
    int n_sent = 0, e_arg = 0; wsrep::gtid sent;
    pstatus sst_sent(const wsrep::gtid& g, int e) override { ++n_sent; sent = g; e_arg = e; return answer; }
};
static bool same(const wsrep::gtid& a, const wsrep::gtid& b)
{
    return memcmp(a.id().data(), b.id().data(), 16) == 0 && a.seqno().get() == b.seqno().get();
}
static int n_log; static bool log_warn; static std::string log_text;
static pstatus an_answer()
{
    static const pstatus a[] = { pstatus::success, pstatus::error_warning, pstatus::error_bf_abort, pstatus::error_connection_failed,
                                 pstatus::error_provider_failed, pstatus::error_fatal, pstatus::error_not_implemented, pstatus::error_unknown };
    return a[pick("provider_answer", 8)];
}
static void on_log(enum wsrep::log::level l, const char* m)
{ ++n_log; log_warn = l == wsrep::log::warning; log_text = m; }
extern "C" void wsym_main()
{
    reset_world();
    alive = made = 0; cur = 0; n_log = 0;
    server s("s", wsrep::server_state::rm_sync);
    w.on_log = on_log;
    const bool synced = wsym_bool("synced");
    if (synced) s.go_synced();
    wsrep::thread_service* ts = (wsrep::thread_service*)0x10; wsrep::tls_service* tls = (wsrep::tls_service*)0x20;
    wsrep::allowlist_service* al = (wsrep::allowlist_service*)0x30; wsrep::event_service* ev = (wsrep::event_service*)0x40;
    wsrep::connection_monitor_service* cm = (wsrep::connection_monitor_service*)0x50;
    bool fail = false, boom = false;
    int calls = 0; std::string spec, opts; bool same_services = false, same_server = false;
    s.set_provider_factory([&](wsrep::server_state& ss, const std::string& sp, const std::string& op,
                               const wsrep::provider::services& sv) {
        ++calls; spec = sp; opts = op;
        same_services = sv.thread_service == ts && sv.tls_service == tls && sv.allowlist_service == al &&
            sv.event_service == ev && sv.connection_monitor_service == cm;
        same_server = &ss == &s;
        if (boom) throw wsrep::runtime_error("no provider");
        if (fail) return std::unique_ptr<wsrep::provider>();
        cur = new rec(ss);
        s.p = cur;
        return std::unique_ptr<wsrep::provider>(cur);
    });
    bool loaded = true, mine = false;   // a provider is there; it is one of ours
    bool have_key = false; std::vector<unsigned char> key;
    wsym_assert(s.is_provider_loaded(), "provider not loaded");
    bool disconnected = !synced, connected = synced;
    // the first thing done is loading
    for (int i = 0; i < OPS + 1; ++i)
    {
        const unsigned op = i == 0 ? 0 : pick("operation", 9);
        const unsigned char b(i == 0 ? 0 : (unsigned char)(wsym_range("byte", 0, 255)));
        rec* const r = cur;
        const pstatus ans = i == 0 || op == 0 || op == 1 || op == 7 ? pstatus::success : an_answer();
        if (r) r->answer = ans;
        if (!mine && op != 0 && op != 1 && loaded) return;
        const int lg = n_log;
        bool threw = false;
        switch (op)
        {
        case 0: // load, also over a loaded one
        {
            const unsigned how = pick("load", 3);     // 0 works, 1 no provider, 2 throws (a factory of the application)
            fail = how == 1; boom = how == 2;
            if (i && !disconnected && how) return;      // the application does not lose its provider while connected
            const std::string a(wsym_bool("spec") ? "one" : "two"), o(wsym_bool("opts") ? "x=1" : "");
            const int before = calls;
            int ret = -1;
            try { ret = s.load_provider(a, o, wsrep::provider::services(ts, tls, al, ev, cm)); } catch (const wsrep::runtime_error&) { threw = true; }
            wsym_assert(calls == before + 1, "provider not asked for exactly once");
            wsym_assert(spec == a && opts == o && same_services && same_server, "provider created with other arguments than given");
            wsym_assert(threw == boom, "error of the provider factory lost");
            if (threw) { threw = false; wsym_assert(s.is_provider_loaded() == loaded, "failed loading changed the provider"); wsym_cover("factory_threw"); break; }
            wsym_assert((ret != 0) == fail, "wrong result of loading the provider");
            loaded = !fail; mine = loaded;
            wsym_assert(alive == int(loaded), "provider leaked or destroyed early");
            if (fail) wsym_cover("load_failed");
            else { wsym_assert(&s.provider() == cur, "another provider in use than the one loaded"); wsym_cover("loaded"); }
            break;
        }
        case 1:
            if (!disconnected) return;
            s.unload_provider();
            loaded = mine = false;
            wsym_assert(alive == 0, "unloaded provider still there");
            wsym_cover("unloaded");
            break;
        case 2: // key of 0 to 2 bytes
        {
            std::vector<unsigned char> k;
            const unsigned n = pick("key_size", 3);
            if (n > 0) k.push_back(b);
            if (n > 1) k.push_back((unsigned char)(b ^ 0x5a));
            const std::vector<unsigned char> given(k);
            const int nk = r ? r->n_key : 0;
            const int ret = s.set_encryption_key(k);
            key = given; have_key = true;
            if (r)
            {
                wsym_assert(r->n_key == nk + 1, "encryption key not handed to the provider exactly once");
                bool eq = r->key.size() == given.size();
                for (size_t j = 0; eq && j < given.size(); ++j) wsym_assert(r->key[j] == given[j], "another encryption key handed to the provider");
                wsym_assert(eq, "another encryption key handed to the provider");
                wsym_assert((ret != 0) == (ans != pstatus::success), "wrong result of setting the encryption key");
                wsym_cover(ret ? "key_refused" : "key");
            }
            else { wsym_assert(ret == 0, "setting the encryption key for a later provider failed"); wsym_cover("key_early"); }
            break;
        }
        case 3: // connect
        {
            if (connected) return;
            const bool boot = wsym_bool("bootstrap");
            std::string addr("gcomm:/");
            addr += char(b);
            const unsigned tail = pick("address", 3);
            if (tail == 1) addr += "h";
            if (tail == 2) addr.clear();
            const std::string name(wsym_bool("name") ? "c1" : "c2"), donor(wsym_bool("donor") ? "d" : "");
            int ret = 0;
            try { ret = s.connect(name, addr, donor, boot); } catch (const wsrep::runtime_error&) { threw = true; }
            if (!r) break;
            wsym_assert(r->n_conn == 1 && r->c_name == name && r->c_donor == donor && r->c_addr.size() == addr.size(), "provider connected with other arguments");
            bool same_addr = true;
            for (size_t j = 0; j < addr.size(); ++j) same_addr &= r->c_addr[j] == addr[j];
            wsym_assert(same_addr, "provider connected to another address");
            wsym_assert(r->c_boot == (boot || (tail == 0 && b == '/')), "cluster bootstrapped although not asked for, or not although asked for");
            wsym_assert(ret == int(ans), "wrong result of connecting");
            r->n_conn = 0;
            wsym_cover("connect");
            break;
        }
        case 4: // disconnect
        {
            if (r) r->disc_ret = int(ans);
            int ret = 0;
            if (!disconnected && !r) return;
            ret = s.disconnect();
            if (disconnected || !connected)
            {
                wsym_assert(ret == 0 && (!r || r->n_disc == 0), "disconnected although not connected");
                wsym_cover("disconnect_again");
            }
            else
            {
                wsym_assert(r->n_disc == 1 && ret == int(ans), "disconnecting not passed to the provider, or wrong result");
                r->n_disc = 0;
                connected = false;
                wsym_cover("disconnect");
            }
            break;
        }
        case 5: // read positions
        {
            const int t = int(b) - 1;
            const wsrep::gtid g(mkid(b), wsrep::seqno(int64_t(b) * 3));
            if (r) r->g_ret = g;
            std::pair<wsrep::gtid, pstatus> x;
            try { x = s.causal_read(t); } catch (const wsrep::runtime_error&) { threw = true; }
            if (!r) break;
            wsym_assert(r->n_read == 1 && r->t_arg == t, "wait for the cluster not passed to the provider as asked");
            wsym_assert(x.second == ans && same(x.first, g), "wrong result of waiting for the cluster");
            r->n_read = 0;
            wsym_cover("causal_read");
            break;
        }
        case 6:
        {
            const int t = int(b) - 1;
            const wsrep::gtid g(mkid(b), wsrep::seqno(int64_t(b) * 3));
            pstatus x = pstatus::success;
            try { x = s.wait_for_gtid(g, t); } catch (const wsrep::runtime_error&) { threw = true; }
            if (!r) break;
            wsym_assert(r->n_wait == 1 && r->t_arg == t && same(r->g_arg, g), "wait for a position not passed to the provider as asked");
            wsym_assert(x == ans, "wrong result of waiting for a position");
            r->n_wait = 0;
            wsym_cover("wait_for_gtid");
            break;
        }
        case 7: // status variables
        {
            const unsigned n = pick("variables", 3);
            if (r) { r->vars.clear(); r->n_status = 0; for (unsigned j = 0; j < n; ++j) r->vars.push_back(wsrep::provider::status_variable(j ? "b" : "a", std::string(1, char(b)))); }
            std::vector<wsrep::provider::status_variable> v;
            try { v = s.status(); } catch (const wsrep::runtime_error&) { threw = true; }
            if (!r) break;
            wsym_assert(r->n_status == 1 && v.size() == n, "wrong number of status variables");
            for (unsigned j = 0; j < n; ++j)
                wsym_assert(v[j].name() == (j ? "b" : "a") && v[j].value().size() == 1 && v[j].value()[0] == char(b), "wrong status variable");
            wsym_cover("status");
            break;
        }
        case 8: // a state transfer to another server ends
        {
            if (!synced || !connected || !r) return;
            const wsrep::gtid g(mkid(GROUP), wsrep::seqno(int64_t(b)));
            s.start_sst("req", g, false);
            const int err = wsym_bool("sst_failed") ? -int(b) - 1 : 0;
            s.sst_sent(g, err);
            wsym_assert(r->n_sent == 1 && same(r->sent, g) && r->e_arg == err, "end of a state transfer not reported to the provider as it was");
            r->n_sent = 0;
            wsym_assert(s.state() == wsrep::server_state::s_joined, "server not joined after donating");
            wsym_assert(n_log == lg + (ans != pstatus::success), "failure to report the end of a state transfer not logged, or logged without failure");
            if (ans != pstatus::success)
            {
                wsym_assert(log_warn && log_text.find(wsrep::provider::to_string(ans)) != std::string::npos, "warning does not tell what failed");
                wsym_cover("sst_warning");
            }
            s.on_sync();
            wsym_cover("sst_sent");
            break;
        }
        }
        wsym_assert(op == 8 || n_log == lg, "unexpected warning");
        // using a provider that is not there is an error, not a crash; and no other operation throws
        const bool needs = op == 3 || op == 5 || op == 6 || op == 7;
        wsym_assert(threw == (needs && !r), "missing provider not reported, or an error without reason");
        if (threw) wsym_cover("not_loaded");
        wsym_assert(s.is_provider_loaded() == loaded, "the server believes wrongly to have a provider, or to have none");
        wsym_assert(alive == int(mine), "provider leaked or destroyed early");
        bool refused = false;
        try { wsrep::provider& q(s.provider()); wsym_assert(!mine || &q == cur, "another provider in use than the one loaded"); }
        catch (const wsrep::runtime_error&) { refused = true; }
        wsym_assert(refused == !loaded, "missing provider not reported, or an error without reason");
        wsym_assert(s.get_encryption_key().size() == key.size(), "another encryption key than the last one set");
        for (size_t j = 0; j < key.size(); ++j) wsym_assert(s.get_encryption_key()[j] == key[j], "another encryption key than the last one set");
    }
    (void)have_key;
    wsym_cover("end");
    wsym_exit();
}
