// Provider options: what the library tells about them is what the provider has.
#include "world.hpp"
#include "wsrep/provider_options.hpp"
#include "config_service_v1.hpp"
#include <map>
#include <string>
using namespace W;
#ifndef STEPS
#define STEPS 3
#endif
typedef wsrep::provider_options PO;
enum { NOPT = 3 };
static const char* const REAL[NOPT] = { "gcache.size", "a.b.c", "plain" };
static const char* const NAME[NOPT] = { "gcache_size", "a_b_c", "plain" };

struct oprov : public prov
{
    std::map<std::string, std::string> has;      // what the provider has
    int calls = 0;
    oprov(wsrep::server_state& s) : prov(s) { }
    pstatus options(const std::string& s) override
    {
        ++calls;
        const size_t e = s.find('=');
        wsym_assert(e != std::string::npos && s.size() > e + 1 && s[s.size() - 1] == ';', "malformed option string sent to the provider");
        const std::string n(s.substr(0, e)), v(s.substr(e + 1, s.size() - e - 2));
        const pstatus r = pstatus(wsym_range("status", 0, 11));
        if (r == success)
        {
            wsym_assert(has.count(n) == 1, "an option the provider does not have was set");
            has[n] = v;
        }
        return r;
    }
};
static oprov* pp;
static int fetch_fails, fetched;
static std::unique_ptr<PO::option_value> value(int k)
{
    switch (k)
    {
    case 0: return std::unique_ptr<PO::option_value>(new PO::option_value_string("x y"));
    case 1: return std::unique_ptr<PO::option_value>(new PO::option_value_bool(true));
    case 2: return std::unique_ptr<PO::option_value>(new PO::option_value_bool(false));
    case 3: return std::unique_ptr<PO::option_value>(new PO::option_value_int(-12));
    case 4: return std::unique_ptr<PO::option_value>(new PO::option_value_int(9223372036854775807LL));
    default: return std::unique_ptr<PO::option_value>(new PO::option_value_string(""));
    }
}
static const char* const TEXT[6] = { "x y", "yes", "no", "-12", "9223372036854775807", "" };
static int flags_of[NOPT];
static int def[NOPT];
// the provider's parameters, as the config service delivers them
int wsrep::config_service_v1_fetch(wsrep::provider& p, wsrep::provider_options* o)
{
    wsym_assert(&p == pp, "options fetched from another provider");
    ++fetched;
    if (fetch_fails) return 1;
    for (int i = 0; i < NOPT; ++i)
    {
        const pstatus s = o->set_default(REAL[i], value(def[i]), value(def[i]), flags_of[i]);
        wsym_assert(s == wsrep::provider::success, "option not accepted");
        pp->has[REAL[i]] = TEXT[def[i]];
    }
    return 0;
}
static void check(PO& o, int n)
{
    int seen[NOPT] = { 0, 0, 0 };
    o.for_each([&](PO::option* x)
    {
        int k = -1;
        for (int i = 0; i < NOPT; ++i) if (std::string(x->name()) == NAME[i]) k = i;
        wsym_assert(k >= 0, "unknown option");
        ++seen[k];
        wsym_assert(o.get_option(x->name()) == x, "get_option and for_each disagree");
    });
    for (int i = 0; i < NOPT; ++i)
    {
        wsym_assert(seen[i] == (n ? 1 : 0), "for_each does not visit every option once");
        const PO::option* x = o.get_option(NAME[i]);
        wsym_assert((x != nullptr) == (n != 0), "option missing");
        if (!x) continue;
        wsym_assert(std::string(x->real_name()) == REAL[i] && std::string(x->name()) == NAME[i], "names of an option");
        wsym_assert(pp->has[REAL[i]] == x->value()->as_string(), "value differs from what the provider has");
        wsym_assert(std::string(x->default_value()->as_string()) == TEXT[def[i]], "default value changed");
        wsym_assert(x->flags() == flags_of[i], "flags changed");
    }
    wsym_assert(o.get_option("gcache.size") == nullptr && o.get_option("") == nullptr, "option under a name it does not have");
}
extern "C" void wsym_main()
{
    reset_world();
    server s("s", wsrep::server_state::rm_sync);
    oprov p(s);
    pp = &p;
    PO o(p);
    wsym_assert(o.get_option("plain") == nullptr, "fresh options");
    for (int i = 0; i < NOPT; ++i)
    {
        def[i] = i == 0 ? int(wsym_concretize(wsym_range("def", 0, 5))) : 5 - i;
        flags_of[i] = int(wsym_range("flags", 0, 31));
    }
    fetch_fails = int(wsym_concretize(wsym_range("fetch", 0, 1)));
    pstatus r = o.initial_options();
    wsym_assert(r == (fetch_fails ? wsrep::provider::error_not_implemented : wsrep::provider::success), "initial_options result");
    check(o, !fetch_fails);
    int have = !fetch_fails;
    for (int i = 0; i < STEPS; ++i)
    {
        const unsigned op = unsigned(wsym_concretize(wsym_range("op", 0, NOPT + 2)));
        const int calls = p.calls;
        if (op < NOPT)
        {
            const int k = int(wsym_concretize(wsym_range("value", 0, 5)));
            std::map<std::string, std::string> before(p.has);
            r = o.set(NAME[op], value(k));
            if (have)
            {
                wsym_assert(p.calls == calls + 1, "provider not asked exactly once");
                if (r == wsrep::provider::success) { before[REAL[op]] = TEXT[k]; wsym_cover("set"); }
                else wsym_cover("refused");
                wsym_assert(p.has == before, "set changed something else");
            }
            else wsym_assert(r == wsrep::provider::error_warning && p.calls == calls, "unknown option set");
        }
        else if (op == NOPT)
        {
            r = o.set("a.b.c", value(0));
            wsym_assert(r == wsrep::provider::error_warning && p.calls == calls, "unknown option set");
            wsym_cover("unknown");
        }
        else if (op == NOPT + 1)
        {
            // loading again starts over
            fetch_fails = int(wsym_concretize(wsym_range("fetch", 0, 1)));
            r = o.initial_options();
            wsym_assert(r == (fetch_fails ? wsrep::provider::error_not_implemented : wsrep::provider::success), "initial_options result");
            have = !fetch_fails;
            if (have) wsym_cover("again");
        }
        wsym_note("r", uint64_t(r));
        check(o, have);
    }
    wsym_cover("end");
}
