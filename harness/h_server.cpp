// Life of a server: connecting, state transfer in both directions, views,
// syncing, disconnecting and connecting again, for storage initialised before
// or after the state transfer, with other threads waiting for states.
#include "world.hpp"
#include <cerrno>
using namespace W;
#ifndef SPURIOUS
#define SPURIOUS 1
#endif
#ifndef EVENTS
#define EVENTS 4
#endif
#ifndef EVENTS2
#define EVENTS2 2
#endif
#ifndef PREEMPT
#define PREEMPT 1
#endif
#ifdef WAITER
static const bool full = false;    // waiting for states is what matters
#else
static const bool full = true;
#endif
typedef wsrep::server_state SS;
static server* sp;
static hpsvc* hp;
static int st;                       // state by the recorded changes
static int wt = -1, at = -1, wstate;          // waiting thread
static bool wreg, wpassed, wint, wdone;
static unsigned since;               // states seen since the wait began
static bool inited, finit, must_init;
static const char* const ok[9] = {   // documented changes, from row to column
    /*            d i I c J j D s x */
    /* dis   */  "010100000",
    /* ing   */  "101000001",
    /* ized  */  "100101001",
    /* conn  */  "100110011",
    /* jner  */  "110001001",
    /* jned  */  "100100111",
    /* donor */  "100101001",
    /* sync  */  "100101101",
    /* dcing */  "100000000" };
static void on_state(int f, int t)
{
    wsym_assert(f == st, "state change from a state the server was not in");
    wsym_assert(ok[f][t] == '1', "undocumented state change");
    st = t;
    if (t == SS::s_initializing) must_init = true;
    wsym_note("state", uint64_t(t));
    if (wt < 0 || wdone) return;
    since |= 1u << t;
    if (wsym_is_waiting(wt)) wreg = true;
    if (!wreg) return;
    if (t == wstate && !wint) wpassed = true;
    if (t == SS::s_disconnecting || t == SS::s_disconnected) wint = true;
}
static void waiter(void*)
{
    since = 1u << st;
    const int r = sp->wait_until_state((enum SS::state)(wstate));
    wdone = true;
    wsym_note("waited", uint64_t(r));
    if (r == 0)
    {
        wsym_assert(since & (1u << wstate), "released although the state was never reached");
        wsym_cover("waited");
    }
    else
    {
        wsym_assert(since & (1u << SS::s_disconnecting | 1u << SS::s_disconnected), "wait interrupted without disconnecting");
        wsym_assert(wstate != SS::s_disconnecting && wstate != SS::s_disconnected, "wait for disconnecting was interrupted");
        wsym_assert(!wpassed, "wait reported as interrupted although the state was reached");
        wsym_cover("interrupted");
    }
}
static void app(void*)
{
    // initialise the storage when told to
    if (sp->wait_until_state(SS::s_initializing)) { wsym_cover("init_interrupted"); return; }
    wsym_assert(!inited, "initialisation requested twice");
    inited = true;
    sp->initialized();
    finit = true;
}
// start a thread that begins by waiting
static void start(void (*fn)(void*), int& t)
{
    wsym_sched(0, 0);
    t = wsym_spawn(fn, 0);
    wsym_let_run(t);
    wsym_sched(PREEMPT, SPURIOUS);
}
static wsrep::view mk(int64_t seq, enum wsrep::view::status vs)
{
    if (vs == wsrep::view::disconnected)
        return wsrep::view(wsrep::gtid(mkid(GROUP), wsrep::seqno(seq)), wsrep::seqno(seq), vs, 0, -1, 0, std::vector<wsrep::view::member>());
    return sp->mkview(seq, vs, 0);
}
static void expect(int s, const char* msg) { wsym_assert(sp->state() == s && st == s, msg); }
extern "C" void wsym_main()
{
    reset_world();
    const bool first = wsym_bool("sst_before_init");
    server s("s", wsrep::server_state::rm_sync);
    sp = &s;
    s.svc.sst_first = first;
    w.on_state = on_state;
    w.k.sst = full;
    client ac(s, wsrep::client_id(50), wsrep::client_state::m_high_priority);
    ac.open(ac.id()); ac.before_command();
    hpsvc h(s, &ac, false);
    h.store_globals();
    client cc(s, wsrep::client_id(51), wsrep::client_state::m_local);
    cc.open(cc.id()); cc.before_command();
    wsym_sched(PREEMPT, SPURIOUS);
#ifdef WAITER
    wstate = int(pick("waited_state", 9));
    if (!first && (wstate == SS::s_initializing || wstate == SS::s_initialized) && wsym_bool("wait_early")) start(waiter, wt);
#endif
    if (!first)
    {
        s.initialized();
        inited = true;
        expect(SS::s_initialized, "not initialised");
    }
    bool disc = false, again = false, lost_donor = false;
    int recovers = 0, boots = 0;
    int64_t seq = 1;
    for (int round = 0; round < 2; ++round)
    {
        const unsigned bo = full ? pick("bootstrap", 3) : 0;
        const bool flag = bo == 1, empty = bo == 2;
        const int nc = s.p->n_connect;
        int r = s.connect("c", empty ? "gcomm://" : "gcomm://h", "", flag);
        wsym_assert(r == 0 && s.p->n_connect == nc + 1 && s.p->boot == (flag || empty), "provider not connected as asked");
        bool boot = flag || empty;
        const int64_t q = seq + 4;                     // position of the cluster
        s.on_connect(mk(q, wsrep::view::primary));
        expect(SS::s_connected, "not connected");
        wsym_assert(s.id() == mkid(OWN) && s.connected_gtid() == wsrep::gtid(mkid(GROUP), wsrep::seqno(q)), "identity or position not taken from the cluster");
        if (first && round == 0)
        {
            start(app, at);
        }
        bool seen_view = false, sst_pending = false, doomed = false, donor = false, recovered = false, synced_once = again;
        disc = false;
        const int nd = s.p->n_disconnect;
        for (int i = 0; i < (round ? EVENTS2 : EVENTS); ++i)
        {
            const int cur = s.state();
#ifdef WAITER
            if (wt < 0 && wsym_bool("wait_now")) start(waiter, wt);
#endif
            const bool busy = sst_pending || doomed;
            const bool can[8] = {
                !busy && !(disc && first && !finit),
                !busy && cur != SS::s_joiner && cur != SS::s_initializing && !(cur == SS::s_initialized && !seen_view),
                !busy && (cur == SS::s_joined || cur == SS::s_synced || disc ||
                          (cur == SS::s_connected && !seen_view && (!first || synced_once || !inited)) ||
                          (cur == SS::s_initialized && first && !synced_once && seen_view)),
                cur == SS::s_connected && !seen_view && !sst_pending,
                sst_pending && !doomed && !disc,
                (cur == SS::s_joined || cur == SS::s_synced) && !doomed && !donor,
                donor,
                !disc };
            unsigned menu[8], nmenu = 0;
            for (unsigned e = 0; e < 8; ++e) if (can[e]) menu[nmenu++] = e;
            if (!nmenu) break;
            switch (menu[pick("event", nmenu)])
            {
            case 0:  // primary view
            {
                const bool low = seq < q - 2 && wsym_bool("view_behind");
                seq = low ? seq + 1 : (seq < q ? q : seq + 1);
                const int b = s.svc.bootstraps, v = s.svc.views;
                s.on_view(mk(seq, wsrep::view::primary), hp = &h);
                wsym_assert(s.svc.views == v + 1 && s.current_view().state_id().seqno().get() == seq, "view not recorded");
                wsym_assert(s.svc.bootstraps == b + (boot ? 1 : 0), "bootstrap not done exactly once");
                boot = false;
                wsym_assert(s.is_initialized(), "primary view processed before the server was initialised");
                if (!recovered) { ++recovers; recovered = true; }
                if (cur == SS::s_disconnecting) expect(cur, "left the disconnecting state");
                else if (cur > SS::s_initialized && cur != SS::s_joiner && cur != SS::s_connected) expect(cur, "primary view changed the state");
                else if (low) expect(first && !(cur == SS::s_joiner) ? SS::s_initialized : SS::s_joiner, "joined without having the cluster's state");
                else { expect(SS::s_joined, "not joined although the cluster's state was reached"); wsym_cover("joined_by_view"); }
                seen_view = true;
                break;
            }
            case 1:  // non-primary view
            {
                const int v = s.svc.views;
                s.on_view(mk(++seq, wsrep::view::non_primary), &h);
                wsym_assert(s.svc.views == v + 1, "view not recorded");
                expect(cur == SS::s_disconnecting ? cur : SS::s_connected, "not connected in a non-primary view");
                if (donor) { lost_donor = true; }
                seen_view = true;
                wsym_cover("non_primary");
                break;
            }
            case 2:  // synced with the cluster
                if (cur == SS::s_joined || cur == SS::s_synced)
                {
                    s.on_sync();
                    expect(SS::s_synced, "not synced");
                }
                else if (cur == SS::s_disconnecting) { s.on_sync(); expect(cur, "left the disconnecting state"); }
                else if (cur == SS::s_connected)
                {
                    s.on_sync();
                    if (!first || synced_once) expect(SS::s_synced, "not synced");
                    else
                    {
                        wsym_assert(st == SS::s_initializing || st == SS::s_initialized, "seed node does not initialise");
                        wsym_cover("seed");
                    }
                }
                else { s.on_sync(); expect(SS::s_synced, "not synced"); }
                synced_once = again = true;
                wsym_cover("synced");
                break;
            case 3:  // state transfer requested
                {
                    const int n = s.svc.requested_sst;
                    std::string rq(s.prepare_for_sst());
                    wsym_assert(rq == "r" && s.svc.requested_sst == n + 1, "no state transfer request");
                    expect(SS::s_joiner, "not joiner");
                    sst_pending = true;
                }
                break;
            case 4:  // state transfer received
            {
                const int n = s.p->n_sst_received, v = s.svc.views;
                const bool had = inited;
                if (full && wsym_bool("sst_error"))
                {
                    r = s.sst_received(cc.svc, 5);
                    wsym_assert(s.p->n_sst_received == n + 1 && s.p->sst_error == 5 && s.p->sst_gtid.is_undefined(), "failed transfer not reported to the provider");
                    wsym_assert((r != 0) == s.p->sst_failed, "wrong result");
                    expect(SS::s_joiner, "failed state transfer changed the state");
                    wsym_assert(inited == had, "initialisation started after a failed transfer");
                    doomed = true;
                    wsym_cover("sst_failed");
                    break;
                }
                const unsigned kind = full ? pick("recovered_view", 4) : 0; // 0 usual, 1 none, 2 other group, 3 ahead
                const int64_t pos = q + int64_t(pick("position", full ? 3 : 2)) - 1;
                const wsrep::gtid pg(mkid(GROUP), wsrep::seqno(pos));
                s.svc.position = pg;
                s.svc.logged = kind == 1 ? wsrep::view() :
                    wsrep::view(wsrep::gtid(mkid(kind == 2 ? GROUP + 1 : GROUP), wsrep::seqno(kind == 3 ? pos + 1 : pos - 1)),
                                wsrep::seqno(1), wsrep::view::primary, 0, 0, 0, s.members);
                const wsrep::gtid old(s.current_view().state_id());
                const int rec = s.svc.recovers;
                r = s.sst_received(cc.svc, 0);
                wsym_note("sst_received", uint64_t(r));
                wsym_assert(inited && s.is_initialized(), "state transfer finished without initialisation");
                wsym_assert(s.p->n_sst_received == n + 1, "provider not told about the transfer exactly once");
                expect(pos >= q ? SS::s_joined : first && !had ? SS::s_initialized : SS::s_joiner,
                       pos >= q ? "not joined although the cluster's state was received" : "joined although the position is behind the cluster");
                if (kind >= 2)
                {
                    wsym_assert(r != 0 && s.p->sst_error == -EINTR && s.p->sst_gtid.is_undefined(), "bogus position accepted");
                    wsym_assert(s.current_view().state_id() == old, "view of a bogus transfer adopted");
                    doomed = true;
                    wsym_cover("bogus");
                }
                else
                {
                    wsym_assert((r != 0) == s.p->sst_failed && s.p->sst_error == 0 && s.p->sst_gtid == pg, "recovered position not handed to the provider");
                    wsym_assert(s.svc.recovers == rec + (recovered ? 0 : 1), "streaming transactions not recovered once");
                    if (!recovered) { ++recovers; recovered = true; }
                    if (kind == 0)
                        wsym_assert(s.current_view().state_id() == wsrep::gtid(mkid(GROUP), wsrep::seqno(pos - 1)) && s.svc.views == v + 1 &&
                                    s.current_view().own_index() == 0, "recovered view not adopted");
                    else wsym_assert(s.current_view().state_id() == old && s.svc.views == v, "empty recovered view adopted");
                    wsym_cover("sst_received");
                    if (r) doomed = true;
                }
                sst_pending = false;
                seen_view = true;
                if (pos > seq) seq = pos;
                break;
            }
            case 5:  // donate
            {
                const wsrep::gtid g(mkid(GROUP), wsrep::seqno(seq));
                r = s.start_sst("r", g, false);
                wsym_assert(s.svc.sst_state == SS::s_donor && s.svc.sst_gtid == g, "transfer started outside the donor state");
                if (r) expect(SS::s_joined, "failed donor did not return to joined");
                else { expect(SS::s_donor, "not donor"); donor = true; }
                wsym_cover(r ? "donor_failed" : "donor");
                break;
            }
            case 6:  // donation finished
            {
                const wsrep::gtid g(mkid(GROUP), wsrep::seqno(seq));
                const int e = full ? int(pick("sst_sent_error", 2)) * -7 : 0, n = s.p->n_sst_sent;
                s.sst_sent(g, e);
                wsym_assert(s.p->n_sst_sent == n + 1 && s.p->sst_gtid == g && s.p->sst_error == e, "end of the donation not handed to the provider");
                if (cur == SS::s_donor) expect(SS::s_joined, "donor did not return to joined");
                else { expect(cur, "end of a donation changed the state"); wsym_cover("donor_lost"); }
                donor = false;
                break;
            }
            default: // disconnect
                r = s.disconnect();
                wsym_assert(r == 0, "disconnect failed");
                wsym_assert(s.p->n_disconnect == nd + 1, "provider not disconnected exactly once");
                expect(SS::s_disconnecting, "not disconnecting");
                disc = true;
                wsym_cover("disconnecting");
                break;
            }
            wsym_assert(s.svc.recovers == recovers, "streaming transactions recovered at a wrong time");
        }
        // going down
        if (full && !disc && wsym_bool("disconnect")) { s.disconnect(); s.disconnect(); wsym_assert(s.p->n_disconnect == nd + 1, "provider not disconnected exactly once"); }
#ifdef WAITER
        if (wt < 0) start(waiter, wt);
#endif
        if (wt < 0 && (!first || finit) && round == 0 && wsym_bool("connect_again"))
        {
            s.on_view(mk(++seq, wsrep::view::disconnected), &h);
            expect(SS::s_disconnected, "not disconnected");
            wsym_assert(s.id().is_undefined(), "identity kept after disconnecting");
            wsym_assert(s.disconnect() == 0 && s.state() == SS::s_disconnected, "disconnecting again");
            wsym_cover("again");
            continue;
        }
        break;
    }
    s.disconnect();
    if (must_init && first) wsym_join(at);
    s.on_view(mk(++seq, wsrep::view::disconnected), &h);
    expect(SS::s_disconnected, "not disconnected");
    wsym_assert(s.id().is_undefined(), "identity kept after disconnecting");
    wsym_join_all();
    wsym_cover("end");
}
