// Streaming transactions of other servers being applied, and brute force aborts
// of them: between events and by a write set while it is applied.  The
// rollbacker gets to its work at once or any number of events later.
#include "world.hpp"
using namespace W;
#ifndef EVENTS
#define EVENTS 4
#endif
namespace F { enum { start = 1, commit = 2, rollback = 4, unsafe = 16 }; }
static const unsigned char R[2] = { 0x33, 0x22 };
enum ph { unseen, live, victim, gone };
struct model { ph st; int frags; hpsvc* sa; bool rolled_back; };
static model M[3];               // R0:7, R0:8, R1:7
static wsrep::id srv(int k) { return mkid(R[k == 2]); }
static uint64_t tid(int k) { return k == 1 ? 8 : 7; }
static dbtrx& D(int k) { return T(tkey(srv(k), wsrep::transaction_id(tid(k)))); }
static server* sp;
static hpsvc* hp;
static int n_bg, pending_bg, expect_bg;
static void on_bg(wsrep::client_state* c)
{
    ++n_bg;
    wsym_assert(expect_bg >= 0 && static_cast<client*>(c) == M[expect_bg].sa->c, "rollback asked for another transaction than the aborted one");
    wsym_assert(c->transaction().state() == wsrep::transaction::s_aborting, "aborted transaction handed over before it is aborting");
    wsym_assert(!sp->find_streaming_applier(srv(expect_bg), wsrep::transaction_id(tid(expect_bg))),
                "aborted transaction handed over while its applier can still be found");
    pending_bg = expect_bg;
}
// what the application's rollbacker thread does
static void rollbacker()
{
    const int k = pending_bg;
    pending_bg = -1;
    hpsvc* sa = M[k].sa;
    const void* ctx = w.ctx;
    wsym_set_self(88);
    sa->store_globals();
    wsym_assert(sa->transaction().state() == wsrep::transaction::s_aborting &&
                int(sa->transaction().streaming_context().fragments().size()) == M[k].frags,
                "aborted transaction changed before it was rolled back");
    wsrep::storage_service* st = sp->svc.storage_service(*sa);
    st->store_globals();
    st->adopt_transaction(sa->transaction());
    int r = st->remove_fragments();
    r = r || st->commit(wsrep::ws_handle(sa->transaction().id(), 0), wsrep::ws_meta());
    wsym_assert(r == 0, "fragments of the aborted transaction not removed");
    sp->svc.release_storage_service(st);
    sa->store_globals();
    r = sa->rollback(wsrep::ws_handle(), wsrep::ws_meta());
    wsym_assert(r == 0, "aborted transaction refuses to roll back");
    sa->after_apply();
    wsym_assert(!sa->transaction().active() && !sa->transaction().is_streaming(), "aborted transaction still there after its rollback");
    sp->svc.release_high_priority_service(sa);
    M[k].sa = 0;
    M[k].rolled_back = true;
    wsym_set_self(0);
    w.ctx = ctx;
    wsym_cover("rollbacker");
}
static void abort_one(int k)
{
    const int bg = n_bg;
    const bool total = wsym_bool("total_order");
    expect_bg = k;
    w.victim_marked = 0;
    const wsrep::seqno bs(new_slot(0, true));
    wsym_set_self(77);
    const int r = total ? M[k].sa->c->total_order_bf_abort(bs) : M[k].sa->c->bf_abort(bs);
    wsym_set_self(0);
    expect_bg = -1;
    wsym_note("abort", uint64_t(r));
    wsym_assert(!r || w.victim_marked == tid(k), "abort reported although the provider did not agree to it");
    wsym_assert(r || w.victim_marked == 0, "abort refused although the provider agreed to it");
    if (r)
    {
        wsym_assert(n_bg == bg + 1, "rollback of the aborted transaction not asked for exactly once");
        M[k].st = victim;
        wsym_cover("aborted");
        if (wsym_bool("rollbacker_now")) rollbacker();
    }
    else
    {
        wsym_assert(n_bg == bg, "rollback asked for although the abort was refused");
        wsym_assert(M[k].sa->transaction().state() == wsrep::transaction::s_executing && !M[k].sa->transaction().bf_aborted(),
                    "a refused abort changed the victim");
        wsym_cover("refused");
    }
    // and again: it is not rolled back twice
    if (r && M[k].sa)
    {
        expect_bg = -1;
        wsym_set_self(77);
        const int r2 = M[k].sa->c->bf_abort(wsrep::seqno(new_slot(0, true)));
        wsym_set_self(0);
        wsym_assert(r2 == 0 && n_bg == bg + 1, "aborted a second time");
    }
}
static int to_abort;
static void on_apply()
{
    if (to_abort < 0) return;
    const int k = to_abort;
    to_abort = -1;
    abort_one(k);
}
static void check_all()
{
    int alive = 0;
    for (int k = 0; k < 3; ++k)
    {
        wsrep::high_priority_service* sa = sp->find_streaming_applier(srv(k), wsrep::transaction_id(tid(k)));
        wsym_assert((sa != 0) == (M[k].st == live), "a streaming transaction is known that should not be, or is not known");
        alive += M[k].sa != 0;
        if (sa)
            wsym_assert(sa == M[k].sa && sa->transaction().server_id() == srv(k) && sa->transaction().id().get() == tid(k) &&
                        int(sa->transaction().streaming_context().fragments().size()) == M[k].frags &&
                        sa->transaction().state() == wsrep::transaction::s_executing && !sa->transaction().bf_aborted(),
                        "an abort changed another streaming transaction");
        if (M[k].st == live || M[k].st == unseen)
            wsym_assert(D(k).commits + D(k).rollbacks + D(k).frags_removed == 0, "an open transaction was finished");
        if (M[k].rolled_back)
            wsym_assert(D(k).commits == 0 && D(k).rollbacks == 1 && D(k).frags_removed >= 1, "aborted transaction not rolled back exactly once with its fragments");
    }
    wsym_assert(int(sp->svc.live_appliers.size()) == alive, "streaming applier leaked or released early");
    wsym_assert(w.st_alloc == w.st_release, "storage service not released");
    wsym_assert(w.rollback_events == 0, "rollback of another server's transaction replicated");
    wsym_assert(w.ctx == hp, "the applier's own execution context was not restored");
    wsym_assert(!hp->c->transaction().active(), "transaction left open in the applier");
}
extern "C" void wsym_main()
{
    reset_world();
    server s("s", wsym_bool("rollback_mode_async") ? wsrep::server_state::rm_async : wsrep::server_state::rm_sync);
    sp = &s;
    s.members.push_back(wsrep::view::member(mkid(R[0]), "r0", ""));
    s.members.push_back(wsrep::view::member(mkid(R[1]), "r1", ""));
    s.go_synced();
    client ac(s, wsrep::client_id(50), wsrep::client_state::m_high_priority);
    ac.open(ac.id());
    ac.before_command();
    hpsvc h(s, &ac, false);
    hp = &h;
    h.store_globals();
    w.track_ctx = true;
    w.on_bg = on_bg;
    w.on_apply = on_apply;
    w.k.bf_result = true;
    for (int k = 0; k < 3; ++k) { M[k] = model(); M[k].st = unseen; }
    pending_bg = expect_bg = to_abort = -1;
    n_bg = 0;
    // one transaction is always there
    for (int i = 0; i < EVENTS; ++i)
    {
        // 0 first fragment, 1 fragment, 2 commit, 3 rollback, 4 abort, 5 whole transaction aborting one
        const unsigned kind = i == 0 ? 0 : pick("event", 6);
        const int k = i == 0 ? 0 : int(pick("trx", 3));
        const ph was = M[k].st;
        if (kind == 0 && was != unseen) return;
        if (kind != 0 && was == unseen) return;
        if ((kind == 4 || kind == 5) && was != live) return;
        if ((kind == 4 || kind == 5) && pending_bg >= 0) return; // one abort at a time
        dbtrx& t(D(k));
        const int dummies = w.dummy_ws, stored = t.frags_stored, removed = t.frags_removed, rolled = t.rollbacks;
        if (kind == 4) abort_one(k);
        else
        {
            const int flags = kind == 0 ? F::start : kind == 1 ? 0 : kind == 2 ? F::commit | F::unsafe :
                kind == 3 ? F::rollback | F::unsafe : F::start | F::commit;
            const int64_t sq = new_slot(0);
            const uint64_t id = kind == 5 ? 20 + uint64_t(i) : tid(k);
            const wsrep::id src(kind == 5 ? mkid(R[0]) : srv(k));
            if (kind == 5) to_abort = k;
            const int r = h.apply(wsrep::ws_handle(wsrep::transaction_id(id), (void*)1),
                                  mkmeta(sq, src, id, wsrep::client_id(9), flags), wsrep::const_buffer("x", 1));
            wsym_assert(r == 0, "event failed to apply");
            wsym_assert(w.slots[sq].st == sl_left && w.slots[sq].errsize == 0, "event handled without passing its place in the commit order, or with an error");
            if (kind == 5)
            {
                wsym_assert(T(tkey(src, wsrep::transaction_id(id))).commits == 1, "the aborting transaction did not commit");
                wsym_cover("aborted_while_applying");
            }
            else if (kind == 0)
            {
                M[k].st = live; M[k].frags = 1;
                M[k].sa = static_cast<hpsvc*>(s.find_streaming_applier(srv(k), wsrep::transaction_id(tid(k))));
                wsym_assert(M[k].sa != 0, "no applier for a streaming transaction");
            }
            else if (was != live)
            {
                // the transaction is gone already: the event only passes
                wsym_assert(w.dummy_ws == dummies + 1, "event of an aborted transaction not skipped");
                wsym_assert(t.commits == 0 || was == gone, "aborted transaction committed");
                wsym_assert(t.frags_stored == stored && t.frags_removed == removed && t.rollbacks == rolled,
                            "event of an aborted transaction changed something");
                wsym_cover("skipped");
            }
            else if (kind == 1) ++M[k].frags;
            else
            {
                wsym_assert(t.frags_removed == 1 && t.commits == (kind == 2) && t.rollbacks == (kind == 3), "streaming transaction not finished");
                M[k].st = gone; M[k].sa = 0;
            }
        }
        check_all();
        if (pending_bg >= 0 && wsym_bool("rollbacker")) { rollbacker(); check_all(); }
    }
    // membership changes while an aborted transaction may still wait for its rollback
    const unsigned v = pick("view", 3);   // 0 nothing, 1 the first server leaves, 2 this server leaves
    const bool late = pending_bg >= 0 && wsym_bool("rollbacker_last");
    if (pending_bg >= 0 && !late) { rollbacker(); check_all(); }
    if (v)
    {
        s.members.clear();
        if (v == 1)
        {
            s.members.push_back(wsrep::view::member(mkid(OWN), "own", ""));
            s.members.push_back(wsrep::view::member(mkid(R[1]), "r1", ""));
        }
        wsrep::view vw(s.mkview(100, v == 1 ? wsrep::view::primary : wsrep::view::disconnected, v == 1 ? 0 : -1));
        s.on_view(vw, &h);
        for (int k = 0; k < 3; ++k)
            if (M[k].st == live && (v == 2 || k != 2))
            {
                wsym_assert(D(k).rollbacks == 1 && D(k).frags_removed == (v == 1), "streaming transaction not closed by the view");
                M[k].st = gone; M[k].sa = 0;
            }
        check_all();
        if (late) wsym_cover("view_before_rollback");
    }
    if (late) { rollbacker(); check_all(); }
    check_slots_done("a place in the commit order was never released");
    for (int k = 0; k < 3; ++k)
        wsym_assert(M[k].st != victim || M[k].rolled_back, "aborted transaction never rolled back");
    wsym_cover("end");
    wsym_exit();
}
