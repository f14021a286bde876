// A client session against real concurrent threads: another thread aborting
// its transaction (or, with VIEW, a view handler closing streaming
// transactions), and the thread that rolls back idle victims.
#include "world.hpp"
using namespace W;
#ifndef SPURIOUS
#define SPURIOUS 1
#endif
#ifndef PREEMPT
#define PREEMPT 1
#endif
static server* sp;
static client* cp;
static hpsvc* hp;
// ---- background rollbacker
static wsrep::default_mutex* rm;
static wsrep::default_condition_variable* rcv;
static client* todo;
static bool stop;
static void on_bg(wsrep::client_state* c)
{
    wsrep::unique_lock<wsrep::mutex> l(*rm);
    wsym_assert(!todo, "two background rollbacks for one session");
    todo = static_cast<client*>(c);
    rcv->notify_all();
}
static bool rolling;
static void rollbacker(void*)
{
    for (;;)
    {
        client* c;
        {
            wsrep::unique_lock<wsrep::mutex> l(*rm);
            while (!todo && !stop) rcv->wait(l);
            if (!todo) return;
            c = todo;
            todo = 0;
        }
        rolling = true;
        c->acquire_ownership();
        wsym_assert(c->transaction().state() == wsrep::transaction::s_aborting, "background rollback of a transaction in a wrong state");
        ++T(c->transaction().id().get()).rollbacks;
        c->before_rollback();
        wsym_yield("rollback");
        c->after_rollback();
        rolling = false;
        c->sync_rollback_complete();
        wsym_cover("background_rollback");
    }
}
static int aborted_ok = -1;
static bool to;
static void aborter(void*)
{
    wsrep::seqno bs(new_slot(0, true));
    to = wsym_bool("total_order");
    const uint64_t vid = cp->cur;
    w.victim_marked = 0;
    const int r = to ? cp->total_order_bf_abort(bs) : cp->bf_abort(bs);
    wsym_note("aborted", uint64_t(r));
    wsym_assert(!r || w.victim_marked == vid, "abort reported although the provider did not agree to it");
    aborted_ok = r;
    if (r && to) w.to_aborted = true;
    if (r) wsym_cover("bf_aborted");
}
static bool view_done;
static void viewer(void*)
{
    hp->store_globals();
    hp->c->acquire_ownership();
    sp->on_view(sp->mkview(2, wsrep::view::primary, 0), hp);
    view_done = true;
    wsym_cover("view");
}
static void at(int) { wsym_yield("point"); }

extern "C" void wsym_main()
{
    reset_world();
    server s("s", wsym_bool("rollback_mode_async") ? wsrep::server_state::rm_async : wsrep::server_state::rm_sync);
    sp = &s;
    s.go_synced();
    wsrep::default_mutex m; wsrep::default_condition_variable cv;
    rm = &m; rcv = &cv;
    client c(s, wsrep::client_id(1), wsrep::client_state::m_local);
    cp = &c;
    c.open(c.id());
    client ac(s, wsrep::client_id(50), wsrep::client_state::m_high_priority);
    ac.open(ac.id()); ac.before_command();
    hpsvc h(s, &ac, false);
    hp = &h;
    w.on_bg = on_bg;
    const bool streaming =
#ifdef STREAM
        true;
#else
        false;
#endif
    // first command: the transaction begins (and replicates a fragment)
    c.before_command(); c.before_statement();
    if (streaming) c.enable_streaming(wsrep::streaming_context::row, 1);
    const uint64_t id = c.begin();
    c.append_key(mkkey("a", "b"));
    int r;
    if (streaming)
    {
        c.svc.bytes = 1;
        r = c.after_row();
        wsym_assert(r == 0 && T(id).frags_stored == 1, "fragment failed");
    }
    // from here on the other threads run
    w.on_point = at;
    w.k.bf_result = true; w.k.certify_few = true; w.k.certify_ordered_fail = true;
    wsym_sched(PREEMPT, SPURIOUS);
    wsym_spawn(rollbacker, 0);
#ifdef VIEW
    wsym_spawn(viewer, 0);
#else
    wsym_spawn(aborter, 0);
#endif
    bool told = false, committed = false, tried = false, rolled = false;
    const bool same = wsym_bool("one_command");
    bool refused = false;
    if (!same)
    {
        c.after_statement();
        told = c.current_error() != wsrep::e_success;
        c.after_command_before_result();
        told = told || c.current_error() != wsrep::e_success;
        c.after_command_after_result();
        wsym_yield("idle");
        const bool wait = wsym_bool("wait_first");
        if (wait) c.wait_rollback_complete_and_acquire_ownership();
        wsym_assert(!rolling || c.state() == wsrep::client_state::s_idle, "session runs while its transaction is being rolled back in the background");
        r = c.before_command();
        wsym_assert(!rolling, "session runs while its transaction is being rolled back in the background");
        if (r) { told = refused = true; wsym_assert(c.current_error() == wsrep::e_deadlock_error, "refused command without an error"); }
        else if (c.transaction().active())
        {
            r = c.before_statement();
            if (r) refused = true;
        }
        else refused = true;   // it learned about the end with the first command
    }
    if (!refused)
    {
        const unsigned what = pick("what", streaming ? 3 : 2);    // commit, roll back, one more fragment
        if (what == 2) { c.svc.bytes = 2; r = c.after_row(); }
        if (what == 1)
        {
            rolled = true;
            ++T(id).rollbacks;
            c.before_rollback();
            wsym_yield("rollback");
            c.after_rollback();
        }
        else if (what == 0 || r == 0)
        {
            tried = true;
            r = c.before_commit();
            if (!r)
            {
                db_commit(c, c.transaction().ws_meta().seqno().get());
                wsym_yield("committing");
                r = c.ordered_commit();
                wsym_assert(r == 0, "ordered commit failed");
                r = c.after_commit();
                wsym_assert(r == 0, "after commit failed");
                committed = true;
            }
        }
        c.after_statement();
        wsym_note("err", uint64_t(c.current_error()));
        if (c.current_error() != wsrep::e_success) told = true;
        if (tried) wsym_assert((c.current_error() == wsrep::e_success) == (T(id).commits == 1), "the client was told a different outcome than what the database did");
    }
    c.after_command_before_result();
    if (c.current_error() != wsrep::e_success) told = true;
    c.after_command_after_result();
    wsym_assert(!c.transaction().active(), "transaction still open");
    wsym_join(2);                     // aborter or view handler
    {
        wsrep::unique_lock<wsrep::mutex> l(m);
        stop = true;
        cv.notify_all();
    }
    wsym_join_all();
    dbtrx& t(T(id));
    wsym_note("commits", uint64_t(t.commits * 4 + t.rollbacks));
    wsym_assert(t.commits == 1 || t.rollbacks - t.app_rollbacks == 1 || t.replays > 0, "neither committed nor rolled back exactly once");
    wsym_assert(t.commits == 0 || t.rollbacks == 0 || t.replays == 1, "committed and rolled back");
    wsym_assert(!(t.commits && rolled), "rolled back by the client, yet committed");
    wsym_assert(t.commits || rolled || told, "the transaction vanished without the client being told");
    wsym_assert(!(aborted_ok == 1 && t.commits) || t.replays == 1, "an aborted transaction committed without replay");
    wsym_assert(t.commits == 0 || committed || t.replays == 1, "committed behind the session's back");
    wsym_cover(t.commits ? "committed" : "not_committed");
    check_clean(c);
    check_slots_done("a place in the commit order was never released");
    wsym_assert(w.st_alloc == w.st_release, "storage service not released");
    if (streaming)
    {
        w.k = knobs(); w.on_point = 0;
        wsrep::high_priority_service* sa = s.find_streaming_applier(s.id(), wsrep::transaction_id(id));
        wsym_note("rb", uint64_t(w.rollback_events));
        if (t.commits)
            wsym_assert(!sa && w.rollback_events == 0 && t.frags_removed > 0, "committed transaction left something behind");
        else
        {
            wsym_assert(w.rollback_events <= 1, "rollback replicated twice");
            if (w.rollback_events == 0)
            {
                // only after a total order abort: cleaned up locally
                wsym_assert(t.frags_removed > 0, "fragments left behind");
                wsym_assert(!sa, "applier left behind without a rollback write set");
                wsym_cover("cleaned_locally");
            }
            else
            {
                h.store_globals(); ac.acquire_ownership();
                r = h.apply(wsrep::ws_handle(wsrep::transaction_id(id), (void*)1),
                            mkmeta(new_slot(uint64_t(-2)), s.id(), id, c.id(), wsrep::provider::flag::rollback), wsrep::const_buffer());
                wsym_assert(r == 0, "rollback write set failed to apply");
                wsym_assert(t.frags_removed > 0, "fragments left behind");
                wsym_cover("cleaned_by_rollback");
            }
        }
        wsym_assert(s.svc.live_appliers.empty(), "streaming applier leaked");
    }
    // the session works
    w.k = knobs(); w.on_point = 0;
    c.before_command(); c.before_statement();
    c.disable_streaming();
    const uint64_t id2 = c.begin();
    c.append_key(mkkey("a", "b"));
    r = c.before_commit();
    wsym_assert(r == 0, "session cannot commit afterwards");
    db_commit(c, c.transaction().ws_meta().seqno().get());
    c.ordered_commit(); c.after_commit(); c.after_statement();
    wsym_assert(T(id2).commits == 1 && c.current_error() == wsrep::e_success, "session cannot commit afterwards");
    wsym_cover("end");
}
