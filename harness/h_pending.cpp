// Rollback write sets that could not be replicated are queued and replicated
// later: in order, exactly once, and before anything else this server replicates.
#include "world.hpp"
using namespace W;
#ifndef STEPS
#define STEPS 4
#endif
enum { N = 3 };
static uint64_t q[16];
static int qn, fails;
static int sent[MAXTRX];
static bool gone[MAXTRX];        // transaction has been rolled back
static void on_rb(uint64_t id, bool ok)
{
    wsym_note(ok ? "rb_sent" : "rb_refused", id);
    wsym_assert(id > 0 && id < MAXTRX && gone[id], "rollback replicated for a transaction that was not rolled back");
    wsym_assert(!sent[id], "rollback replicated twice");
    bool queued = false;
    for (int i = 0; i < qn; ++i) if (q[i] == id) queued = true;
    if (queued) wsym_assert(q[0] == id, "pending rollbacks replicated out of order");
    if (!ok)
    {
        ++fails;
        if (!queued) { q[qn++] = id; wsym_cover("queued"); if (qn > 1) wsym_cover("two_queued"); }
        else wsym_cover("flush_failed");
        return;
    }
    ++sent[id];
    if (queued) { for (int i = 1; i < qn; ++i) q[i - 1] = q[i]; --qn; wsym_cover("flushed"); }
}
static bool xa_commits;       // a prepared transaction conflicts with nothing and need not wait
static void at(int where)
{
    if (where == 6 && !w.in_storage && !xa_commits) wsym_assert(qn == 0, "write set replicated ahead of pending rollbacks");
}
static void begin_frag(client& c)
{
    c.before_command(); c.before_statement();
    c.enable_streaming(wsrep::streaming_context::row, 1);
    const uint64_t id = c.begin();
    c.svc.bytes = 1;
    c.append_key(mkkey("a", "b"));
    int r = c.after_row();
    wsym_assert(r == 0 && T(id).frags_stored == 1, "fragment failed");
    c.after_statement(); c.after_command_before_result(); c.after_command_after_result();
}
extern "C" void wsym_main()
{
    reset_world();
    server s("s", wsym_bool("rollback_mode_async") ? wsrep::server_state::rm_async : wsrep::server_state::rm_sync);
    s.go_synced();
    client c1(s, wsrep::client_id(1), wsrep::client_state::m_local), c2(s, wsrep::client_id(2), wsrep::client_state::m_local),
        c3(s, wsrep::client_id(3), wsrep::client_state::m_local), p(s, wsrep::client_id(4), wsrep::client_state::m_local);
    client* c[N] = { &c1, &c2, &c3 };
    bool open[N], told[N];
    for (int i = 0; i < N; ++i) { c[i]->open(c[i]->id()); begin_frag(*c[i]); open[i] = true; told[i] = true; }
    p.open(p.id());
    // a prepared transaction
    client x(s, wsrep::client_id(5), wsrep::client_state::m_local);
    x.open(x.id());
    bool xopen = true;
    {
        x.before_command(); x.before_statement();
        x.begin();
        x.svc.explicit_xa = true;
        x.assign_xid(wsrep::xid(1, 3, 1, "pen"));
        x.append_key(mkkey("x", "a"));
        x.svc.bytes = 1;
        int r = x.after_row() || x.before_prepare() || x.after_prepare();
        wsym_assert(r == 0, "prepare failed");
        x.after_statement(); x.after_command_before_result(); x.after_command_after_result();
        x.svc.data_empty = true;
    }
    w.on_rb = on_rb; w.on_point = at;
    int next = 0;                    // sessions end in order
    bool frag_used = false;
    for (int step = 0; step < STEPS; ++step)
    {
        w.k.rollback_event = true;
        fails = 0;
        const int before = qn;
        switch (pick("step", xopen ? 5 : 4))
        {
        case 0:     // a streaming transaction ends without committing
        {
            if (next == N) { wsym_exit(); }
            client& v(*c[next]);
            open[next] = false;
            gone[v.cur] = true;
            if (wsym_bool("aborted"))
            {
                wsym_set_self(77);
                int r = v.bf_abort(wsrep::seqno(new_slot(0, true)));
                wsym_set_self(0);
                wsym_assert(r, "idle session could not be aborted");
                told[next] = false;
                wsym_cover("aborted");
            }
            else
            {
                v.before_command(); v.before_statement();
                ++T(v.cur).rollbacks;
                v.before_rollback(); v.after_rollback();
                v.after_statement(); v.after_command_before_result(); v.after_command_after_result();
                check_clean(v);
            }
            ++next;
            wsym_assert(sent[v.cur] + (qn > before ? 1 : 0) == 1, "rollback neither replicated nor queued");
            break;
        }
        case 1:     // the server syncs
            s.on_sync();
            wsym_assert(fails || qn == 0, "pending rollbacks not replicated by a sync");
            break;
        case 2:     // an ordinary transaction commits
        {
            p.before_command(); p.before_statement();
            const uint64_t id = p.begin();
            p.append_key(mkkey("a", "b"));
#ifdef ABORT
            w.victim = &p; w.k.aborts = 1;
#endif
            int r = p.before_commit();
            w.victim = 0;
            wsym_assert((r != 0) == (fails > 0) || w.aborts_ok, "commit outcome does not match that of the pending rollbacks");
            if (r == 0)
            {
                db_commit(p, p.transaction().ws_meta().seqno().get());
                p.ordered_commit(); p.after_commit();
                wsym_cover("committed");
            }
            else wsym_cover("commit_refused");
            p.after_statement();
            wsym_assert((p.current_error() == wsrep::e_success) == (T(id).commits == 1) &&
                        (r == 0 || T(id).commits || p.current_error() == wsrep::e_deadlock_error), "wrong error");
            p.after_command_before_result(); p.after_command_after_result();
            check_clean(p);
            break;
        }
        case 4:     // the prepared transaction commits
        {
            x.before_command(); x.before_statement();
            xa_commits = true;
            int r = x.before_commit();
            xa_commits = false;
            wsym_assert(r == 0, "commit of a prepared transaction refused because of pending rollbacks");
            db_commit(x, x.transaction().ws_meta().seqno().get());
            r = x.ordered_commit() || x.after_commit();
            wsym_assert(r == 0, "commit of a prepared transaction failed");
            x.after_statement();
            wsym_assert(x.current_error() == wsrep::e_success, "commit of a prepared transaction reported as failed");
            check_clean(x);
            x.after_command_before_result(); x.after_command_after_result();
            xopen = false;
            wsym_cover(fails ? "xa_committed_anyway" : "xa_committed");
            break;
        }
        default:    // another streaming transaction wants to replicate a fragment
        {
            if (next == N || frag_used) { wsym_exit(); }
            frag_used = true;
            client& v(*c[N - 1]);
            if (!open[N - 1]) wsym_exit();
            v.before_command(); v.before_statement();
            v.svc.bytes = 2;
            gone[v.cur] = true;      // if it fails it is rolled back and its own event goes out too
            const int stored = T(v.cur).frags_stored;
            int r = v.after_row();
            if (r == 0)
            {
                gone[v.cur] = false;
                wsym_assert(T(v.cur).frags_stored == stored + 1 && !fails, "fragment not replicated");
                wsym_cover("fragment");
            }
            else
            {
                wsym_assert(fails > 0, "fragment failed without reason");
                wsym_assert(T(v.cur).frags_stored == stored, "fragment replicated ahead of pending rollbacks");
                wsym_cover("fragment_refused");
            }
            v.after_statement();
            if (r)
            {
                wsym_assert(v.current_error() == wsrep::e_deadlock_error, "wrong error");
                bool queued = false;
                for (int i = 0; i < qn; ++i) if (q[i] == v.cur) queued = true;
                wsym_assert(sent[v.cur] + queued == 1, "rollback neither replicated nor queued");
            }
            v.after_command_before_result(); v.after_command_after_result();
            if (r) { check_clean(v); open[N - 1] = false; wsym_assume(next < N); if (next == N - 1) next = N; else { w.k = knobs(); goto finish; } }
            break;
        }
        }
    }
finish:
    w.k = knobs();
    s.on_sync();
    wsym_assert(qn == 0, "pending rollbacks lost or not replicated");
    // the sessions learn about their aborts
    for (int i = 0; i < N; ++i)
        if (!told[i])
        {
            int r = c[i]->before_command();
            wsym_assert(r && c[i]->current_error() == wsrep::e_deadlock_error, "client not told about the abort");
            c[i]->after_command_before_result(); c[i]->after_command_after_result();
            check_clean(*c[i]);
        }
    // delivery
    w.on_point = 0;
    client ac(s, wsrep::client_id(50), wsrep::client_state::m_high_priority);
    ac.open(ac.id());
    ac.before_command();
    hpsvc h(s, &ac, false);
    for (int i = 0; i < N; ++i)
    {
        const uint64_t id = c[i]->cur;
        if (!gone[id]) { wsym_assert(!sent[id], "rollback replicated for an open transaction"); continue; }
        wsym_assert(sent[id] == 1, "rollback not replicated exactly once");
        int r = h.apply(wsrep::ws_handle(wsrep::transaction_id(id), (void*)1),
                        mkmeta(new_slot(uint64_t(-2)), s.id(), id, c[i]->id(), wsrep::provider::flag::rollback), wsrep::const_buffer());
        wsym_assert(r == 0 && T(id).frags_removed == 1, "fragments not removed by the rollback write set");
        wsym_assert(!s.find_streaming_applier(s.id(), wsrep::transaction_id(id)), "applier left behind");
    }
    wsym_assert(s.svc.live_appliers.empty(), "streaming applier leaked");
    check_slots_done("a place in the commit order was never released");
    wsym_cover("end");
    wsym_exit();
}
