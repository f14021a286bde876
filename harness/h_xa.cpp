// One XA transaction: optional fragments, prepare, idle, then commit or
// rollback by the same session, or detach and finish by xid from another one;
// aborts anywhere, failures of certification and of finishing by xid.
#include "world.hpp"
using namespace W;
#ifndef ABORTS
#define ABORTS 1
#endif
static const char* XID = "xid";
static server* sp;
static hpsvc* ap;
// deliver what finishes the detached transaction to the applier
static int deliver(int64_t slot, uint64_t id, int flags)
{
    return ap->apply(wsrep::ws_handle(wsrep::transaction_id(id), (void*)1),
                     mkmeta(slot, sp->id(), id, wsrep::client_id(1), flags), wsrep::const_buffer());
}
extern "C" void wsym_main()
{
    reset_world();
    server s("s", wsym_bool("rollback_mode_async") ? wsrep::server_state::rm_async : wsrep::server_state::rm_sync);
    s.go_synced();
    sp = &s;
    client ac(s, wsrep::client_id(50), wsrep::client_state::m_high_priority);
    ac.open(ac.id());
    ac.before_command();
    hpsvc h(s, &ac, false);
    ap = &h;
    client c(s, wsrep::client_id(1), wsrep::client_state::m_local);
    c.open(c.id());
    c.before_command();
    const bool streaming = wsym_bool("streaming");
    if (streaming) c.enable_streaming(wsrep::streaming_context::row, 1);
    w.k.replay = true; w.k.bf_result = true; w.k.commit_by_xid = true; w.k.certify_xa = true;
#ifdef FAULTS
    w.k.storage = true; w.k.prepare_frag = true; w.k.append_data = true; w.k.rollback_event = true;
#endif
    w.k.aborts = ABORTS;
    const wsrep::xid xid(1, 2, 1, XID);
    int r = c.before_statement();
    uint64_t id = c.begin();
    dbtrx& t(T(id));
    w.victim = &c;
    c.svc.explicit_xa = true;
    c.assign_xid(xid);
    c.append_key(mkkey("a", "b"));
    c.svc.bytes = 1;
    r = c.after_row();
    wsym_assert(!streaming || r || t.frags_stored == 1, "fragment not stored");
    const int before = t.frags_stored;
    if (!r)
    {
        point(20);
        r = c.before_prepare();
        if (!r)
        {
            wsym_assert(t.frags_stored == before + 1, "prepare did not store a fragment");
            wsym_assert(s.p->sent_key('a', 'b'), "prepare fragment without the keys of the transaction");
            wsym_assert(wsrep::prepares_transaction(s.p->last_flags), "prepare fragment without the prepare flag");
            wsym_assert(!wsrep::commits_transaction(s.p->last_flags), "prepare fragment with the commit flag");
            wsym_assert(wsrep::starts_transaction(s.p->last_flags) == (before == 0), "start flag wrong on the prepare fragment");
            point(21);
            r = c.after_prepare();
        }
    }
    point(22);
    if (r) c.svc.explicit_xa = false;
    c.after_statement();
    const bool stmt_ok = c.current_error() == wsrep::e_success;
    wsym_assert(!r || !stmt_ok, "prepare failed without an error");
    if (stmt_ok) point(23);
    const bool attached_at_result = c.transaction().active();
    c.after_command_before_result();
    bool prepared = stmt_ok && c.current_error() == wsrep::e_success; // what the client is told
    wsym_note("prepared", prepared);
    if (c.transaction().active()) point(24);
    c.after_command_after_result();
    if (c.transaction().active()) point(25);
    if (!prepared)
    {
        wsym_cover("prepare_failed");
        wsym_assert(!c.transaction().active(), "transaction left open after a failed prepare");
        wsym_assert(t.commits == 0 && t.rollbacks > 0, "failed prepare not rolled back");
        wsym_assert(s.find_streaming_applier(xid) == 0 ||
                    w.rollback_events + w.rb_failed == 1, "a failed prepare left a prepared transaction behind");
        check_clean(c);
        check_slots_done("a place in the commit order was never released");
        wsym_exit();
    }
    wsym_assert(t.rollbacks == 0 && w.rollback_events == 0 && w.rb_failed == 0, "a prepared transaction was rolled back");
    // the prepared transaction lives in the session or in an applier
    bool attached = c.transaction().active();
    if (!attached || c.transaction().state() != wsrep::transaction::s_prepared)
        wsym_assert(w.aborts_ok > 0, "prepared transaction left the session without an abort");
    // -------- a statement the application refuses in this state
    if (attached && c.transaction().state() == wsrep::transaction::s_prepared && wsym_bool("refused_statement"))
    {
        r = c.before_command();
        wsym_assert(r == 0, "command refused without an abort");
        c.before_statement();
        point(29);
        c.after_statement();
        wsym_assert(c.current_error() == wsrep::e_success, "error for a statement the abort does not concern");
        point(30);
        c.after_command_before_result(); c.after_command_after_result();
        wsym_assert(t.rollbacks == 0 && w.rollback_events == 0 && w.rb_failed == 0, "a prepared transaction was rolled back");
    }
    // -------- next command
    r = c.before_command();
    if (r)
    {
        // an abort while idle, found by this command
        wsym_cover("replayed_by_next_command");
        c.after_command_before_result();
        c.after_command_after_result();
        r = c.before_command();
        wsym_assert(r == 0, "session unusable after its prepared transaction moved");
    }
    attached = c.transaction().active();
    wsym_assert(attached || s.find_streaming_applier(xid) != 0, "prepared transaction lost");
    wsym_assert(!attached || c.transaction().state() == wsrep::transaction::s_prepared || w.aborts_ok, "transaction no longer prepared");
    if (!attached)
    {
        wsym_cover("moved_to_applier");
        wsym_assert(w.unordered_replays == 1, "prepared transaction not rebuilt exactly once");
        wsym_assert(s.find_streaming_applier(xid)->transaction().state() == wsrep::transaction::s_prepared, "moved transaction is not prepared");
        check_clean(c);
    }
    c.before_statement();
    const unsigned how = pick("finish", 3); // 0 commit, 1 rollback, 2 detach
    point(26);
    if (attached && how == 0)
    {
        c.svc.data_empty = true;
        w.k.interrupted = true;
        r = c.before_commit();
        w.k.interrupted = false;
        if (r && c.svc.was_interrupted && !w.aborts_ok)
        {
            wsym_cover("interrupted");
            wsym_assert(c.current_error() == wsrep::e_interrupted_error && c.transaction().state() == wsrep::transaction::s_prepared,
                        "interrupting the commit of a prepared transaction did more than end the statement");
        }
        if (!r)
        {
            wsym_assert(wsrep::commits_transaction(s.p->last_flags) && !wsrep::prepares_transaction(s.p->last_flags) &&
                        !wsrep::starts_transaction(s.p->last_flags), "wrong flags on the commit of a prepared transaction");
            wsym_assert(s.p->last_flags & wsrep::provider::flag::pa_unsafe, "XA commit not marked unsafe for parallel applying");
            db_commit(c, c.transaction().ws_meta().seqno().get());
            r = c.ordered_commit();
            wsym_assert(r == 0, "ordered commit failed");
            r = c.after_commit();
            wsym_assert(r == 0, "after commit failed");
            wsym_assert(t.frags_removed == 1, "fragments of a committed transaction not removed");
        }
        point(27);
        c.after_statement();
        const bool ok = c.current_error() == wsrep::e_success;
        wsym_note("commit", ok);
        if (w.by_xid_commits)
        {
            wsym_assert(ok, "committed by xid, reported as failed");
            wsym_cover("replay_commit");
            check_clean(c);
            wsym_assert(s.find_streaming_applier(xid) != 0, "no applier for the commit by xid");
            r = deliver(new_slot(0), id, wsrep::provider::flag::commit);
            wsym_assert(r == 0, "commit by xid failed to apply");
        }
        else if (ok)
        {
            wsym_assert(t.commits == 1, "reported as committed, not committed");
            wsym_cover(t.replays ? "replay_committed" : "committed");
            check_clean(c);
        }
        else
        {
            wsym_assert(t.commits == 0, "commit reported as failed, yet committed");
            wsym_assert(c.transaction().active() ? c.transaction().state() == wsrep::transaction::s_prepared :
                        s.find_streaming_applier(xid) && s.find_streaming_applier(xid)->transaction().state() == wsrep::transaction::s_prepared,
                        "failed commit of a prepared transaction did not leave it prepared");
            wsym_assert(t.rollbacks == 0 && w.rollback_events == 0, "a prepared transaction was rolled back");
            wsym_cover("commit_failed_still_prepared");
            if (w.unordered_replays) wsym_exit();
            c.after_command_before_result(); c.after_command_after_result();
            w.k = knobs(); w.victim = 0;
            // the client retries
            r = c.before_command() || c.before_statement() || c.before_commit();
            wsym_assert(r == 0, "retried commit of a prepared transaction failed");
            db_commit(c, c.transaction().ws_meta().seqno().get());
            r = c.ordered_commit() || c.after_commit();
            wsym_assert(r == 0, "retried commit of a prepared transaction failed");
            c.after_statement();
            check_clean(c);
        }
        wsym_assert(t.commits == 1, "not committed");
    }
    else if (attached && how == 1)
    {
        c.svc.xa_rollback = true;
        ++t.rollbacks;
        c.before_rollback();
        point(28);
        c.after_rollback();
        c.after_statement();
        wsym_assert(c.current_error() == wsrep::e_success, "rollback of a prepared transaction failed");
        check_clean(c);
        wsym_assert(w.rollback_events + w.rb_failed == 1, "rollback of a prepared transaction not replicated exactly once");
        wsym_assert(s.find_streaming_applier(s.id(), wsrep::transaction_id(id)) != 0, "no applier for the rollback fragment");
        r = deliver(new_slot(0), id, wsrep::provider::flag::rollback);
        wsym_assert(r == 0 && t.commits == 0, "rollback failed to apply");
        wsym_cover("rolled_back");
    }
    else
    {
        if (attached)
        {
            if (c.transaction().state() != wsrep::transaction::s_prepared)
            {
                // aborted meanwhile: the command ends and moves it
                c.after_command_before_result(); c.after_command_after_result();
                wsym_assert(!c.transaction().active() && s.find_streaming_applier(xid), "prepared transaction lost");
                c.before_command();
            }
            else
            {
                w.victim = 0;
                c.xa_detach();
                wsym_assert(c.transaction().state() == wsrep::transaction::s_aborted && !c.transaction().active(), "detached transaction still in the session");
                c.after_statement();
                wsym_cover("detached");
            }
        }
        w.victim = 0;
        wsrep::high_priority_service* sa = s.find_streaming_applier(xid);
        wsym_assert(sa != 0, "detached transaction cannot be found by its xid");
        wsym_assert(s.find_streaming_applier(wsrep::xid(2, 2, 1, XID)) == 0 && s.find_streaming_applier(wsrep::xid(1, 1, 2, XID)) == 0,
                    "another xid finds the transaction");
        wsym_assert(sa->transaction().state() == wsrep::transaction::s_prepared, "detached transaction is not prepared");
        wsym_assert(sa->transaction().streaming_context().fragments().size() == size_t(t.frags_stored), "the applier taking over does not know all fragments");
        check_clean(c);
        wsym_assert(t.rollbacks == 0 && t.commits == 0, "detached transaction finished by itself");
        // another session finishes it
        client d(s, wsrep::client_id(2), wsrep::client_state::m_local);
        d.open(d.id());
        d.before_command(); d.before_statement();
        const uint64_t id2 = d.begin();
        d.svc.explicit_xa = true;
        d.assign_xid(xid);
        const bool commit = wsym_bool("finish_with_commit");
        w.by_xid_slot = 0;
        r = commit ? d.commit_by_xid(xid) : d.rollback_by_xid(xid);
        const pstatus cs = s.p->last_status;
        wsym_assert((r != 0) == (cs != wsrep::provider::success), "finishing by xid reported a different outcome than the provider");
        if (r)
        {
            wsym_assert(d.current_error() == wsrep::e_error_during_commit && d.current_error_status() == cs, "error of finishing by xid lost");
            wsym_assert(s.find_streaming_applier(xid) == sa && sa->transaction().state() == wsrep::transaction::s_prepared,
                        "failed finish by xid lost the transaction");
            wsym_cover("by_xid_failed");
            wsym_exit();
        }
        wsym_assert(d.transaction().state() == (commit ? wsrep::transaction::s_committed : wsrep::transaction::s_aborted),
                    "finishing by xid left the transaction in the wrong state");
        d.after_statement();
        wsym_assert(d.current_error() == wsrep::e_success, "finishing by xid failed");
        check_clean(d);
        wsym_assert(w.by_xid_slot > 0, "finishing by xid replicated for the wrong transaction");
        wsym_assert(wsrep::commits_transaction(s.p->last_flags) == commit && wsrep::rolls_back_transaction(s.p->last_flags) == !commit,
                    "wrong flags on finishing by xid");
        wsym_assert(s.p->last_flags & wsrep::provider::flag::pa_unsafe, "finishing by xid not marked unsafe for parallel applying");
        (void)id2;
        r = deliver(w.by_xid_slot, id, commit ? wsrep::provider::flag::commit : wsrep::provider::flag::rollback);
        wsym_assert(r == 0 && w.slots[w.by_xid_slot].st == sl_left, "finishing by xid failed to apply");
        wsym_assert(t.commits == (commit ? 1 : 0) && t.rollbacks == (commit ? 0 : 1), "finished by xid with another outcome");
        wsym_cover(commit ? "commit_by_xid" : "rollback_by_xid");
        d.after_command_before_result(); d.after_command_after_result();
        d.close(); d.cleanup();
    }
    w.victim = 0;
    wsym_assert(s.find_streaming_applier(xid) == 0 && s.svc.live_appliers.empty(), "applier of a finished XA transaction kept");
    wsym_assert(t.frags_removed > 0, "fragments of a finished XA transaction not removed");
    check_slots_done("a place in the commit order was never released");
    wsym_assert(w.st_alloc == w.st_release, "storage service not released");
    (void)attached_at_result;
    c.after_command_before_result(); c.after_command_after_result();
    // the session is usable
    w.k = knobs();
    c.svc.explicit_xa = false; c.svc.data_empty = false;
    r = c.before_command() || c.before_statement();
    wsym_assert(r == 0, "next command refused");
    c.disable_streaming();
    c.begin();
    r = c.before_commit();
    wsym_assert(r == 0, "next transaction cannot commit");
    db_commit(c, c.transaction().ws_meta().seqno().get());
    c.ordered_commit(); c.after_commit(); c.after_statement();
    wsym_assert(c.current_error() == wsrep::e_success, "next transaction failed");
    check_clean(c);
    c.after_command_before_result(); c.after_command_after_result();
    c.close(); c.cleanup();
    ac.after_command_before_result(); ac.after_command_after_result();
    ac.close(); ac.cleanup();
    wsym_cover("end");
}
