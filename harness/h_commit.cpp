// One local transaction through the commit protocol: every provider status,
// BF aborts at every unlocked point, one or two phase commit, rollback by the
// application, replay.
#include "world.hpp"
using namespace W;
#ifndef ABORTS
#define ABORTS 1
#endif
extern "C" void wsym_main()
{
    reset_world();
    server s("s", wsym_bool("rollback_mode_async") ? wsrep::server_state::rm_async : wsrep::server_state::rm_sync);
    s.go_synced();
    client c(s, wsrep::client_id(1), wsrep::client_state::m_local);
    c.open(c.id());
    w.k.certify = true; w.k.certify_ordered_fail = true; w.k.co_enter = true; w.k.replay = true;
    w.k.bf_result = true; w.k.prepare_data = true; w.k.interrupted = true;
    w.k.aborts = ABORTS;
    wsym_note("open", 1);
    int r = c.before_command();
    wsym_assert(r == 0, "fresh command refused");
    r = c.before_statement();
    wsym_assert(r == 0, "fresh statement refused");
    uint64_t id = c.begin();
    w.victim = &c;
    bool refused = false;
    w.k.append_key = true;
    {
        const wsrep::gtid rv(mkid(GROUP), wsrep::seqno(3));
        if (wsym_bool("read_view"))
        {
            r = c.assign_read_view(&rv);
            wsym_assert(s.p->n_read_view == 1 && s.p->read_view == rv, "read view not passed to the provider");
            wsym_assert((r != 0) == s.p->view_failed, "failure to assign the read view not reported");
            refused = r != 0;
        }
        r = c.append_key(mkkey("a", "b"));
        wsym_assert((r != 0) == s.p->key_failed, "failure to append a key not reported");
        if (r) refused = true;
        if (refused) wsym_cover("refused");
    }
    w.k.append_key = false;
    const unsigned mark = pick("mark", 3); // 0 none, 1 unsafe for parallel applying, 2 implicit dependencies
    if (mark == 1) c.mark_transaction_pa_unsafe();
    if (mark == 2) const_cast<wsrep::transaction&>(c.transaction()).implicit_deps(true);
    point(20);
    bool want_commit = !refused && !wsym_bool("client_rolls_back");
    bool ok = false, db_failed = false;
    if (want_commit)
    {
        bool two_pc = wsym_bool("two_phase");
        if (two_pc)
        {
            r = c.before_prepare();
            if (!r)
            {
                point(21);
                // the database fails to prepare
                if (wsym_bool("database_fails_to_prepare")) { r = 1; db_failed = true; }
                else r = c.after_prepare();
            }
            point(22);
        }
        if (!r) r = c.before_commit();
        if (!r)
        {
            db_commit(c, c.transaction().ws_meta().seqno().get());
            point(23);
            r = c.ordered_commit();
            wsym_assert(r == 0, "ordered commit failed");
            point(24);
            r = c.after_commit();
            wsym_assert(r == 0, "after commit failed");
            ok = true;
        }
        if (r && !db_failed) wsym_assert(c.transaction().state() == wsrep::transaction::s_must_replay || c.current_error() != wsrep::e_success,
                           "commit refused without an error");
        if (r && (db_failed || wsym_bool("rollback_after_failed_commit")))
        {
            ++T(id).rollbacks;
            c.before_rollback();
            point(25);
            c.after_rollback();
        }
    }
    else
    {
        c.before_rollback();
        ++T(id).rollbacks;
        point(26);
        c.after_rollback();
    }
    point(27);
    if (s.p->n_certify)
    {
        // what was replicated
        wsym_assert(s.p->sent_key('a', 'b') && s.p->sent.data == "1", "write set replicated without its keys or data");
        const int f = s.p->last_flags;
        wsym_assert(wsrep::starts_transaction(f) && wsrep::commits_transaction(f) && !wsrep::rolls_back_transaction(f) && !wsrep::prepares_transaction(f),
                    "wrong flags on the write set of a transaction");
        wsym_assert(((f & wsrep::provider::flag::pa_unsafe) != 0) == (mark == 1) &&
                    ((f & wsrep::provider::flag::implicit_deps) != 0) == (mark == 2), "marks of the transaction lost or invented in its write set");
    }
    int as = c.after_statement();
    w.victim = 0;
    dbtrx& t(T(id));
    wsym_note("result", uint64_t(c.current_error()));
    wsym_note("commits", uint64_t(t.commits));
    const enum wsrep::client_error err = c.current_error();
    if (want_commit)
    {
        wsym_assert((err == wsrep::e_success) == (t.commits == 1),
                    "the client was told a different outcome than what the database did");
        wsym_assert(ok == (t.commits == 1 && t.replays == 0), "own commit and database commit differ");
        if (t.commits) wsym_cover("committed"); else wsym_cover("not_committed");
        if (t.commits && t.replays) wsym_cover("committed_by_replay");
        if (t.commits == 0)
        {
            // which error the client sees
            const pstatus cs = s.p->last_status;
            const bool certified_called = s.p->n_certify == 1;
            if (t.cert_failed || t.replays)
                wsym_assert(err == wsrep::e_deadlock_error, "certification conflict not reported as deadlock");
            else if (!certified_called && w.aborts_ok && !w.data_failed)
                wsym_assert(err == wsrep::e_deadlock_error, "abort not reported as deadlock");
            else if (!certified_called && w.data_failed)
                wsym_assert(err == wsrep::e_size_exceeded_error &&
                            c.current_error_status() == wsrep::provider::error_size_exceeded,
                            "data preparation failure not reported as size error");
            else if (!certified_called)
                wsym_assert(err == wsrep::e_interrupted_error, "interruption not reported");
            else if (cs == wsrep::provider::error_connection_failed && w.aborts_ok)
                wsym_assert(err == wsrep::e_deadlock_error, "abort not reported as deadlock");
            else
                wsym_assert(err == wsrep::e_error_during_commit && c.current_error_status() == cs,
                            "provider failure not reported with its status");
        }
    }
    else
        wsym_assert(t.commits == 0, "rolled back transaction committed");
    wsym_assert((as != 0) == (err == wsrep::e_deadlock_error), "retry indication does not match the error");
    wsym_assert(!(w.aborts_ok && t.commits) || t.replays == 1, "an aborted transaction committed without replay");
    wsym_assert(t.replays <= 1 && c.svc.will == t.replays, "replayed more than once, or not announced");
    wsym_assert(!t.certified_ok || t.commits == 1, "a certified transaction was not committed");
    wsym_assert(t.released == 1, "provider handle not released exactly once");
    check_slots_done("a place in the commit order was never released");
    check_clean(c);
    wsym_assert(t.commits == 0 || t.order_from_replay || c.last_written_gtid().seqno().get() == t.commit_seqno,
                "last written GTID is not the committed transaction's");
    c.after_command_before_result();
    wsym_assert(c.current_error() == err, "error lost before the result was sent");
    c.after_command_after_result();
    wsym_assert(c.current_error() == wsrep::e_success, "error carried over to the next command");
    // the session can run the next transaction
    w.k = knobs();
    r = c.before_command() || c.before_statement();
    wsym_assert(r == 0, "next command refused");
    uint64_t id2 = c.begin();
    r = c.before_commit();
    wsym_assert(r == 0, "next transaction cannot commit");
    wsym_assert(s.p->last_flags == (wsrep::provider::flag::start_transaction | wsrep::provider::flag::commit) && !s.p->sent_key('a', 'b'),
                "the write set of the next transaction carries something of the previous one");
    db_commit(c, c.transaction().ws_meta().seqno().get());
    c.ordered_commit(); c.after_commit();
    r = c.after_statement();
    wsym_assert(r == 0 && c.current_error() == wsrep::e_success, "next transaction failed");
    wsym_assert(c.last_written_gtid().seqno().get() == T(id2).commit_seqno,
                "last written GTID is not the committed transaction's");
    check_clean(c);
    c.after_command_before_result(); c.after_command_after_result();
    c.close();
    c.cleanup();
    check_slots_done("a place in the commit order was never released");
}
