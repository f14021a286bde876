// A session with several commands and one transaction spanning them; aborts
// arrive anywhere, also while the session is idle or sending a result.
#include "world.hpp"
using namespace W;
#ifndef CMDS
#define CMDS 3
#endif
extern "C" void wsym_main()
{
    reset_world();
    server s("s", wsym_bool("rollback_mode_async") ? wsrep::server_state::rm_async : wsrep::server_state::rm_sync);
    s.go_synced();
    client c(s, wsrep::client_id(1), wsrep::client_state::m_local);
    c.open(c.id());
    w.k.replay = true; w.k.bf_result = true; w.k.co_enter = true; w.k.certify_ordered_fail = true;
    w.k.aborts = 1;
    uint64_t id = 0;
    bool in_trx = false;      // what the client believes
    bool told = false;        // client has been told that the transaction is gone
    bool kept = false;        // an error is pending since an earlier command
    bool committed = false, client_rolled_back = false;
    for (int i = 0; i < CMDS; ++i)
    {
        point(30);
        const bool keep = wsym_bool("keep_error");
        int r = c.before_command(keep);
        wsym_note("bc", uint64_t(r));
        if (r)
        {
            wsym_assert(in_trx && w.aborts_ok, "a command was refused without reason");
            wsym_assert(c.current_error() == wsrep::e_deadlock_error, "refused command without an error");
            wsym_assert(!c.transaction().active(), "command refused but the transaction was kept");
            told = true; in_trx = false;
            wsym_cover("refused_at_command");
            c.after_command_before_result();
            point(31);
            c.after_command_after_result();
            kept = keep && c.current_error() != wsrep::e_success;
            continue;
        }
        wsym_assert(!(in_trx && c.transaction().active() && c.transaction().state() == wsrep::transaction::s_executing) ||
                    T(id).rollbacks == 0, "a rolled back transaction keeps executing");
        if (c.current_error() != wsrep::e_success)
        {
            // error kept for the next command: that command does nothing
            wsym_assert((in_trx && w.aborts_ok && keep) || kept, "error without reason");

            c.after_command_before_result();
            point(32);
            c.after_command_after_result();
            kept = keep && c.current_error() != wsrep::e_success;
            wsym_assert(kept || c.transaction().active() || c.current_error() == wsrep::e_success, "error carried over to the next command");
            wsym_cover("error_kept");
            continue;
        }
        point(33);
        r = c.before_statement();
        if (r == 0)
        {
            if (!in_trx && !id)
            {
                id = c.begin(); in_trx = true; w.victim = &c;
                c.append_key(mkkey("a", "b"));
            }
            point(34);
            const unsigned what = in_trx ? pick("what", 3) : 0; // 0 write more, 1 commit, 2 roll back
            if (what == 1)
            {
                r = c.before_commit();
                if (!r)
                {
                    db_commit(c, c.transaction().ws_meta().seqno().get());
                    c.ordered_commit(); c.after_commit();
                    committed = true;
                }
            }
            else if (what == 2)
            {
                ++T(id).rollbacks;
                c.before_rollback(); c.after_rollback();
                client_rolled_back = true;
            }
            point(35);
            c.after_statement();
            wsym_note("err", uint64_t(c.current_error()));
            if (what == 1)
            {
                const bool ok = c.current_error() == wsrep::e_success;
                wsym_assert(ok == (T(id).commits == 1), "the client was told a different outcome than what the database did");
                if (!ok) told = true;
                committed = ok;
                in_trx = false;
                check_clean(c);
            }
            if (what == 2) in_trx = false;
        }
        else
        {
            wsym_assert(in_trx && w.aborts_ok, "a statement was refused without reason");
            wsym_cover("refused_at_statement");
        }
        if (in_trx && c.current_error() != wsrep::e_success) { told = true; in_trx = false; }
        point(36);
        c.after_command_before_result();
        wsym_note("err2", uint64_t(c.current_error()));
        if (in_trx && c.current_error() != wsrep::e_success)
        {
            told = true;
            in_trx = keep; // the error is delivered with a later command
        }
        point(37);
        c.after_command_after_result();
        kept = keep && c.current_error() != wsrep::e_success;
        wsym_assert(kept || c.transaction().active() || c.current_error() == wsrep::e_success, "error carried over to the next command");
        // a result that goes out as success means that the transaction is still there or aborted after it was sent
        point(38);
    }
    point(39);
    // whatever happened, a transaction the database rolled back was reported
    const bool was_in_trx = in_trx;
    c.close();
    w.victim = 0;
    if (id)
    {
        dbtrx& t(T(id));
        wsym_assert((t.commits == 1) == committed, "committed and the client does not know, or the reverse");
        wsym_assert(t.commits == 0 || !client_rolled_back, "rolled back by the client, yet committed");
        wsym_assert(t.commits == 1 || t.rollbacks > 0 || t.replays > 0, "neither committed nor rolled back");
        wsym_assert(!(w.aborts_ok && !committed && !client_rolled_back) || told || was_in_trx,
                    "the transaction vanished without the client being told");
        wsym_assert(!(w.aborts_ok && t.commits) || t.replays == 1, "an aborted transaction committed without replay");
        wsym_assert(t.released == 1, "provider handle not released exactly once");
    }
    check_slots_done("a place in the commit order was never released");
    check_clean(c);
    wsym_assert(c.state() == wsrep::client_state::s_quitting, "closed session not in quitting state");
    c.cleanup();
    wsym_cover("end");
}
