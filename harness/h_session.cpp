// A session over its whole life: reads waiting for the cluster, transactions,
// isolated operations, ending in any state, and being opened again.
#include "world.hpp"
using namespace W;
#ifndef CMDS
#define CMDS 3
#endif
static wsrep::gtid gt(int64_t s) { return wsrep::gtid(mkid(GROUP), wsrep::seqno(s)); }
static bool same(const wsrep::gtid& g, int64_t s) { return s ? g == gt(s) : g.is_undefined(); }
extern "C" void wsym_main()
{
    reset_world();
    server s("s", wsrep::server_state::rm_sync);
    s.go_synced();
    client c(s, wsrep::client_id(1), wsrep::client_state::m_local);
    prov& p(P(s));
    int64_t written = 0;             // position the session wrote last
    bool open = false, in_trx = false, streaming = false;
    uint64_t id = 0;
    int rb_expected = 0, lives = 0;
    for (int i = 0; i < CMDS; ++i)
    {
        if (!open)
        {
            if (lives++ && !wsym_bool("open_again")) break;
            c.open(wsrep::client_id(uint64_t(lives)));
            open = true; written = 0;
            wsym_assert(c.id() == wsrep::client_id(uint64_t(lives)) && c.state() == wsrep::client_state::s_idle, "session not open");
            wsym_assert(c.last_written_gtid().is_undefined() && c.sync_wait_gtid().is_undefined(), "positions of an earlier session");
            wsym_assert(c.current_error() == wsrep::e_success, "error of an earlier session");
        }
        const unsigned what = pick("command", in_trx ? 5 : 7);   // 0 wait, 1 commit, 2 rollback, 3 write more, 4 close; 5 isolated operation, 6 begin
        if (what == 4)
        {
            c.close();
            wsym_assert(c.state() == wsrep::client_state::s_quitting, "not closed");
            if (in_trx)
            {
                wsym_assert(T(id).rollbacks == 1 && T(id).commits == 0, "open transaction not rolled back by close");
                if (streaming) ++rb_expected;
                wsym_cover("closed_in_transaction");
            }
            wsym_assert(w.rollback_events == rb_expected, "rollback of a streaming transaction not replicated");
            check_clean(c, true);
            wsym_assert(!c.transaction().streaming_context().fragment_size(), "streaming left enabled");
            c.cleanup();
            wsym_assert(c.state() == wsrep::client_state::s_none, "not cleaned up");
            // application discards the session with its error
            c.reset_error();
            open = false; in_trx = false;
            continue;
        }
        int r = c.before_command();
        wsym_assert(r == 0, "command refused");
        wsym_assert(c.sync_wait_gtid().is_undefined(), "read position of an earlier command");
        wsym_assert(same(c.last_written_gtid(), written), "written position changed");
        r = c.before_statement();
        wsym_assert(r == 0, "statement refused");
        if (what == 0)
        {
            p.causal_status = pstatus(pick("causal_status", 12));
            const int64_t q = new_slot(0, true);
            p.causal_gtid = gt(q);
            const int t = int(wsym_range("timeout", 0, 100));
            r = c.sync_wait(t);
            wsym_assert(p.causal_timeout == t, "wrong timeout");
            wsym_assert((r == 0) == (p.causal_status == wsrep::provider::success), "wait outcome is not the provider's");
            if (r == 0)
            {
                wsym_assert(same(c.sync_wait_gtid(), q) && c.current_error() == wsrep::e_success, "read position not recorded");
                wsym_cover("waited");
            }
            else
            {
                wsym_assert(c.sync_wait_gtid().is_undefined(), "read position recorded although the wait failed");
                wsym_assert(c.current_error() == (p.causal_status == wsrep::provider::error_not_implemented ? wsrep::e_not_supported_error : wsrep::e_timeout_error),
                            "wrong error from a failed wait");
                wsym_cover("wait_failed");
                if (in_trx) c.reset_error();   // the application reports it and carries on with the transaction
            }
            wsym_assert(s.causal_read(t + 1).second == p.causal_status && p.causal_timeout == t + 1, "causal read not passed on");
            wsym_assert(s.wait_for_gtid(gt(q), t) == p.causal_status && p.waited_gtid == gt(q), "wait for position not passed on");
            if (r == 0) { c.after_statement(); wsym_assert(same(c.sync_wait_gtid(), q), "read position lost before the command ended"); }
        }
        else if (what == 5)
        {
            wsrep::key_array k; k.push_back(mkkey("a", "b"));
            r = c.enter_toi_local(k, wsrep::const_buffer("x", 1));
            wsym_assert(r == 0, "isolated operation refused");
            const int64_t q = c.toi_meta().seqno().get();
            r = c.leave_toi_local(wsrep::mutable_buffer());
            written = q;
            wsym_cover("toi");
            c.after_statement();
        }
        else
        {
            if (!in_trx)
            {
                streaming = wsym_bool("streaming");
                if (streaming) c.enable_streaming(wsrep::streaming_context::row, 1); else c.disable_streaming();
                id = c.begin();
                in_trx = true;
                c.svc.bytes = 0;
                c.append_key(mkkey("a", "b"));
                if (streaming) { c.svc.bytes = 1; r = c.after_row(); wsym_assert(r == 0, "fragment failed"); }
            }
            if (what == 1)
            {
                w.k.certify_few = w.k.certify_ordered_fail = w.k.co_enter = true;
                r = c.before_commit();
                if (!r)
                {
                    db_commit(c, c.transaction().ws_meta().seqno().get());
                    c.ordered_commit(); c.after_commit();
                }
                w.k = knobs();
                c.after_statement();
                wsym_assert((c.current_error() == wsrep::e_success) == (T(id).commits == 1), "wrong outcome reported");
                if (T(id).commits) { written = T(id).commit_seqno; wsym_cover("committed"); }
                else
                {
                    if (streaming) ++rb_expected;
                    // a write set that was ordered but not committed is still a position this session produced
                    if (!same(c.last_written_gtid(), written))
                    {
                        const int64_t q = c.last_written_gtid().seqno().get();
                        wsym_assert(q > written && q < w.next_seqno && w.slots[q].trx == id && !w.slots[q].frag, "written position was never the session's");
                        written = q;
                    }
                    wsym_cover("commit_failed");
                }
                in_trx = false;
            }
            else if (what == 2)
            {
                ++T(id).rollbacks;
                c.before_rollback(); c.after_rollback();
                c.after_statement();
                if (streaming) ++rb_expected;
                in_trx = false;
                wsym_cover("rolled_back");
            }
            else { c.after_statement(); wsym_assert(c.transaction().active(), "transaction lost"); }
        }
        if (!in_trx) check_clean(c);
        wsym_note("written", uint64_t(c.last_written_gtid().seqno().get()));
        wsym_assert(same(c.last_written_gtid(), written), "wrong written position");
        wsym_assert(w.rollback_events == rb_expected, "rollback of a streaming transaction not replicated");
        c.after_command_before_result();
        c.after_command_after_result();
        wsym_assert(in_trx || c.current_error() == wsrep::e_success, "error outlives its command");
        wsym_assert(c.sync_wait_gtid().is_undefined(), "read position outlives its command");
    }
    wsym_cover("end");
    wsym_exit();
}
