// Operations in total order isolation: local TOI, non-blocking operations in
// both roles, applier TOI mode and rolling schema upgrade, one after another in
// one session, with every provider answer, deadline and interruption.
#include "world.hpp"
using namespace W;
#ifndef OPS
#define OPS 1
#endif
#ifndef OPLO
#define OPLO 0
#endif
#ifndef OPHI
#define OPHI 3
#endif
#ifndef MAXUS
#define MAXUS 900000
#endif
#ifndef POLLS
#define POLLS 3
#endif
static client* cp;
static int polls;
static int64_t deadline;          // 0: none
static void at_call(int where)
{
    wsym_assert(!cp->locked(), "provider called with the session locked");
    if (where == 30)
    {
        if (++polls > 1)
        {
            wsym_assert(deadline != 0, "retried although no deadline was given");
            wsym_assert(wsym_clock_ns < deadline, "retried after the deadline");
            wsym_cover("retried");
        }
        if (polls > POLLS) wsym_assume(0);
    }
}
static wsrep::key_array keys()
{
    wsrep::key_array k;
    k.push_back(mkkey("a", "b"));
    return k;
}
static wsrep::gtid gt(int64_t s) { return wsrep::gtid(mkid(GROUP), wsrep::seqno(s)); }
static std::chrono::time_point<wsrep::clock> until()
{
    polls = 0;
    deadline = 0;
    if (wsym_bool("deadline"))
        // in the past, within the first, second or a later retry interval
        deadline = wsym_clock_ns + int64_t(wsym_range("deadline_us", 0, MAXUS)) * 1000 - 1000;
    return std::chrono::time_point<wsrep::clock>(std::chrono::nanoseconds(deadline));
}
// error reported for a failing entry
static void check_error(client& c, bool phase_two)
{
    const pstatus st = P(c.server_state()).toi_status;
    wsym_assert(st != wsrep::provider::success, "failed although the provider let it in");
    const enum wsrep::client_error e = c.current_error();
    wsym_assert(e != wsrep::e_success, "failure without an error");
    if (!phase_two && st == wsrep::provider::error_certification_failed)
        wsym_assert(e == wsrep::e_deadlock_error && c.current_error_status() == st, "certification failure not reported as deadlock");
    else if (phase_two && st == wsrep::provider::error_provider_failed)
        wsym_assert(e == wsrep::e_interrupted_error && c.current_error_status() == st, "provider failure not reported as interrupted");
    else if (deadline && wsym_clock_ns >= deadline)
        wsym_assert(e == wsrep::e_timeout_error, "timeout not reported");
    else
        wsym_assert(e == wsrep::e_error_during_commit && c.current_error_status() == st, "provider failure not reported with its status");
    const bool retry = st == wsrep::provider::error_certification_failed || st == wsrep::provider::error_connection_failed;
    // gave up only for a reason
    wsym_assert(!retry || !deadline || wsym_clock_ns >= deadline || c.svc.was_interrupted, "gave up before the deadline");
    wsym_cover("failed");
}
static void check_outside(client& c)
{
    prov& p(P(c.server_state()));
    wsym_assert(c.mode() == wsrep::client_state::m_local, "session not back in local mode");
    wsym_assert(!c.in_toi() && c.toi_mode() == wsrep::client_state::m_undefined, "session still in isolation");
    wsym_assert(p.toi_open == 0, "total order isolation entered but never left");
    wsym_assert(p.paused == 0 && p.desynced == 0, "provider left paused or desynced");
}
static void err_buf(wsrep::mutable_buffer& b, int& n) { n = 0; if (wsym_bool("error_text")) { push1(b); n = 1; } }

static void toi(client& c)
{
    prov& p(P(c.server_state()));
    const std::chrono::time_point<wsrep::clock> t(until());
    int r = c.enter_toi_local(keys(), wsrep::const_buffer("x", 1), t);
    wsym_note("toi", uint64_t(r));
    wsym_assert(p.toi_flags == (wsrep::provider::flag::start_transaction | wsrep::provider::flag::commit), "wrong flags");
    wsym_assert(p.toi_keys == 1 && p.toi_data == 1, "keys or data not replicated");
    if (r) { check_error(c, false); return; }
    wsym_assert(p.toi_status == wsrep::provider::success && p.toi_open == 1, "entered although the provider failed");
    wsym_assert(c.mode() == wsrep::client_state::m_toi && c.in_toi() && c.toi_mode() == wsrep::client_state::m_local, "not in isolation");
    const int64_t s = w.next_seqno - 1;
    wsym_assert(c.toi_meta().seqno().get() == s, "wrong position");
    wsrep::mutable_buffer e; int n;
    err_buf(e, n);
    p.leave_failed = false;
    r = c.leave_toi_local(e);
    wsym_assert((r != 0) == p.leave_failed, "failure of leaving not reported");
    wsym_assert(w.slots[s].errsize == n, "error of the operation not handed to the provider");
    wsym_assert(c.last_written_gtid() == gt(s), "position of the operation not recorded for the session");
    wsym_cover("toi");
}
static void nbo(client& c, bool applier)
{
    prov& p(P(c.server_state()));
    int64_t begin = 0;
    wsrep::mutable_buffer e; int n;
    if (!applier)
    {
        const std::chrono::time_point<wsrep::clock> t(until());
        int r = c.begin_nbo_phase_one(keys(), wsrep::const_buffer("x", 1), t);
        wsym_note("nbo1", uint64_t(r));
        wsym_assert(p.toi_flags == wsrep::provider::flag::start_transaction, "wrong flags for NBO begin");
        wsym_assert(p.toi_keys == 1 && p.toi_data == 1, "keys or data not replicated");
        if (r) { check_error(c, false); return; }
        wsym_assert(p.toi_status == wsrep::provider::success && p.toi_open == 1, "NBO started although the provider failed");
        wsym_assert(c.mode() == wsrep::client_state::m_nbo && c.in_toi() && c.toi_mode() == wsrep::client_state::m_local, "not in NBO phase one");
        begin = w.next_seqno - 1;
        err_buf(e, n);
        p.leave_failed = false;
        r = c.end_nbo_phase_one(e);
        wsym_assert((r != 0) == p.leave_failed, "failure of leaving not reported");
        wsym_assert(w.slots[begin].errsize == n, "error of the operation not handed to the provider");
        if (r) wsym_assert(c.current_error() == wsrep::e_error_during_commit, "failure without an error");
    }
    else
    {
        begin = new_slot(0, true);
        int r = c.enter_nbo_mode(mkmeta(begin, mkid(0x33), 5, wsrep::client_id(9), wsrep::provider::flag::start_transaction));
        wsym_assert(r == 0, "NBO mode refused");
    }
    wsym_assert(c.mode() == wsrep::client_state::m_nbo && !c.in_toi() && p.toi_open == 0, "isolation not left between the phases");
    // phase two
    const std::chrono::time_point<wsrep::clock> t(until());
    const int before = p.toi_enter;
    int r = c.begin_nbo_phase_two(keys(), t);
    wsym_note("nbo2", uint64_t(r));
    wsym_assert(p.toi_enter > before && p.toi_flags == wsrep::provider::flag::commit && p.toi_keys == 1, "wrong flags or keys for NBO end");
    wsym_assert(p.toi_input.seqno().get() == begin, "NBO end not tied to its beginning");
    if (r) { check_error(c, true); return; }
    wsym_assert(p.toi_status == wsrep::provider::success && p.toi_open == 1, "NBO end started although the provider failed");
    wsym_assert(c.in_toi() && c.mode() == wsrep::client_state::m_nbo, "not in NBO phase two");
    const int64_t s = w.next_seqno - 1;
    wsym_assert(c.toi_meta().seqno().get() == s, "wrong position");
    wsrep::mutable_buffer e2;
    err_buf(e2, n);
    p.leave_failed = false;
    r = c.end_nbo_phase_two(e2);
    wsym_assert((r != 0) == p.leave_failed, "failure of leaving not reported");
    wsym_assert(w.slots[s].errsize == n, "error of the operation not handed to the provider");
    wsym_cover(applier ? "nbo_applier" : "nbo");
}
static void rsu(client& c)
{
    server& s(static_cast<server&>(c.server_state()));
    int r = c.begin_rsu(1);
    wsym_note("rsu", uint64_t(r));
    if (r) { wsym_cover("rsu_failed"); return; }
    wsym_assert(c.mode() == wsrep::client_state::m_rsu, "not in RSU mode");
    wsym_assert(s.p->paused == 1 && s.p->desynced == 1 && !w.pending_commits, "RSU began without the server being isolated");
    r = c.end_rsu();
    wsym_assert(r == 0, "ending RSU failed");
    wsym_cover("rsu");
}
extern "C" void wsym_main()
{
    reset_world();
    server s("s", wsrep::server_state::rm_sync);
    s.go_synced();
    client c(s, wsrep::client_id(1), wsrep::client_state::m_local);
    cp = &c;
    c.open(c.id());
    for (int i = 0; i < OPS; ++i)
    {
        w.k.toi = true; w.k.toi_leave = true; w.k.interrupted = true;
        w.k.desync = w.k.pause = w.k.wait_committing = true;
        w.on_point = at_call;
        c.svc.was_interrupted = false;
        c.before_command(); c.before_statement();
        switch (OPLO + pick("operation", OPHI - OPLO + 1))
        {
        case 0: toi(c); break;
        case 1: nbo(c, false); break;
        case 2: nbo(c, true); break;
        default: rsu(c); break;
        }
        w.k = knobs();
        w.on_point = 0;
        check_outside(c);
        const bool dl = c.current_error() == wsrep::e_deadlock_error;
        wsym_assert((c.after_statement() == 1) == dl, "retry indication does not match the error");
        c.after_command_before_result(); c.after_command_after_result();
        wsym_assert(c.current_error() == wsrep::e_success, "error outlived its command");
    }
    // applier side isolation mode
    {
        client a(s, wsrep::client_id(2), wsrep::client_state::m_high_priority);
        a.open(a.id());
        a.before_command();
        const int64_t q = new_slot(0);
        a.enter_toi_mode(mkmeta(q, mkid(0x33), 5, wsrep::client_id(9), wsrep::provider::flag::start_transaction | wsrep::provider::flag::commit));
        wsym_assert(a.mode() == wsrep::client_state::m_toi && a.in_toi() && a.toi_mode() == wsrep::client_state::m_high_priority, "applier not in isolation");
        a.leave_toi_mode();
        wsym_assert(a.mode() == wsrep::client_state::m_high_priority && !a.in_toi() && a.last_written_gtid() == gt(q), "applier did not leave isolation");
        w.slots[q].st = sl_left;
        a.after_command_before_result(); a.after_command_after_result();
        a.close(); a.cleanup();
    }
    // the session can still commit an ordinary transaction
    c.before_command(); c.before_statement();
    const uint64_t id = c.begin();
    c.append_key(mkkey("a", "b"));
    int r = c.before_commit();
    wsym_assert(r == 0, "cannot commit afterwards");
    const int64_t cs = c.transaction().ws_meta().seqno().get();
    db_commit(c, cs);
    r = c.ordered_commit() || c.after_commit();
    c.after_statement();
    wsym_assert(r == 0 && T(id).commits == 1 && c.current_error() == wsrep::e_success, "cannot commit afterwards");
    wsym_assert(c.last_written_gtid() == gt(cs), "last written position is not the transaction's");
    check_clean(c);
    check_slots_done("a position in the commit order was never passed");
    wsym_cover("end");
}
