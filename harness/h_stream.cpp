// One local streaming transaction: fragments at the configured threshold, every
// failure of storage / certification, aborts anywhere, commit or rollback.
#include "world.hpp"
using namespace W;
#ifndef ROWS
#define ROWS 3
#endif
static wsrep::key row_key(int i) { return i == 0 ? mkkey("a", "b") : i == 1 ? mkkey("a", "c") : mkkey("d", "b"); }
static int keys_from, keys_to;
// the last replicated write set contains the keys of the rows [from, keys_to)
static void check_keys(prov& p, int from, const char* what)
{
    for (int i = from; i < keys_to; ++i)
        wsym_assert(i == 0 ? p.sent_key('a', 'b') : i == 1 ? p.sent_key('a', 'c') : p.sent_key('d', 'b'), what);
}
static size_t units, pending_bytes; // independent model of the threshold
extern "C" void wsym_main()
{
    reset_world();
    server s("s", wsrep::server_state::rm_sync);
    s.svc.st_globals = wsym_bool("storage_needs_globals");
    s.go_synced();
    client c(s, wsrep::client_id(1), wsrep::client_state::m_local);
    c.open(c.id());
    c.before_command();
    unsigned u = pick("unit", 3);
    const enum wsrep::streaming_context::fragment_unit unit =
        u == 0 ? wsrep::streaming_context::bytes : u == 1 ? wsrep::streaming_context::row : wsrep::streaming_context::statement;
    const size_t size = size_t(wsym_concretize(wsym_range("fragment_size", 1, 2)));
    c.enable_streaming(unit, size);
#ifdef FAULTS
    w.k.certify = true; w.k.certify_ordered_fail = true; w.k.storage = true; w.k.prepare_frag = true;
    w.k.append_data = true; w.k.release = true; w.k.remove_frag = true; w.k.streaming_allowed = true;
    w.k.rollback_event = true; w.k.adopt = true;
#endif
    w.k.replay = true; w.k.bf_result = true; w.k.storage_bf = true;
    w.k.aborts = ABORTS;
    w.k.total_order = true;
    int r = c.before_statement();
    uint64_t id = c.begin();
    w.victim = &c;
    bool failed = false;
    int frags = 0;
#ifndef FAULTS
    const unsigned mark = pick("mark", 3); // the first row: 1 unsafe for parallel applying, 2 implicit dependencies
#else
    const unsigned mark = 0;
#endif
    bool unsafe = mark == 1;
    if (unsafe) c.mark_transaction_pa_unsafe();
    if (mark == 2) const_cast<wsrep::transaction&>(c.transaction()).implicit_deps(true);
    units = pending_bytes = 0;
    keys_from = keys_to = 0;
    for (int i = 0; i < ROWS && !failed; ++i)
    {
        c.append_key(row_key(i));
        ++keys_to;
        size_t b = size_t(wsym_concretize(wsym_range("row_bytes", 0, 1)));
        c.svc.bytes += b;
        pending_bytes += b;
        point(20);
        const int before = s.p->n_frag_certify;
        int got;
        if (unit == wsrep::streaming_context::statement)
        {
            r = c.after_row();
            wsym_assert(s.p->n_frag_certify == before, "fragment replicated inside a statement");
            if (r) { wsym_assert(c.current_error() != wsrep::e_success, "row refused without an error"); failed = true; break; }
            c.after_statement();
            wsym_assert(c.transaction().active() || c.current_error() != wsrep::e_success,
                        "transaction gone without an error");
            failed = c.current_error() != wsrep::e_success;
        }
        else
        {
            r = c.after_row();
            failed = r != 0;
        }
        got = s.p->n_frag_certify - before;
        wsym_assert(!failed || c.current_error() != wsrep::e_success, "row refused without an error");
        wsym_note("frag", uint64_t(got));
        if (failed && !w.aborts_ok)
        {
            wsym_assert(w.frag_error != wsrep::e_success, "row refused although nothing failed");
            wsym_assert(c.current_error() == w.frag_error, "failed fragment not reported with its error");
            wsym_assert(c.current_error_status() == w.frag_status, "failed fragment not reported with the status of the provider");
        }
        if (!failed && unit != wsrep::streaming_context::statement)
            wsym_assert(int(c.transaction().fragments_certified_for_statement()) == frags + got, "fragments of the statement not counted");
        units += 1;
        const size_t have = unit == wsrep::streaming_context::bytes ? pending_bytes : units;
        const bool due = pending_bytes > 0 && have >= size;
        if (!due) wsym_assert(got == 0, "fragment replicated before the threshold was reached");
        if (!failed)
        {
            wsym_assert(!due || got == 1, "no fragment replicated although the threshold was reached");
            if (due)
            {
                check_keys(*s.p, keys_from, "fragment replicated without the keys of its rows");
                keys_from = keys_to;
                wsym_assert(s.p->sent.data.size() == pending_bytes && s.p->sent.data == w.frag_stored &&
                            size_t(s.p->sent.data[0] - 'A') == c.svc.bytes - pending_bytes,
                            "the fragment is not the log generated since the previous one");
                const int f = s.p->last_flags;
                wsym_assert(w.frag_flags == f, "fragment stored with other flags than replicated");
                wsym_assert(wsrep::starts_transaction(f) == (frags == 0) && !wsrep::commits_transaction(f) && !wsrep::rolls_back_transaction(f) &&
                            !wsrep::prepares_transaction(f), "wrong flags on a fragment");
                wsym_assert(((f & wsrep::provider::flag::pa_unsafe) != 0) == unsafe &&
                            ((f & wsrep::provider::flag::implicit_deps) != 0) == (mark == 2), "marks of the transaction lost or invented in a fragment");
                unsafe = false;
                units = 0; pending_bytes = 0; ++frags;
                wsym_assert(c.transaction().streaming_context().log_position() == c.svc.bytes, "log position not advanced");
                wsym_cover("fragment");
            }
            wsym_assert(int(c.transaction().streaming_context().fragments_stored()) == frags &&
                        T(id).frags_stored == frags, "stored and certified fragments differ");
        }
    }
    wsym_assert(w.st_alloc == w.st_release, "storage service not released");
    bool committed = false;
    bool want_commit = !failed && !wsym_bool("client_rolls_back");
    if (!c.transaction().active())
        failed = true;
    else if (want_commit)
    {
        r = c.before_commit();
        if (!r)
        {
            wsym_assert(frags == 0 || T(id).frags_removed == 1, "committing without removing the stored fragments");
            wsym_assert(wsrep::commits_transaction(s.p->last_flags), "commit write set without the commit flag");
            wsym_assert((frags == 0) == wsrep::starts_transaction(s.p->last_flags),
                        "start flag wrong on the last write set");
            wsym_assert(frags == 0 || s.p->last_flags & wsrep::provider::flag::pa_unsafe,
                        "streaming commit not marked unsafe for parallel applying");
            check_keys(*s.p, 0, "keys of a replicated row missing in the commit write set");
            wsym_assert(((s.p->last_flags & wsrep::provider::flag::implicit_deps) != 0) == (mark == 2), "marks of the transaction lost or invented in the commit write set");
            wsym_assert(!w.not_allowed, "committed although the statement is not allowed for streaming");
            db_commit(c, c.transaction().ws_meta().seqno().get());
            point(23);
            r = c.ordered_commit();
            wsym_assert(r == 0, "ordered commit failed");
            w.k.release = false;
            r = c.after_commit();
            wsym_assert(r == 0, "after commit failed");
            committed = true;
        }
        else wsym_assert(c.transaction().state() == wsrep::transaction::s_must_replay || c.current_error() != wsrep::e_success,
                         "commit refused without an error");
    }
    else
    {
        ++T(id).rollbacks;
        c.before_rollback();
        point(26);
        c.after_rollback();
    }
    w.k.release = false;
    point(27);
    c.after_statement();
    w.victim = 0;
    dbtrx& t(T(id));
    wsym_note("err", uint64_t(c.current_error()));
    if (want_commit)
        wsym_assert((c.current_error() == wsrep::e_success) == (t.commits == 1),
                    "the client was told a different outcome than what the database did");
    else wsym_assert(t.commits == 0, "not committed by the client, yet committed");
    wsym_assert(committed == (t.commits == 1 && t.replays == 0), "own commit and database commit differ");
    wsym_assert(t.commits == 1 || t.rollbacks > 0 || t.replays > 0, "neither committed nor rolled back");
    wsym_assert(!(w.aborts_ok && t.commits) || t.replays == 1, "an aborted transaction committed without replay");
    check_clean(c);
    check_slots_done("a place in the commit order was never released");
    wsym_assert(w.st_alloc == w.st_release, "storage service not released");
    wsym_assert(w.frag_open == 0, "fragment storage left open");
    wsym_assert(c.svc.glob, "session globals not restored after storage access");
    wsym_assert(c.svc.stored >= 1 + (s.svc.st_globals ? w.st_release : 0), "session globals not restored after storage access");
    // what happens to the fragments that went out
    const bool sent = s.p->frags_ok > 0;
    wsrep::high_priority_service* sa = s.find_streaming_applier(s.id(), wsrep::transaction_id(id));
    if (t.commits)
    {
        wsym_cover("committed");
        wsym_assert(w.rollback_events == 0 && !sa, "rollback replicated for a committed transaction");
        wsym_assert(!t.frags_stored || t.frags_removed > 0, "fragments of a committed transaction not removed");
    }
    else if (sent && !t.replays)
    {
        const int queued = w.rb_failed;
        wsym_note("rb", uint64_t(w.rollback_events));
        if (w.to_aborted)
        {
            wsym_cover("total_order_abort");
            wsym_assert(w.rollback_events == 0 && !queued && !sa, "rollback replicated for a total order abort");
            wsym_assert(t.frags_removed > 0, "fragments not removed after total order abort");
        }
        else
        {
            wsym_cover("rolled_back");
            wsym_assert(w.rollback_events + queued == 1, "rollback fragment not replicated (or queued) exactly once");
            wsym_assert((sa != 0) == !w.adopt_failed, "no applier left to roll back the replicated fragments");
            if (sa)
            {
                wsym_assert(sa->transaction().streaming_context().fragments_stored() == size_t(t.frags_stored),
                            "the applier taking over does not know all fragments");
            }
        }
    }
    else if (t.replays && !t.commits && t.frags_stored)
    {
        wsym_cover("replay_failed");
        wsym_assert(c.svc.removed > w.removed_before_replay, "fragments not removed after a failed replay");
    }
    // queued rollback fragment goes out when the server syncs
    w.k = knobs();
    s.on_sync();
    if (!t.commits && sent && !t.replays && !w.to_aborted)
        wsym_assert(w.rollback_events == 1 && w.rb_ids[0] == int(id), "rollback fragment lost or sent twice");
    c.after_command_before_result();
    c.after_command_after_result();
    // delivery of the rollback fragment
    client ac(s, wsrep::client_id(50), wsrep::client_state::m_high_priority);
    ac.open(ac.id());
    ac.before_command();
    if (w.rollback_events)
    {
        hpsvc h(s, &ac, false);
        const int rm = t.frags_removed, dummies = w.dummy_ws;
        int64_t sq = new_slot(uint64_t(-2));
        r = h.apply(wsrep::ws_handle(wsrep::transaction_id(id), (void*)1),
                    mkmeta(sq, s.id(), id, c.id(), wsrep::provider::flag::rollback), wsrep::const_buffer());
        wsym_assert(r == 0, "rollback fragment failed to apply");
        wsym_assert(!s.find_streaming_applier(s.id(), wsrep::transaction_id(id)), "applier kept after its rollback fragment");
        if (w.adopt_failed) wsym_assert(w.dummy_ws == dummies + 1 && t.frags_removed == rm, "rollback fragment of an unknown transaction not skipped");
        else wsym_assert(!t.frags_stored || t.frags_removed == rm + 1, "stored fragments not removed by the rollback fragment");
        check_slots_done("a place in the commit order was never released");
    }
    wsym_assert(s.svc.live_appliers.empty(), "streaming applier leaked");
    // the same session streams again (its registration must be gone)
    c.before_command();
    c.before_statement();
    c.enable_streaming(wsrep::streaming_context::row, 1);
    uint64_t id2 = c.begin();
    c.svc.bytes = 1;
    c.append_key(mkkey("x", "y"));
    r = c.after_row();
    wsym_assert(r == 0 && T(id2).frags_stored == 1, "next streaming transaction cannot replicate");
    r = c.before_commit();
    wsym_assert(r == 0, "next streaming transaction cannot commit");
    db_commit(c, c.transaction().ws_meta().seqno().get());
    c.ordered_commit(); c.after_commit(); c.after_statement();
    wsym_assert(c.current_error() == wsrep::e_success && T(id2).frags_removed == 1, "next streaming transaction failed");
    c.after_command_before_result();
    c.after_command_after_result();
    // and once more, rolling back
    c.before_command();
    c.before_statement();
    c.enable_streaming(wsrep::streaming_context::row, 1);
    const uint64_t id3 = c.begin();
    const int rb = w.rollback_events;
    c.svc.bytes = 1;
    c.append_key(mkkey("x", "y"));
    r = c.after_row();
    wsym_assert(r == 0 && T(id3).frags_stored == 1 && wsrep::starts_transaction(s.p->last_flags), "next streaming transaction cannot replicate");
    ++T(id3).rollbacks;
    c.before_rollback(); c.after_rollback(); c.after_statement();
    wsym_assert(w.rollback_events == rb + 1 && w.rb_ids[rb] == int(id3), "rollback of the next streaming transaction not replicated");
    wsym_assert(c.current_error() == wsrep::e_success, "a rollback wanted by the client is no error");
    c.after_command_before_result();
    c.after_command_after_result();
    {
        hpsvc h(s, &ac, false);
        r = h.apply(wsrep::ws_handle(wsrep::transaction_id(id3), (void*)1),
                    mkmeta(new_slot(uint64_t(-2)), s.id(), id3, c.id(), wsrep::provider::flag::rollback), wsrep::const_buffer());
        wsym_assert(r == 0 && !s.find_streaming_applier(s.id(), wsrep::transaction_id(id3)) && T(id3).frags_removed == 1,
                    "rollback fragment of the next streaming transaction");
    }
    ac.after_command_before_result();
    ac.after_command_after_result();
    ac.close(); ac.cleanup();
    c.close(); c.cleanup();
    wsym_cover("end");
}
