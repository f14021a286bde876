// A stream of replicated write sets delivered to the applier: whole
// transactions, fragments of streaming transactions, TOI and NBO events from
// several servers, with every apply failure and vote outcome.
#include "world.hpp"
using namespace W;
#ifndef EVENTS
#define EVENTS 3
#endif
namespace F { enum { start = 1, commit = 2, rollback = 4, toi = 8, unsafe = 16, prepare = 128 }; }
struct live { bool on; int frags; };
extern "C" void wsym_main()
{
    reset_world();
    server s("s", wsrep::server_state::rm_sync);
    s.go_synced();
    client ac(s, wsrep::client_id(50), wsrep::client_state::m_high_priority);
    ac.open(ac.id());
    ac.before_command();
    hpsvc h(s, &ac, false);
    h.store_globals();
    w.track_ctx = true;
#ifdef FAULTS
    w.dummy_by_trx = wsym_bool("dummy_by_transaction");
    w.k.apply = true; w.k.vote = true;
#endif
#ifdef ADOPT
    w.k.adopt = true;
#endif
    live model[2][2] = {{{false,0},{false,0}},{{false,0},{false,0}}}; // [server][transaction]
    for (int i = 0; i < EVENTS; ++i)
    {
        const unsigned kind = pick("event", 8);
        // whole transactions and isolated operations touch no streaming state:
        // one identity is enough for them
        const unsigned who = kind >= 1 && kind <= 4 ? pick("trx", 3) : 0;
        const unsigned sv = who == 2, tx = kind == 0 ? 2 + unsigned(i) : who == 1;
        const wsrep::id src(mkid(sv ? 0x22 : 0x33));
        const uint64_t tid = 7 + tx;
        const uint64_t key = tkey(src, wsrep::transaction_id(tid));
        live& m(model[sv][tx < 2 ? tx : 0]);
        dbtrx& t(T(key));
        int flags = 0;
        switch (kind)
        {
        case 0: flags = F::start | F::commit; break;
        case 1: flags = F::start; break;
        case 2: flags = wsym_bool("unsafe") ? F::unsafe : 0; break;
        case 3: flags = F::commit | F::unsafe; break;
        case 4: flags = F::rollback | (wsym_bool("unsafe") ? F::unsafe : 0); break;
        case 5: flags = F::start | F::rollback; break;
        case 6: flags = F::toi | F::start | F::commit; break;
        default: flags = F::toi | (wsym_bool("nbo_begin") ? F::start : F::commit); break;
        }
        if (kind == 1 && (m.on || t.commits || t.rollbacks)) return; // ids are not reused while known
        const int64_t sq = new_slot(0);
        const wsrep::ws_meta meta(mkmeta(sq, src, tid, wsrep::client_id(9), flags));
        const wsrep::ws_handle hdl(wsrep::transaction_id(tid), (void*)1);
        const int applied = h.applied, toi = h.toi, nbo = h.nbo, dummies = w.dummy_ws, commits = t.commits,
            rolled = t.rollbacks, stored = t.frags_stored, removed = t.frags_removed, live0 = int(s.svc.live_appliers.size());
        h.failed_apply = false;
        w.vote_lost = w.silent_failure = w.err_text = false;
        const int r = h.apply(hdl, meta, wsrep::const_buffer("x", 1));
        wsym_note("apply", uint64_t(r != 0));
        wsym_note("slot", uint64_t(w.slots[sq].st) * 4 + uint64_t(w.slots[sq].errsize));
        wsrep::high_priority_service* sa = s.find_streaming_applier(src, wsrep::transaction_id(tid));
        wsym_assert(w.ctx == &h, "the applier's own execution context was not restored");
        const bool voted = w.slots[sq].errsize > 0;
        wsym_assert(voted == w.err_text, "error of a failed write set lost, or a vote on a write set that did not fail");
        if (r)
        {
            wsym_assert(w.vote_lost || w.silent_failure, "applying failed although the error was voted on and the vote was won");
            wsym_cover("apply_error");
            return;
        }
        wsym_assert(!w.vote_lost && !w.silent_failure, "applying failed and was not reported");
        wsym_assert(w.slots[sq].st == sl_left, "write set handled without passing its place in the commit order");
        wsym_assert(!ac.transaction().active(), "transaction left open in the applier");
        const bool failed = voted;
        switch (kind)
        {
        case 0:
            wsym_assert(h.applied == applied + 1, "write set not applied exactly once");
            wsym_assert(t.commits == (failed ? 0 : 1) && t.rollbacks == (failed ? 1 : 0), "write set neither committed nor rolled back");
            wsym_assert(w.dummy_ws == dummies + (failed ? 1 : 0), "dummy write set does not match the failure");
            wsym_assert(!sa, "streaming applier created for a whole transaction");
            wsym_cover(failed ? "failed_trx" : "trx");
            break;
        case 1:
            if (failed)
            {
                wsym_assert(!sa && t.rollbacks == rolled + 1 && t.commits == 0 && t.frags_stored == 0, "failed first fragment left something behind");
                wsym_cover("failed_start");
            }
            else
            {
                wsym_assert(sa && t.frags_stored == 1, "first fragment not stored or no applier registered");
                wsym_assert(sa->transaction().active() && sa->transaction().is_streaming(), "streaming applier without its transaction");
                m.on = true; m.frags = 1;
                wsym_cover("start");
            }
            break;
        case 2:
            if (!m.on)
            {
                wsym_assert(!sa && w.dummy_ws == dummies + 1 && t.frags_stored == stored, "fragment without a transaction not skipped");
                wsym_cover("fragment_skipped");
            }
            else if (failed)
            {
                wsym_assert(!sa && t.rollbacks == rolled + 1 && t.frags_removed == removed + 1, "failed fragment left something behind");
                m.on = false;
                wsym_cover("failed_fragment");
            }
            else
            {
                ++m.frags;
                wsym_assert(sa && t.frags_stored == stored + 1, "fragment not stored");
                wsym_assert(int(sa->transaction().streaming_context().fragments().size()) == m.frags, "applier does not know all fragments");
                wsym_cover("fragment");
            }
            break;
        case 3:
            wsym_assert(!sa, "streaming applier kept after its commit");
            if (!m.on)
            {
                wsym_assert(w.dummy_ws == dummies + 1 && t.commits == commits, "commit of an unknown transaction not skipped");
                wsym_cover("commit_skipped");
            }
            else
            {
                wsym_assert(t.commits == (failed ? 0 : 1) && t.frags_removed == removed + 1,
                            "streaming commit did not commit, or left its fragments");
                m.on = false;
                wsym_cover(failed ? "failed_stream_commit" : "stream_commit");
            }
            break;
        case 4:
            wsym_assert(!sa, "streaming applier kept after its rollback");
            if (m.on)
            {
                wsym_assert(t.rollbacks == rolled + 1, "not rolled back exactly once");
                wsym_assert(t.frags_removed == removed + 1 || w.k.adopt, "fragments not removed");
                m.on = false;
                wsym_cover("stream_rollback");
            }
            else
            {
                wsym_assert(w.dummy_ws == dummies + 1, "rollback of an unknown transaction not skipped");
                wsym_cover("rollback_skipped");
            }
            break;
        case 5:
            wsym_assert(w.dummy_ws == dummies + 1 && t.commits == commits && t.rollbacks == rolled, "empty rollback touched a transaction");
            break;
        case 6:
            wsym_assert(h.toi == toi + 1 && h.nbo == nbo && h.applied == applied, "isolated operation not applied exactly once");
            wsym_cover("toi");
            break;
        default:
            wsym_assert(h.toi == toi && h.applied == applied && h.nbo == nbo + ((flags & F::start) ? 1 : 0),
                        "NBO begin not applied once, or NBO end applied");
            wsym_cover("nbo");
            break;
        }
        // nothing else was touched
        int alive = 0;
        for (int a = 0; a < 2; ++a)
            for (int b = 0; b < 2; ++b)
            {
                alive += model[a][b].on;
                wsrep::high_priority_service* o =
                    s.find_streaming_applier(mkid(a ? 0x22 : 0x33), wsrep::transaction_id(7 + uint64_t(b)));
                wsym_assert((o != 0) == model[a][b].on, "another streaming transaction was affected");
                if (o)
                    wsym_assert(o->transaction().server_id() == mkid(a ? 0x22 : 0x33) &&
                                o->transaction().id().get() == 7 + uint64_t(b) &&
                                int(o->transaction().streaming_context().fragments().size()) == model[a][b].frags,
                                "a streaming applier holds another transaction");
            }
        wsym_assert(int(s.svc.live_appliers.size()) == alive, "streaming applier leaked");
    }
    w.k = knobs();
    // leaving the group closes what is still open
    check_slots_done("a place in the commit order was never released");
    wsym_cover("end");
}
