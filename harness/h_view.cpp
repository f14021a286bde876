// Membership changes against open streaming transactions: remote ones, remote
// prepared ones, a local one (executing or prepared); primary, non-primary and
// final views in any order, reconnecting after the final one.
#include "world.hpp"
using namespace W;
#ifndef VIEWS
#define VIEWS 3
#endif
static const unsigned char R[2] = { 0x33, 0x22 };
struct rem { bool on, prepared; int sv; uint64_t tid; };
extern "C" void wsym_main()
{
    reset_world();
    server s("s", wsym_bool("rollback_mode_async") ? wsrep::server_state::rm_async : wsrep::server_state::rm_sync);
    s.members.push_back(wsrep::view::member(mkid(R[0]), "r0", ""));
    s.members.push_back(wsrep::view::member(mkid(R[1]), "r1", ""));
    s.go_synced();
    client ac(s, wsrep::client_id(50), wsrep::client_state::m_high_priority);
    ac.open(ac.id());
    ac.before_command();
    hpsvc h(s, &ac, false);
    h.store_globals();
    w.track_ctx = true;
    rem rs[3] = {{false,false,0,7},{false,false,1,7},{false,true,0,9}};
    for (int i = 0; i < 3; ++i)
        if (wsym_bool("open_remote"))
        {
            rs[i].on = true;
            const int flags = wsrep::provider::flag::start_transaction |
                (rs[i].prepared ? wsrep::provider::flag::prepare : 0);
            int r = h.apply(wsrep::ws_handle(wsrep::transaction_id(rs[i].tid), (void*)1),
                            mkmeta(new_slot(0), mkid(R[rs[i].sv]), rs[i].tid, wsrep::client_id(9), flags),
                            wsrep::const_buffer("x", 1));
            wsym_assert(r == 0, "fragment failed to apply");
        }
    // local streaming transaction: 0 none, 1 executing and idle, 2 prepared,
    // 3 executing without fragments
    const unsigned local = pick("local", 4);
    client c(s, wsrep::client_id(1), wsrep::client_state::m_local);
    c.open(c.id());
    uint64_t id = 0;
    bool lopen = false;
    if (local)
    {
        w.track_ctx = false;
        c.before_command(); c.before_statement();
        c.enable_streaming(wsrep::streaming_context::row, 1);
        id = c.begin();
        if (local == 2) { c.svc.explicit_xa = true; c.assign_xid(wsrep::xid(1, 3, 1, "loc")); }
        int r = 0;
        c.append_key(mkkey("a", "b"));
        if (local != 3)
        {
            c.svc.bytes = 1;
            r = c.after_row();
            wsym_assert(r == 0 && T(id).frags_stored == 1, "local fragment failed");
        }
        if (local == 2) { r = c.before_prepare() || c.after_prepare(); wsym_assert(r == 0, "prepare failed"); }
        c.after_statement(); c.after_command_before_result(); c.after_command_after_result();
        lopen = true;
        h.store_globals();
        w.track_ctx = true;
    }
    unsigned prev = 3;            // membership of the last primary view (bit per remote server)
    bool last_primary = true;     // the last view was primary
    unsigned cur = 3;
    bool connected = true;
    int64_t seq = 1;
    int views = s.svc.views, recovers = s.svc.recovers;
    for (int i = 0; i < VIEWS && connected; ++i)
    {
        const unsigned kind = pick("view", 3);   // 0 primary, 1 non-primary, 2 final
        const unsigned mem = kind == 2 ? 0 : pick("members", 4);
        s.members.clear();
        if (kind != 2)
        {
            s.members.push_back(wsrep::view::member(mkid(OWN), "own", ""));
            for (int b = 0; b < 2; ++b)
                if (mem & (1u << b)) s.members.push_back(wsrep::view::member(mkid(R[b]), "r", ""));
        }
        ++seq;
        wsrep::view v(s.mkview(seq, kind == 0 ? wsrep::view::primary : kind == 1 ? wsrep::view::non_primary :
                               wsrep::view::disconnected, kind == 2 ? -1 : 0));
        const int rb = w.rollback_events;
        s.on_view(v, &h);
        ++views;
        wsym_note("view", kind * 4 + mem);
        wsym_assert(s.svc.views == views, "view not recorded exactly once");
        wsym_assert(w.ctx == &h, "the applier's own execution context was not restored");
        wsym_assert(!ac.transaction().active(), "transaction left open in the applier");
        wsym_assert(s.current_view().state_id().seqno().get() == seq && s.current_view().members().size() == s.members.size(),
                    "current view is not the delivered one");
        wsym_assert(w.rollback_events == rb, "rollback fragment replicated because of a view");
        // what has to be gone now
        bool equal = false;
        if (kind == 0)
        {
            if (last_primary) prev = cur;
            equal = mem == prev;
        }
        else if (last_primary) prev = cur;
        for (int k = 0; k < 3; ++k)
        {
            dbtrx& t(T(tkey(mkid(R[rs[k].sv]), wsrep::transaction_id(rs[k].tid))));
            bool close = rs[k].on && !rs[k].prepared && kind == 0 && (equal || !(mem & (1u << rs[k].sv)));
            const bool final_close = rs[k].on && kind == 2;
            wsrep::high_priority_service* sa =
                s.find_streaming_applier(mkid(R[rs[k].sv]), wsrep::transaction_id(rs[k].tid));
            if (close || final_close)
            {
                wsym_assert(!sa, "streaming transaction of a departed server was kept");
                wsym_assert(t.rollbacks == 1, "streaming transaction of a departed server not rolled back exactly once");
                wsym_assert(t.frags_removed == (close ? 1 : 0),
                            close ? "fragments of a departed server not removed" :
                            "fragments removed on disconnect although they must be recovered");
                rs[k].on = false;
                wsym_cover(close ? "orphan_closed" : "closed_at_disconnect");
            }
            else
            {
                wsym_assert((sa != 0) == rs[k].on, "a streaming transaction was closed without reason");
                if (rs[k].on && kind == 0) wsym_cover(rs[k].prepared ? "prepared_kept" : "kept");
                wsym_assert(!rs[k].on || (t.rollbacks == 0 && t.frags_removed == 0), "open transaction was rolled back");
            }
        }
        if (local)
        {
            const bool close = lopen && local == 1 && kind == 0 && equal;
            if (close)
            {
                lopen = false;
                wsym_assert(c.transaction().bf_aborted() || !c.transaction().active(), "local transaction survived equal views");
                wsym_cover("local_aborted");
            }
            else if (lopen)
                wsym_assert(c.transaction().active() && !c.transaction().bf_aborted(), "local transaction aborted without reason");
        }
        // server state
        switch (kind)
        {
        case 0: wsym_assert(s.state() == wsrep::server_state::s_joined || s.state() == wsrep::server_state::s_synced, "not joined in a primary view"); break;
        case 1: wsym_assert(s.state() == wsrep::server_state::s_connected, "not in connected state in a non-primary view"); break;
        default: wsym_assert(s.state() == wsrep::server_state::s_disconnected && s.id().is_undefined(), "not disconnected after the final view"); break;
        }
        if (kind == 0 && wsym_bool("sync")) { s.on_sync(); wsym_assert(s.state() == wsrep::server_state::s_synced, "not synced"); }
        last_primary = kind == 0;
        cur = mem;
        connected = kind != 2;
        wsym_assert(s.svc.recovers == recovers, "streaming transactions recovered again");
    }
    if (!connected)
    {
        wsym_assert(s.svc.live_appliers.empty(), "streaming applier leaked");
        // a local transaction that ends while disconnected leaves no applier behind
        if (local && lopen && local != 2 && wsym_bool("local_ends_disconnected"))
        {
            w.track_ctx = false;
            c.before_command(); c.before_statement();
            if (wsym_bool("another_row"))
            {
                // cannot be replicated: the server has no identity
                const int nc = s.p->n_certify, stored = T(id).frags_stored, rb = w.rollback_events;
                c.svc.bytes += 1;
                const int r = c.after_row();
                wsym_assert(r != 0 && c.current_error() == wsrep::e_append_fragment_error, "fragment accepted while disconnected");
                wsym_assert(s.p->n_certify == nc && T(id).frags_stored == stored && w.frag_open == 0, "fragment stored or replicated while disconnected");
                wsym_assert(w.rollback_events == rb + (local == 1), "rollback of a transaction without fragments replicated");
                wsym_assert(w.st_alloc == w.st_release, "storage service not released");
                wsym_cover("fragment_refused");
            }
            ++T(id).rollbacks;
            c.before_rollback(); c.after_rollback();
            c.after_statement(); c.after_command_before_result(); c.after_command_after_result();
            wsym_assert(s.svc.live_appliers.empty(), "applier created while disconnected");
            check_clean(c);
            lopen = false;
            h.store_globals();
            w.track_ctx = true;
            wsym_cover("ended_disconnected");
        }
        // reconnect
        s.members.clear();
        s.members.push_back(wsrep::view::member(mkid(OWN), "own", ""));
        wsrep::view v(s.mkview(++seq, wsrep::view::primary, 0));
        if (local && lopen) wsym_exit();
        s.on_connect(v);
        wsym_assert(s.state() == wsrep::server_state::s_connected && s.id() == mkid(OWN), "not connected");
        s.on_view(v, &h);
        wsym_assert(s.svc.recovers == recovers + 1, "streaming transactions not recovered exactly once after reconnecting");
        s.on_sync();
        wsym_assert(s.state() == wsrep::server_state::s_synced, "not synced after reconnecting");
        wsym_cover("reconnected");
        wsym_exit();
    }
    w.track_ctx = false;
    if (local == 1 && !lopen)
    {
        // the client learns it with its next command
        int r = c.before_command();
        wsym_assert(r != 0 && c.current_error() == wsrep::e_deadlock_error, "client not told about the abort");
        c.after_command_before_result(); c.after_command_after_result();
        wsym_assert(T(id).rollbacks == 1 && T(id).frags_removed == 1 && w.rollback_events == 0,
                    "local transaction not cleaned up after a total order abort");
        check_clean(c);
    }
    else if (lopen && local == 1 && s.state() == wsrep::server_state::s_synced)
    {
        // still able to commit
        c.before_command(); c.before_statement();
        int r = c.before_commit();
        wsym_assert(r == 0, "surviving local transaction cannot commit");
        db_commit(c, c.transaction().ws_meta().seqno().get());
        c.ordered_commit(); c.after_commit(); c.after_statement();
        wsym_assert(c.current_error() == wsrep::e_success && T(id).commits == 1, "surviving local transaction failed");
        check_clean(c);
        wsym_cover("local_survives");
    }
    wsym_exit();
}
