// Application side of wsrep-lib for the harnesses: provider, server, client,
// applier and storage services.  The services implement what the interface
// headers promise and nothing more; every decision the environment may take is
// a fresh symbolic input when the corresponding knob is on.  Monitors inside
// them state the protocol rules every harness must keep.
#ifndef WORLD_HPP
#define WORLD_HPP
#include "wsym.h"
#include "wsrep/client_state.hpp"
#include "wsrep/client_service.hpp"
#include "wsrep/server_state.hpp"
#include "wsrep/server_service.hpp"
#include "wsrep/high_priority_service.hpp"
#include "wsrep/storage_service.hpp"
#include "wsrep/transaction.hpp"
#include "wsrep/provider.hpp"
#include "wsrep/view.hpp"
#include "wsrep/key.hpp"
#include "wsrep/xid.hpp"
#include "wsrep/condition_variable.hpp"
#include "wsrep/mutex.hpp"
#include <memory>
#include <string>
#include <vector>

namespace W {

using wsrep::transaction;
typedef enum wsrep::provider::status pstatus;

// ---------------------------------------------------------------- ids
inline wsrep::id mkid(unsigned char c)
{
    char b[16] = {0};
    b[0] = char(c); b[15] = 1;
    return wsrep::id(b, 16);
}
static const unsigned char GROUP = 0x71;
static const unsigned char OWN = 0x11;

// ---------------------------------------------------------------- the world
enum slot_state { sl_free, sl_assigned, sl_entered, sl_left };
static const int MAXSLOT = 24;
static const int MAXTRX = 24;

struct slot { slot_state st; uint64_t trx; int errsize; bool external; bool frag; };

// database fate of a transaction
struct dbtrx
{
    uint64_t id;
    int commits;         // times its changes were committed in the database
    int rollbacks;
    int app_rollbacks;     // of these, by an applier
    int replays;
    int released;
    int64_t commit_seqno;
    int certified_ok;    // certify()/replay() said the commit write set passed
    int frags_stored, frags_removed;
    bool wrote;
    bool order_from_replay;
    bool frag_kept;      // the provider still holds the previous fragment
    bool handle_live;    // the provider holds a write set handle for it
    bool cert_failed;    // the provider decided that the write set fails certification
};

struct client;
struct server;
struct prov;

struct knobs
{
    // environment decisions that are symbolic when on
    bool certify, certify_few, certify_xa, commit_by_xid, certify_ordered_fail, co_enter, replay, bf_result, append_data, append_key;
    bool prepare_data, prepare_frag, storage, rollback_event, release, interrupted, remove_frag;
    bool storage_bf;       // storing a fragment of an aborted transaction may be refused
    bool streaming_allowed, apply, vote, adopt, applier_fail;
    bool desync, resync, pause, resume, wait_committing, toi, toi_leave, sst;
    int aborts;            // BF aborts that may be attempted
    bool total_order;      // may be a total order abort
    int self;              // 1: check that no library lock is held in callbacks
};

struct world
{
    knobs k;
    slot slots[MAXSLOT];
    int next_seqno;
    dbtrx trx[MAXTRX];
    int ntrx;
    client* victim;
    bool in_inject;
    int aborts_tried, aborts_ok;
    uint64_t victim_marked;    // transaction id the provider agreed to abort
    int emergency;
    int rollback_events;       // rollback fragments that reached the provider
    int rb_ids[16];
    int nglobals;
    long next_client, next_trx;
    int in_storage;
    uint64_t frag_open;        // transaction with an appended, not yet committed fragment
    int max_live_storage;
    int st_alloc, st_release, sa_alloc, sa_release;
    int dummy_ws;
    bool data_failed;
    int rb_failed, in_pending;
    bool to_aborted;
    void (*on_point)(int);
    void (*on_rb)(uint64_t, bool);  // rollback write set replicated (true) or refused
    void (*on_bg)(wsrep::client_state*);  // threaded rollbacker
    enum wsrep::client_error frag_error; // why a fragment failed
    pstatus frag_status;
    void (*on_log)(enum wsrep::log::level, const char*);
    void (*on_apply)();            // while the applier applies a whole transaction
    void (*on_state)(int, int);    // server state change, under the server's lock
    const void* ctx;           // execution context whose globals are installed
    bool track_ctx;
    bool vote_lost, silent_failure, pending_commits;
    bool err_text;             // applying failed and said why
    bool dummy_by_trx;         // dummy write sets are logged by a transaction
    int by_xid_commits, unordered_replays;
    int64_t by_xid_slot;
    std::string frag_stored;
    int frag_flags;
    bool release_failed;
    int removed_before_replay;
    bool adopt_failed;   // an applier could not take over the transaction
    bool must_go_down;   // rebuilding a prepared transaction failed
    bool not_allowed;    // the session said that the statement must not be streamed
};
static world w;

inline dbtrx& T(uint64_t id)
{
    for (int i = 0; i < w.ntrx; ++i) if (w.trx[i].id == id) return w.trx[i];
    if (w.ntrx >= MAXTRX) wsym_unsupported("too many transactions in the world");
    dbtrx& t(w.trx[w.ntrx++]);
    t = dbtrx();
    t.id = id;
    t.commit_seqno = -1;
    return t;
}

// database record of a transaction that came from (maybe) another server
inline uint64_t tkey(const wsrep::id& server, wsrep::transaction_id id)
{
    const unsigned char b = static_cast<const unsigned char*>(server.data())[0];
    return b == OWN || b == 0 ? id.get() : id.get() + uint64_t(b) * 1000;
}

inline void push1(wsrep::mutable_buffer& b) { static const char x[2] = "x"; b.push_back(x, x + 1); }
inline wsrep::key mkkey(const char* a, const char* b)
{
    wsrep::key k(wsrep::key::exclusive);
    k.append_key_part(a, 1);
    k.append_key_part(b, 1);
    return k;
}
inline unsigned pick(const char* name, unsigned n) { return unsigned(wsym_concretize(wsym_range(name, 0, n - 1))); }
inline bool yes(bool knob, const char* name);
// a failure of the environment that the client has to be told about
inline bool yes_err(bool knob, const char* name, enum wsrep::client_error e)
{
    if (!yes(knob, name)) return false;
    if (w.frag_error == wsrep::e_success) w.frag_error = e;
    return true;
}
inline bool yes(bool knob, const char* name) { return knob && wsym_bool(name); }

inline int64_t new_slot(uint64_t trx, bool external = false)
{
    if (w.next_seqno >= MAXSLOT) wsym_unsupported("too many seqnos in the world");
    int s = w.next_seqno++;
    w.slots[s].st = sl_assigned;
    w.slots[s].trx = trx;
    w.slots[s].errsize = 0;
    w.slots[s].external = external;
    w.slots[s].frag = false;
    return s;
}
inline slot& S(int64_t seqno)
{
    wsym_assert(seqno > 0 && seqno < w.next_seqno, "commit order used with a seqno the provider never assigned");
    return w.slots[seqno];
}
inline wsrep::ws_meta mkmeta(int64_t seqno, wsrep::id server, uint64_t trx, wsrep::client_id cid, int flags)
{
    return wsrep::ws_meta(wsrep::gtid(mkid(GROUP), wsrep::seqno(seqno)),
                          wsrep::stid(server, wsrep::transaction_id(trx), cid),
                          wsrep::seqno(seqno - 1), flags);
}
// every slot the provider handed out to this process is done with
inline void check_slots_done(const char* msg)
{
    for (int i = 1; i < w.next_seqno; ++i)
        wsym_assert(w.slots[i].external || w.slots[i].st == sl_left, msg);
}

void point(int where, client* c = 0); // a place where other threads may run

// ---------------------------------------------------------------- provider
struct prov : public wsrep::provider
{
    prov(wsrep::server_state& ss) : wsrep::provider(ss) { }
    int n_certify = 0, n_release = 0, n_enter = 0, n_leave = 0, n_replay = 0;
    int n_frag_certify = 0;
    int frags_ok = 0;      // fragments that (may have) reached the cluster
    int n_keys = 0, n_data = 0, n_start = 0;
    int last_flags = 0;
    pstatus last_status = success;
    int desynced = 0, paused = 0;
    // TOI
    int toi_enter = 0, toi_leave = 0;

    pstatus connect(const std::string&, const std::string&, const std::string&, bool b) override
    { ++n_connect; boot = b; return success; }
    int disconnect() override { ++n_disconnect; return 0; }
    int capabilities() const override { return 0; }
    int desync() override
    {
        wsym_yield("desync");
        if (yes(w.k.desync, "desync_fails")) return 1;
        ++desynced;
        return 0;
    }
    int resync() override
    {
        wsym_assert(desynced > 0, "provider resynced more often than it was desynced");
        if (yes(w.k.resync, "resync_fails")) return 1;
        --desynced;
        return 0;
    }
    wsrep::seqno pause() override
    {
        wsym_assert(paused == 0, "provider paused while it is already paused");
        wsym_yield("pause");
        wsym_assert(paused == 0, "provider paused while it is already paused");
        if (yes(w.k.pause, "pause_fails")) return wsrep::seqno::undefined();
        ++paused;
        return wsrep::seqno(++pauses);
    }
    int pauses = 0;
    int resume() override
    {
        wsym_assert(paused == 1, "provider resumed although it is not paused");
        if (yes(w.k.resume, "resume_fails")) return 1;
        --paused;
        return 0;
    }
    pstatus run_applier(wsrep::high_priority_service*) override { return success; }
    int start_transaction(wsrep::ws_handle&) override { ++n_start; return 0; }
    pstatus assign_read_view(wsrep::ws_handle&, const wsrep::gtid* g) override
    {
        ++n_read_view;
        read_view = g ? *g : wsrep::gtid();
        if (w.k.append_key)
        {
            const unsigned c = pick("assign_read_view_fails", 3);
            view_failed = c != 0;
            if (c == 1) return error_not_implemented;
            if (c == 2) throw wsrep::runtime_error("assign_read_view");
        }
        return success;
    }
    bool key_failed = false, view_failed = false;
    int n_read_view = 0;
    wsrep::gtid read_view;
    // the write set being built for a transaction, and the last one replicated
    struct wset { uint64_t id; std::string keys; std::string data; };
    std::vector<wset> open_ws;
    wset sent = wset();
    wset& ws(const wsrep::ws_handle& h)
    {
        const uint64_t id = h.transaction_id().get();
        wsym_assert(!h.transaction_id().is_undefined(), "write set handle without a transaction");
        T(id).handle_live = true;
        for (auto& x : open_ws) if (x.id == id) return x;
        open_ws.push_back(wset());
        open_ws.back().id = id;
        return open_ws.back();
    }
    void ws_done(uint64_t id)
    {
        for (size_t i = 0; i < open_ws.size(); ++i)
            if (open_ws[i].id == id) { open_ws.erase(open_ws.begin() + long(i)); return; }
    }
    int append_key(wsrep::ws_handle& h, const wsrep::key& k) override
    {
        ++n_keys;
        if (w.k.append_key)
        {
            const unsigned c = pick("append_key_fails", 3);
            key_failed = key_failed || c != 0;
            if (c == 1) return 1;
            if (c == 2) throw wsrep::runtime_error("append_key");
        }
        // keys of the model have parts of one character each
        wset& x(ws(h));
        wsym_assert(k.size() >= 2, "key with less than two parts");
        for (size_t i = 0; i < 2; ++i)
        {
            wsym_assert(k.key_parts()[i].size() == 1, "key part changed");
            x.keys.push_back(*static_cast<const char*>(k.key_parts()[i].ptr()));
        }
        x.keys.push_back(char('0' + int(k.type())));
        return 0;
    }
    // is the key (any type) in the last replicated write set?
    bool sent_key(char a, char b) const
    {
        for (size_t i = 0; i + 2 < sent.keys.size(); i += 3)
            if (sent.keys[i] == a && sent.keys[i + 1] == b) return true;
        return false;
    }
    pstatus append_data(wsrep::ws_handle& h, const wsrep::const_buffer& b) override
    {
        point(1);
        ++n_data;
        if (yes_err(w.k.append_data, "append_data_fails", wsrep::e_error_during_commit)) return error_size_exceeded;
        ws(h).data.append(static_cast<const char*>(b.ptr()), b.size());
        h = wsrep::ws_handle(h.transaction_id(), (void*)1);
        return success;
    }
    pstatus certify(wsrep::client_id cid, wsrep::ws_handle& h, int flags, wsrep::ws_meta& meta,
                    const seq_cb* cb) override;
    pstatus bf_abort(wsrep::seqno, wsrep::transaction_id id, wsrep::client_service&,
                     wsrep::seqno& victim_seqno) override
    {
        victim_seqno = wsrep::seqno::undefined();
        // one that has just entered its place in the commit order is refused
        // here; later on the library has to refuse by itself
        for (int i = 1; i < w.next_seqno; ++i)
            if (w.slots[i].trx == id.get() && !w.slots[i].frag && w.slots[i].st == sl_entered && !T(id.get()).commits)
                return error_not_allowed;
        if (T(id.get()).cert_failed || yes(w.k.bf_result, "bf_abort_refused")) return error_not_allowed;
        w.victim_marked = id.get();
        return success;
    }
    pstatus rollback(wsrep::transaction_id id) override
    {
        if (yes(w.k.rollback_event, "rollback_event_fails")) { if (!w.in_pending) ++w.rb_failed; if (w.on_rb) w.on_rb(id.get(), false); return error_connection_failed; }
        if (w.on_rb) w.on_rb(id.get(), true);
        if (w.rollback_events < 16) w.rb_ids[w.rollback_events] = int(id.get());
        ++w.rollback_events;
        return success;
    }
    pstatus commit_order_enter(const wsrep::ws_handle& h, const wsrep::ws_meta& m) override
    {
        point(2);
        ++n_enter;
        wsym_assert(!m.seqno().is_undefined(), "commit order entered without an ordered write set");
        slot& s(S(m.seqno().get()));
        wsym_assert(s.st != sl_left, "commit order entered again after it was left");
        wsym_assert(s.st != sl_entered, "commit order entered twice");
        for (int i = 1; i < m.seqno().get(); ++i)
            wsym_assert(w.slots[i].external || w.slots[i].st == sl_left || w.slots[i].trx == s.trx,
                        "commit order entered while an earlier write set of this process has not left");
        if (w.in_storage && w.k.storage_bf && w.victim_marked == s.trx && wsym_bool("fragment_commit_bf_abort"))
        {
            wsym_cover("fragment_commit_bf_abort");
            return error_bf_abort;
        }
        if (s.trx != 0 && w.in_storage == 0 && w.victim_marked == s.trx && !T(s.trx).replays && !T(s.trx).cert_failed)
        {
            wsym_note("coe_bf", 1);
            return error_bf_abort;
        }
        if (yes(w.k.co_enter && s.trx != 0 && !T(s.trx).replays && !T(s.trx).cert_failed && w.in_storage == 0, "commit_order_bf_abort"))
            return error_bf_abort;
        s.st = sl_entered;
        wsym_note("coe", uint64_t(m.seqno().get()));
        return success;
    }
    int commit_order_leave(const wsrep::ws_handle& h, const wsrep::ws_meta& m,
                           const wsrep::mutable_buffer& err) override
    {
        ++n_leave;
        wsym_assert(!m.seqno().is_undefined(), "commit order left without an ordered write set");
        slot& s(S(m.seqno().get()));
        wsym_assert(s.st == sl_entered, "commit order left without having been entered");
        s.st = sl_left;
        s.errsize = int(err.size());
        wsym_note("col", uint64_t(m.seqno().get()));
        if (w.in_storage && w.k.storage_bf && w.victim_marked == s.trx && wsym_bool("fragment_commit_bf_abort_late")) return error_bf_abort;
        if (err.size() > 0 && yes(w.k.vote, "vote_lost")) { w.vote_lost = true; return error_fatal; }
        return success;
    }
    int release(wsrep::ws_handle& h) override
    {
        ++n_release;
        ++T(h.transaction_id().get()).released;
        T(h.transaction_id().get()).handle_live = T(h.transaction_id().get()).frag_kept = false;
        ws_done(h.transaction_id().get());
        wsym_note("rel", h.transaction_id().get());
        // the slot of a fragment whose storage failed is passed by the provider
        for (int i = 1; i < w.next_seqno; ++i)
            if (w.slots[i].frag && w.slots[i].trx == h.transaction_id().get() && w.slots[i].st == sl_assigned)
                w.slots[i].st = sl_left;
        if (w.k.release && w.in_storage == 0 && yes_err(true, "release_fails", wsrep::e_deadlock_error)) { w.release_failed = true; return 1; }
        return 0;
    }
    pstatus replay(const wsrep::ws_handle& h, wsrep::high_priority_service* hps) override;
    pstatus enter_toi(wsrep::client_id cid, const wsrep::key_array& keys, const wsrep::const_buffer& buf,
                      wsrep::ws_meta& m, int flags) override
    {
        ++toi_enter;
        toi_flags = flags; toi_keys = int(keys.size()); toi_data = int(buf.size()); toi_input = m;
        if (w.on_point) w.on_point(30);
        pstatus st = w.k.toi ? pstatus(wsym_range("enter_toi_status", 0, 11)) : success;
        toi_status = st;
        if (st == success || yes(w.k.toi, "failed_toi_is_ordered"))
        {
            m = mkmeta(new_slot(0), server_state_.id(), uint64_t(-1), cid, flags);
            w.slots[m.seqno().get()].st = sl_entered;
            ++toi_open;
            wsym_assert(toi_open == 1, "total order isolation entered again before it was left");
        }
        else if (!yes(w.k.toi, "failed_toi_keeps_meta")) m = wsrep::ws_meta();
        wsym_note("enter_toi", uint64_t(st));
        return st;
    }
    int toi_flags = 0, toi_keys = 0, toi_data = 0, toi_open = 0;
    pstatus toi_status = success;
    bool leave_failed = false;
    wsrep::ws_meta toi_input;
    pstatus leave_toi(wsrep::client_id, const wsrep::ws_meta& m, const wsrep::mutable_buffer& err) override
    {
        ++toi_leave;
        if (w.on_point) w.on_point(31);
        slot& s(S(m.seqno().get()));
        wsym_assert(s.st == sl_entered, "total order isolation left without having been entered");
        s.st = sl_left;
        s.errsize = int(err.size());
        --toi_open;
        wsym_note("leave_toi", uint64_t(m.seqno().get()));
        if (yes(w.k.toi_leave, "leave_toi_fails")) { leave_failed = true; return error_fatal; }
        return success;
    }
    mutable int causal_timeout = 0, n_causal = 0;
    mutable wsrep::gtid waited_gtid;
    pstatus causal_status = error_not_implemented;
    wsrep::gtid causal_gtid;
    std::pair<wsrep::gtid, pstatus> causal_read(int t) const override
    { causal_timeout = t; ++n_causal; return std::make_pair(causal_gtid, causal_status); }
    pstatus wait_for_gtid(const wsrep::gtid& g, int t) const override
    { waited_gtid = g; causal_timeout = t; return causal_status; }
    wsrep::gtid last_committed_gtid() const override { return wsrep::gtid(); }
    int n_sst_sent = 0, n_sst_received = 0, sst_error = 0, n_connect = 0, n_disconnect = 0;
    bool sst_failed = false, boot = false;
    wsrep::gtid sst_gtid;
    pstatus sst_sent(const wsrep::gtid& g, int e) override
    {
        ++n_sst_sent; sst_gtid = g; sst_error = e;
        return yes(w.k.sst, "provider_sst_sent_fails") ? error_fatal : success;
    }
    pstatus sst_received(const wsrep::gtid& g, int e) override
    {
        ++n_sst_received; sst_gtid = g; sst_error = e;
        sst_failed = yes(w.k.sst, "provider_sst_received_fails");
        return sst_failed ? error_fatal : success;
    }
    pstatus enc_set_key(const wsrep::const_buffer&) override { return success; }
    std::vector<status_variable> status() const override { return std::vector<status_variable>(); }
    void reset_status() override { }
    std::string options() const override { return ""; }
    pstatus options(const std::string&) override { return success; }
    pstatus set_node_isolation(enum node_isolation) override { return error_not_implemented; }
    std::string name() const override { return "model"; }
    std::string version() const override { return "0"; }
    std::string vendor() const override { return "model"; }
    void* native() const override { return 0; }
};

// ---------------------------------------------------------------- clients
struct cservice : public wsrep::client_service
{
    client* c;
    int stored = 0, reset = 0, will = 0, signalled = 0, cleaned = 0, bf_rollbacks = 0, notified = 0;
    int removed = 0;
    size_t bytes = 0;      // bytes generated
    bool explicit_xa = false, prepared_xa = false, xa_rollback = false;
    bool data_empty = false;
    cservice(client* cl) : c(cl) { }
    bool interrupted(wsrep::unique_lock<wsrep::mutex>&) const override
    { bool r = yes(w.k.interrupted, "interrupted"); if (r) was_interrupted = true; return r; }
    mutable bool was_interrupted = false;
    bool glob = false;   // the thread works with the globals of this session
    void reset_globals() override { ++reset; glob = false; }
    void store_globals() override { ++stored; glob = true; }
    int prepare_data_for_replication() override;
    void cleanup_transaction() override { ++cleaned; }
    bool statement_allowed_for_streaming() const override
    {
        if (!yes(w.k.streaming_allowed, "stmt_not_allowed_for_streaming")) return true;
        w.not_allowed = true;
        return false;
    }
    size_t bytes_generated() const override { return bytes; }
    int prepare_fragment_for_replication(wsrep::mutable_buffer& b, size_t& pos) override;
    int remove_fragments() override;
    int bf_rollback() override;
    void emergency_shutdown() override
    {
        // the process goes down here: nothing after it is observable
        ++w.emergency;
        wsym_note("emergency", 1);
        wsym_cover("emergency_shutdown");
        wsym_exit();
    }
    void will_replay() override { ++will; }
    void signal_replayed() override
    {
        ++signalled;
        wsym_assert(!w.must_go_down, "went on after a prepared transaction could not be rebuilt");
    }
    pstatus replay() override;
    pstatus replay_unordered() override;
    void wait_for_replayers(wsrep::unique_lock<wsrep::mutex>& lock) override
    {
        lock.unlock();
        point(3);
        lock.lock();
    }
    pstatus commit_by_xid() override;
    bool is_explicit_xa() override;
    bool is_prepared_xa() override { return prepared_xa; }
    bool is_xa_rollback() override { return xa_rollback; }
    void debug_sync(const char*) override { point(4); }
    void debug_crash(const char*) override { }
    void notify_state_change() override { ++notified; }
};

struct client : public wsrep::client_state
{
    wsrep::default_mutex mtx;
    wsrep::default_condition_variable cv;
    cservice svc;
    uint64_t cur = 0;
    client(wsrep::server_state& ss, wsrep::client_id id, enum wsrep::client_state::mode m)
        : wsrep::client_state(mtx, cv, ss, svc, id, m), mtx(), cv(), svc(this) { }
    bool locked() { return wsym_mutex_owner(mtx.native()) >= 0; }
    uint64_t begin()
    {
        cur = uint64_t(++w.next_trx);
        T(cur).wrote = true;
        start_transaction(wsrep::transaction_id(cur));
        return cur;
    }
};

inline prov& P(wsrep::server_state& ss) { return static_cast<prov&>(ss.provider()); }

// ---------------------------------------------------------------- appliers
// a transaction taken over is the same transaction, with all its fragments
inline void check_adopted(const wsrep::transaction& a, const wsrep::transaction& t)
{
    wsym_assert(a.active() && a.id() == t.id() && a.server_id() == t.server_id(), "another transaction than the given one taken over");
    const std::vector<wsrep::seqno>& x(a.streaming_context().fragments());
    const std::vector<wsrep::seqno>& y(t.streaming_context().fragments());
    wsym_assert(x.size() == y.size(), "transaction taken over without its fragments");
    for (size_t i = 0; i < x.size() && i < y.size(); ++i)
        wsym_assert(x[i] == y[i], "transaction taken over with other fragments");
}
struct hpsvc : public wsrep::high_priority_service
{
    client* c;
    bool replaying, owned, failed_apply = false, in_place = false;
    int stored = 0, reset = 0, switched = 0, applied = 0, appended = 0, toi = 0, nbo = 0, removed = 0;
    int commits = 0, rollbacks = 0, after = 0, dummies = 0, adopted = 0;
    std::unique_ptr<client> nbo_client;
    cservice* maker = 0;   // the session that is being converted
    hpsvc(wsrep::server_state& ss, client* cl, bool rep, bool own = false)
        : wsrep::high_priority_service(ss), c(cl), replaying(rep), owned(own) { }
    int start_transaction(const wsrep::ws_handle& h, const wsrep::ws_meta& m) override
    { return c->start_transaction(h, m); }
    int next_fragment(const wsrep::ws_meta& m) override
    {
        const int r = c->next_fragment(m);
        wsym_assert(r == 0 && c->transaction().ws_meta().seqno() == m.seqno(), "next fragment refused or applied with other meta data");
        return r;
    }
    const wsrep::transaction& transaction() const override { return c->transaction(); }
    int adopt_transaction(const wsrep::transaction& t) override
    {
        if (yes(w.k.adopt, "adopt_fails")) { w.adopt_failed = true; return 1; }
        maker = 0;
        ++adopted;
        c->adopt_transaction(t);
        check_adopted(c->transaction(), t);
        if (t.state() == wsrep::transaction::s_prepared) c->restore_xid(t.xid());
        return 0;
    }
    int apply_write_set(const wsrep::ws_meta& m, const wsrep::const_buffer&, wsrep::mutable_buffer& err) override;
    int append_fragment_and_commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m,
                                   const wsrep::const_buffer&, const wsrep::xid& xid) override;
    int remove_fragments(const wsrep::ws_meta& m) override
    {
        ++removed;
        in_ctx("fragments removed in a foreign execution context");
        if (yes(w.k.applier_fail, "applier_remove_fragments_fails")) return 1;
        ++T(tkey(m.server_id(), m.transaction_id())).frags_removed;
        return 0;
    }
    int commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m) override;
    int rollback(const wsrep::ws_handle& h, const wsrep::ws_meta& m) override
    {
        ++rollbacks;
        in_ctx("rollback in a foreign execution context");
        ++T(tkey(c->transaction().server_id(), c->transaction().id())).rollbacks;
        ++T(tkey(c->transaction().server_id(), c->transaction().id())).app_rollbacks;
        c->prepare_for_ordering(h, m, false);
        return c->before_rollback() || c->after_rollback();
    }
    int apply_toi(const wsrep::ws_meta& m, const wsrep::const_buffer&, wsrep::mutable_buffer& err) override
    {
        ++toi;
        in_ctx("isolated operation applied in a foreign execution context");
        wsym_assert(S(m.seqno().get()).st == sl_entered, "isolated operation applied outside its commit order slot");
        if (yes(w.k.apply, "toi_apply_fails"))
        {
            if (wsym_bool("toi_error_text")) { push1(err); w.err_text = true; }
            else w.silent_failure = true;
            return 1;
        }
        return 0;
    }
    int apply_nbo_begin(const wsrep::ws_meta& m, const wsrep::const_buffer&, wsrep::mutable_buffer& err) override
    {
        ++nbo;
        wsym_assert(S(m.seqno().get()).st == sl_entered, "NBO begin applied outside its commit order slot");
        if (yes(w.k.apply, "nbo_apply_fails"))
        {
            if (wsym_bool("nbo_error_text")) { push1(err); w.err_text = true; }
            else w.silent_failure = true;
            return 1;
        }
        return 0;
    }
    void after_apply() override { ++after; if (!in_place) c->after_applying(); }
    void store_globals() override { ++stored; w.ctx = this; c->acquire_ownership(); }
    void reset_globals() override
    {
        ++reset;
        wsym_assert(!w.track_ctx || w.ctx == this, "globals of an execution context reset that was not active");
        w.ctx = 0;
    }
    void in_ctx(const char* msg) const { wsym_assert(!w.track_ctx || w.ctx == this, msg); }
    void switch_execution_context(wsrep::high_priority_service&) override { ++switched; }
    int log_dummy_write_set(const wsrep::ws_handle& h, const wsrep::ws_meta& m, wsrep::mutable_buffer& err) override
    {
        ++dummies;
        ++w.dummy_ws;
        in_ctx("dummy write set logged in a foreign execution context");
        wsym_assert(!c->transaction().active(), "dummy write set logged inside a transaction");
        if (w.dummy_by_trx)
        {
            // a transaction without changes
            int r = c->start_transaction(h, m);
            wsym_assert(r == 0, "transaction of a dummy write set refused");
            c->adopt_apply_error(err);
            wsym_assert(err.size() == 0 || c->transaction().apply_error().size() == err.size(), "error of a failed write set lost");
            c->prepare_for_ordering(h, m, true);
            r = c->before_commit();
            wsym_assert(r == 0, "transaction of a dummy write set refused");
            r = c->ordered_commit();
            if (!r) r = c->after_commit();
            else { c->before_rollback(); c->after_rollback(); }
            c->after_applying();
            return r;
        }
        // or just pass the commit order slot
        pstatus st = P(server_state_).commit_order_enter(h, m);
        if (st) return 1;
        return P(server_state_).commit_order_leave(h, m, err);
    }
    void adopt_apply_error(wsrep::mutable_buffer& err) override { c->adopt_apply_error(err); }
    bool is_replaying() const override { return replaying; }
    void debug_crash(const char*) override { }
};

// ---------------------------------------------------------------- storage
struct stsvc : public wsrep::storage_service
{
    client c;
    bool globals;
    bool open_trx = false, appended = false;
    wsrep::seqno meta_seqno;
    uint64_t frag_trx = 0;
    int stored_globals = 0;
    const cservice* owner;
    stsvc(wsrep::server_state& ss, bool g, const cservice* o = 0)
        : c(ss, wsrep::client_id(++w.next_client), wsrep::client_state::m_high_priority), globals(g), owner(o)
    {
        c.open(c.id());
        c.before_command();
    }
    ~stsvc()
    {
        wsym_assert(!open_trx, "storage service released with its transaction open");
        c.after_command_before_result();
        c.after_command_after_result();
        c.close();
        c.cleanup();
    }
    int start_transaction(const wsrep::ws_handle& h) override
    {
        if (yes_err(w.k.storage, "storage_start_fails", wsrep::e_append_fragment_error)) return 1;
        open_trx = true;
        return c.start_transaction(h.transaction_id());
    }
    void adopt_transaction(const wsrep::transaction& t) override
    { open_trx = true; frag_trx = tkey(t.server_id(), t.id()); c.adopt_transaction(t); check_adopted(c.transaction(), t); }
    int append_fragment(const wsrep::id& server, wsrep::transaction_id id, int flags, const wsrep::const_buffer& b,
                        const wsrep::xid&) override
    {
        in_globals();
        wsym_assert(server == c.server_state().id(), "fragment stored for another server");
        w.frag_flags = flags;
        wsym_assert(!server.is_undefined(), "fragment stored with an undefined server id");
        wsym_assert(b.size() > 0, "empty fragment stored");
        w.frag_stored.assign(static_cast<const char*>(b.ptr()), b.size());
        if (yes_err(w.k.storage, "storage_append_fails", wsrep::e_append_fragment_error)) return 1;
        appended = true;
        w.frag_open = frag_trx = id.get();
        return 0;
    }
    int update_fragment_meta(const wsrep::ws_meta& m) override
    {
        wsym_assert(appended, "fragment meta data updated before the fragment was appended");
        wsym_assert(!m.seqno().is_undefined() && m.seqno().get() < w.next_seqno && w.slots[m.seqno().get()].trx == frag_trx,
                    "fragment stored with meta data of another write set");
        meta_seqno = m.seqno();
        return yes_err(w.k.storage, "storage_meta_fails", wsrep::e_deadlock_error) ? 1 : 0;
    }
    int remove_fragments() override
    {
        in_globals();
        wsym_assert(open_trx, "fragments removed outside a transaction");
        ++T(frag_trx).frags_removed;
        return 0;
    }
    // the thread globals belong to the storage service exactly when it needs them
    void in_globals() const
    {
        if (!owner) return;
        wsym_assert(owner->glob == !globals && stored_globals == int(globals), "storage accessed with the globals of another context");
    }
    int commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m) override
    {
        int ret = 0;
        if (!m.seqno().is_undefined())
        {
            wsym_assert(appended && meta_seqno == m.seqno(), "fragment committed without its meta data");
            ++w.in_storage;
            if (yes_err(w.k.storage, "storage_commit_fails", wsrep::e_deadlock_error))
            {
                // failing to commit still passes the commit order slot
                c.prepare_for_ordering(h, m, false);
                c.before_rollback();
                c.after_rollback();
                wsrep::mutable_buffer e;
                if (P(c.server_state()).commit_order_enter(h, m) == wsrep::provider::success)
                    P(c.server_state()).commit_order_leave(h, m, e);
                ret = 1;
            }
            else
            {
                ret = c.prepare_for_ordering(h, m, true) || c.before_commit() || c.ordered_commit();
                if (ret)
                {
                    // the transaction the fragment belongs to was aborted
                    c.before_rollback();
                    c.after_rollback();
                }
                else ret = c.after_commit();
                if (!ret && appended) ++T(frag_trx).frags_stored;
            }
            --w.in_storage;
        }
        else
        {
            c.before_rollback();
            c.after_rollback();
        }
        c.after_applying();
        open_trx = false;
        if (w.frag_open == frag_trx) w.frag_open = 0;
        return ret;
    }
    int rollback(const wsrep::ws_handle& h, const wsrep::ws_meta& m) override
    {
        int ret = c.prepare_for_ordering(h, m, false) || c.before_rollback() || c.after_rollback();
        c.after_applying();
        open_trx = false;
        if (w.frag_open == frag_trx) w.frag_open = 0;
        return ret;
    }
    void store_globals() override { ++stored_globals; }
    void reset_globals() override { }
    bool requires_globals() const override { return globals; }
};

// ---------------------------------------------------------------- server
struct sservice : public wsrep::server_service
{
    wsrep::server_state* ss = 0;
    wsrep::gtid position;
    wsrep::view logged;
    int views = 0, bootstraps = 0, recovers = 0, state_changes = 0, bg = 0;
    bool sst_first = false;
    bool st_globals = true;
    int started_sst = 0, requested_sst = 0;
    std::vector<hpsvc*> live_appliers;
    wsrep::storage_service* storage_service(wsrep::client_service& cs) override
    { ++w.st_alloc; return new stsvc(*ss, st_globals, &static_cast<cservice&>(cs)); }
    wsrep::storage_service* storage_service(wsrep::high_priority_service&) override
    { ++w.st_alloc; return new stsvc(*ss, st_globals); }
    void release_storage_service(wsrep::storage_service* s) override { ++w.st_release; delete s; }
    wsrep::high_priority_service* mkapplier()
    {
        ++w.sa_alloc;
        client* c = new client(*ss, wsrep::client_id(++w.next_client), wsrep::client_state::m_high_priority);
        c->open(c->id());
        c->before_command();
        hpsvc* h = new hpsvc(*ss, c, false, true);
        live_appliers.push_back(h);
        return h;
    }
    wsrep::high_priority_service* streaming_applier_service(wsrep::client_service& cs) override
    {
        wsrep::high_priority_service* h = mkapplier();
        live_appliers.back()->maker = &static_cast<cservice&>(cs);
        return h;
    }
    wsrep::high_priority_service* streaming_applier_service(wsrep::high_priority_service&) override { return mkapplier(); }
    void release_high_priority_service(wsrep::high_priority_service* h) override
    {
        ++w.sa_release;
        w.ctx = 0;
        hpsvc* s = static_cast<hpsvc*>(h);
        if (s->maker) s->maker->glob = false; // works with the applier's globals from here on
        bool found = false;
        for (size_t i = 0; i < live_appliers.size(); ++i)
            if (live_appliers[i] == s) { live_appliers.erase(live_appliers.begin() + long(i)); found = true; break; }
        wsym_assert(found, "streaming applier released twice");
        s->c->acquire_ownership();
        s->c->after_command_before_result();
        s->c->after_command_after_result();
        s->c->close();
        s->c->cleanup();
        delete s->c;
        delete s;
    }
    void background_rollback(wsrep::unique_lock<wsrep::mutex>& lock, wsrep::client_state& cs) override;
    void bootstrap() override { ++bootstraps; }
    void log_message(enum wsrep::log::level l, const char* m) override { if (w.on_log) w.on_log(l, m); }
    void log_dummy_write_set(wsrep::client_state&, const wsrep::ws_meta&) override { }
    void log_view(wsrep::high_priority_service*, const wsrep::view& v) override { ++views; logged = v; }
    void recover_streaming_appliers(wsrep::client_service&) override { ++recovers; }
    void recover_streaming_appliers(wsrep::high_priority_service&) override { ++recovers; }
    wsrep::view get_view(wsrep::client_service&, const wsrep::id& own) override
    {
        return wsrep::view(logged.state_id(), logged.view_seqno(), logged.status(), logged.capabilities(),
                           logged.member_index(own), logged.protocol_version(), logged.members());
    }
    wsrep::gtid get_position(wsrep::client_service&) override { return position; }
    void set_position(wsrep::client_service&, const wsrep::gtid& g) override
    {
        wsym_assert(position.seqno().is_undefined() || g.seqno() >= position.seqno() || g.id() != position.id(),
                    "the recorded replication position moved backwards");
        position = g;
    }
    void log_state_change(enum wsrep::server_state::state f, enum wsrep::server_state::state t) override
    { ++state_changes; if (w.on_state) w.on_state(int(f), int(t)); }
    bool sst_before_init() const override { return sst_first; }
    std::string sst_request() override { ++requested_sst; return "r"; }
    int start_sst(const std::string&, const wsrep::gtid& g, bool) override
    { ++started_sst; sst_gtid = g; sst_state = int(ss->state()); return yes(w.k.sst, "start_sst_fails") ? 1 : 0; }
    wsrep::gtid sst_gtid;
    int sst_state = -1;
    int wait_committing_transactions(int) override
    { w.pending_commits = yes(w.k.wait_committing, "committing_transactions_pending"); return w.pending_commits ? 1 : 0; }
    void debug_sync(const char*) override { point(5); }
};

struct server : public wsrep::server_state
{
    sservice svc;
    wsrep::default_mutex mtx;
    wsrep::default_condition_variable cv;
    prov* p = 0;
    std::vector<wsrep::view::member> members;
    server(const char* name, enum wsrep::server_state::rollback_mode rm)
        : wsrep::server_state(mtx, cv, svc, 0, name, "", "", "", wsrep::gtid::undefined(), 1, rm)
    {
        svc.ss = this;
        set_provider_factory([this](wsrep::server_state& ss, const std::string&, const std::string&,
                                    const wsrep::provider::services&) {
            p = new prov(ss);
            return std::unique_ptr<wsrep::provider>(p);
        });
        load_provider("model", "");
        members.push_back(wsrep::view::member(mkid(OWN), "own", ""));
    }
    wsrep::view mkview(int64_t seqno, enum wsrep::view::status st, int own)
    {
        return wsrep::view(wsrep::gtid(mkid(GROUP), wsrep::seqno(seqno)), wsrep::seqno(seqno), st, 0, own, 0, members);
    }
    // drive the server to the synced state
    void go_synced()
    {
        client* c = new client(*this, wsrep::client_id(++w.next_client), wsrep::client_state::m_high_priority);
        c->open(c->id());
        c->before_command();
        hpsvc h(*this, c, false);
        initialized();
        connect("c", "a", "", true);
        wsrep::view v(mkview(0, wsrep::view::primary, 0));
        on_connect(v);
        bring_up(v, h);
        c->after_command_before_result();
        c->after_command_after_result();
        c->close();
        c->cleanup();
        delete c;
        wsym_assert(state() == wsrep::server_state::s_synced, "server did not reach the synced state");
    }
    void bring_up(const wsrep::view& v, hpsvc& h);
};

inline void server::bring_up(const wsrep::view& v, hpsvc& h)
{
    // the order a seed node goes through with storage initialised first is
    // connected -> joiner -> joined -> synced
    on_view(v, &h);
    on_sync();
}

// ---------------------------------------------------------------- behaviour
inline void point(int where, client*)
{
    if (w.on_point) w.on_point(where);
    if (!w.victim || w.in_inject || w.aborts_tried >= w.k.aborts || w.in_storage) return;
    if (w.victim->locked()) return;
    if (where == 5) return; // inside streaming_rollback(): an aborter would wait there (threaded harnesses)
    if (!w.victim->transaction().active()) return;
    // bf_abort() is not to be called on a session in applying mode
    if (w.victim->mode() != wsrep::client_state::m_local) return;
    if (!wsym_bool("bf_abort_now")) return;
    ++w.aborts_tried;
    w.in_inject = true;
    wsym_set_self(77);
    bool to = yes(w.k.total_order, "total_order");
    int r;
    wsrep::seqno bs(new_slot(0, true));
    const uint64_t vid = w.victim->transaction().id().get();
    const bool was_active = w.victim->transaction().active();
    const enum wsrep::transaction::state before = w.victim->transaction().state();
    bool was_fixed = T(vid).commits > 0;
    if (w.victim->transaction().ordered())
    {
        slot_state st = w.slots[w.victim->transaction().ws_meta().seqno().get()].st;
        if (st == sl_left) was_fixed = true;
    }
    w.victim_marked = 0;
    wsym_note("abort_at", uint64_t(where));
    if (to) r = w.victim->total_order_bf_abort(bs);
    else r = w.victim->bf_abort(bs);
    wsym_note("aborted", uint64_t(r));
    if (r && to) w.to_aborted = true;
    if (r) { ++w.aborts_ok; wsym_cover("bf_aborted"); }
    wsym_assert(!r || w.victim_marked == vid, "abort reported although the provider did not agree to it");
    wsym_assert(!(r && was_fixed), "a transaction already ordered for commit was aborted");
    wsym_assert(r || w.victim->transaction().state() == before || !was_active,
                "a refused abort changed the victim");
    wsym_set_self(0);
    w.in_inject = false;
}

inline pstatus prov::certify(wsrep::client_id cid, wsrep::ws_handle& h, int flags, wsrep::ws_meta& meta,
                             const seq_cb* cb)
{
    point(6);
    ++n_certify;
    last_flags = flags;
    uint64_t id = h.transaction_id().get();
    if (!wsrep::commits_transaction(flags) && !wsrep::rolls_back_transaction(flags))
    {
        wsym_assert(w.frag_open == id, "a fragment was replicated before it was stored");
        ++n_frag_certify;
    }
    // finishing an XA transaction by its xid carries no write set of its own
    const bool by_xid = !meta.transaction_id().is_undefined() && meta.transaction_id() != h.transaction_id();
    if (!by_xid && !h.transaction_id().is_undefined())
    {
        sent = ws(h);
        ws_done(id);
        wsym_assert(!T(id).frag_kept, "write set replicated before the previous fragment was released");
        T(id).frag_kept = !wsrep::commits_transaction(flags);
    }
    h = wsrep::ws_handle(h.transaction_id(), (void*)1);
    pstatus st = success;
    if (w.victim_marked == id)
    {
        // the provider agreed to abort this transaction: it either finds that
        // out now, or the write set passed before the abort was delivered
        unsigned c = pick("certify_after_abort", w.k.certify_xa ? 2 : 3);
        if (w.k.certify_xa && c == 1) c = 2; // finishing a prepared transaction cannot conflict
        st = c == 0 ? error_bf_abort : c == 1 ? error_certification_failed : success;
    }
    else if (w.k.certify)
        st = pstatus(pick("certify_status", 12));
    else if (w.k.certify_few)
    {
        const unsigned c = pick("certify_status", 3);
        st = c == 0 ? success : c == 1 ? error_certification_failed : error_connection_failed;
    }
    else if (w.k.certify_xa)
        st = wsym_bool("certify_conn_failed") ? error_connection_failed : success;
    bool ordered = st == success;
    if (st == error_certification_failed || st == error_bf_abort)
        // fragments are resubmitted or dropped by the provider itself
        ordered = !wsrep::commits_transaction(flags) ? false :
            w.k.certify_ordered_fail ? wsym_bool("failed_write_set_is_ordered") : st == error_bf_abort;
    if (ordered)
    {
        if (by_xid)
        {
            // finishes a detached transaction: delivered to the applier
            id = tkey(meta.server_id(), meta.transaction_id());
            w.by_xid_slot = new_slot(0, true);
            meta = mkmeta(w.by_xid_slot, meta.server_id(), meta.transaction_id().get(), cid, flags);
        }
        else
        {
            meta = mkmeta(new_slot(id), server_state_.id(), id, cid, flags);
            w.slots[meta.seqno().get()].frag = !wsrep::commits_transaction(flags);
        }
        if (cb && cb->fn) cb->fn(cb->ctx);
    }
    last_status = st;
    if (st && !wsrep::commits_transaction(flags) && w.frag_error == wsrep::e_success)
    {
        w.frag_error = st == error_size_exceeded ? wsrep::e_size_exceeded_error : wsrep::e_deadlock_error;
        w.frag_status = st;
    }
    wsym_note("certify", uint64_t(st) * 2 + ordered);
    if (!wsrep::commits_transaction(flags) && (st == success || st == error_bf_abort || st == error_certification_failed))
        ++frags_ok;
    if (st == success && wsrep::commits_transaction(flags)) ++T(id).certified_ok;
    if (by_xid) return st;
    if (st == error_certification_failed) T(id).cert_failed = true;
    point(7);
    return st;
}

inline pstatus prov::replay(const wsrep::ws_handle& h, wsrep::high_priority_service* hps)
{
    ++n_replay;
    hpsvc& s(*static_cast<hpsvc*>(hps));
    uint64_t id = h.transaction_id().get();
    wsym_assert(s.c->transaction().id().get() == id, "replay of a handle that is not the transaction's");
    ++T(id).replays;
    pstatus st = success;
    if (w.k.replay)
    {
        unsigned c = pick("replay_status", 3);
        if (c == 1 && w.k.certify_xa) wsym_assume(0); // finishing a prepared transaction cannot conflict
        st = c == 0 ? success : c == 1 ? error_certification_failed : error_fatal;
        if (c == 1 && T(id).certified_ok) wsym_assume(0); // a certified write set cannot fail certification later
    }
    wsym_note("replay", uint64_t(st));
    if (st) return st;
    wsrep::ws_meta m(s.c->transaction().ws_meta());
    T(id).order_from_replay = m.seqno().is_undefined();
    if (m.seqno().is_undefined())
        m = mkmeta(new_slot(id), server_state_.id(), id, s.c->id(),
                   wsrep::provider::flag::commit |
                   (s.c->transaction().is_streaming() ? 0 : wsrep::provider::flag::start_transaction));
    ++T(id).certified_ok;
    if (s.apply(h, m, wsrep::const_buffer())) return error_fatal;
    return success;
}

inline int cservice::prepare_data_for_replication()
{
    point(8);
    if (yes(w.k.prepare_data, "prepare_data_fails")) { w.data_failed = true; return 1; }
    if (!data_empty) return c->append_data(wsrep::const_buffer("1", 1));
    return 0;
}
inline int cservice::prepare_fragment_for_replication(wsrep::mutable_buffer& b, size_t& pos)
{
    point(9);
    if (yes_err(w.k.prepare_frag, "prepare_fragment_fails", wsrep::e_error_during_commit)) return 1;
    // the part of the log generated since the previous fragment
    for (size_t i = c->transaction().streaming_context().log_position(); i < bytes; ++i)
    {
        const char x = char('A' + i);
        b.push_back(&x, &x + 1);
    }
    if (b.size() == 0 && c->transaction().is_xa()) push1(b);
    pos = bytes;
    return 0;
}
inline int cservice::remove_fragments()
{
    point(10);
    ++removed;
    if (c->transaction().state() == wsrep::transaction::s_must_abort && wsym_bool("storage_engine_rolls_back"))
    {
        // the storage engine notices the abort and rolls back internally
        wsym_cover("rolled_back_in_fragment_removal");
        ++T(c->transaction().id().get()).rollbacks;
        c->before_rollback();
        c->after_rollback();
        return 1;
    }
    if (yes(w.k.remove_frag, "remove_fragments_fails")) return 1;
    ++T(c->transaction().id().get()).frags_removed;
    return 0;
}
inline int cservice::bf_rollback()
{
    ++bf_rollbacks;
    if (c->transaction().state() == wsrep::transaction::s_aborted) return 0; // the rollbacker was here
    if (c->transaction().state() != wsrep::transaction::s_must_replay) ++T(c->transaction().id().get()).rollbacks;
    wsym_note("bf_rollback", 1);
    int r = c->before_rollback();
    if (!r) r = c->after_rollback();
    return r;
}
inline bool cservice::is_explicit_xa()
{
    return explicit_xa && (c->transaction().state() == wsrep::transaction::s_executing ||
                           c->transaction().state() == wsrep::transaction::s_prepared);
}
inline pstatus cservice::commit_by_xid()
{
    if (yes(w.k.commit_by_xid, "commit_by_xid_fails")) return wsrep::provider::error_connection_failed;
    // some other session replicates the commit; it is delivered later
    ++w.by_xid_commits;
    return wsrep::provider::success;
}
inline pstatus cservice::replay_unordered()
{
    // the prepared transaction is rebuilt from its fragments in the applier
    ++w.unordered_replays;
    hpsvc* h = static_cast<hpsvc*>(c->server_state().find_streaming_applier(
        c->transaction().server_id(), c->transaction().id()));
    wsym_assert(h != 0, "no applier to rebuild the prepared transaction in");
    if (!h) wsym_exit();
    wsym_assert(size_t(T(c->transaction().id().get()).frags_stored) == h->transaction().streaming_context().fragments().size(),
                "the applier taking over does not know all fragments");
    h->c->acquire_ownership();
    glob = false;
    if (yes(w.k.replay, "unordered_replay_fails")) { w.must_go_down = true; return wsrep::provider::error_fatal; }
    h->c->restore_xid(c->transaction().xid());
    return wsrep::provider::success;
}
inline pstatus cservice::replay()
{
    w.removed_before_replay = removed;
    if (wsym_bool("replay_in_place"))
    {
        // by the session itself, put into applying mode; the transaction is
        // kept for the session after the replay
        wsrep::high_priority_context ctx(*c);
        hpsvc h(c->server_state(), c, true);
        h.in_place = true;
        const pstatus st = P(c->server_state()).replay(c->transaction().ws_handle(), &h);
        wsym_cover("replayed_in_place");
        return st;
    }
    client rep(c->server_state(), wsrep::client_id(++w.next_client), wsrep::client_state::m_high_priority);
    rep.open(rep.id());
    rep.before_command();
    rep.clone_transaction_for_replay(c->transaction());
    pstatus st;
    {
        hpsvc h(c->server_state(), &rep, true);
        st = P(c->server_state()).replay(rep.transaction().ws_handle(), &h);
    }
    rep.after_applying();
    rep.after_command_before_result();
    rep.after_command_after_result();
    rep.close();
    rep.cleanup();
    wsym_cover("replayed");
    return st;
}

// database commit of the current transaction at its commit order slot
inline void db_commit(client& c, int64_t seqno)
{
    dbtrx& t(T(c.transaction().id().get()));
    wsym_assert(seqno > 0, "committed without a place in the total order");
    wsym_assert(S(seqno).st == sl_entered, "database commit outside the commit order critical section");
    wsym_assert(t.commits == 0, "a transaction committed twice");
    wsym_assert(t.certified_ok > 0, "a transaction committed whose write set did not pass certification");
    wsym_assert(t.rollbacks == 0 || t.replays > 0, "a rolled back transaction committed without being replayed");
    ++t.commits;
    t.commit_seqno = seqno;
    wsym_note("db_commit", uint64_t(seqno));
}

inline int hpsvc::apply_write_set(const wsrep::ws_meta& m, const wsrep::const_buffer&, wsrep::mutable_buffer& err)
{
    ++applied;
    in_ctx("write set applied in a foreign execution context");
    wsym_assert(c->transaction().active(), "write set applied outside a transaction");
    wsym_assert(c->transaction().ws_meta().seqno() == m.seqno() || replaying,
                "write set applied with the meta data of another one");
    if (yes(w.k.apply && !replaying, "apply_fails"))
    {
        failed_apply = true;
        if (wsym_bool("apply_error_text")) { push1(err); w.err_text = true; }
            else w.silent_failure = true;
        return 1;
    }
    if (w.on_apply && wsrep::starts_transaction(m.flags()) && wsrep::commits_transaction(m.flags())) w.on_apply();
    if (!wsrep::commits_transaction(m.flags())) c->fragment_applied(m.seqno());
    if (wsrep::prepares_transaction(m.flags()))
    {
        c->assign_xid(wsrep::xid(1, 3, 1, "xid"));
        return c->before_prepare() || c->after_prepare();
    }
    return 0;
}
inline int hpsvc::append_fragment_and_commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m,
                                             const wsrep::const_buffer&, const wsrep::xid&)
{
    ++appended;
    in_ctx("fragment stored in a foreign execution context");
    wsym_assert(!c->transaction().active(), "fragment stored inside another transaction");
    if (yes(w.k.applier_fail, "append_fragment_fails")) return 1;
    // store the fragment in its own transaction, ordered at the fragment's slot
    int r = c->start_transaction(h, m);
    r = r || c->prepare_for_ordering(h, m, true);
    r = r || c->before_commit();
    if (!r) ++T(tkey(m.server_id(), m.transaction_id())).frags_stored;
    r = r || c->ordered_commit() || c->after_commit();
    return r;
}
inline int hpsvc::commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
{
    ++commits;
    in_ctx("commit in a foreign execution context");
    c->prepare_for_ordering(h, m, true);
    if (m.seqno().is_undefined())
    {
        c->before_rollback();
        c->after_rollback();
        return 0;
    }
    int r = c->before_commit();
    if (r == 0)
    {
        if (c->transaction().server_id() == c->server_state().id() && replaying) db_commit(*c, m.seqno().get());
        else if (wsrep::commits_transaction(m.flags()) && c->transaction().apply_error().size() == 0 && !failed_apply)
        {
            dbtrx& t(T(tkey(c->transaction().server_id(), c->transaction().id())));
            wsym_assert(S(m.seqno().get()).st == sl_entered, "database commit outside the commit order critical section");
            wsym_assert(t.commits == 0, "a transaction committed twice");
            wsym_assert(t.rollbacks == 0, "a rolled back transaction committed");
            ++t.commits;
            t.commit_seqno = m.seqno().get();
        }
        r = c->ordered_commit();
        if (!r) r = c->after_commit();
        else { c->before_rollback(); c->after_rollback(); }
    }
    return r;
}
inline void sservice::background_rollback(wsrep::unique_lock<wsrep::mutex>& lock, wsrep::client_state& cs)
{
    ++bg;
    wsym_cover("background_rollback");
    if (w.on_bg) { w.on_bg(&cs); return; }
    lock.unlock();
    client& c(static_cast<client&>(cs));
    wsym_set_self(88);
    c.acquire_ownership();
    if (c.transaction().state() == wsrep::transaction::s_must_replay) c.xa_replay();
    else
    {
        ++T(c.transaction().id().get()).rollbacks;
        c.before_rollback();
        c.after_rollback();
    }
    c.sync_rollback_complete();
    wsym_set_self(77);
    lock.lock();
}

// nothing of a finished transaction is left in the session
inline void check_clean(client& c, bool closed = false)
{
    const wsrep::transaction& t(c.transaction());
    wsym_assert(!t.active(), "a finished transaction is still active");
    wsym_assert(!t.ordered() && !t.certified(), "ordering information left behind by a finished transaction");
    wsym_assert(t.flags() == 0, "flags left behind by a finished transaction");
    wsym_assert(!t.is_xa(), "xid left behind by a finished transaction");
    wsym_assert(!t.is_streaming(), "fragments left behind by a finished transaction");
    wsym_assert(t.is_empty(), "keys left behind by a finished transaction");
    wsym_assert(!t.bf_aborted(), "abort mark left behind by a finished transaction");
    wsym_assert(t.streaming_context().fragments().empty() && t.streaming_context().fragments_certified() == 0,
                "stored fragments left behind by a finished transaction");
    wsym_assert(t.streaming_context().unit_counter() == 0 && t.streaming_context().log_position() == 0,
                "replication progress left behind by a finished transaction");
    if (c.cur) wsym_assert(!T(c.cur).handle_live, "the provider still holds a write set of a finished transaction");
    wsym_assert(closed || c.svc.glob, "session left without its globals");
    wsym_assert(!t.implicit_deps(), "dependency mark left behind by a finished transaction");
    wsym_assert(c.svc.will == c.svc.signalled, "replay announced and completion signalled a different number of times");
}

inline void reset_world()
{
    w = world();
    w.next_seqno = 1;
    w.next_client = 100;
    w.next_trx = 0;
}
} // namespace W
#endif

