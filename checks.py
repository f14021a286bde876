LEFT_OUT = {
    "allowlist_service_v1.cpp", "config_service_v1.cpp", "connection_monitor_service_v1.cpp",
    "event_service_v1.cpp", "thread_service_v1.cpp", "tls_service_v1.cpp", "wsrep_provider_v26.cpp"}
WRAPS = ["usleep", "nanosleep", "sleep", "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev",
         "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv",
         "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "clock_gettime", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock",
         "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_cond_init", "pthread_cond_destroy",
         "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_self", "pthread_equal",
         "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv",
         "mkstemp", "write", "close", "fsync", "rename", "unlink", "remove"]
H = {}
def h(name, src, what, bounds, **kw):
    H[name] = dict(name=name, src=src, what=what, bounds=bounds, **kw)
h("commit", "h_commit.cpp", "one local transaction through the commit protocol, then a second one in the same session",
  "1 transaction + 1 follow-up, 1 abort attempt, all 12 certify statuses, 1PC/2PC, both rollback modes",
  budget_quick=100, covers=["committed", "not_committed", "committed_by_replay", "bf_aborted", "refused"])
h("multi", "h_multi.cpp", "a session running several commands with aborts while executing, in result and idle",
  "2 transactions over several commands, 2 abort attempts", budget_quick=100)
h("stream", "h_stream.cpp", "one local streaming transaction with an abort", "3 rows, fragment size 1-2, 3 units, 1 abort (normal or total order)",
  defs=["ABORTS=1"], budget_quick=100, covers=["fragment", "committed", "rolled_back", "total_order_abort", "end"])
h("stream_faults", "h_stream.cpp", "one local streaming transaction with every environment failure", "2 rows, fragment size 1-2, 3 units, any failures",
  defs=["FAULTS", "ABORTS=0", "ROWS=2"], budget_quick=100, covers=["fragment", "committed", "rolled_back", "end"])
h("stream_fa", "h_stream.cpp", "failures and an abort combined", "2 rows, 1 abort, any failures",
  defs=["FAULTS", "ABORTS=1", "ROWS=2"], budget_quick=200, covers=["fragment", "committed", "rolled_back", "total_order_abort", "end"])
h("xa", "h_xa.cpp", "one XA transaction, 1 abort", "0-1 fragments before prepare, 1 abort", budget_quick=100,
  covers=["prepare_failed", "moved_to_applier", "replay_commit", "committed", "commit_failed_still_prepared", "rolled_back",
          "detached", "commit_by_xid", "rollback_by_xid", "by_xid_failed"])
h("xa_faults", "h_xa.cpp", "one XA transaction, 1 abort, storage and replication failures", "0-1 fragments before prepare, 1 abort",
  defs=["FAULTS"], budget_quick=100, covers=["prepare_failed", "committed", "rolled_back", "detached"])
h("apply", "h_apply.cpp", "stream of events to the applier", "4 events of 8 kinds, 2 servers, 3 transactions", defs=["EVENTS=4"], budget_quick=200,
  covers=["trx", "start", "fragment", "stream_commit", "stream_rollback", "toi", "nbo", "fragment_skipped", "commit_skipped", "rollback_skipped"])
h("apply_faults", "h_apply.cpp", "stream of events with apply failures and votes", "3 events", defs=["FAULTS", "EVENTS=3"], budget_quick=200,
  covers=["failed_trx", "failed_start", "failed_fragment", "failed_stream_commit", "apply_error"])
h("apply_adopt", "h_apply.cpp", "as apply_faults, taking over transactions may fail", "2 events", defs=["FAULTS", "ADOPT", "EVENTS=2"], budget_quick=100)
h("apply_abort", "h_apply_abort.cpp", "aborts of streaming transactions being applied, with the rollbacker at work any time later", "5 (thorough: 6) events, 3 transactions of 2 servers, any number of aborts (one at a time), a view or a disconnect at the end",
  defs_quick=["EVENTS=5"], defs_thorough=["EVENTS=6"], budget_quick=300, budget_thorough=2000, covers=["aborted", "refused", "rollbacker", "aborted_while_applying", "skipped", "view_before_rollback", "end"])
h("view", "h_view.cpp", "views against open streaming transactions", "3 views over 2 other servers, 3 remote and 1 local transaction", budget_quick=200,
  covers=["orphan_closed", "closed_at_disconnect", "prepared_kept", "kept", "local_aborted", "local_survives", "reconnected", "fragment_refused", "ended_disconnected"])
h("provider", "h_provider.cpp", "a server and the provider it was told to load", "2 (thorough: 3) operations after loading",
  defs_quick=["OPS=2"], defs_thorough=["OPS=3"], budget_quick=200, budget_thorough=2000,
  covers=["loaded", "load_failed", "factory_threw", "unloaded", "key", "key_refused", "key_early", "connect", "disconnect", "disconnect_again", "causal_read",
          "wait_for_gtid", "status", "sst_sent", "sst_warning", "not_loaded", "end"])
h("pause", "h_pause.cpp", "threads pausing and desyncing", "2 threads, 2 preemptions, 1 spurious wake-up", budget_quick=200,
  covers=["paused", "pause_failed", "desync_and_paused", "desync_and_pause_failed", "desynced", "end"])
h("toi", "h_toi.cpp", "isolated operations in a session", "2 operations, 2 (thorough: 3) tries each, every provider status, deadline and interruption",
  defs=["OPLO=0", "OPHI=0", "OPS=2"], defs_quick=["MAXUS=500000"], budget_quick=200, budget_thorough=2000, covers=["retried", "failed", "toi", "end"])
h("nbo", "h_toi.cpp", "non-blocking operation, as originator and as applier", "1 operation, 2 (thorough: 3) tries per phase, every provider status, deadline and interruption",
  defs=["OPLO=1", "OPHI=2"], defs_quick=["MAXUS=500000"], budget_quick=200, budget_thorough=2000, covers=["retried", "failed", "nbo", "nbo_applier", "end"])
h("rsu", "h_toi.cpp", "rolling schema upgrades in a session", "3 upgrades with every failure",
  defs=["OPLO=3", "OPHI=3", "OPS=3"], budget_quick=100, covers=["rsu", "rsu_failed", "end"])
h("rsu_threads", "h_pause.cpp", "schema upgrades and other threads desyncing", "2 threads, 2 (thorough: 3) preemptions, 1 spurious wake-up",
  defs=["OPLO=2", "OPHI=3"], defs_thorough=["PREEMPT=3"], budget_quick=200, budget_thorough=2000, covers=["rsu", "rsu_failed", "desynced", "end"])
h("server", "h_server.cpp", "a server connecting, joining, donating, syncing, disconnecting and connecting again", "4 events per connection, 2 connections",
  budget_quick=200, budget_thorough=2000, defs=["PREEMPT=0"], defs_quick=["EVENTS2=1"], defs_thorough=["EVENTS=4", "EVENTS2=3"],
  covers=["joined_by_view", "non_primary", "synced", "seed", "sst_failed", "bogus", "sst_received", "donor", "donor_failed", "donor_lost", "disconnecting", "again", "end"])
h("server_wait", "h_server.cpp", "as server, with another thread waiting for a state", "3 events, 1 connection, 1 (thorough: 2) preemptions",
  defs=["WAITER", "SPURIOUS=0"], defs_quick=["EVENTS=3"], defs_thorough=["EVENTS=4", "PREEMPT=2"], budget_quick=200, budget_thorough=2000,
  covers=["waited", "interrupted", "end"])
h("server_wake", "h_server.cpp", "as server_wait, and the waiting thread may wake up without reason", "3 (thorough: 4) events, 1 connection, 1 spurious wake-up",
  defs=["WAITER", "SPURIOUS=1", "PREEMPT=0"], defs_quick=["EVENTS=3"], defs_thorough=["EVENTS=4"], budget_quick=200, budget_thorough=1000,
  covers=["waited", "end"])
h("pending", "h_pending.cpp", "several streaming transactions rolling back while replication fails, and what flushes their rollbacks", "3 streaming sessions, 5 (thorough: 6) steps, every rollback replication may fail",
  defs_quick=["STEPS=5"], defs_thorough=["STEPS=6"], budget_quick=200, budget_thorough=2000,
  covers=["queued", "two_queued", "flushed", "flush_failed", "commit_refused", "fragment_refused", "committed", "aborted", "xa_committed", "xa_committed_anyway", "end"])
h("pending_abort", "h_pending.cpp", "as pending, the transaction that flushes the pending rollbacks is aborted meanwhile", "3 streaming sessions, 3 (thorough: 4) steps, 1 abort",
  defs=["ABORT"], defs_quick=["STEPS=3"], defs_thorough=["STEPS=4"], budget_quick=100, budget_thorough=1000,
  covers=["queued", "flushed", "commit_refused", "committed", "bf_aborted", "end"])
h("threads", "h_threads.cpp", "a session, a thread aborting its transaction and the background rollbacker", "3 threads, 2 (thorough: 3) preemptions, 1 spurious wake-up",
  defs_quick=["PREEMPT=2"], defs_thorough=["PREEMPT=3"], budget_quick=200, budget_thorough=2000,
  covers=["bf_aborted", "background_rollback", "committed", "not_committed", "end"])
h("threads_stream", "h_threads.cpp", "as threads, with a streaming transaction", "3 threads, 1 fragment before, 1 (thorough: 2) preemptions, 1 spurious wake-up",
  defs=["STREAM"], defs_quick=["PREEMPT=1"], defs_thorough=["PREEMPT=2"], budget_quick=200, budget_thorough=2000,
  covers=["bf_aborted", "background_rollback", "committed", "not_committed", "cleaned_by_rollback", "cleaned_locally", "end"])
h("threads_view", "h_threads.cpp", "a streaming session and a view that closes streaming transactions", "3 threads, 1 fragment before, 1 (thorough: 2) preemptions, 1 spurious wake-up",
  defs=["STREAM", "VIEW"], defs_quick=["PREEMPT=1"], defs_thorough=["PREEMPT=2"], budget_quick=200, budget_thorough=2000,
  covers=["view", "background_rollback", "committed", "not_committed", "end"])
h("session", "h_session.cpp", "a session over its whole life: waiting reads, transactions, isolated operations, closing and opening again", "3 (thorough: 4) commands, every status of a waiting read, several certification outcomes",
  defs_quick=["CMDS=3"], defs_thorough=["CMDS=4"], budget_quick=200, budget_thorough=2000,
  covers=["waited", "wait_failed", "toi", "committed", "commit_failed", "rolled_back", "closed_in_transaction", "end"])
for n, part, what, bounds, cov in (
        ("text_print", 0, "printing identifiers", "all 2^128 identifiers", ["text", "uuid", "end"]),
        ("text_uuid", 1, "reading UUIDs", "all UUID texts, either case", ["end"]),
        ("text_short", 2, "reading short texts", "all texts of 0 to 18 bytes", ["text", "refused", "end"]),
        ("text_gtid", 3, "printing positions and reading them back", "4 identifiers, seqno in -99..99 (thorough: -999..999) and extremes, 5 buffer sizes", ["too_small", "round_trip", "end"]),
        ("text_scan", 4, "reading any text as a position", "all texts of 0 to 4 (thorough: 5) bytes", ["accepted", "refused", "end"])):
    h(n, "h_text.cpp", what, bounds, defs=["PART=%d" % part], defs_quick=["SEQ=99", "SCAN=4"], defs_thorough=["SEQ=999", "SCAN=5"], fmt="full",
      budget_quick=200, budget_thorough=2000, covers=cov)
for n, part, what, bounds, cov in (
        ("val_view", 0, "views as values", "two views of 0 to 3 distinct members with any identifiers differing in the first and last byte, any view attributes", ["equal", "different", "end"]),
        ("val_key", 1, "certification keys", "0 to 5 key parts", ["refused", "end"]),
        ("val_keyset", 2, "the set of keys of a streaming transaction", "0 to 3 insertions of keys of up to 1 (thorough: 2) bytes in the first and 1 in the second part", ["duplicate", "end"]),
        ("val_xid", 3, "XIDs", "any format, lengths 0, 1, 2, 63, 64, 65, any 4 leading bytes", ["refused", "equal", "different", "end"]),
        ("val_id", 4, "identifiers, sequence numbers and positions", "all values", ["end"]),
        ("val_meta", 5, "write set metadata and handles", "all values", ["compared", "end"]),
        ("val_buffer", 6, "buffers", "two pieces of 0 to 4 bytes", ["end"])):
    h(n, "h_values.cpp", what, bounds, defs=["PART=%d" % part], defs_quick=["KEYLEN=1"], budget_quick=100, budget_thorough=2000, covers=cov)
for n, part, what, bounds, cov in (
        ("report", 0, "status reports of any kind in any order", "any point of the life of a server, 2 (thorough: 3) reports, 6 messages, limits of 1 and 2 messages", ["repeated", "end"]),
        ("report_faults", 1, "status reports while creating, writing or renaming the file fails", "any point of the life of a server, 1 fault among 2 (thorough: 3) reports", ["no_temp", "write_failed", "short_write", "rename_failed", "kept", "end"]),
        ("report_text", 2, "reporting any message", "all messages of 3 (thorough: 4) bytes", ["end"]),
        ("report_life", 3, "reporting the life of a server", "8 (thorough: 10) state changes the server allows, progress and a warning at one of them", ["donor", "ist", "progress_synced", "end"]),
        ("report_threads", 4, "two threads reporting while another reads the file", "3 threads, 2 preemptions", ["end"])):
    h(n, "h_reporter.cpp", what, bounds, defs=["PART=%d" % part], defs_quick=["STEPS=%d" % (8 if part == 3 else 2), "MSGLEN=3"], defs_thorough=["STEPS=%d" % (10 if part == 3 else 3), "MSGLEN=4"],
      fmt="full", budget_quick=150, budget_thorough=2000, covers=cov)
h("options", "h_options.cpp", "setting provider options", "3 options, 2 (thorough: 3) operations, 6 values, 4 provider answers, any flags",
  defs_quick=["STEPS=2"], defs_thorough=["STEPS=3"], fmt="full", budget_quick=150, budget_thorough=2000, covers=["set", "refused", "unknown", "again", "end"])
h("selftest", "h_selftest.cpp", "C++ runtime models against the real library", "engine self test", fmt="full", budget_quick=60)
def use(*names):
    return dict(harnesses=[dict(H[n]) for n in names])
CHECKS = {
 "SELF": use("selftest"),
    "C01": use("commit", "multi", "stream_faults"),
    "C02": use("commit", "multi", "stream_fa"),
    "C03": use("commit", "multi", "stream", "stream_fa"),
    "C04": use("commit", "multi", "stream", "stream_faults", "xa"),
    "C05": use("stream", "stream_faults", "stream_fa"),
    "C06": use("stream", "stream_faults", "stream_fa"),
    "C07": use("pending", "pending_abort"),
    "C08": use("xa", "xa_faults"),
    "C09": use("apply", "apply_faults", "apply_adopt"),
    "C10": use("apply", "apply_faults", "apply_adopt"),
    "C11": use("apply_abort"),
    "C12": use("view"),
    "C13": use("server", "server_wait", "server_wake"),
    "C14": use("server"),
    "C15": use("pause"),
    "C16": use("toi"),
    "C17": use("nbo"),
    "C18": use("rsu", "rsu_threads"),
    "C21": use("text_uuid", "text_print", "text_short", "text_gtid", "text_scan"),
    "C22": use("val_view", "val_key", "val_keyset", "val_xid", "val_id", "val_meta", "val_buffer"),
    "C23": use("report", "report_faults", "report_text", "report_life", "report_threads"),
    "C24": use("options"), "C26": use("provider"),
    "C20": use("session"),
    "C19": use("threads", "threads_stream", "threads_view"),
}
