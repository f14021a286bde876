#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 props.py rewrites both."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), note="", technique=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, state=state, observe=observe, note=note, technique=technique))
TXN = "src/transaction.cpp"; CLI = "src/client_state.cpp"; SRV = "src/server_state.cpp"

prop("C01", "A local transaction commits only certified, in its own place in the total order",
     "A local transaction is allowed to commit in the database only after its write set passed certification, and only between entering and leaving the commit order at the position the provider assigned to that write set. Every position handed to the process is entered and left exactly once, also when the transaction is rolled back after having been ordered, and a transaction that passed certification ends up committed exactly once (directly or by replay). The provider's handle of a finished transaction is released exactly once.",
     ["inputs", "fault_sequences", "schedules", "histories"],
     "every provider status from certification, commit ordering and replay; one-phase and two-phase commit; voluntary rollback; a brute force abort at every point where the session's lock is free",
     "the unit tests drive about a dozen chosen status/abort combinations and check the state enum; they do not account for commit order positions or provider handles over all combinations",
     [TXN, CLI],
     [("certify_commit / before_commit / ordered_commit / after_commit", TXN), ("release_commit_order() for ordered transactions that roll back", TXN), ("replay()", TXN)],
     [("ws_meta", "position in the total order"), ("certified", "write set passed certification")],
     ["provider::certify", "provider::commit_order_enter", "provider::commit_order_leave", "provider::release"])
prop("C02", "The client is told the outcome the database really reached",
     "After a statement that tried to commit ends, the session's error is success exactly when the transaction was committed in the database, by itself or by replay. Certification conflicts and aborts are reported as deadlock, failures of the provider as error during commit carrying the provider's status, data that cannot be replicated as size exceeded and interruption as interrupted; after the statement the retry indication is given exactly for the deadlock error.",
     ["inputs", "fault_sequences", "schedules", "histories"],
     "every provider status and abort point of one transaction, and sequences of commands (several statements, several transactions) with aborts while executing, sending the result and idle, with and without keeping the command error",
     "tests assert the error of selected scenarios only; the combination of abort timing, provider status and command sequence is not covered",
     [TXN, CLI],
     [("certify_commit() error mapping", TXN), ("after_statement(), before_command(), after_command_*() error handling", CLI)],
     [("current_error", "what the client will be told")], ["client_state::current_error()", "client_state::after_statement()"])
prop("C03", "A brute force abort is never lost and never hits a transaction ordered to commit",
     "When an abort of a transaction is reported successful, that transaction never commits unless it is replayed. An abort is refused, and leaves the victim untouched, once the transaction has become fixed for commit, has finished, or the provider refuses. An idle victim is rolled back in the background (or by its next command, depending on the server's rollback mode) and its client receives a deadlock error with a later command.",
     ["schedules", "histories", "inputs", "configurations"],
     "one or two abort attempts at every point of a session's life where its lock is free: while executing, preparing, certifying, committing, after commit, sending the result, idle; both rollback modes; normal and total order aborts",
     "tests abort at a handful of fixed points; they cannot place the abort between any two steps of the protocol",
     [TXN, CLI],
     [("bf_abort() / total_order_bf_abort()", TXN), ("is_bf_immutable", TXN), ("rollbacker synchronisation in before_command()", CLI)],
     [("state", "protocol state of the transaction"), ("bf_abort_state", "where the abort hit")], ["client_state::bf_abort() result", "server_service::background_rollback"])
prop("C04", "A finished transaction leaves nothing behind in its session",
     "When a local transaction has finished, whatever way it went, the session holds no transaction, ordering information, flags, keys, fragments, xid or abort mark of it, and announcing a replay and signalling its completion are paired. The session's error does not outlive the command it belongs to, and the session can run and commit a further transaction.",
     ["histories", "fault_sequences", "schedules"],
     "every way a transaction can end (commit, rollback, certification failure, abort, replay, provider failure, streaming or not) followed by further commands in the same session",
     "tests use a fresh session per scenario and check the active flag; leftovers that only matter to the next transaction are not looked at",
     [TXN, CLI, "include/wsrep/transaction.hpp", "include/wsrep/streaming_context.hpp"],
     [("cleanup()", TXN), ("after_statement(), after_command_after_result()", CLI)],
     [("transaction members", "everything reset between transactions")], ["client_state::transaction()", "client_state::current_error()"])
prop("C05", "Streaming replicates a fragment exactly when the threshold is reached",
     "With streaming enabled a fragment is replicated exactly when data is pending and the configured amount of bytes, rows or statements has been reached, and never otherwise; the fragment is in the fragment storage before it is certified and stays there only if certified. Only the first write set of the transaction carries the start mark and only the last the commit mark, and a committing streaming transaction first removes its stored fragments and is marked unsafe for parallel applying. If storing or certifying a fragment fails, the transaction is aborted and the client gets an error.",
     ["inputs", "fault_sequences", "schedules"],
     "fragment unit and size, bytes generated per row, every failure of fragment storage, preparation and certification, aborts at every unlocked point",
     "tests use one row size per unit and inject single failures in isolation",
     [TXN, "include/wsrep/streaming_context.hpp", "src/streaming_context.cpp"],
     [("streaming_step(), certify_fragment()", TXN), ("streaming_context", "include/wsrep/streaming_context.hpp")],
     [("log_position / unit_counter", "replication progress")], ["provider::certify flags", "storage_service calls"])
prop("C06", "An abandoned streaming transaction is cleaned up in the cluster exactly once",
     "When a streaming transaction of which fragments may have reached the cluster rolls back for any reason, exactly one rollback write set is replicated for it (or queued and replicated later), and an applier knowing all its fragments takes over; after a total order abort the fragments are removed locally instead and nothing is replicated. Applying the rollback write set removes the stored fragments and the applier. A committed streaming transaction leaves neither applier, registration nor fragments.",
     ["fault_sequences", "schedules", "histories"],
     "every way a streaming transaction can fail or be aborted, failing replication of the rollback, followed by delivery of the rollback write set and reuse of the session",
     "tests check the rollback counter of the mock provider in a few scenarios; they do not track fragments, appliers and registrations together",
     [TXN, SRV],
     [("streaming_rollback()", TXN), ("convert_streaming_client_to_applier(), stop_streaming_client(), queue_rollback_event()", SRV), ("rollback_fragment()", SRV)],
     [("streaming_clients_ / streaming_appliers_", "registries")], ["provider::rollback", "server_state::find_streaming_applier()"])
prop("C07", "Rollbacks that could not be replicated go out later, in order, exactly once",
     "When the rollback of a streaming transaction cannot be replicated, it is kept and replicated later: with the next sync of the server, or before the next write set (commit or fragment) this server replicates. Kept rollbacks go out in the order they were queued, each exactly once, and nothing is replicated ahead of them: if one still fails, it and the ones after it stay queued and the commit or fragment is refused with a deadlock error. Delivering a rollback write set removes the fragments and the applier of its transaction.",
     ["fault_sequences", "histories"],
     "three streaming sessions rolling back or being aborted in any order relative to syncs, commits and fragments of other sessions, every replication of a rollback succeeding or failing",
     "the tests queue at most one event and never fail a second time",
     [SRV, TXN],
     [("queue_rollback_event(), send_pending_rollback_events()", SRV), ("certify_commit(), certify_fragment()", TXN)],
     [("rollback_event_queue_", "rollbacks not yet replicated")], ["provider::rollback", "provider::certify"])
prop("C08", "A prepared XA transaction survives until it is committed or rolled back",
     "Once a client has been told that its XA transaction is prepared, the transaction is never rolled back by an abort or a failed commit attempt: it stays prepared in the session, or is rebuilt by an applier where it can be found by its xid, and only by that xid. Commit and rollback, by the session or by xid from another one, replicate exactly one finishing write set with the right marks, reach the requested outcome, report it truthfully and remove the stored fragments. A failed prepare is rolled back and reported.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "streaming or not, aborts at every unlocked point before, during and after prepare, while idle and during commit, both rollback modes, connection failures of certification, failing commit by xid, detach, finishing from another session",
     "each XA test follows one path; aborts between the steps and a following commit or rollback are not combined",
     [TXN, CLI, SRV],
     [("before_prepare(), after_prepare(), xa_replay(), xa_replay_commit(), xa_detach(), commit_or_rollback_by_xid()", TXN), ("after_command_must_abort()", TXN), ("find_streaming_applier(xid)", SRV)],
     [("xid", "identity of the XA transaction")], ["client_state::commit_by_xid()", "server_state::find_streaming_applier(xid)"])
prop("C09", "Every delivered write set is applied once and passes its place in the order once",
     "Every write set delivered to the applier leaves the commit order exactly at its own position, whatever its kind and whether applying succeeds or fails: whole transactions and fragments are applied once and committed or rolled back, isolated operations run inside their position, and write sets of unknown transactions are skipped with a dummy entry. An apply error is handed to the provider for voting together with the position; it is reported to the provider as failure exactly when the vote was lost or there was no error text to vote on.",
     ["histories", "fault_sequences", "inputs"],
     "sequences of whole transactions, fragments, commits, rollbacks, TOI and NBO events from two servers and several transactions, with every apply failure and vote outcome",
     "tests deliver one event or one short fixed sequence; failing applies are tested for two event kinds only",
     [SRV, "src/transaction.cpp", "include/wsrep/high_priority_service.hpp"],
     [("apply_write_set(), apply_fragment(), commit_fragment(), rollback_fragment(), apply_toi()", SRV)],
     [], ["provider::commit_order_enter / commit_order_leave", "high_priority_service calls", "return value of apply"])
prop("C10", "Streaming transactions of other servers are kept apart and complete",
     "A streaming transaction of another server is held by exactly one applier from its first fragment to its commit, rollback or failed fragment, identified by server and transaction id together; no event of one transaction or server affects another one. The applier knows exactly the fragments delivered and stored, and all calls for a transaction are made in that applier's execution context, after which the delivering applier's own context is restored.",
     ["histories", "fault_sequences"],
     "interleaved fragments, commits and rollbacks of several transactions of two servers using the same transaction ids, with apply failures",
     "tests use one streaming transaction at a time",
     [SRV, "include/wsrep/high_priority_service.hpp", "src/transaction.cpp"],
     [("streaming_appliers_ map", SRV), ("high_priority_switch", "include/wsrep/high_priority_service.hpp")],
     [("streaming_appliers_", "registry of appliers")], ["server_state::find_streaming_applier()", "high_priority_service::store_globals / reset_globals"])
prop("C11", "An abort of an applied streaming transaction removes it exactly once",
     "When a streaming transaction of another server is brute force aborted while it is being applied, and the provider agrees to it, the transaction is no longer found among the streaming appliers by the time its rollback is handed to the rollbacker, which happens exactly once however often it is aborted; its fragments are removed and it is rolled back exactly once, never committed. Later events of it only pass their place in the commit order. An abort the provider refuses leaves it as it was. No other streaming transaction, and no membership change in between, is affected by the abort.",
     ["histories", "schedules", "fault_sequences"],
     "interleaved fragments, commits and rollbacks of streaming transactions of two servers, aborts granted and refused, normal and total order, between events and from within a write set being applied, the rollbacker running at once or any number of events later, and membership changes before it runs",
     "tests abort streaming clients only; no test aborts a streaming applier",
     [TXN, SRV],
     [("bf_abort() of high priority transactions, before_rollback(), after_rollback()", TXN), ("stop_streaming_applier(), find_streaming_applier(), on_apply()", SRV)],
     [("streaming_appliers_", "registry of appliers")], ["client_state::bf_abort()", "server_service::background_rollback", "server_state::find_streaming_applier()"])
prop("C12", "Membership changes close exactly the orphaned streaming transactions",
     "A primary view rolls back and removes the fragments of exactly those streaming transactions whose server is not a member, and of all of them (local ones too) if the membership is unchanged from the previous primary view; prepared XA transactions are kept. Non-primary views close nothing; the final view closes everything in memory but keeps the stored fragments, and streaming transactions are recovered exactly once when the server joins again. Every view is recorded once and becomes the current view, and none of this replicates anything.",
     ["histories", "configurations"],
     "sequences of primary, non-primary and final views with any membership, over every combination of open remote, prepared and local streaming transactions, both rollback modes",
     "tests deliver single views to an otherwise idle server",
     [SRV],
     [("on_view(), on_primary_view(), on_non_primary_view(), go_final(), close_orphaned_sr_transactions(), close_transactions_at_disconnect()", SRV)],
     [("previous_primary_view_ / current_view_", "last views"), ("streaming_appliers_recovered_", "recovery done")], ["server_state::on_view()", "server_service::log_view"])
prop("C13", "The server state follows the cluster and all waiters for a state are released",
     "The server moves only along the documented state diagram for its initialisation order (storage initialised before or after state transfer), reports each change once from the state it was in, and reaches the state each event calls for: connected with the identity and position given by the cluster, joined exactly when it holds the cluster's state, synced, back to connected in a non-primary view, disconnecting and disconnected for good. Every thread waiting for a state is released with success if the server passes through that state, however briefly, and with failure if the server disconnects first; nobody is left waiting. Disconnecting is passed to the provider once per connection and a bootstrap is done once.",
     ["histories", "schedules", "configurations"],
     "sequences of connects, views, syncs, state transfers and disconnects over two connections, both initialisation orders, with a second thread waiting for any state and the initialisation running in a third",
     "tests walk one path per scenario, single-threaded, with no waiters",
     [SRV, "include/wsrep/server_state.hpp"],
     [("state(), wait_until_state(), connect(), disconnect(), on_connect(), on_primary_view(), on_non_primary_view(), on_sync(), initialized()", SRV)],
     [("state_ / state_waiters_", "server state and waiters"), ("init_initialized_ / init_synced_", "initialisation progress")], ["server_service::log_state_change", "server_state::wait_until_state()", "server_state::state()"])
prop("C14", "State transfer hands over the recovered position and never fakes completeness",
     "A joiner that received a state transfer is initialised before it goes on, is joined only if the recovered position reaches the position the server connected at, adopts the recovered view, recovers streaming transactions once, and hands the recovered position to the provider exactly once. A failed transfer is passed on as failure without initialising anything, and a position that contradicts the recovered view is refused and reported to the provider as failure. A donor is in the donor state while it donates and returns to joined when the donation ends or cannot start, unless it lost the donor state meanwhile, and the outcome is passed to the provider.",
     ["inputs", "histories", "fault_sequences", "configurations"],
     "recovered positions before, at and after the connect position, missing, matching and contradicting recovered views, failing transfers and provider calls, interleaved with views, syncs and disconnects, both initialisation orders",
     "tests cover a successful and a failing transfer and do not look at what is handed to the provider",
     [SRV],
     [("prepare_for_sst(), start_sst(), sst_sent(), sst_received(), return_from_donor_state()", SRV)],
     [("connected_gtid_", "position of the cluster when connecting")], ["provider::sst_received", "provider::sst_sent", "server_state::state()", "server_state::current_view()"])
prop("C15", "Pause, desync and their undoing stay paired between concurrent threads",
     "At most one thread at a time believes to have paused the provider, and the provider stays paused until that thread resumes it; other threads asking for a pause wait and all get their turn, also after a failed attempt. A pause that also desynchronised the server resynchronises it on resume, and one that did not leaves the synchronisation state alone; failures leave the provider neither paused nor desynchronised by the caller.",
     ["schedules", "fault_sequences"],
     "two (thorough: three) threads pausing, desync-and-pausing and desyncing concurrently, every interleaving at synchronisation points within the preemption bound, with failing provider calls",
     "the tests are single-threaded",
     [SRV, "include/wsrep/server_state.hpp"],
     [("pause(), resume(), desync_and_pause(), resume_and_resync(), desync(), resync()", SRV)],
     [("pause_count_ / pause_seqno_ / desync_count_", "pause and desync bookkeeping")], ["provider::pause / resume / desync / resync"])

prop("C16", "An isolated operation runs alone at its position and always leaves isolation",
     "A client's operation in total order isolation runs only after the provider let it in, at the position the provider assigned, and the isolation is left exactly once for each time it was entered, also when an entry failed but was ordered. Keys and data are handed over as given with the marks of a whole transaction. A refused entry is retried only while a deadline was given and not passed and the client is not interrupted, and the error is: deadlock for a certification failure, timeout when the deadline passed, otherwise error during commit with the provider's status. Afterwards the session is in its former mode, the error of the operation has been handed to the provider, and the position is the session's last written one.",
     ["inputs", "fault_sequences", "histories"],
     "every provider status of every try, with and without a position, any deadline, interruption, failing leave, two operations in one session followed by an ordinary transaction; applier side isolation mode",
     "tests use one status per scenario and no failing entry that was ordered",
     [CLI],
     [("poll_enter_toi(), enter_toi_local(), leave_toi_local(), enter_toi_common(), leave_toi_common(), enter_toi_mode(), leave_toi_mode()", CLI)],
     [("toi_meta_ / toi_mode_", "isolation in progress")], ["provider::enter_toi", "provider::leave_toi", "client_state::current_error()"])
prop("C17", "A non-blocking operation starts and ends in the total order, or reports why not",
     "A non-blocking operation enters isolation once for its beginning and once for its end and leaves each exactly once; between the two the session is in NBO mode and outside isolation. Its beginning is replicated with the start mark, its end with the commit mark and tied to the beginning's position; the applier of such an operation does only the end. Errors of a phase are those of an isolated operation, except that a failing provider at the end is reported as interrupted. Whatever fails, the session is back in local mode afterwards and can run ordinary transactions.",
     ["inputs", "fault_sequences"],
     "every provider status of every try in each phase, any deadline, interruption, failing leave, originator and applier",
     "tests run the successful sequence and single failures",
     [CLI],
     [("begin_nbo_phase_one(), end_nbo_phase_one(), enter_nbo_mode(), begin_nbo_phase_two(), end_nbo_phase_two()", CLI)],
     [("nbo_meta_", "position of the beginning")], ["provider::enter_toi", "provider::leave_toi", "client_state::mode()"])
prop("C18", "A rolling schema upgrade runs with the server isolated and always gives it back",
     "A rolling schema upgrade runs only while the provider is desynchronised and paused and no commits are pending; nobody else ends this while it runs. When it ends, or when it cannot begin, the provider is neither paused nor desynchronised on behalf of the session, and the session is back in local mode.",
     ["fault_sequences", "schedules"],
     "failures of desync, pause and waiting for pending commits, several upgrades in a row, upgrades against other threads desyncing",
     "tests run one successful and one failing upgrade, single-threaded",
     [CLI, SRV],
     [("begin_rsu(), end_rsu()", CLI), ("desync(), resync(), pause(), resume()", SRV)],
     [("mode", "client mode")], ["provider::desync / resync / pause / resume", "client_state::mode()"])

prop("C19", "A session and threads aborting it agree on one outcome and never block forever",
     "A session running commands, another thread aborting its transaction (or a view change closing streaming transactions) and the thread rolling back idle victims may interleave in any way: the transaction is committed or rolled back exactly once and the client is told which, the session does not execute while its transaction is rolled back in the background, no thread waits forever, nothing is done on behalf of a transaction that has already finished, the rollback of a streaming transaction is replicated at most once and its fragments and applier are cleaned up, and the session can commit a further transaction.",
     ["schedules", "inputs", "configurations"],
     "three threads (session, aborter or view handler, background rollbacker), every interleaving at locking points within the preemption bound; ordinary and streaming transactions, commit, rollback or another fragment, in one command or two, normal and total order aborts that the provider accepts or refuses, several certification outcomes, both rollback modes",
     "the unit tests are single-threaded and call the background rollbacker synchronously",
     [TXN, CLI, SRV],
     [("bf_abort(), streaming_rollback()", TXN), ("before_command(), sync_rollback_complete(), wait_rollback_complete_and_acquire_ownership()", CLI), ("close_orphaned_sr_transactions(), convert_streaming_client_to_applier(), stop_streaming_client()", SRV)],
     [("rollbacker_active / owning thread", "who may work on the transaction"), ("streaming_rollback_in_progress", "streaming rollback serialisation")],
     ["client_state::bf_abort() result", "client_state::current_error()", "server_service::background_rollback"])

prop("C20", "A session's read and write positions are its own; closing ends its transaction",
     "A waiting read that succeeds records, for that command only, the position the provider reported; an unsupported wait is reported as not supported and any other failure as a timeout. The last written position of a session is that of its last ordered transaction or isolated operation, and undefined when the session is opened. Closing a session rolls its open transaction back exactly once, replicating the rollback of a streaming transaction; a session opened again starts without anything of its previous life.",
     ["histories", "inputs", "fault_sequences"],
     "every sequence of a few commands (waiting read, transaction, streaming transaction, isolated operation, nothing), every provider status of a wait, several certification outcomes, closing at any point, reopening",
     "tests look at single commands and never reopen a session with something left behind",
     [CLI, SRV, TXN],
     [("sync_wait(), close(), cleanup(), open(), update_last_written_gtid()", CLI), ("causal_read(), wait_for_gtid()", SRV)],
     [("sync_wait_gtid", "position waited for"), ("last_written_gtid", "position last written")],
     ["client_state::sync_wait_gtid()", "client_state::last_written_gtid()", "client_state::current_error()"])

prop("C21", "Identifiers and positions survive conversion to text and back",
     "Every identifier prints either as the short text it was made from or as a UUID, and reads back as itself; UUID texts in either case are read correctly, texts of at most 16 bytes are taken verbatim and longer ones refused. A position prints as <id>:<seqno> and reads back as itself; a buffer too small is reported and not written beyond its end; reading returns the number of characters consumed, and a text that is not a position is refused without changing the target.",
     ["inputs"],
     "all 2^128 identifiers, all UUID texts, all short texts, seqnos and buffer sizes within the stated bounds, all texts up to a few bytes read as a position",
     "tests print and scan a handful of values",
     ["src/id.cpp", "src/gtid.cpp", "src/uuid.cpp", "src/seqno.cpp"],
     [("id::id(std::string), operator<<, operator>>", "src/id.cpp"), ("scan_from_c_str(), print_to_c_str()", "src/gtid.cpp"), ("uuid_scan(), uuid_print()", "src/uuid.cpp")],
     [("id.data_", "raw identifier")],
     ["operator<<(id)", "scan_from_c_str(gtid)", "print_to_c_str(gtid)"])

prop("C22", "Views, keys, XIDs, identifiers and write set metadata behave as values",
     "Two views have equal membership exactly when their sets of members are equal, a member is found at its index and nothing else is, a view is final exactly when it is not primary, empty and without own index. A key holds the parts appended to it, at most three. The key set of a streaming transaction holds exactly the pairs inserted. XIDs up to 64 + 64 bytes are held verbatim, larger ones refused, and compare equal exactly when all parts do. Identifiers, sequence numbers, positions, write set handles and metadata compare by all their parts, their order is total, and undefined values are recognised.",
     ["inputs"],
     "all identifier, sequence number and metadata values; views, keys, key sets, XIDs and buffers up to the stated sizes",
     "tests compare a handful of values",
     ["src/view.cpp", "src/xid.cpp", "src/sr_key_set.cpp", "include/wsrep/key.hpp", "include/wsrep/provider.hpp", "include/wsrep/buffer.hpp"],
     [("equal_membership(), member_index()", "src/view.cpp"), ("sr_key_set::insert()", "src/sr_key_set.cpp"), ("key::append_key_part()", "include/wsrep/key.hpp"), ("xid", "include/wsrep/xid.hpp"), ("ws_meta, stid, ws_handle", "include/wsrep/provider.hpp")],
     [("members", "members of a view")],
     ["view::equal_membership()", "key::key_parts()", "operator=="])

prop("C23", "The status report file is always complete, well-formed and up to date",
     "At every moment the status report file, once published, is a complete JSON document. After each report it tells the current server state and comment, the latest progress (ignored while synced), and the latest errors, warnings and events in order up to the configured number, each message exactly as given; only an immediate repeat of a message is dropped. When creating, writing or renaming the file fails, the previous report stays, no temporary file is left behind, and the next change brings the report up to date. Reports from several threads do not mix.",
     ["inputs", "histories", "fault_sequences", "schedules"],
     "every sequence of a few reports of any kind, any two message bytes, every server life of a few state changes, every failure of creating, writing (also partly) and renaming, two reporting threads and a reader",
     "tests report a fixed list of plain messages and states on a working disk",
     ["src/reporter.cpp"],
     [("report_state(), report_progress(), report_event(), report_log_msg(), write_file(), escape_json()", "src/reporter.cpp")],
     [("state_, progress_, err_msg_, warn_msg_, events_", "what is reported")],
     ["the report file"])

prop("C24", "What the library tells about provider options is what the provider has",
     "After loading, every provider option is known under its name with dots replaced by underscores, with the provider's value, default and flags, and is visited exactly once. Setting an option sends its real name and the value's text to the provider once; the known value changes exactly when the provider accepts, and nothing else changes. An unknown option is reported without asking the provider. A failure to load is reported and leaves no options.",
     ["inputs", "histories", "fault_sequences"],
     "every sequence of a few operations over three options with values of every type, any flags, every provider answer, loading again and failing to load",
     "provider options have no tests",
     ["src/provider_options.cpp"],
     [("initial_options(), set(), set_default(), get_option(), for_each()", "src/provider_options.cpp")],
     [("options_", "known options")],
     ["provider::options()", "provider_options::get_option()"])

prop("C25", "The wsrep API adaptor passes calls, flags and statuses through unchanged",
     "Every call through the version 26 provider interface reaches the provider with the same write set, keys, flags and positions, every provider status is mapped to the status of the same meaning, and callbacks from the provider reach the server state with what the provider passed.",
     ["inputs"],
     "all statuses, flags, keys and positions",
     "no test loads a provider",
     ["src/wsrep_provider_v26.cpp"],
     [("map_return_value(), map_flags_to_native(), callbacks", "src/wsrep_provider_v26.cpp")])
NA.append(dict(property="C25", reason="the wsrep-API headers the adaptor is written against (v26/wsrep_api.h, an empty submodule here) are absent: src/wsrep_provider_v26.cpp cannot be compiled to IR, and is not part of the build"))

prop("C26", "The server uses exactly the provider it loaded, with what it was configured",
     "Loading asks the factory once, with the library, options and services given, and reports whether there is a provider; the loaded one is used for everything from then on and destroyed exactly once, when another one takes its place or it is unloaded. What the application asks for - connecting (bootstrapping exactly when asked to, or when the address is the bare gcomm://), disconnecting, waiting for the cluster or a position, status variables, the end of a state transfer - reaches the provider once and unchanged, and its answer comes back. An encryption key is remembered and handed to a loaded provider, and refusing it is reported. Using a provider that is not loaded is reported as an error.",
     ["inputs", "fault_sequences", "histories", "configurations"],
     "every sequence of a few operations over loading, reloading, unloading, connecting, disconnecting, keys, waits, status and state transfers, every provider answer, any byte of keys, positions, addresses and times",
     "no test loads a provider that fails, sets a key or looks at what reaches the provider",
     [SRV, "include/wsrep/server_state.hpp"],
     [("load_provider(), unload_provider(), connect(), disconnect(), set_encryption_key(), causal_read(), wait_for_gtid(), status(), sst_sent()", SRV)],
     [("provider_", "the loaded provider"), ("encryption_key_", "key for the next provider")], ["server_state::provider()", "calls of wsrep::provider"])

TECH = "symbolic execution of the compiled library (LLVM IR of /repo's sources) with z3; counterexamples replayed on a native build"
LEVEL_NOTE = ("Bounded model checking of the real code: all values of the symbolic inputs within the bounds named in the evidence "
              "(events, aborts, fragments, threads, preemptions). Trusted: the engine's IR semantics (validated per run by replaying "
              "sampled paths natively), the C++ runtime models, and the provider/application model in harness/world.hpp.")
def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=[dict(name=a, meaning=b) for a, b in p["state"]],
                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=list(p["observe"]), hook_needed=None))) + "\n")
    from checks import CHECKS
    checks, na = [], list(NA)
    nas = set(x["property"] for x in na)
    for p in P:
        if p["id"] in nas:
            continue
        assert p["id"] in CHECKS, p["id"]
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                           thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                           technique=p["technique"] or TECH, level="model_checking",
                           level_note=LEVEL_NOTE + ((" " + p["note"]) if p["note"] else ""),
                           evidence_file="evidence/%s.json" % p["id"]))
    json.dump(dict(version=1, setup_cmd="./build_engine.sh", checks=checks, not_applicable=na,
                   notes="No hooks: /repo is compiled as it is."), open(HERE + "/MANIFEST.json", "w"), indent=1)
main()
