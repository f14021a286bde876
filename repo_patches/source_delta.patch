From 9de272e7ff8a8565ef872af0dc56b57588016aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:49 +0000
Subject: [PATCH 01/19] fix: do not re-enter s_must_abort when BF abort raced
 with a failing certification

If a BF abort marked the transaction s_must_abort while the provider was
certifying, and certification then failed for another reason, the error
paths of certify_commit() and certify_fragment() requested the illegal
transition s_must_abort -> s_must_abort (assertion in debug builds, an
unexpected state transition otherwise).
---
 src/transaction.cpp | 50 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 6647cfc..27970ca 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1521,7 +1521,10 @@ int wsrep::transaction::certify_fragment(
             << status << " ("
             << wsrep::provider::to_string(status) << ")";
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         return 1;
     }
 
@@ -1530,7 +1533,10 @@ int wsrep::transaction::certify_fragment(
     if (client_service_.prepare_fragment_for_replication(data, log_position))
     {
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
@@ -1548,7 +1554,10 @@ int wsrep::transaction::certify_fragment(
                                wsrep::const_buffer(data.data(), data.size())))
     {
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
@@ -1796,7 +1805,10 @@ int wsrep::transaction::certify_commit(
         if (!is_xa())
         {
             lock.lock();
-            state(lock, s_must_abort);
+            if (state() != s_must_abort)
+            {
+                state(lock, s_must_abort);
+            }
             return 1;
         }
     }
@@ -1879,11 +1891,17 @@ int wsrep::transaction::certify_commit(
         break;
     case wsrep::provider::error_warning:
         assert(ordered() == false);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     case wsrep::provider::error_transaction_missing:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         // The execution should never reach this point if the
         // transaction has not generated any keys or data.
         wsrep::log_warning() << "Transaction was missing in provider";
@@ -1906,7 +1924,10 @@ int wsrep::transaction::certify_commit(
         client_state_.override_error(wsrep::e_deadlock_error);
         break;
     case wsrep::provider::error_size_exceeded:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     case wsrep::provider::error_connection_failed:
@@ -1945,19 +1966,28 @@ int wsrep::transaction::certify_commit(
         break;
     case wsrep::provider::error_fatal:
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_service_.emergency_shutdown();
         break;
     case wsrep::provider::error_not_implemented:
     case wsrep::provider::error_not_allowed:
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         wsrep::log_warning() << "Certification operation was not allowed: "
                              << "id: " << id().get()
                              << " flags: " << std::hex << flags() << std::dec;
         break;
     default:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     }
-- 
2.43.0


From 9bc1c9af3f3ef1908ca822eae8c0191002c17f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:08 +0000
Subject: [PATCH 02/19] fix: set an error when pending rollback events cannot
 be replicated

certify_commit() and certify_fragment() gave up on the transaction
without setting an error, although their callers rely on it: debug
builds failed the assertion on current_error() in before_prepare(),
and the statement failed without the client getting an error.
---
 src/transaction.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 27970ca..7c38eb4 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1525,6 +1525,7 @@ int wsrep::transaction::certify_fragment(
         {
             state(lock, s_must_abort);
         }
+        client_state_.override_error(wsrep::e_deadlock_error, status);
         return 1;
     }
 
@@ -1809,6 +1810,7 @@ int wsrep::transaction::certify_commit(
             {
                 state(lock, s_must_abort);
             }
+            client_state_.override_error(wsrep::e_deadlock_error, status);
             return 1;
         }
     }
-- 
2.43.0


From ff34e832de7025a60c8e7c031cf621013fa2abd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:08 +0000
Subject: [PATCH 03/19] fix: do not lose BF abort when there is no data for the
 fragment

certify_fragment() resumed s_executing unconditionally when the fragment
buffer was empty, also when the transaction had been BF aborted
meanwhile: an illegal state transition which lost the abort.
---
 src/transaction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 7c38eb4..5ed616a 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1547,6 +1547,11 @@ int wsrep::transaction::certify_fragment(
     {
         wsrep::log_warning() << "Attempt to replicate empty data buffer";
         lock.lock();
+        if (state() == s_must_abort)
+        {
+            client_state_.override_error(wsrep::e_deadlock_error);
+            return 1;
+        }
         state(lock, s_executing);
         return 0;
     }
-- 
2.43.0


From c449965bfe401f782847dec0218b547aa5d2624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:37 +0000
Subject: [PATCH 04/19] fix: abort streaming transaction refused by
 statement_allowed_for_streaming()

before_prepare() left the transaction in s_executing after failing with
error_not_allowed, violating its own postcondition (assertion in debug
builds) and leaving a failed transaction executing.
---
 src/transaction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 5ed616a..3249d9d 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -336,6 +336,10 @@ int wsrep::transaction::before_prepare(wsrep::unique_lock<wsrep::mutex>& lock,
                 client_state_.override_error(wsrep::e_deadlock_error);
                 ret = 1;
             }
+            else if (ret && state() == s_executing)
+            {
+                state(lock, s_must_abort);
+            }
         }
 
         if (ret == 0)
-- 
2.43.0


From 23efae1a691fe86b02369a99d590cb021f4aafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:36 +0000
Subject: [PATCH 05/19] fix: pass commit order for rollback fragment when
 transaction adopt fails

rollback_fragment() returned success without entering and leaving the
commit order of the ordered rollback fragment if the transaction could
not be adopted for fragment removal, blocking all later write sets.
---
 src/server_state.cpp | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index c727dba..edbe879 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -246,27 +246,23 @@ static int rollback_fragment(wsrep::server_state& server_state,
         discard_streaming_applier(server_state, high_priority_service,
                                   streaming_applier, ws_meta);
 
-        if (adopt_error == 0)
+        if (remove_fragments && adopt_error == 0)
         {
-            if (remove_fragments)
+            ret = high_priority_service.remove_fragments(ws_meta);
+            ret = ret || high_priority_service.commit(ws_handle, ws_meta);
+            if (ret)
             {
-                ret = high_priority_service.remove_fragments(ws_meta);
-                ret = ret || high_priority_service.commit(ws_handle, ws_meta);
-                if (ret)
-                {
-                    high_priority_service.rollback(ws_handle, ws_meta);
-                }
-                high_priority_service.after_apply();
-            }
-            else
-            {
-                if (ws_meta.ordered())
-                {
-                    wsrep::mutable_buffer no_error;
-                    ret = high_priority_service.log_dummy_write_set(
-                        ws_handle, ws_meta, no_error);
-                }
+                high_priority_service.rollback(ws_handle, ws_meta);
             }
+            high_priority_service.after_apply();
+        }
+        else if (ws_meta.ordered())
+        {
+            // Nothing to remove, or the adopt failed. The rollback
+            // fragment must pass commit order in any case.
+            wsrep::mutable_buffer no_error;
+            ret = high_priority_service.log_dummy_write_set(
+                ws_handle, ws_meta, no_error);
         }
     }
     return ret;
-- 
2.43.0


From c90aa05bcad37b4aa1f94fc229fb23de97a0b7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:47 +0000
Subject: [PATCH 06/19] fix: wake up concurrent pause() callers when pausing
 the provider fails

A thread waiting in pause() for another pause to finish was never woken
up if the other pause failed, as nobody is going to call resume().
---
 src/server_state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index edbe879..3a698c2 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -572,6 +572,7 @@ wsrep::seqno wsrep::server_state::pause()
     if (pause_seqno_.is_undefined())
     {
         --pause_count_;
+        cond_.notify_all();
     }
     return pause_seqno_;
 }
-- 
2.43.0


From 3f1192f1e8682667ecd629b0092e41d5c29308c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:47 +0000
Subject: [PATCH 07/19] fix: do not resync in desync_and_pause() if desync was
 not successful

If both desync and pause failed, resync() was called without a matching
desync, asserting in debug builds and taking away the desync of another
thread in release builds.
---
 src/server_state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 3a698c2..9419dc6 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -618,7 +618,10 @@ wsrep::seqno wsrep::server_state::desync_and_pause()
     if (ret.is_undefined())
     {
         wsrep::log_warning() << "Failed to pause provider";
-        resync();
+        if (desync_successful)
+        {
+            resync();
+        }
         return wsrep::seqno::undefined();
     }
     else
-- 
2.43.0


From e9855fe693d0bcdc24835cc064e330e602184755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:04 +0000
Subject: [PATCH 08/19] fix: allow prepared state after failed XA commit by xid
 in replay

xa_replay_commit() leaves the transaction in s_prepared state and returns
an error if commit by xid fails, to let the client retry. This failed
the assertion in the end of after_statement().
---
 src/transaction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 3249d9d..a0def70 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -939,7 +939,9 @@ int wsrep::transaction::after_statement(wsrep::unique_lock<wsrep::mutex>& lock)
     }
     fragments_certified_for_statement_ = 0;
     debug_log_state("after_statement_leave");
-    assert(ret == 0 || state() == s_aborted);
+    // Prepared XA transaction which failed to commit by xid in replay
+    // remains in prepared state.
+    assert(ret == 0 || state() == s_aborted || state() == s_prepared);
     return ret;
 }
 
-- 
2.43.0


From cc975ec3d4ef951a3ca4d24a2d72d9eacca66400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:04 +0000
Subject: [PATCH 09/19] fix: do not report an error for XA transaction
 committed in replay

If BF abort was detected in certify_commit(), the deadlock error was left
as current error although the transaction was subsequently committed by
xid in xa_replay_commit().
---
 src/transaction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index a0def70..1c7a34f 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1312,6 +1312,9 @@ int wsrep::transaction::xa_replay_commit(wsrep::unique_lock<wsrep::mutex>& lock)
     switch (status)
     {
     case wsrep::provider::success:
+        // The BF abort which lead here may have set an error already,
+        // but the transaction was committed.
+        client_state_.reset_error();
         state(lock, s_committed);
         streaming_context_.cleanup();
         provider().release(ws_handle_);
-- 
2.43.0


From 51b99f0c6b47cc813765c94213918b060bbf590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:58 +0000
Subject: [PATCH 10/19] fix: do not roll back prepared XA transaction in
 after_statement()

If a prepared XA transaction was BF aborted during a statement (for
example after its commit had failed with connection failure), the abort
was handled in after_statement() by rolling the transaction back and
replicating a rollback fragment, although the client had been told that
it was prepared. Replay it into prepared state, as is done if the abort
is found in the end of the command.
---
 src/transaction.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 1c7a34f..687751d 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -871,6 +871,14 @@ int wsrep::transaction::after_statement(wsrep::unique_lock<wsrep::mutex>& lock)
         assert(is_streaming() == false);
         break;
     case s_must_abort:
+        if (is_xa() && is_streaming() && bf_abort_state_ == s_prepared)
+        {
+            // Prepared XA transaction must not be rolled back by BF abort,
+            // it is replayed into prepared state instead.
+            after_command_must_abort(lock);
+            break;
+        }
+        WSREP_FALLTHROUGH;
     case s_cert_failed:
         // Error may be set already. For example, if fragment size
         // exceeded the maximum size in certify_fragment(), then
-- 
2.43.0


From d4079ce993aebdb75c5cbc2971fafe6ecc970936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:00 +0000
Subject: [PATCH 11/19] fix: do not report timeout from TOI/NBO begin if no
 deadline was given

The documentation says that the provider error code can be retrieved by
current_error_status() if the call fails. Without wait_until every provider
failure was however reported as e_timeout_error with success status.
---
 src/client_state.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/client_state.cpp b/src/client_state.cpp
index a5995cd..9504542 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -572,6 +572,8 @@ wsrep::client_state::poll_enter_toi(
                     << ","
                     << wait_until.time_since_epoch().count());
     enum wsrep::provider::status status;
+    // The operation is retried only if non-default wait_until was given.
+    const bool retry(wait_until.time_since_epoch().count() != 0);
     timed_out = false;
     wsrep::ws_meta poll_meta; // tmp var for polling, as enter_toi may clear meta arg on errors
     do
@@ -599,12 +601,11 @@ wsrep::client_state::poll_enter_toi(
             ::usleep(300000);
         }
         lock.lock();
-        timed_out = !(wait_until.time_since_epoch().count() &&
-                      wsrep::clock::now() < wait_until);
+        timed_out = (retry && not (wsrep::clock::now() < wait_until));
     }
     while ((status == wsrep::provider::error_certification_failed ||
             status == wsrep::provider::error_connection_failed) &&
-           not timed_out &&
+           retry && not timed_out &&
            not client_service_.interrupted(lock));
     meta = poll_meta;
     return status;
-- 
2.43.0


From 0bc0d3d81ec1dc30e26d11bbe266fec330965fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:06 +0000
Subject: [PATCH 12/19] fix: do not leave TOI for NBO begin GTID if NBO end
 fails to enter TOI

The meta data passed to provider enter_toi() in begin_nbo_phase_two()
contains GTID of NBO begin event. If the provider fails without assigning
a new GTID, poll_enter_toi() interpreted it as successfully entered TOI and
called leave_toi() for already passed NBO begin.
---
 src/client_state.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client_state.cpp b/src/client_state.cpp
index 9504542..e689d38 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -582,11 +582,13 @@ wsrep::client_state::poll_enter_toi(
         poll_meta = meta;
         status = provider().enter_toi(id_, keys, buffer, poll_meta, flags);
         if (status != wsrep::provider::success &&
-            not poll_meta.gtid().is_undefined())
+            not poll_meta.gtid().is_undefined() &&
+            not (poll_meta.gtid() == meta.gtid()))
         {
             // Successfully entered TOI, but the provider reported failure.
             // This may happen for example if certification fails.
-            // Leave TOI before proceeding.
+            // Leave TOI before proceeding. If the GTID did not change,
+            // it is the GTID of NBO begin passed in by the caller.
             if (provider().leave_toi(id_, poll_meta, wsrep::mutable_buffer()))
             {
                 wsrep::log_warning()
-- 
2.43.0


From ad727b0f658fc00c247e376b3f2f3c8f7d27dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:52 +0000
Subject: [PATCH 13/19] fix: release all waiters of a server state also if one
 of them changes the state further

---
 src/server_state.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 9419dc6..908b056 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1394,10 +1394,19 @@ void wsrep::server_state::wait_until_state(
     wsrep::unique_lock<wsrep::mutex>& lock,
     enum wsrep::server_state::state state) const
 {
+    const std::vector<enum state>::size_type hist_begin(state_hist_.size());
     ++state_waiters_[state];
     while (state_ != state)
     {
         cond_.wait(lock);
+        // If there are several waiters for the state, some of them may
+        // have caused the state to be changed further before this
+        // waiter was scheduled.
+        if (std::find(state_hist_.begin() + hist_begin,
+                      state_hist_.end(), state) != state_hist_.end())
+        {
+            break;
+        }
         // If the waiter waits for any other state than disconnecting
         // or disconnected and the state has been changed to disconnecting,
         // this usually means that some error was encountered 
-- 
2.43.0


From 7090ced5cb49c0423fb77e5aec931a1c0df484e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:24 +0000
Subject: [PATCH 14/19] fix: do not touch a streaming transaction which was
 rolled back while BF abort waited for it

---
 src/transaction.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 687751d..14e861e 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1078,6 +1078,7 @@ bool wsrep::transaction::bf_abort(
 
     if (ret)
     {
+        const wsrep::transaction_id victim_id(id_);
         bf_abort_client_state_ = client_state_.state();
         // If the transaction is in executing state, we must initiate
         // streaming rollback to ensure that the rollback fragment gets
@@ -1091,7 +1092,12 @@ bool wsrep::transaction::bf_abort(
             streaming_rollback(lock);
         }
 
-        if ((client_state_.state() == wsrep::client_state::s_idle &&
+        if (id_ != victim_id || state() != s_must_abort)
+        {
+            // The lock was released during streaming rollback and the
+            // owning thread has already taken care of the rollback.
+        }
+        else if ((client_state_.state() == wsrep::client_state::s_idle &&
              client_state_.server_state().rollback_mode() ==
              wsrep::server_state::rm_sync) // locally processing idle
             ||
@@ -2058,8 +2064,15 @@ void wsrep::transaction::streaming_rollback(
     // while the original client manages to complete its rollback
     // and therefore change the state of the transaction, causing
     // assertions to fire.
+    const wsrep::transaction_id id(id_);
     while (streaming_rollback_in_progress_)
         client_state_.cond_.wait(lock);
+    // The lock was released while waiting, the owning thread may have
+    // completed the rollback in the meanwhile.
+    if (id_ != id || is_streaming() == false)
+    {
+        return;
+    }
     streaming_rollback_in_progress_ = true;
 
     if (streaming_context_.rolled_back() == false)
-- 
2.43.0


From 0445d12cb4937fe3aff017e1266cd18f678cd2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:30 +0000
Subject: [PATCH 15/19] fix: wake up view handler when streaming client is
 converted to applier

---
 src/server_state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 908b056..505b1bf 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1182,6 +1182,7 @@ void wsrep::server_state::convert_streaming_client_to_applier(
     else
     {
         streaming_clients_.erase(i);
+        cond_.notify_all();
     }
 
     // Convert to applier only if the state is not disconnected. In
-- 
2.43.0


From 73e73ff19c57e44c125e13da0b105c0b52f32180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:06 +0000
Subject: [PATCH 16/19] fix: compare reported log messages in the same form

The reporter stores log messages JSON escaped but compared the raw
message with the last stored one to drop repeats. A message that
happened to be the escaped form of the previous one was lost, and
repeats of a message which needed escaping were not recognized.
---
 src/reporter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index 3b21a19..b7de202 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -355,15 +355,17 @@ wsrep::reporter::report_log_msg(log_level const    lvl,
 
     wsrep::unique_lock<wsrep::mutex> lock(mutex_);
 
-    if (deque.empty() || msg != deque.back().msg)
+    /* Log messages are not expected to be json formatted, so we escape
+       the message strings here to keep the report file well formatted. */
+    const std::string escaped(escape_json(msg));
+
+    if (deque.empty() || escaped != deque.back().msg)
     {
         if (deque.size() == max_msg_) deque.pop_front();
 
         if (tstamp <= undefined) tstamp = timestamp();
 
-        /* Log messages are not expected to be json formatted, so we escape
-           the message strings here to keep the report file well formatted. */
-        log_msg_t entry({tstamp, escape_json(msg)});
+        log_msg_t entry({tstamp, escaped});
         deque.push_back(entry);
         write_file(tstamp);
     }
-- 
2.43.0


From 3c4fb238d8e3cf7fc7404bde6cf7299f2e3ec08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:23 +0000
Subject: [PATCH 17/19] fix: never publish an incomplete report file

A short write was not noticed and the truncated temporary file was
renamed over the previous report. Write all of it, and if that or the
rename fails, remove the temporary file.
---
 src/reporter.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index b7de202..0cb14e7 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -284,18 +284,32 @@ wsrep::reporter::write_file(double const tstamp)
                   << "': " << strerror(errno) << " (" << errno << ")\n";
         return;
     }
-    ssize_t err(write(fd, str.c_str(), str.length()));
+    size_t written(0);
+    while (written < str.length())
+    {
+        ssize_t const ret(write(fd, str.c_str() + written,
+                                str.length() - written));
+        if (ret <= 0) break;
+        written += static_cast<size_t>(ret);
+    }
+    int const err(errno);
     close(fd);
-    if (err < 0)
+    if (written < str.length())
     {
         std::cerr << "Could not write " << str.length()
                   << " bytes to temporary file '"
-                  << template_ << "': " << strerror(errno)
-                  << " (" << errno << ")\n";
+                  << template_ << "': " << strerror(err)
+                  << " (" << err << ")\n";
+        unlink(template_);
         return;
     }
 
-    rename(template_, file_name_.c_str());
+    if (rename(template_, file_name_.c_str()))
+    {
+        std::cerr << "Could not rename temporary file '" << template_
+                  << "': " << strerror(errno) << " (" << errno << ")\n";
+        unlink(template_);
+    }
 }
 
 void
-- 
2.43.0


From 74b7704d280448ccd32ee46b71b0ac176937f0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:05 +0000
Subject: [PATCH 18/19] fix: replay a certified transaction whose prepare fails

If the database fails to prepare a transaction after its write set
passed certification, the rest of the cluster commits it. Mark it for
replay instead of rolling it back locally only.
---
 src/transaction.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 14e861e..2465f01 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -694,6 +694,14 @@ int wsrep::transaction::before_rollback()
         case s_preparing:
             // Error detected during prepare phase
             state(lock, s_must_abort);
+            if (certified())
+            {
+                // The write set has passed certification and will be
+                // committed in the rest of the cluster, so it must be
+                // committed here too.
+                state(lock, s_must_replay);
+                break;
+            }
             WSREP_FALLTHROUGH;
         case s_prepared:
             WSREP_FALLTHROUGH;
-- 
2.43.0


From ab166f3c5f24f76ede7ad169f631f047ad2835d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:05 +0000
Subject: [PATCH 19/19] fix: restore client globals when adopting a streaming
 transaction fails

In the error branch of convert_streaming_client_to_applier() the thread
was left with the globals of the released high priority service.
---
 src/server_state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 505b1bf..9a0954e 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1196,6 +1196,7 @@ void wsrep::server_state::convert_streaming_client_to_applier(
             log_adopt_error(client_state->transaction());
             streaming_applier->after_apply();
             server_service_.release_high_priority_service(streaming_applier);
+            client_state->client_service().store_globals();
             return;
         }
         if (streaming_appliers_.insert(
-- 
2.43.0

