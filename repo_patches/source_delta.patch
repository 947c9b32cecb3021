From 46804b253ba1c2c1bc0e9ee1bc5f2228cd7f8d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 01/25] fix: reporter must not publish partial or leave
 temporary files

A short write was renamed over the status file and a failed write or
rename left the temporary file behind.
---
 src/reporter.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index 3b21a19..2b7a36b 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -284,18 +284,32 @@ wsrep::reporter::write_file(double const tstamp)
                   << "': " << strerror(errno) << " (" << errno << ")\n";
         return;
     }
-    ssize_t err(write(fd, str.c_str(), str.length()));
+    size_t written(0);
+    ssize_t err(0);
+    while (written < str.length() &&
+           (err = write(fd, str.c_str() + written,
+                        str.length() - written)) > 0)
+    {
+        written += static_cast<size_t>(err);
+    }
     close(fd);
-    if (err < 0)
+    if (written < str.length())
     {
         std::cerr << "Could not write " << str.length()
                   << " bytes to temporary file '"
                   << template_ << "': " << strerror(errno)
                   << " (" << errno << ")\n";
+        unlink(template_);
         return;
     }
 
-    rename(template_, file_name_.c_str());
+    if (rename(template_, file_name_.c_str()))
+    {
+        std::cerr << "Could not rename temporary file '" << template_
+                  << "' to '" << file_name_ << "': " << strerror(errno)
+                  << " (" << errno << ")\n";
+        unlink(template_);
+    }
 }
 
 void
-- 
2.43.0


From 1ceb8f2d330d857a6384a0837cb8fe7d61f7a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 02/25] fix: reporter detects repeated messages which need
 escaping

The raw message was compared with the stored escaped one so repeated
messages with characters which need escaping were never suppressed.
---
 src/reporter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index 2b7a36b..fd82dcd 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -369,15 +369,17 @@ wsrep::reporter::report_log_msg(log_level const    lvl,
 
     wsrep::unique_lock<wsrep::mutex> lock(mutex_);
 
-    if (deque.empty() || msg != deque.back().msg)
+    /* Log messages are not expected to be json formatted, so we escape
+       the message strings here to keep the report file well formatted. */
+    const std::string escaped(escape_json(msg));
+
+    if (deque.empty() || escaped != deque.back().msg)
     {
         if (deque.size() == max_msg_) deque.pop_front();
 
         if (tstamp <= undefined) tstamp = timestamp();
 
-        /* Log messages are not expected to be json formatted, so we escape
-           the message strings here to keep the report file well formatted. */
-        log_msg_t entry({tstamp, escape_json(msg)});
+        log_msg_t entry({tstamp, escaped});
         deque.push_back(entry);
         write_file(tstamp);
     }
-- 
2.43.0


From bbf510e57fcb2448f221c26492eaa193d6d19c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:09 +0000
Subject: [PATCH 03/25] fix: reporter with zero maximum number of messages

pop_front() was called for an empty deque if max_msg was zero.
---
 src/reporter.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index fd82dcd..53af4bf 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -352,11 +352,11 @@ void
 wsrep::reporter::report_event(const std::string& json)
 {
     wsrep::unique_lock<wsrep::mutex> lock(mutex_);
-    if (events_.size() == max_msg_)
+    events_.push_back({timestamp(), json});
+    if (events_.size() > max_msg_)
     {
         events_.pop_front();
     }
-    events_.push_back({timestamp(), json});
     write_file(timestamp());
 }
 
@@ -375,12 +375,11 @@ wsrep::reporter::report_log_msg(log_level const    lvl,
 
     if (deque.empty() || escaped != deque.back().msg)
     {
-        if (deque.size() == max_msg_) deque.pop_front();
-
         if (tstamp <= undefined) tstamp = timestamp();
 
         log_msg_t entry({tstamp, escaped});
         deque.push_back(entry);
+        if (deque.size() > max_msg_) deque.pop_front();
         write_file(tstamp);
     }
 }
-- 
2.43.0


From 4c70ed1b32b77b8fb769466881acc59d08f58389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:09 +0000
Subject: [PATCH 04/25] fix: detect duplicate definition of provider options
 with dots in name

Options are stored by sanitized name but the lookup was done by the
real name, so a duplicate was silently dropped and reported as success.
---
 src/provider_options.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/provider_options.cpp b/src/provider_options.cpp
index fcd7a95..fa16b4e 100644
--- a/src/provider_options.cpp
+++ b/src/provider_options.cpp
@@ -148,9 +148,10 @@ enum wsrep::provider::status wsrep::provider_options::set_default(
     std::unique_ptr<wsrep::provider_options::option_value> default_value,
     int flags)
 {
-    auto found(options_.find(name));
     auto opt(std::unique_ptr<provider_options::option>(
         new option{ name, std::move(value), std::move(default_value), flags }));
+    // Options are stored by sanitized name
+    auto found(options_.find(opt->name()));
     if (found != options_.end())
     {
         assert(0);
-- 
2.43.0


From 7bafaa27c071e35bd8db3e24100615969b6bf8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:25 +0000
Subject: [PATCH 05/25] fix: do not abort twice when certification fails for a
 BF aborted transaction

If the transaction was BF aborted while fragment or commit certification
was failing for other reason, the state was changed from must abort to
must abort, which is not a valid transition. With empty fragment the
BF abort was overwritten by executing state.
---
 src/transaction.cpp | 55 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 6647cfc..8c5ab70 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1521,7 +1521,10 @@ int wsrep::transaction::certify_fragment(
             << status << " ("
             << wsrep::provider::to_string(status) << ")";
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         return 1;
     }
 
@@ -1530,7 +1533,10 @@ int wsrep::transaction::certify_fragment(
     if (client_service_.prepare_fragment_for_replication(data, log_position))
     {
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
@@ -1540,6 +1546,11 @@ int wsrep::transaction::certify_fragment(
     {
         wsrep::log_warning() << "Attempt to replicate empty data buffer";
         lock.lock();
+        if (state() == s_must_abort)
+        {
+            client_state_.override_error(wsrep::e_deadlock_error);
+            return 1;
+        }
         state(lock, s_executing);
         return 0;
     }
@@ -1548,7 +1559,10 @@ int wsrep::transaction::certify_fragment(
                                wsrep::const_buffer(data.data(), data.size())))
     {
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
@@ -1796,7 +1810,10 @@ int wsrep::transaction::certify_commit(
         if (!is_xa())
         {
             lock.lock();
-            state(lock, s_must_abort);
+            if (state() != s_must_abort)
+            {
+                state(lock, s_must_abort);
+            }
             return 1;
         }
     }
@@ -1879,11 +1896,17 @@ int wsrep::transaction::certify_commit(
         break;
     case wsrep::provider::error_warning:
         assert(ordered() == false);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     case wsrep::provider::error_transaction_missing:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         // The execution should never reach this point if the
         // transaction has not generated any keys or data.
         wsrep::log_warning() << "Transaction was missing in provider";
@@ -1906,7 +1929,10 @@ int wsrep::transaction::certify_commit(
         client_state_.override_error(wsrep::e_deadlock_error);
         break;
     case wsrep::provider::error_size_exceeded:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     case wsrep::provider::error_connection_failed:
@@ -1945,19 +1971,28 @@ int wsrep::transaction::certify_commit(
         break;
     case wsrep::provider::error_fatal:
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_service_.emergency_shutdown();
         break;
     case wsrep::provider::error_not_implemented:
     case wsrep::provider::error_not_allowed:
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         wsrep::log_warning() << "Certification operation was not allowed: "
                              << "id: " << id().get()
                              << " flags: " << std::hex << flags() << std::dec;
         break;
     default:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     }
-- 
2.43.0


From 04aa9d05b3a5d3b28d6466709652dcf58c7afbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:25 +0000
Subject: [PATCH 06/25] fix: report error if pending rollback events cannot be
 replicated

The transaction was aborted without setting an error. The missing error
caused an assertion in before_prepare(), and if the rollback was done
before after_statement(), the rolled back transaction was reported as
successful.
---
 src/transaction.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 8c5ab70..9d9a4a7 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1525,6 +1525,7 @@ int wsrep::transaction::certify_fragment(
         {
             state(lock, s_must_abort);
         }
+        client_state_.override_error(wsrep::e_deadlock_error);
         return 1;
     }
 
@@ -1814,6 +1815,7 @@ int wsrep::transaction::certify_commit(
             {
                 state(lock, s_must_abort);
             }
+            client_state_.override_error(wsrep::e_deadlock_error);
             return 1;
         }
     }
-- 
2.43.0


From 720fcc23a66de3f8ff9e6666f03be1d4572d6a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:48 +0000
Subject: [PATCH 07/25] fix: abort transaction if statement is not allowed for
 streaming

The transaction remained in executing state although before_prepare()
failed, which caused an assertion.
---
 src/transaction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 9d9a4a7..d876433 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -336,6 +336,10 @@ int wsrep::transaction::before_prepare(wsrep::unique_lock<wsrep::mutex>& lock,
                 client_state_.override_error(wsrep::e_deadlock_error);
                 ret = 1;
             }
+            else if (ret && state() == s_executing)
+            {
+                state(lock, s_must_abort);
+            }
         }
 
         if (ret == 0)
-- 
2.43.0


From 3368c0bf2809ddf51cbc7c5f73ec5b3e324ba970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:48 +0000
Subject: [PATCH 08/25] fix: do not commit streaming transaction if keys cannot
 be appended

The return value of append_sr_keys_for_commit() was ignored, so the
commit fragment was replicated without keys of earlier fragments.
---
 src/transaction.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index d876433..41db5a1 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -349,9 +349,17 @@ int wsrep::transaction::before_prepare(wsrep::unique_lock<wsrep::mutex>& lock,
                 // Force fragment replication on XA prepare
                 flags(flags() | wsrep::provider::flag::prepare);
                 pa_unsafe(true);
-                append_sr_keys_for_commit();
-                const bool force_streaming_step = true;
-                ret = streaming_step(lock, force_streaming_step);
+                if (append_sr_keys_for_commit())
+                {
+                    client_state_.override_error(wsrep::e_error_during_commit);
+                    state(lock, s_must_abort);
+                    ret = 1;
+                }
+                else
+                {
+                    const bool force_streaming_step = true;
+                    ret = streaming_step(lock, force_streaming_step);
+                }
                 if (ret == 0)
                 {
                     assert(state() == s_executing);
@@ -1826,9 +1834,15 @@ int wsrep::transaction::certify_commit(
 
     if (is_streaming())
     {
-        if (!is_xa())
+        if (!is_xa() && append_sr_keys_for_commit())
         {
-            append_sr_keys_for_commit();
+            lock.lock();
+            if (state() != s_must_abort)
+            {
+                state(lock, s_must_abort);
+            }
+            client_state_.override_error(wsrep::e_error_during_commit);
+            return 1;
         }
         pa_unsafe(true);
     }
-- 
2.43.0


From ced05ef9f4776441ef1d29d72f47120cbb6f0e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:48 +0000
Subject: [PATCH 09/25] fix: do not report error of failed XA commit for later
 commands

If the commit of prepared XA transaction fails because of interrupt or
connection failure, the transaction stays in prepared state and the
commit can be retried. The error of the failed attempt was kept, so
that a later successful commit was reported as failed.
---
 src/client_state.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client_state.cpp b/src/client_state.cpp
index a5995cd..74dfb09 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -217,8 +217,13 @@ void wsrep::client_state::after_command_after_result()
         transaction_.after_command_must_abort(lock);
         assert(transaction_.state() == wsrep::transaction::s_aborted);
     }
-    else if (transaction_.active() == false && not keep_command_error_)
+    else if ((transaction_.active() == false ||
+              transaction_.state() == wsrep::transaction::s_prepared) &&
+             not keep_command_error_)
     {
+        // Error has been reported to client with the result. Prepared
+        // XA transaction stays active after failed command, make sure
+        // that the error will not be reported again for later commands.
         current_error_ = wsrep::e_success;
         current_error_status_ = wsrep::provider::success;
     }
-- 
2.43.0


From e8bf0154e1032a993a41bb15fcfbafa1f3c6dc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:59 +0000
Subject: [PATCH 10/25] fix: apply streaming fragments which carry
 certification hint flags

A fragment in the middle of a streaming transaction was recognized only
if it carried no flags or the pa_unsafe flag alone. A fragment which was
replicated with implicit dependencies was silently skipped on other
nodes.
---
 src/server_state.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index c727dba..e9b2097 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -365,7 +365,7 @@ static int apply_write_set(wsrep::server_state& server_state,
                              ws_meta,
                              data);
     }
-    else if (ws_meta.flags() == 0 || ws_meta.flags() == wsrep::provider::flag::pa_unsafe ||
+    else if (!wsrep::commits_transaction(ws_meta.flags()) ||
              wsrep::prepares_transaction(ws_meta.flags()))
     {
         wsrep::high_priority_service* sa(
@@ -397,7 +397,7 @@ static int apply_write_set(wsrep::server_state& server_state,
                                  data);
         }
     }
-    else if (wsrep::commits_transaction(ws_meta.flags()))
+    else
     {
         if (high_priority_service.is_replaying())
         {
@@ -441,10 +441,6 @@ static int apply_write_set(wsrep::server_state& server_state,
             }
         }
     }
-    else
-    {
-        assert(0);
-    }
     if (ret)
     {
         wsrep::log_error() << "Failed to apply write set: " << ws_meta;
-- 
2.43.0


From 5f6b0631488bbd82de1d4d1d773ecd3d337081f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:13 +0000
Subject: [PATCH 11/25] fix: do not replay BF aborted XA transaction which was
 not prepared

If a streaming XA transaction was BF aborted before it was prepared and
the abort was noticed in after_command_before_result(), the transaction
was treated as prepared. Converting it into an applier after it had
already been removed from streaming clients was undefined behavior.
---
 src/transaction.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 41db5a1..e210fac 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -958,7 +958,10 @@ void wsrep::transaction::after_command_must_abort(
     assert(active());
     assert(state_ == s_must_abort);
 
-    if (is_xa() && is_streaming())
+    // Only a prepared XA transaction survives BF abort.
+    const bool xa_prepared(is_xa() && is_streaming() &&
+                           bf_abort_state_ == s_prepared);
+    if (xa_prepared)
     {
         state(lock, s_must_replay);
     }
@@ -967,7 +970,7 @@ void wsrep::transaction::after_command_must_abort(
     client_service_.bf_rollback();
     lock.lock();
 
-    if (is_xa() && is_streaming())
+    if (xa_prepared)
     {
         xa_replay(lock);
     }
-- 
2.43.0


From 18ea13e29534eb4eb2061f319fa95d59ad4701f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:32 +0000
Subject: [PATCH 12/25] fix: do not wait for streaming rollback of the victim
 in BF abort

The BF aborter waited for the client which was executing streaming
rollback, and then went on to roll back whatever transaction the client
had at that time.
---
 src/transaction.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index e210fac..b5061d5 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1086,8 +1086,13 @@ bool wsrep::transaction::bf_abort(
         // In other states the BF abort will be detected outside of
         // storage engine operations and streaming rollback will be
         // handled from before_rollback() call.
+        // If the client itself is already executing streaming rollback,
+        // there is nothing to do. In particular, it must not be waited for:
+        // the client could finish the transaction and start another one
+        // before the wait is over.
         if (client_state_.mode() == wsrep::client_state::m_local &&
-            is_streaming() && state_at_enter == s_executing)
+            is_streaming() && state_at_enter == s_executing &&
+            streaming_rollback_in_progress_ == false)
         {
             streaming_rollback(lock);
         }
-- 
2.43.0


From 0482fbf56ff71ff1a90df46b2beeadd089a6d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:26 +0000
Subject: [PATCH 13/25] fix: wake up view handler when streaming client is
 converted to applier

close_orphaned_sr_transactions() waits until the BF aborted client has
been removed from streaming clients. If the removal happened due to
conversion to streaming applier, the wait was never notified.
---
 src/server_state.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index e9b2097..c99c185 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1178,6 +1178,9 @@ void wsrep::server_state::convert_streaming_client_to_applier(
     else
     {
         streaming_clients_.erase(i);
+        // View handler may be waiting for the client to be removed,
+        // see close_orphaned_sr_transactions().
+        cond_.notify_all();
     }
 
     // Convert to applier only if the state is not disconnected. In
-- 
2.43.0


From c39c0bac1e588bf0651a5492da2e75dcc38d6414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:26 +0000
Subject: [PATCH 14/25] fix: refused total order BF abort must not cancel an
 earlier one

If a transaction was BF aborted in total order for a second time, the
refused attempt cleared the flag set by the first one. As a consequence
fragments of the transaction were left behind in the fragment storage.
---
 src/transaction.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index b5061d5..944a7fd 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1142,12 +1142,14 @@ bool wsrep::transaction::total_order_bf_abort(
     /* We must set this flag before entering bf_abort() in order
      * to streaming_rollback() work correctly. The flag will be
      * unset if BF abort was not allowed. Note that we rely in
-     * bf_abort() not to release lock if the BF abort is not allowed. */
+     * bf_abort() not to release lock if the BF abort is not allowed.
+     * The outcome of an earlier successful BF abort must be retained. */
+    const bool already_aborted(bf_aborted_in_total_order_);
     bf_aborted_in_total_order_ = true;
     bool ret(bf_abort(lock, bf_seqno, victim_ctx));
     if (not ret)
     {
-        bf_aborted_in_total_order_ = false;
+        bf_aborted_in_total_order_ = already_aborted;
     }
     return ret;
 }
-- 
2.43.0


From 2111d40c0a2b302b651fdf6280c810a764d58140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:25 +0000
Subject: [PATCH 15/25] fix: replicate rollback of XA transaction which was
 aborted while preparing

If a streaming XA transaction is aborted in total order (by view change or
TOI) after its prepare fragment was replicated but before the client
has entered prepared state, the other members keep the transaction as
prepared. They must be notified by rollback event, otherwise
the transaction which was reported as rolled back to the client stays
prepared in the rest of the cluster.
---
 src/transaction.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 944a7fd..8249b86 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1143,9 +1143,16 @@ bool wsrep::transaction::total_order_bf_abort(
      * to streaming_rollback() work correctly. The flag will be
      * unset if BF abort was not allowed. Note that we rely in
      * bf_abort() not to release lock if the BF abort is not allowed.
-     * The outcome of an earlier successful BF abort must be retained. */
+     * The outcome of an earlier successful BF abort must be retained.
+     * An XA transaction whose prepare fragment may have been replicated
+     * is not rolled back in total order by the other members, so those
+     * must be notified with a rollback event if it is rolled back here. */
     const bool already_aborted(bf_aborted_in_total_order_);
-    bf_aborted_in_total_order_ = true;
+    const bool xa_prepare(is_xa() &&
+                          (state() == s_preparing || state() == s_prepared ||
+                           (flags() & (wsrep::provider::flag::prepare |
+                                       wsrep::provider::flag::commit))));
+    bf_aborted_in_total_order_ = already_aborted || not xa_prepare;
     bool ret(bf_abort(lock, bf_seqno, victim_ctx));
     if (not ret)
     {
-- 
2.43.0


From 2618b9aa8462c15a26c1333dc1a0c42238d91b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:27 +0000
Subject: [PATCH 16/25] fix: prepared XA transaction survives BF abort while
 executing

An executing prepared XA transaction which is BF aborted is handed over
to streaming applier instead of being rolled back. If the commit by xid
fails during replay, finish the local transaction, and do not report
stale error if it succeeds.
---
 include/wsrep/transaction.hpp |  1 +
 src/client_state.cpp          |  3 ++-
 src/transaction.cpp           | 36 +++++++++++++++++++++++++++++------
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/include/wsrep/transaction.hpp b/include/wsrep/transaction.hpp
index 201c3b5..76c5d6c 100644
--- a/include/wsrep/transaction.hpp
+++ b/include/wsrep/transaction.hpp
@@ -249,6 +249,7 @@ namespace wsrep
         // The call will adjust transaction state and set client_state
         // error status accordingly.
         bool abort_or_interrupt(wsrep::unique_lock<wsrep::mutex>&);
+        bool xa_survives_bf_abort() const;
         int streaming_step(wsrep::unique_lock<wsrep::mutex>&, bool force = false);
         int certify_fragment(wsrep::unique_lock<wsrep::mutex>&);
         int certify_commit(wsrep::unique_lock<wsrep::mutex>&,
diff --git a/src/client_state.cpp b/src/client_state.cpp
index 74dfb09..7c665e1 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -68,7 +68,8 @@ void wsrep::client_state::close()
     keep_command_error_ = false;
     lock.unlock();
     if (transaction_.active() &&
-        (mode_ != m_local || !client_service_.is_prepared_xa()))
+        (mode_ != m_local || !client_service_.is_prepared_xa() ||
+         transaction_.state() == wsrep::transaction::s_must_abort))
     {
         client_service_.bf_rollback();
         transaction_.after_statement();
diff --git a/src/transaction.cpp b/src/transaction.cpp
index 8249b86..fbf6016 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -714,7 +714,7 @@ int wsrep::transaction::before_rollback()
             state(lock, s_aborting);
             break;
         case s_must_abort:
-            if (certified())
+            if (certified() || xa_survives_bf_abort())
             {
                 state(lock, s_must_replay);
             }
@@ -900,7 +900,20 @@ int wsrep::transaction::after_statement(wsrep::unique_lock<wsrep::mutex>& lock)
     {
         if (is_xa() && !ordered())
         {
-            ret = xa_replay_commit(lock);
+            if (flags() & wsrep::provider::flag::commit)
+            {
+                ret = xa_replay_commit(lock);
+            }
+            else
+            {
+                // BF aborted while prepared and not committing yet
+                if (client_state_.current_error() == wsrep::e_success)
+                {
+                    client_state_.override_error(wsrep::e_deadlock_error);
+                }
+                ret = 1;
+                xa_replay(lock);
+            }
         }
         else
         {
@@ -1335,6 +1348,8 @@ int wsrep::transaction::xa_replay_commit(wsrep::unique_lock<wsrep::mutex>& lock)
     switch (status)
     {
     case wsrep::provider::success:
+        // The transaction was committed after all
+        client_state_.current_error_ = wsrep::e_success;
         state(lock, s_committed);
         streaming_context_.cleanup();
         provider().release(ws_handle_);
@@ -1343,10 +1358,12 @@ int wsrep::transaction::xa_replay_commit(wsrep::unique_lock<wsrep::mutex>& lock)
         break;
     default:
         log_warning() << "Failed to commit by xid during replay";
-        // Commit by xid failed, return a commit
-        // error and let the client retry
-        state(lock, s_preparing);
-        state(lock, s_prepared);
+        // Commit by xid failed. The transaction is still prepared,
+        // but it has been handed over to streaming applier. Finish
+        // the local transaction, return a commit error and let the
+        // client retry the commit by xid.
+        state(lock, s_aborted);
+        streaming_context_.cleanup();
         client_state_.override_error(wsrep::e_error_during_commit, status);
     }
 
@@ -1423,6 +1440,12 @@ void wsrep::transaction::state(
     }
 }
 
+bool wsrep::transaction::xa_survives_bf_abort() const
+{
+    return is_xa() && is_streaming() && bf_abort_state_ == s_prepared &&
+        !client_service_.is_xa_rollback();
+}
+
 bool wsrep::transaction::abort_or_interrupt(
     wsrep::unique_lock<wsrep::mutex>& lock)
 {
@@ -1811,6 +1834,7 @@ int wsrep::transaction::certify_commit(
     {
         if (is_xa() && state() == s_must_abort)
         {
+            flags(flags() | wsrep::provider::flag::commit);
             state(lock, s_must_replay);
         }
         return 1;
-- 
2.43.0


From 7a7159e818434743f7e63f926db43b06e6541ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:30 +0000
Subject: [PATCH 17/25] fix: do not carry reported error over when prepared XA
 transaction is handed over

---
 src/client_state.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/client_state.cpp b/src/client_state.cpp
index 7c665e1..4713689 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -215,6 +215,12 @@ void wsrep::client_state::after_command_after_result()
     if (transaction_.active() &&
         transaction_.state() == wsrep::transaction::s_must_abort)
     {
+        if (not keep_command_error_)
+        {
+            // Already reported with the result
+            current_error_ = wsrep::e_success;
+            current_error_status_ = wsrep::provider::success;
+        }
         transaction_.after_command_must_abort(lock);
         assert(transaction_.state() == wsrep::transaction::s_aborted);
     }
-- 
2.43.0


From 5605425b397ba783752894d74e5ad3f5deb4e376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:30 +0000
Subject: [PATCH 18/25] fix: wake up waiting pause requests when pausing the
 provider fails

A thread waiting in pause() for an earlier pause request was woken up
only by resume(), so it was left waiting for ever if the earlier request
failed.
---
 src/server_state.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index c99c185..480e1c6 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -572,6 +572,8 @@ wsrep::seqno wsrep::server_state::pause()
     if (pause_seqno_.is_undefined())
     {
         --pause_count_;
+        // Let other threads which are waiting for their turn to proceed
+        cond_.notify_all();
     }
     return pause_seqno_;
 }
-- 
2.43.0


From 90afe6818b9fcf06c66cb9a3553887e8d9237c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:30 +0000
Subject: [PATCH 19/25] fix: do not resync after failed desync in
 desync_and_pause()

If both desync and pause failed, resync was called without a matching
desync, which hit an assertion or undid the desync of another request.
---
 src/server_state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 480e1c6..d292654 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -619,7 +619,10 @@ wsrep::seqno wsrep::server_state::desync_and_pause()
     if (ret.is_undefined())
     {
         wsrep::log_warning() << "Failed to pause provider";
-        resync();
+        if (desync_successful)
+        {
+            resync();
+        }
         return wsrep::seqno::undefined();
     }
     else
-- 
2.43.0


From 53a53bad3be480686387b6c77da5fd93eeed7782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:10 +0000
Subject: [PATCH 20/25] fix: do not ignore failure to start or continue
 streaming applier transaction

---
 src/server_state.cpp | 51 ++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index d292654..567dfe6 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -357,13 +357,16 @@ static int apply_write_set(wsrep::server_state& server_state,
                 high_priority_service));
         server_state.start_streaming_applier(
             ws_meta.server_id(), ws_meta.transaction_id(), sa);
-        sa->start_transaction(ws_handle, ws_meta);
-        ret = apply_fragment(server_state,
-                             high_priority_service,
-                             sa,
-                             ws_handle,
-                             ws_meta,
-                             data);
+        ret = sa->start_transaction(ws_handle, ws_meta);
+        if (!ret)
+        {
+            ret = apply_fragment(server_state,
+                                 high_priority_service,
+                                 sa,
+                                 ws_handle,
+                                 ws_meta,
+                                 data);
+        }
     }
     else if (!wsrep::commits_transaction(ws_meta.flags()) ||
              wsrep::prepares_transaction(ws_meta.flags()))
@@ -388,13 +391,16 @@ static int apply_write_set(wsrep::server_state& server_state,
         }
         else
         {
-            sa->next_fragment(ws_meta);
-            ret = apply_fragment(server_state,
-                                 high_priority_service,
-                                 sa,
-                                 ws_handle,
-                                 ws_meta,
-                                 data);
+            ret = sa->next_fragment(ws_meta);
+            if (!ret)
+            {
+                ret = apply_fragment(server_state,
+                                     high_priority_service,
+                                     sa,
+                                     ws_handle,
+                                     ws_meta,
+                                     data);
+            }
         }
     }
     else
@@ -431,13 +437,16 @@ static int apply_write_set(wsrep::server_state& server_state,
             else
             {
                 // Commit fragment consumes sa
-                sa->next_fragment(ws_meta);
-                ret = commit_fragment(server_state,
-                                      high_priority_service,
-                                      sa,
-                                      ws_handle,
-                                      ws_meta,
-                                      data);
+                ret = sa->next_fragment(ws_meta);
+                if (!ret)
+                {
+                    ret = commit_fragment(server_state,
+                                          high_priority_service,
+                                          sa,
+                                          ws_handle,
+                                          ws_meta,
+                                          data);
+                }
             }
         }
     }
-- 
2.43.0


From d23667dc3aff5adba91efb220d26a0a0d720889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:10 +0000
Subject: [PATCH 21/25] fix: do not lose rollback error when applying first
 fragment fails

---
 src/server_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 567dfe6..ae746e3 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -120,8 +120,8 @@ static int apply_fragment(wsrep::server_state& server_state,
             }
             else
             {
-                ret = streaming_applier->log_dummy_write_set(ws_handle,
-                                                             ws_meta, err);
+                ret = ret || streaming_applier->log_dummy_write_set(
+                    ws_handle, ws_meta, err);
             }
         }
     }
-- 
2.43.0


From cf1f99629c9381c1edbec521864bf0ce55ced5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:10 +0000
Subject: [PATCH 22/25] fix: consume position of rollback fragment also if
 adopting fails

---
 src/server_state.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index ae746e3..66fc455 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -268,6 +268,14 @@ static int rollback_fragment(wsrep::server_state& server_state,
                 }
             }
         }
+        else if (ws_meta.ordered())
+        {
+            // Fragments could not be removed, the position of the
+            // rollback fragment must be consumed nevertheless.
+            wsrep::mutable_buffer no_error;
+            ret = high_priority_service.log_dummy_write_set(
+                ws_handle, ws_meta, no_error);
+        }
     }
     return ret;
 }
-- 
2.43.0


From b75671ea3b1bff3bbef0a8687cc1c6554d76728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:54 +0000
Subject: [PATCH 23/25] fix: report a failed state transfer to the provider
 without server mutex

The provider was called with the server mutex locked if the state
transfer had failed, unlike in all other cases.
---
 src/server_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 66fc455..1af9ff0 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -812,8 +812,8 @@ try
         }
         lock.lock();
         recover_streaming_appliers_if_not_recovered(lock, cs);
-        lock.unlock();
     }
+    lock.unlock();
 
     enum provider::status const retval(provider().sst_received(gtid, error));
     if (retval != provider::success)
-- 
2.43.0


From 195b681fa5f0eb8113488a185731ea15e03c145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:54 +0000
Subject: [PATCH 24/25] fix: allow reception of state transfer after disconnect
 has started

---
 src/server_state.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 1af9ff0..9b835ee 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -727,7 +727,9 @@ try
     wsrep::log_info() << "SST received";
     wsrep::gtid gtid(wsrep::gtid::undefined());
     wsrep::unique_lock<wsrep::mutex> lock(mutex_);
-    assert(state_ == s_joiner || state_ == s_initialized);
+    // Disconnect may have been started while the state was transferred.
+    assert(state_ == s_joiner || state_ == s_initialized ||
+           state_ == s_disconnecting);
 
     // Run initialization only if the SST was successful.
     // In case of SST failure the system is in undefined state
-- 
2.43.0


From 501016dcaf0340155248b7afbd2e8b88e0c0cd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:54 +0000
Subject: [PATCH 25/25] fix: do not miss states or fail spuriously when waiting
 for server state

The wait failed on any wake-up while the server was disconnected, even
if it had been disconnected already when the wait began. It missed a
state which another thread changed before the waiter got to run, and
blocked forever if the server was already disconnecting.
---
 src/server_state.cpp | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 9b835ee..048c64e 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1417,19 +1417,41 @@ void wsrep::server_state::wait_until_state(
     wsrep::unique_lock<wsrep::mutex>& lock,
     enum wsrep::server_state::state state) const
 {
+    // The server may have moved on from the awaited state before this
+    // thread gets to run, so also the states which have been left since
+    // the beginning of the wait are considered. State history contains
+    // the states the server has left, the one the wait started from has
+    // index start.
+    const std::vector<enum state>::size_type start(state_hist_.size());
+    const auto reached([this, start](enum state s, bool skip_start)
+    {
+        if (skip_start && state_hist_.size() == start) return false;
+        return state_ == s ||
+            std::find(state_hist_.begin() + (start + skip_start),
+                      state_hist_.end(), s) != state_hist_.end();
+    });
+    // If the waiter waits for any other state than disconnecting
+    // or disconnected and the state has been changed to disconnecting,
+    // this usually means that some error was encountered
+    const bool interruptible(state != s_disconnecting &&
+                             state != s_disconnected);
     ++state_waiters_[state];
-    while (state_ != state)
-    {
-        cond_.wait(lock);
-        // If the waiter waits for any other state than disconnecting
-        // or disconnected and the state has been changed to disconnecting,
-        // this usually means that some error was encountered 
-        if (state != s_disconnecting && state != s_disconnected
-            && (state_ == s_disconnecting || state_ == s_disconnected))
+    while (true)
+    {
+        const bool disconnecting(
+            interruptible && (reached(s_disconnecting, false) ||
+                              reached(s_disconnected, true)));
+        const bool disconnected_now(
+            state_ == s_disconnecting || state_ == s_disconnected);
+        const bool success(reached(state, false));
+        if (disconnecting && (disconnected_now || not success))
         {
-          --state_waiters_[state];
+            --state_waiters_[state];
+            cond_.notify_all();
             throw wsrep::runtime_error("State wait was interrupted");
         }
+        if (success) break;
+        cond_.wait(lock);
     }
     --state_waiters_[state];
     cond_.notify_all();
-- 
2.43.0

