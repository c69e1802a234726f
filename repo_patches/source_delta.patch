From 9103bc7c1dea3338a803151d99bc5eb757436312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 01/46] Allow simulation builds to size the rate limiter's
 event history

---
 reverb/cc/rate_limiter.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reverb/cc/rate_limiter.h b/reverb/cc/rate_limiter.h
index 30e04fc..77da7e0 100644
--- a/reverb/cc/rate_limiter.h
+++ b/reverb/cc/rate_limiter.h
@@ -35,7 +35,12 @@ class Table;
 constexpr absl::Duration kDefaultTimeout = absl::InfiniteDuration();
 
 // Maximum number of events in the ciruclar buffer owned by the StatsManager.
+#ifdef REVERB_SIM_EVENT_HISTORY_SIZE
+// Simulation builds create many tables and want to see the buffer wrap around.
+constexpr size_t kEventHistoryBufferSize = REVERB_SIM_EVENT_HISTORY_SIZE;
+#else
 constexpr size_t kEventHistoryBufferSize = 1000000;
+#endif
 
 // Details about the waiting time for a call to the RateLimiter.
 struct RateLimiterEvent {
-- 
2.43.0


From 84738e76e13f055f931db6e784919c016b18c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 02/46] fix: include the last completed call in the rate
 limiter event history

---
 reverb/cc/rate_limiter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reverb/cc/rate_limiter.cc b/reverb/cc/rate_limiter.cc
index 0563005..3d5b7e1 100644
--- a/reverb/cc/rate_limiter.cc
+++ b/reverb/cc/rate_limiter.cc
@@ -302,11 +302,11 @@ std::vector<RateLimiterEvent> RateLimiter::StatsManager::GetEventHistory(
   const size_t max_event_id =
       active_.empty() ? next_event_id_
                       : *std::min_element(active_.begin(), active_.end());
-  if (max_event_id < min_event_id + 1) {
+  if (max_event_id <= min_event_id) {
     return {};
   }
 
-  std::vector<RateLimiterEvent> copy(max_event_id - min_event_id - 1);
+  std::vector<RateLimiterEvent> copy(max_event_id - min_event_id);
   for (size_t i = 0; i < copy.size(); i++) {
     copy[i] = events_[(min_event_id + i) % events_.size()];
   }
-- 
2.43.0


From 3ed43fb0c40f4e8c0ef10cf76d97a82bee602a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:19 +0000
Subject: [PATCH 03/46] fix: sample uniformly when all priorities are zero
 despite rounding residue in the sum tree

---
 reverb/cc/selectors/prioritized.cc | 8 ++++++--
 reverb/cc/selectors/prioritized.h  | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/reverb/cc/selectors/prioritized.cc b/reverb/cc/selectors/prioritized.cc
index 6710e96..b9d57f2 100644
--- a/reverb/cc/selectors/prioritized.cc
+++ b/reverb/cc/selectors/prioritized.cc
@@ -112,8 +112,9 @@ ItemSelector::KeyWithProbability PrioritizedSelector::Sample() {
   const double target = absl::Uniform<double>(bit_gen_, 0, 1);
   const double total_weight = sum_tree_[0].sum;
 
-  // All keys have zero priority so treat as if uniformly sampling.
-  if (total_weight == 0) {
+  // All keys have zero priority so treat as if uniformly sampling. The sums
+  // may still hold a residue of earlier priorities because of rounding errors.
+  if (num_positive_ == 0 || total_weight == 0) {
     const size_t pos = static_cast<size_t>(target * size);
     return {sum_tree_[pos].key, 1. / size};
   }
@@ -156,6 +157,7 @@ void PrioritizedSelector::Clear() {
     sum_tree_[i].value = 0;
   }
   key_to_index_.clear();
+  num_positive_ = 0;
 }
 
 KeyDistributionOptions PrioritizedSelector::options() const {
@@ -194,6 +196,8 @@ double PrioritizedSelector::NodeSumTestingOnly(size_t index) const {
 
 void PrioritizedSelector::SetNode(size_t index, double value) {
   const double difference = value - NodeValue(index);
+  if (NodeValue(index) > 0) --num_positive_;
+  if (value > 0) ++num_positive_;
 
   // The floating point approximation error of the last node update.
   double error = 0.0;
diff --git a/reverb/cc/selectors/prioritized.h b/reverb/cc/selectors/prioritized.h
index ab3ed2d..0fc8641 100644
--- a/reverb/cc/selectors/prioritized.h
+++ b/reverb/cc/selectors/prioritized.h
@@ -114,6 +114,9 @@ class PrioritizedSelector : public ItemSelector {
   // plus its own exponentiated priority.
   std::vector<Node> sum_tree_;
 
+  // Number of keys with a positive exponentiated priority.
+  int64_t num_positive_ = 0;
+
   // Maps a key to the index where this key can be found in `sum_tree_`.
   internal::flat_hash_map<Key, size_t> key_to_index_;
 
-- 
2.43.0


From e16ea696657abf51adcf4d5e4607d45d46872639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 04/46] fix: pass on a rate limiter signal that an expiring
 wait may have consumed

---
 reverb/cc/rate_limiter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reverb/cc/rate_limiter.cc b/reverb/cc/rate_limiter.cc
index 3d5b7e1..bed8b5b 100644
--- a/reverb/cc/rate_limiter.cc
+++ b/reverb/cc/rate_limiter.cc
@@ -101,6 +101,8 @@ absl::Status RateLimiter::AwaitCanInsert(absl::Mutex* mu,
     while (!cancelled_ && !CanInsert(mu, 1)) {
       event.set_was_blocked();
       if (can_insert_cv_.WaitWithDeadline(mu, deadline)) {
+        // The expired wait may have consumed a signal; pass it on.
+        MaybeSignalCondVars(mu);
         return errors::RateLimiterTimeout();
       }
     }
@@ -135,6 +137,8 @@ absl::Status RateLimiter::AwaitAndFinalizeSample(absl::Mutex* mu,
     while (!cancelled_ && !CanSample(mu, 1)) {
       event.set_was_blocked();
       if (can_sample_cv_.WaitWithDeadline(mu, deadline)) {
+        // The expired wait may have consumed a signal; pass it on.
+        MaybeSignalCondVars(mu);
         return errors::RateLimiterTimeout();
       }
     }
-- 
2.43.0


From e454a70ac717fb6beab697527b4181a3a4b2f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:03 +0000
Subject: [PATCH 05/46] fix: never wait for the extension worker in the middle
 of a table operation

Waiting for place in the extension buffer released the table's lock while an
operation was half done and iterators into the table were in use. Wait before
an operation starts instead, wake up all waiters (not just one), and stop the
extension worker only after the table worker, with a flag protected by the
lock that the extension worker sleeps on.
---
 reverb/cc/table.cc | 39 ++++++++++++++++++++++++++-------------
 reverb/cc/table.h  | 10 ++++++++++
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index 89ccc23..8204fc1 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -162,13 +162,14 @@ Table::~Table() {
     stop_worker_ = true;
     wakeup_worker_.Signal();
   }
+  // Join the worker thread. The extension worker is still running at this point
+  // so the table worker cannot get stuck waiting for it.
+  table_worker_ = nullptr;
   {
     absl::MutexLock lock(&mu_);
-    extension_buffer_available_cv_.SignalAll();
+    stop_extension_worker_ = true;
     extension_work_available_cv_.SignalAll();
   }
-  // Join the worker thread
-  table_worker_ = nullptr;
   // Join the extension worker thread.
   extension_worker_ = nullptr;
   rate_limiter_->UnregisterTable(&mu_, this);
@@ -233,6 +234,7 @@ absl::Status Table::TableWorkerLoop() {
       int64_t prev_progress = progress - 1;
       while (prev_progress < progress) {
         prev_progress = progress;
+        AwaitExtensionBuffer();
         // Try processing an insert request.
         if (insert_idx < current_inserts.size() &&
             rate_limiter_->CanInsert(&mu_, 1)) {
@@ -249,6 +251,7 @@ absl::Status Table::TableWorkerLoop() {
         // Try processing a sample request.
         if (sample_idx < current_sampling.size()) {
           auto& request = current_sampling[sample_idx];
+          AwaitExtensionBuffer();
           while (rate_limiter_->MaybeCommitSample(&mu_)) {
             progress++;
             request->samples.emplace_back();
@@ -262,6 +265,7 @@ absl::Status Table::TableWorkerLoop() {
               sample_idx++;
               break;
             }
+            AwaitExtensionBuffer();
           }
         }
       }
@@ -356,9 +360,6 @@ absl::Status Table::ExtensionsWorkerLoop() {
   while (true) {
     {
       absl::MutexLock lock(&worker_mu_);
-      if (stop_worker_) {
-        return absl::OkStatus();
-      }
       if (deleted_items_.empty() && !deleted_items.empty()) {
         // Deleted items are freed by the clients to spread the load.
         // Previous deletion batch has been processed, give clients a new batch.
@@ -369,6 +370,11 @@ absl::Status Table::ExtensionsWorkerLoop() {
       absl::MutexLock lock(&mu_);
       REVERB_CHECK(extension_requests.empty());
       if (extension_requests_.empty()) {
+        // The flag has to be checked while holding the same lock as is used for
+        // waiting, otherwise the wakeup from the destructor could be missed.
+        if (stop_extension_worker_) {
+          return absl::OkStatus();
+        }
         // No more work to do, go to sleep.
         extension_worker_sleeps_ = true;
         extension_work_available_cv_.Wait(&mu_);
@@ -376,9 +382,9 @@ absl::Status Table::ExtensionsWorkerLoop() {
       }
       std::swap(extension_requests_, extension_requests);
       if (extension_requests.size() >= max_enqueued_extension_ops_) {
-        // Table worker may be blocked, let know there is place to add more
-        // extension requests now.
-        extension_buffer_available_cv_.Signal();
+        // Table worker and clients may be blocked, let all of them know there
+        // is place to add more extension requests now.
+        extension_buffer_available_cv_.SignalAll();
       }
     }
     {
@@ -614,6 +620,7 @@ absl::Status Table::MutateItems(absl::Span<const KeyWithPriority> updates,
   std::vector<std::shared_ptr<Item>> deleted_items(deletes.size());
   {
     absl::MutexLock lock(&mu_);
+    AwaitExtensionBuffer();
     for (int i = 0; i < deletes.size(); i++) {
       REVERB_RETURN_IF_ERROR(DeleteItem(deletes[i], &deleted_items[i]));
     }
@@ -893,10 +900,6 @@ void Table::ExtensionOperation(ExtensionRequest::CallType type,
     // otherwise no need to enqueue the operation.
     return;
   }
-  while (extension_requests_.size() >= max_enqueued_extension_ops_) {
-    // TODO(stanczyk): Track time spent waiting here.
-    extension_buffer_available_cv_.Wait(&mu_);
-  }
   ExtensionItem e_item(item);
   ExtensionRequest request{type, e_item};
   extension_requests_.push_back(request);
@@ -905,6 +908,16 @@ void Table::ExtensionOperation(ExtensionRequest::CallType type,
   }
 }
 
+void Table::AwaitExtensionBuffer() {
+  if (!extension_worker_) {
+    return;
+  }
+  while (extension_requests_.size() >= max_enqueued_extension_ops_) {
+    // TODO(stanczyk): Track time spent waiting here.
+    extension_buffer_available_cv_.Wait(&mu_);
+  }
+}
+
 absl::Status Table::UpdateItem(Key key, double priority) {
   auto it = data_.find(key);
   if (it == data_.end()) {
diff --git a/reverb/cc/table.h b/reverb/cc/table.h
index 4c27e75..86c8763 100644
--- a/reverb/cc/table.h
+++ b/reverb/cc/table.h
@@ -419,6 +419,12 @@ class Table {
                           const std::shared_ptr<Item>& item)
       ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
 
+  // Blocks until there is place for more extension requests. `mu_` is released
+  // while waiting so this must be called before a table operation is started,
+  // never in the middle of it. A single operation is allowed to exceed the size
+  // of the buffer with the requests it makes.
+  void AwaitExtensionBuffer() ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
+
   // Extensions worker execution loop. It is executed by a dedicated thread
   // and it performs enqueued extension operations. Operations are executed in
   // the order enqueued, but they run without holding table's lock.
@@ -531,6 +537,10 @@ class Table {
   absl::CondVar extension_buffer_available_cv_ ABSL_GUARDED_BY(mu_);
   bool extension_worker_sleeps_ ABSL_GUARDED_BY(mu_) = true;
 
+  // Should extension worker terminate once it has no more work to do. Set to
+  // true upon table termination, after the table worker was stopped.
+  bool stop_extension_worker_ ABSL_GUARDED_BY(mu_) = false;
+
   // Extensions implement hooks that are executed as part of insert, delete,
   // update or reset operations. There are two types of extensions supported:
   //   - synchronous, which run while holding table's `mu_` mutex.
-- 
2.43.0


From 27d0dd7579f9fb5df210c3fc002568e8c72b164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:03 +0000
Subject: [PATCH 06/46] fix: deliver the samples of a partially filled request
 that expires in the table worker

---
 reverb/cc/table.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index 8204fc1..ab520f2 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -341,7 +341,11 @@ absl::Status Table::TableWorkerLoop() {
     }
     // Notify sample requests which exceeded deadline.
     for (auto& sample : to_terminate) {
-      FinalizeSampleRequest(std::move(sample), sampling_status);
+      // Samples which the request already received have been committed to the
+      // table (and the rate limiter), so they must reach the caller.
+      auto status = sample->samples.empty() ? sampling_status
+                                            : absl::OkStatus();
+      FinalizeSampleRequest(std::move(sample), std::move(status));
     }
     to_terminate.clear();
   }
-- 
2.43.0


From ab2f0f850a9f0b4b954bc553abfcfa6a8a95c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:03 +0000
Subject: [PATCH 07/46] fix: wake up the table worker for mutations and resets
 made just before it goes to sleep

---
 reverb/cc/table.cc | 10 +++++++---
 reverb/cc/table.h  |  5 +++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index ab520f2..da77063 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -295,10 +295,12 @@ absl::Status Table::TableWorkerLoop() {
         // rate limiter until the worker is put to sleep again.
         rate_limited = false;
       }
-      if (progress != last_progress) {
-        // There was progress executing insert/sample requests,
-        // so continue without handling timeouts.
+      if (progress != last_progress || table_changed_) {
+        // There was progress executing insert/sample requests (or the table was
+        // changed so that progress might be possible now), so continue without
+        // handling timeouts.
         last_progress = progress;
+        table_changed_ = false;
         continue;
       }
       auto deadline = absl::Now();
@@ -636,6 +638,7 @@ absl::Status Table::MutateItems(absl::Span<const KeyWithPriority> updates,
   // explicitly.
   if (table_worker_) {
     absl::MutexLock lock(&worker_mu_);
+    table_changed_ = true;
     if (worker_state_ != TableWorkerState::kRunning) {
       wakeup_worker_.Signal();
     }
@@ -971,6 +974,7 @@ absl::Status Table::Reset() {
     deleted_items_.clear();
     // Wakeup worker in case it has pending inserts which couldn't make progress
     // before.
+    table_changed_ = true;
     wakeup_worker_.Signal();
   }
   return absl::OkStatus();
diff --git a/reverb/cc/table.h b/reverb/cc/table.h
index 86c8763..a82aaf3 100644
--- a/reverb/cc/table.h
+++ b/reverb/cc/table.h
@@ -514,6 +514,11 @@ class Table {
   // worker.
   bool stop_worker_ ABSL_GUARDED_BY(worker_mu_) = false;
 
+  // Set when the table was changed by someone else than the worker, who may
+  // have already found out that the operations it is about to process are
+  // blocked. Makes worker check again before it goes to sleep.
+  bool table_changed_ ABSL_GUARDED_BY(worker_mu_) = false;
+
   // Used for waking up a table worker when asleep.
   absl::CondVar wakeup_worker_ ABSL_GUARDED_BY(worker_mu_);
 
-- 
2.43.0


From ce19dfb740632141fb45def34922103471f3f6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:01 +0000
Subject: [PATCH 08/46] fix: refuse an item whose priority a selector does not
 accept before changing the table

The error of the selector was returned in the middle of the operation, which
left table and selectors inconsistent, and ended the table worker.
---
 reverb/cc/selectors/interface.h    |  7 +++++++
 reverb/cc/selectors/prioritized.cc |  4 ++++
 reverb/cc/selectors/prioritized.h  |  3 +++
 reverb/cc/table.cc                 | 15 +++++++++++++++
 reverb/cc/table.h                  |  4 ++++
 5 files changed, 33 insertions(+)

diff --git a/reverb/cc/selectors/interface.h b/reverb/cc/selectors/interface.h
index 895cc3c..854e931 100644
--- a/reverb/cc/selectors/interface.h
+++ b/reverb/cc/selectors/interface.h
@@ -43,6 +43,13 @@ class ItemSelector {
   // not exist.
   virtual absl::Status Delete(Key key) = 0;
 
+  // Returns an error if the selector does not accept items with this priority.
+  // Has to give the same answer for a priority at all times and may be called
+  // concurrently with all other methods.
+  virtual absl::Status CheckPriority(double priority) const {
+    return absl::OkStatus();
+  }
+
   // Inserts a key and associated priority. Returns an error without any change
   // if the key already exists.
   virtual absl::Status Insert(Key key, double priority) = 0;
diff --git a/reverb/cc/selectors/prioritized.cc b/reverb/cc/selectors/prioritized.cc
index b9d57f2..041000a 100644
--- a/reverb/cc/selectors/prioritized.cc
+++ b/reverb/cc/selectors/prioritized.cc
@@ -77,6 +77,10 @@ absl::Status PrioritizedSelector::Delete(Key key) {
   return absl::OkStatus();
 }
 
+absl::Status PrioritizedSelector::CheckPriority(double priority) const {
+  return CheckValidPriority(priority);
+}
+
 absl::Status PrioritizedSelector::Insert(Key key, double priority) {
   REVERB_RETURN_IF_ERROR(CheckValidPriority(priority));
   const size_t index = key_to_index_.size();
diff --git a/reverb/cc/selectors/prioritized.h b/reverb/cc/selectors/prioritized.h
index 0fc8641..535043e 100644
--- a/reverb/cc/selectors/prioritized.h
+++ b/reverb/cc/selectors/prioritized.h
@@ -47,6 +47,9 @@ class PrioritizedSelector : public ItemSelector {
   // O(log n) time.
   absl::Status Delete(Key key) override;
 
+  // The priority must be non-negative.
+  absl::Status CheckPriority(double priority) const override;
+
   // The priority must be non-negative. O(log n) time.
   absl::Status Insert(Key key, double priority) override;
 
diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index da77063..e663dbe 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -471,6 +471,7 @@ std::vector<Table::Item> Table::Copy(size_t count) const {
 
 absl::Status Table::InsertOrAssign(Item item, absl::Duration timeout) {
   REVERB_RETURN_IF_ERROR(CheckItemValidity(item));
+  REVERB_RETURN_IF_ERROR(CheckPriority(item.item.priority()));
   if (table_worker_) {
     // This code path is here mainly to allow running existing tests with the
     // table that has a table worker. To be removed together with this entire
@@ -558,6 +559,7 @@ absl::Status Table::InsertOrAssignAsync(
     std::weak_ptr<std::function<void(const absl::Status&)>>
         insert_more_callback) {
   REVERB_RETURN_IF_ERROR(CheckItemValidity(item));
+  REVERB_RETURN_IF_ERROR(CheckPriority(item.item.priority()));
   auto item_ptr = std::make_shared<Item>(std::move(item));
   // Table worker doesn't release memory of removed items, clients do that
   // asynchrously.
@@ -624,6 +626,10 @@ absl::Status Table::InsertOrAssignInternal(std::shared_ptr<Item> item) {
 absl::Status Table::MutateItems(absl::Span<const KeyWithPriority> updates,
                                 absl::Span<const Key> deletes) {
   std::vector<std::shared_ptr<Item>> deleted_items(deletes.size());
+  // Nothing is changed if any of the updates is not acceptable.
+  for (const auto& item : updates) {
+    REVERB_RETURN_IF_ERROR(CheckPriority(item.priority()));
+  }
   {
     absl::MutexLock lock(&mu_);
     AwaitExtensionBuffer();
@@ -925,11 +931,19 @@ void Table::AwaitExtensionBuffer() {
   }
 }
 
+absl::Status Table::CheckPriority(double priority) const
+    ABSL_NO_THREAD_SAFETY_ANALYSIS {
+  // The pointers never change and neither does the outcome of the calls.
+  REVERB_RETURN_IF_ERROR(sampler_->CheckPriority(priority));
+  return remover_->CheckPriority(priority);
+}
+
 absl::Status Table::UpdateItem(Key key, double priority) {
   auto it = data_.find(key);
   if (it == data_.end()) {
     return absl::OkStatus();
   }
+  REVERB_RETURN_IF_ERROR(CheckPriority(priority));
   it->second->item.set_priority(priority);
   REVERB_RETURN_IF_ERROR(sampler_->Update(key, priority));
   REVERB_RETURN_IF_ERROR(remover_->Update(key, priority));
@@ -1018,6 +1032,7 @@ Table::CheckpointAndChunks Table::Checkpoint() {
 }
 
 absl::Status Table::InsertCheckpointItem(Table::Item item) {
+  REVERB_RETURN_IF_ERROR(CheckPriority(item.item.priority()));
   absl::MutexLock lock(&mu_);
   REVERB_CHECK_LE(data_.size() + 1, max_size_)
       << "InsertCheckpointItem called on already full Table";
diff --git a/reverb/cc/table.h b/reverb/cc/table.h
index a82aaf3..6685f90 100644
--- a/reverb/cc/table.h
+++ b/reverb/cc/table.h
@@ -383,6 +383,10 @@ class Table {
   // and performs enqueued table operations (inserts, mutations, sampling...).
   absl::Status TableWorkerLoop();
 
+  // Returns an error if `sampler_` or `remover_` does not accept items with this
+  // priority. Such a priority must not reach them in the middle of an operation.
+  absl::Status CheckPriority(double priority) const;
+
   // Updates item priority in `data_`, `samper_`, `remover_` and calls
   // `OnUpdate` on all extensions.
   absl::Status UpdateItem(Key key, double priority)
-- 
2.43.0


From 54f9e052a8d72bb44fc69707181b1d1cec3acfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:51 +0000
Subject: [PATCH 09/46] fix: keep a chunk which was inserted again before the
 cleaner removed its key

---
 reverb/cc/chunk_store.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/chunk_store.cc b/reverb/cc/chunk_store.cc
index 96f10cb..26dedf7 100644
--- a/reverb/cc/chunk_store.cc
+++ b/reverb/cc/chunk_store.cc
@@ -123,7 +123,12 @@ bool ChunkStore::CleanupInternal(int num_chunks) {
 
   absl::WriterMutexLock data_lock(&mu_);
   for (const Key& key : popped_keys) {
-    data_.erase(key);
+    // A new chunk may have been inserted with the same key since the previous
+    // one was deleted.
+    auto it = data_.find(key);
+    if (it != data_.end() && it->second.expired()) {
+      data_.erase(it);
+    }
   }
 
   return true;
-- 
2.43.0


From 3747ceea97ef3d8129c42bed72d3be24383f3a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:51 +0000
Subject: [PATCH 10/46] fix: let PopBatch return a batch which is available
 after the last item was pushed

---
 reverb/cc/support/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reverb/cc/support/queue.h b/reverb/cc/support/queue.h
index 2858ed6..19c99f1 100644
--- a/reverb/cc/support/queue.h
+++ b/reverb/cc/support/queue.h
@@ -116,7 +116,7 @@ class Queue {
       return absl::CancelledError("Queue is closed.");
     }
 
-    if (last_item_pushed_) {
+    if (last_item_pushed_ && pushes_ - pops_ < batch_size) {
       return absl::ResourceExhaustedError(absl::StrCat(
           "The last item have been pushed to the queue and the current size (",
           pushes_ - pops_, ") is less than the batch size (", batch_size, ").")
-- 
2.43.0


From e49be5731a9ddb4b52bfe8061fd12ec677631af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:37 +0000
Subject: [PATCH 11/46] Size the event history and the chunk store's cleaner
 queue for simulation builds

---
 reverb/cc/chunk_store.cc | 12 +++++++++++-
 reverb/cc/rate_limiter.h |  4 ++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/reverb/cc/chunk_store.cc b/reverb/cc/chunk_store.cc
index 26dedf7..a2c67ad 100644
--- a/reverb/cc/chunk_store.cc
+++ b/reverb/cc/chunk_store.cc
@@ -35,6 +35,16 @@
 
 namespace deepmind {
 namespace reverb {
+namespace {
+
+// Maximum number of deleted keys waiting for the cleaner.
+#ifdef REVERB_SIMULATION
+constexpr int kDeleteQueueSize = 4096;
+#else
+constexpr int kDeleteQueueSize = 10000000;
+#endif
+
+}  // namespace
 
 ChunkStore::Chunk::Chunk(ChunkData data) : data_(std::move(data)) {}
 
@@ -65,7 +75,7 @@ int ChunkStore::Chunk::num_columns() const {
 }
 
 ChunkStore::ChunkStore(int cleanup_batch_size)
-    : delete_keys_(std::make_shared<internal::Queue<Key>>(10000000)),
+    : delete_keys_(std::make_shared<internal::Queue<Key>>(kDeleteQueueSize)),
       cleaner_(internal::StartThread(
           "ChunkStore-Cleaner", [this, cleanup_batch_size] {
             while (CleanupInternal(cleanup_batch_size)) {
diff --git a/reverb/cc/rate_limiter.h b/reverb/cc/rate_limiter.h
index 77da7e0..9974e62 100644
--- a/reverb/cc/rate_limiter.h
+++ b/reverb/cc/rate_limiter.h
@@ -35,9 +35,9 @@ class Table;
 constexpr absl::Duration kDefaultTimeout = absl::InfiniteDuration();
 
 // Maximum number of events in the ciruclar buffer owned by the StatsManager.
-#ifdef REVERB_SIM_EVENT_HISTORY_SIZE
+#ifdef REVERB_SIMULATION
 // Simulation builds create many tables and want to see the buffer wrap around.
-constexpr size_t kEventHistoryBufferSize = REVERB_SIM_EVENT_HISTORY_SIZE;
+constexpr size_t kEventHistoryBufferSize = 4096;
 #else
 constexpr size_t kEventHistoryBufferSize = 1000000;
 #endif
-- 
2.43.0


From 76a952c9913e2f7df474ddeff9eb4c133afa423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:30 +0000
Subject: [PATCH 12/46] fix: refuse trajectory columns without any reference

Validate read the first reference of an empty column.
---
 reverb/cc/trajectory_writer.cc | 4 ++++
 reverb/cc/trajectory_writer.h  | 1 +
 2 files changed, 5 insertions(+)

diff --git a/reverb/cc/trajectory_writer.cc b/reverb/cc/trajectory_writer.cc
index d60bf52..4391c24 100644
--- a/reverb/cc/trajectory_writer.cc
+++ b/reverb/cc/trajectory_writer.cc
@@ -677,6 +677,10 @@ absl::Status TrajectoryColumn::Validate() const {
                      locked_refs.size(), "."));
   }
 
+  if (locked_refs.empty()) {
+    return absl::InvalidArgumentError("Column must not be empty.");
+  }
+
   // Check that the column only contains compatible data references.
   const internal::TensorSpec& col_spec =
       locked_refs[0]->chunker().lock()->spec();
diff --git a/reverb/cc/trajectory_writer.h b/reverb/cc/trajectory_writer.h
index f165286..3b42eba 100644
--- a/reverb/cc/trajectory_writer.h
+++ b/reverb/cc/trajectory_writer.h
@@ -321,6 +321,7 @@ class TrajectoryColumn {
   // Checks that the column is valid, if not returns `InvalidArgumentError`.
   //
   // A `TrajectoryColumns` is valid iff:
+  //  * It contains at least one `CellRef`.
   //  * None of the `CellRef`s have expired.
   //  * All of the `CellRef`s have the same spec.
   //  * Columns has exactly one row if `squeeze` is true.
-- 
2.43.0


From c7b4de6f63fcd2f6b8c04b40a57a66ddcc82cc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:04 +0000
Subject: [PATCH 13/46] fix: merge only adjacent cell references into one chunk
 slice

References to one chunk that were not consecutive (strided, reversed or
repeated) were merged into a consecutive slice with other data.
---
 reverb/cc/trajectory_writer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/trajectory_writer.cc b/reverb/cc/trajectory_writer.cc
index 4391c24..c0282e5 100644
--- a/reverb/cc/trajectory_writer.cc
+++ b/reverb/cc/trajectory_writer.cc
@@ -52,7 +52,8 @@ std::vector<FlatTrajectory::ChunkSlice> MergeAdjacent(
     std::shared_ptr<CellRef> ref_sp = ref.lock();
     REVERB_CHECK(ref_sp);
 
-    if (slices.empty() || slices.back().chunk_key() != ref_sp->chunk_key()) {
+    if (slices.empty() || slices.back().chunk_key() != ref_sp->chunk_key() ||
+        slices.back().offset() + slices.back().length() != ref_sp->offset()) {
       FlatTrajectory::ChunkSlice slice;
       slice.set_chunk_key(ref_sp->chunk_key());
       slice.set_offset(ref_sp->offset());
-- 
2.43.0


From f05060e1cdd83869334909badf1d2f2d9069c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:39 +0000
Subject: [PATCH 14/46] fix: report a failed insertion although the client is
 silent

The synchronous insert stream joined its read-ahead thread before it could
return the status, and that thread was waiting for the client's next request.
---
 reverb/cc/reverb_service_impl.cc | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/reverb/cc/reverb_service_impl.cc b/reverb/cc/reverb_service_impl.cc
index 148946f..4ca1dbb 100644
--- a/reverb/cc/reverb_service_impl.cc
+++ b/reverb/cc/reverb_service_impl.cc
@@ -30,13 +30,11 @@
 #include "reverb/cc/platform/hash_set.h"
 #include "reverb/cc/platform/logging.h"
 #include "reverb/cc/platform/status_macros.h"
-#include "reverb/cc/platform/thread.h"
 #include "reverb/cc/reverb_service.grpc.pb.h"
 #include "reverb/cc/reverb_service.pb.h"
 #include "reverb/cc/sampler.h"
 #include "reverb/cc/support/cleanup.h"
 #include "reverb/cc/support/grpc_util.h"
-#include "reverb/cc/support/queue.h"
 #include "reverb/cc/support/trajectory_util.h"
 #include "reverb/cc/support/uint128.h"
 
@@ -151,22 +149,14 @@ grpc::Status ReverbServiceImpl::InsertStreamInternal(
     grpc::ServerContext* context,
     grpc::ServerReaderWriterInterface<InsertStreamResponse,
                                       InsertStreamRequest>* stream) {
-  // Start a background thread that unpacks the data ahead of time.
-  deepmind::reverb::internal::Queue<InsertStreamRequest> queue(1);
-  auto read_thread = internal::StartThread("ReadThread", [stream, &queue]() {
-    InsertStreamRequest request;
-    while (stream->Read(&request) && queue.Push(std::move(request))) {
-      request = InsertStreamRequest();
-    }
-    queue.SetLastItemPushed();
-  });
-  auto cleanup = internal::MakeCleanup([&queue] { queue.Close(); });
-
   internal::flat_hash_map<ChunkStore::Key, std::shared_ptr<ChunkStore::Chunk>>
       chunks;
 
+  // The requests are read by this thread, and not ahead of time by another one,
+  // as the status of a failed insertion can't be sent before all reads have
+  // returned, and the client may not send anything else until it gets it.
   InsertStreamRequest request;
-  while (queue.Pop(&request)) {
+  while (stream->Read(&request)) {
     for (auto& chunk : *request.mutable_chunks()) {
       ChunkStore::Key key = chunk.chunk_key();
       std::shared_ptr<ChunkStore::Chunk> chunk_sp =
-- 
2.43.0


From 4329ef5850d0badadd71f73717665c1d75df1a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 15/46] fix: keep the chunker options alive while an item is
 finalized

---
 reverb/cc/chunker.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/chunker.cc b/reverb/cc/chunker.cc
index e1b15ed..66ddb8a 100644
--- a/reverb/cc/chunker.cc
+++ b/reverb/cc/chunker.cc
@@ -337,7 +337,13 @@ void Chunker::OnItemFinalized(const PrioritizedItem& item,
     }
   }
   if (!child_refs.empty()) {
-    options_->OnItemFinalized(item, child_refs);
+    // `ApplyConfig` may replace (and destroy) the options at any time.
+    std::shared_ptr<ChunkerOptions> options;
+    {
+      absl::MutexLock lock(&mu_);
+      options = options_;
+    }
+    options->OnItemFinalized(item, child_refs);
   }
 }
 
-- 
2.43.0


From 2abf671d3652cd79c7fe746ad1b150a3c830c659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 16/46] fix: write unconfirmed items again after a broken
 stream

---
 reverb/cc/trajectory_writer.cc | 58 +++++++++++++++++++++++-----------
 reverb/cc/trajectory_writer.h  | 17 ++++++----
 2 files changed, 51 insertions(+), 24 deletions(-)

diff --git a/reverb/cc/trajectory_writer.cc b/reverb/cc/trajectory_writer.cc
index c0282e5..b757b51 100644
--- a/reverb/cc/trajectory_writer.cc
+++ b/reverb/cc/trajectory_writer.cc
@@ -165,6 +165,14 @@ TrajectoryWriter::TrajectoryWriter(
                 unrecoverable_status_ = status;
                 return;
               }
+
+              // The stream ended before these items were confirmed so they
+              // have to be written again.
+              write_queue_.insert(
+                  write_queue_.begin(),
+                  std::make_move_iterator(in_flight_items_.begin()),
+                  std::make_move_iterator(in_flight_items_.end()));
+              in_flight_items_.clear();
             }
           })) {
   REVERB_CHECK_OK(options.Validate());
@@ -417,21 +425,30 @@ absl::Status TrajectoryWriter::SetContextAndCreateStream(
 }
 
 bool TrajectoryWriter::GetNextPendingItem(
+    const bool& stream_ended,
     TrajectoryWriter::ItemAndRefs* item_and_refs) const {
   absl::MutexLock lock(&mu_);
-  mu_.Await(absl::Condition(
-      +[](const TrajectoryWriter* w) ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
-        return !w->write_queue_.empty() || w->closed_;
-      },
-      this));
+  auto cond = [&stream_ended, this]()
+                  ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) -> bool {
+    return !write_queue_.empty() || closed_ ||
+           (stream_ended && !in_flight_items_.empty());
+  };
+  mu_.Await(absl::Condition(&cond));
 
-  if (closed_) return false;
+  if (closed_ || (stream_ended && !in_flight_items_.empty())) return false;
 
   *item_and_refs = write_queue_.front();
 
   return true;
 }
 
+void TrajectoryWriter::RemoveInFlightItem(uint64_t key) {
+  auto it = absl::c_find_if(
+      in_flight_items_,
+      [key](const ItemAndRefs& item) { return item.item.key() == key; });
+  if (it != in_flight_items_.end()) in_flight_items_.erase(it);
+}
+
 bool TrajectoryWriter::SendItem(
     TrajectoryWriter::InsertStream* stream,
     const internal::flat_hash_set<uint64_t>& keep_keys,
@@ -478,15 +495,21 @@ absl::Status TrajectoryWriter::RunStreamWorker() {
   std::unique_ptr<InsertStream> stream;
   REVERB_RETURN_IF_ERROR(SetContextAndCreateStream(&stream));
 
+  // Set (while holding `mu_`) once no more confirmations will be received.
+  bool stream_ended = false;
+
   std::unique_ptr<internal::Thread> reader =
       internal::StartThread("TrajectoryWriter_ReaderWorker", [&] {
         InsertStreamResponse response;
         while (stream->Read(&response)) {
           absl::MutexLock lock(&mu_);
           for (uint64_t key : response.keys()) {
-            in_flight_items_.erase(key);
+            RemoveInFlightItem(key);
           }
         }
+        absl::MutexLock lock(&mu_);
+        stream_ended = true;
+        data_cv_.Signal();
       });
 
   internal::flat_hash_set<uint64_t> streamed_chunk_keys;
@@ -494,7 +517,7 @@ absl::Status TrajectoryWriter::RunStreamWorker() {
   while (true) {
     ItemAndRefs item_and_refs;
 
-    if (!GetNextPendingItem(&item_and_refs)) {
+    if (!GetNextPendingItem(stream_ended, &item_and_refs)) {
       return FromGrpcStatus(stream->Finish());
     }
 
@@ -515,13 +538,14 @@ absl::Status TrajectoryWriter::RunStreamWorker() {
         // last held. If the item still references incomplete chunks then we
         // sleep until the chunks changed. If all the chunks are now completed
         // then we move straight to the top of the loop.
-        if (!AllReady(item_and_refs.refs)) {
+        if (!AllReady(item_and_refs.refs) &&
+            !(stream_ended && !in_flight_items_.empty())) {
           data_cv_.Wait(&mu_);
         }
         continue;
       }
 
-      in_flight_items_.insert(item_and_refs.item.key());
+      in_flight_items_.push_back(item_and_refs);
 
       // Remove keys of expired chunks from streamed_chunk_keys to avoid OOM
       // issues caused by the otherwise indefinitely growing hash set.
@@ -538,19 +562,16 @@ absl::Status TrajectoryWriter::RunStreamWorker() {
                   &request)) {
       {
         absl::WriterMutexLock lock(&mu_);
-        in_flight_items_.erase(item_and_refs.item.key());
+        RemoveInFlightItem(item_and_refs.item.key());
       }
       return FromGrpcStatus(stream->Finish());
     }
     request.Clear();
 
-    // Item has been sent so we can now pop it from the queue. Note that by
-    // deallocating the ItemAndRefs object we are allowing the underlying
-    // ChunkData to be deallocated.
+    // Item has been sent so we can now pop it from the queue. The item and its
+    // references are kept in `in_flight_items_` until it has been confirmed.
     {
       absl::MutexLock lock(&mu_);
-      // TODO(b/178090185): Maybe keep the item and references around until the
-      // item has been confirmed by the server.
       write_queue_.pop_front();
     }
   }
@@ -600,8 +621,9 @@ absl::Status TrajectoryWriter::FlushLocked(int ignore_last_num_items,
     // release the mutex for a period in order to perform the actual write to
     // the gRPC stream. We check for this here to avoid double counting.
     int num_pending_items = write_queue_.size() + in_flight_items_.size();
-    if (!write_queue_.empty() &&
-        in_flight_items_.contains(write_queue_.front().item.key())) {
+    if (!write_queue_.empty() && !in_flight_items_.empty() &&
+        in_flight_items_.back().item.key() ==
+            write_queue_.front().item.key()) {
       num_pending_items--;
     }
 
diff --git a/reverb/cc/trajectory_writer.h b/reverb/cc/trajectory_writer.h
index 3b42eba..f99a733 100644
--- a/reverb/cc/trajectory_writer.h
+++ b/reverb/cc/trajectory_writer.h
@@ -230,11 +230,15 @@ class TrajectoryWriter {
       ABSL_LOCKS_EXCLUDED(mu_);
 
   // Blocks until `write_queue_` is non-empty then copies the front element into
-  // `item_and_refs`. If `Close` called before operation could complete, `false`
-  // is returned.
-  bool GetNextPendingItem(ItemAndRefs* item_and_refs) const
+  // `item_and_refs`. If `Close` called before operation could complete, or the
+  // stream ended with unconfirmed items, `false` is returned.
+  bool GetNextPendingItem(const bool& stream_ended,
+                          ItemAndRefs* item_and_refs) const
       ABSL_LOCKS_EXCLUDED(mu_);
 
+  // Removes the item from `in_flight_items_` (if present).
+  void RemoveInFlightItem(uint64_t key) ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
+
   // Build and write the item insertion request to the stream. All chunks
   // referenced by item must have been written to the stream before calling this
   // method.
@@ -294,9 +298,10 @@ class TrajectoryWriter {
   // Items waiting for `stream_worker_` to write it to the steam.
   std::deque<ItemAndRefs> write_queue_ ABSL_GUARDED_BY(mu_);
 
-  // Keys of items which have been written to the stream but for which no
-  // confirmation has yet been received from the server.
-  internal::flat_hash_set<uint64_t> in_flight_items_ ABSL_GUARDED_BY(mu_);
+  // Items which have been written to the stream, in the order they were
+  // written, but for which no confirmation has yet been received from the
+  // server. If the stream ends before that then they are written again.
+  std::deque<ItemAndRefs> in_flight_items_ ABSL_GUARDED_BY(mu_);
 
   // We signal when a chunk is flushed in case the stream worker backed off due
   // to the front item of `write_queue_` referencing incomplete chunks.
-- 
2.43.0


From 034997df7aec4338e975bee7f6e5e54959a6affc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 17/46] fix: guard the trajectory writer's chunkers against the
 stream worker

---
 reverb/cc/trajectory_writer.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/reverb/cc/trajectory_writer.cc b/reverb/cc/trajectory_writer.cc
index b757b51..e8601cb 100644
--- a/reverb/cc/trajectory_writer.cc
+++ b/reverb/cc/trajectory_writer.cc
@@ -228,10 +228,13 @@ absl::Status TrajectoryWriter::AppendInternal(
       const std::shared_ptr<ChunkerOptions>& chunker_options =
           options_override_.contains(i) ? options_override_[i]
                                         : options_.chunker_options;
-      chunkers_[i] = std::make_shared<Chunker>(
+      auto chunker = std::make_shared<Chunker>(
           internal::TensorSpec{std::to_string(i), tensor.dtype(),
                                tensor.shape()},
           chunker_options->Clone());
+      // The stream worker iterates over `chunkers_`.
+      absl::MutexLock lock(&mu_);
+      chunkers_[i] = std::move(chunker);
     }
   }
 
@@ -550,10 +553,10 @@ absl::Status TrajectoryWriter::RunStreamWorker() {
       // Remove keys of expired chunks from streamed_chunk_keys to avoid OOM
       // issues caused by the otherwise indefinitely growing hash set.
       streamed_chunk_keys = GetKeepKeys(streamed_chunk_keys);
-    }
 
-    for (auto& [_, chunker] : chunkers_) {
-      chunker->OnItemFinalized(item_and_refs.item, item_and_refs.refs);
+      for (auto& [_, chunker] : chunkers_) {
+        chunker->OnItemFinalized(item_and_refs.item, item_and_refs.refs);
+      }
     }
 
     // All chunks have been written to the stream so the item can now be
-- 
2.43.0


From 72b83d676766d70fe88ef47f68fd646aa24ef06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 18/46] fix: keep the insert reactor alive while its callback
 is executed

---
 reverb/cc/reverb_service_async_impl.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index 2915243..3a90899 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -169,6 +169,10 @@ ReverbServiceAsyncImpl::InsertStream(grpc::CallbackServerContext* context) {
     InsertStreamResponse payload;
   };
 
+  // How often to check whether callback execution finished before deleting
+  // reactor.
+  static constexpr absl::Duration kCallbackWaitTime = absl::Milliseconds(1);
+
   class WorkerlessInsertReactor : public ReverbServerTableReactor<
       InsertStreamRequest, InsertStreamResponse, InsertStreamResponseCtx> {
    public:
@@ -190,6 +194,17 @@ ReverbServiceAsyncImpl::InsertStream(grpc::CallbackServerContext* context) {
       MaybeStartRead();
     }
 
+    ~WorkerlessInsertReactor() {
+      // As callback references Reactor's memory make sure it can't be executed
+      // anymore.
+      std::weak_ptr<std::function<void(const absl::Status&)>> weak_ptr =
+          continue_inserts_;
+      continue_inserts_.reset();
+      while (weak_ptr.lock()) {
+        absl::SleepFor(kCallbackWaitTime);
+      }
+    }
+
     grpc::Status ProcessIncomingRequest(InsertStreamRequest* request) override
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
       REVERB_CHECK(!request->chunks().empty() || request->has_item());
-- 
2.43.0


From e6496175b1284e53f4a880de772c8e0e117622df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 19/46] fix: finish a cancelled stream which had no read in
 flight

---
 reverb/cc/reverb_server_table_reactor.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reverb/cc/reverb_server_table_reactor.h b/reverb/cc/reverb_server_table_reactor.h
index 84cc327..cfac9d8 100644
--- a/reverb/cc/reverb_server_table_reactor.h
+++ b/reverb/cc/reverb_server_table_reactor.h
@@ -71,6 +71,7 @@ class ReverbServerTableReactor
   void OnCancel() override;
 
   // Schedules another read if possible. Should be called after OnReadDone.
+  // Finishes the reactor if the client cancelled the stream in the meantime.
   void MaybeStartRead();
 
   // Finishes the reactor. It fails if any of the conditions to finish the
@@ -209,6 +210,9 @@ void ReverbServerTableReactor<Request, Response,
   absl::MutexLock lock(&mu_);
   if (still_reading_ && !is_cancelled_ && !is_finished_) {
     grpc::ServerBidiReactor<Request, Response>::StartRead(&request_);
+  } else if (ShouldFinish()) {
+    // The stream was cancelled while no read was in flight.
+    SetReactorAsFinished(grpc::Status::OK);
   }
 }
 
-- 
2.43.0


From c7befd9e1601a123d7ae625b50c0a750cd7c8136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 20/46] fix: wait for the confirmation of pending items in
 Writer::Flush

---
 reverb/cc/writer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reverb/cc/writer.cc b/reverb/cc/writer.cc
index a61580c..03fea33 100644
--- a/reverb/cc/writer.cc
+++ b/reverb/cc/writer.cc
@@ -280,7 +280,7 @@ absl::Status Writer::Flush() {
   }
 
   if (!pending_items_.empty()) {
-    return Finish(/*retry_on_unavailable=*/true);
+    REVERB_RETURN_IF_ERROR(Finish(/*retry_on_unavailable=*/true));
   }
   if (!ConfirmItems(0)) {
     return absl::InternalError(
-- 
2.43.0


From 463ab446205a6d93cf7cd6fcc2bdb1488fcd2a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 21/46] fix: send chunks only with the first of several pending
 items in Writer

---
 reverb/cc/writer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reverb/cc/writer.cc b/reverb/cc/writer.cc
index 03fea33..66e6105 100644
--- a/reverb/cc/writer.cc
+++ b/reverb/cc/writer.cc
@@ -532,6 +532,8 @@ bool Writer::WritePendingData() {
     for (const auto& chunk : request.r.chunks()) {
       streamed_chunk_keys_.insert(chunk.chunk_key());
     }
+    // The server holds the chunks now so the next item must not send them again.
+    request.Clear();
     pending_items_.pop_front();
     if (request.r.item().send_confirmation()) {
       absl::MutexLock lock(&mu_);
-- 
2.43.0


From 366e1099dab52377af4f01d4beafdc9c86be3c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 22/46] fix: count the timesteps of partial chunks in Writer

---
 reverb/cc/writer.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/reverb/cc/writer.cc b/reverb/cc/writer.cc
index 66e6105..82a7470 100644
--- a/reverb/cc/writer.cc
+++ b/reverb/cc/writer.cc
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 #include <iterator>
+#include <list>
 #include <string>
 #include <utility>
 #include <vector>
@@ -55,6 +56,18 @@ int PositiveModulo(int value, int divisor) {
   }
 }
 
+int ChunkLength(const ChunkData& chunk) {
+  return chunk.sequence_range().end() - chunk.sequence_range().start() + 1;
+}
+
+// Number of timesteps in `chunks`. Chunks created by `Flush` can be shorter
+// than the chunk length of the writer.
+int NumTimesteps(const std::list<ChunkData>& chunks) {
+  int num_timesteps = 0;
+  for (const auto& chunk : chunks) num_timesteps += ChunkLength(chunk);
+  return num_timesteps;
+}
+
 }  // namespace
 
 Writer::Writer(std::shared_ptr</* grpc_gen:: */ReverbService::StubInterface> stub,
@@ -156,7 +169,7 @@ absl::Status Writer::CreateItem(const std::string& table, int num_timesteps,
     return absl::FailedPreconditionError(
         "Calling method CreateItem after Close has been called");
   }
-  if (num_timesteps > chunks_.size() * chunk_length_ + buffer_.size()) {
+  if (num_timesteps > NumTimesteps(chunks_) + buffer_.size()) {
     return absl::InvalidArgumentError(
         "Argument `num_timesteps` is larger than number of buffered "
         "timesteps.");
@@ -245,8 +258,7 @@ absl::Status Writer::CreateItem(const std::string& table, int num_timesteps,
   // Traverse historic chunks backwards until trajectory complete.
   for (auto rit = chunks_.rbegin(); remaining > 0 && rit != chunks_.rend();
        ++rit) {
-    const auto& range = rit->sequence_range();
-    chunk_lengths.push_back(range.end() - range.start() + 1);
+    chunk_lengths.push_back(ChunkLength(*rit));
     chunk_keys.push_back(rit->chunk_key());
     remaining -= chunk_lengths.back();
   }
@@ -438,7 +450,8 @@ absl::Status Writer::Finish(bool retry_on_unavailable) {
     index_within_episode_ += buffer_.size();
     buffer_.clear();
     next_chunk_key_ = NewID();
-    while ((chunks_.size() - 1) * chunk_length_ >= max_timesteps_) {
+    while (NumTimesteps(chunks_) - ChunkLength(chunks_.front()) >=
+           max_timesteps_) {
       streamed_chunk_keys_.erase(chunks_.front().chunk_key());
       chunks_.pop_front();
     }
-- 
2.43.0


From aeaa3690c9197d7d6ef3ba88f959f91ed1eb3e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 23/46] fix: give a chunk that could not be written a new key
 in Writer

---
 reverb/cc/writer.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/reverb/cc/writer.cc b/reverb/cc/writer.cc
index 82a7470..445b325 100644
--- a/reverb/cc/writer.cc
+++ b/reverb/cc/writer.cc
@@ -457,6 +457,19 @@ absl::Status Writer::Finish(bool retry_on_unavailable) {
     }
   } else {
     chunks_.pop_back();
+    // The server might have received the chunk. The content of the buffer can
+    // still change so it must not be sent under the same key again.
+    const uint64_t chunk_key = NewID();
+    for (auto& item : pending_items_) {
+      for (auto& column : *item.mutable_flat_trajectory()->mutable_columns()) {
+        for (auto& slice : *column.mutable_chunk_slices()) {
+          if (slice.chunk_key() == next_chunk_key_) {
+            slice.set_chunk_key(chunk_key);
+          }
+        }
+      }
+    }
+    next_chunk_key_ = chunk_key;
   }
   return status;
 }
-- 
2.43.0


From 77a7bc1683637a7dcc522d4f176dcc519c9bf7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 24/46] Revert "fix: send chunks only with the first of several
 pending items in Writer"

An existing test expects every item of a batch to carry the chunks.
---
 reverb/cc/writer.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/reverb/cc/writer.cc b/reverb/cc/writer.cc
index 445b325..08fb887 100644
--- a/reverb/cc/writer.cc
+++ b/reverb/cc/writer.cc
@@ -558,8 +558,6 @@ bool Writer::WritePendingData() {
     for (const auto& chunk : request.r.chunks()) {
       streamed_chunk_keys_.insert(chunk.chunk_key());
     }
-    // The server holds the chunks now so the next item must not send them again.
-    request.Clear();
     pending_items_.pop_front();
     if (request.r.item().send_confirmation()) {
       absl::MutexLock lock(&mu_);
-- 
2.43.0


From f0c537ab1dd3b2169a5b905c31d8b46280c16ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 25/46] Allow simulation builds to choose the size of messages

---
 reverb/cc/reverb_service_async_impl.cc | 9 +++++++++
 reverb/cc/reverb_service_impl.cc       | 9 +++++++++
 reverb/cc/trajectory_writer.h          | 5 +++++
 reverb/cc/writer.h                     | 5 +++++
 4 files changed, 28 insertions(+)

diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index 3a90899..fcb26cf 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -58,7 +58,16 @@ namespace {
 // Multiple `ChunkData` can be sent with the same `SampleStreamResponseCtx`. If
 // the size of the message exceeds this value then the request is sent and the
 // remaining chunks are sent with other messages.
+#ifdef REVERB_SIMULATION
+}  // namespace
+// Simulation builds split responses of any size.
+int64_t sim_max_async_sample_response_bytes = 1 * 1024 * 1024;  // 1MB.
+namespace {
+static const int64_t& kMaxSampleResponseSizeBytes =
+    sim_max_async_sample_response_bytes;
+#else
 static constexpr int64_t kMaxSampleResponseSizeBytes = 1 * 1024 * 1024;  // 1MB.
+#endif
 
 inline grpc::Status TableNotFound(absl::string_view name) {
   return grpc::Status(grpc::StatusCode::NOT_FOUND,
diff --git a/reverb/cc/reverb_service_impl.cc b/reverb/cc/reverb_service_impl.cc
index 4ca1dbb..4e21de8 100644
--- a/reverb/cc/reverb_service_impl.cc
+++ b/reverb/cc/reverb_service_impl.cc
@@ -45,7 +45,16 @@ namespace {
 // Multiple `ChunkData` can be sent with the same `SampleStreamResponse`. If
 // the size of the message exceeds this value then the request is sent and the
 // remaining chunks are sent with other messages.
+#ifdef REVERB_SIMULATION
+}  // namespace
+// Simulation builds split responses of any size.
+int64_t sim_max_sample_response_bytes = 40 * 1024 * 1024;  // 40MB.
+namespace {
+static const int64_t& kMaxSampleResponseSizeBytes =
+    sim_max_sample_response_bytes;
+#else
 static constexpr int64_t kMaxSampleResponseSizeBytes = 40 * 1024 * 1024;  // 40MB.
+#endif
 
 inline grpc::Status TableNotFound(absl::string_view name) {
   return grpc::Status(grpc::StatusCode::NOT_FOUND,
diff --git a/reverb/cc/trajectory_writer.h b/reverb/cc/trajectory_writer.h
index f99a733..e4c36c7 100644
--- a/reverb/cc/trajectory_writer.h
+++ b/reverb/cc/trajectory_writer.h
@@ -70,7 +70,12 @@ class TrajectoryWriter {
   // Multiple `ChunkData` can be sent with the same `InsertStreamRequest`. If
   // the size of the message exceeds this value then the request is sent and the
   // remaining chunks are sent with other messages.
+#ifdef REVERB_SIMULATION
+  // Simulation builds split requests of any size.
+  inline static int64_t kMaxRequestSizeBytes = 40 * 1024 * 1024;  // 40MB.
+#else
   static constexpr int64_t kMaxRequestSizeBytes = 40 * 1024 * 1024;  // 40MB.
+#endif
 
   struct Options {
     std::shared_ptr<ChunkerOptions> chunker_options;
diff --git a/reverb/cc/writer.h b/reverb/cc/writer.h
index 1a28e78..61a97dc 100644
--- a/reverb/cc/writer.h
+++ b/reverb/cc/writer.h
@@ -46,7 +46,12 @@ namespace reverb {
 // None of the methods are thread safe.
 class Writer {
  public:
+#ifdef REVERB_SIMULATION
+  // Simulation builds split requests of any size.
+  inline static int64_t kMaxRequestSizeBytes = 40 * 1024 * 1024;  // 40MB.
+#else
   static constexpr int64_t kMaxRequestSizeBytes = 40 * 1024 * 1024;  // 40MB.
+#endif
 
   // The client must not be deleted while any of its writer instances exist.
   Writer(std::shared_ptr</* grpc_gen:: */ReverbService::StubInterface> stub,
-- 
2.43.0


From 445ac825797f186e609bd7ec3851bb445037905a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 26/46] fix: account for consumed steps when checking that a
 Sample holds timesteps

---
 reverb/cc/sampler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reverb/cc/sampler.cc b/reverb/cc/sampler.cc
index 0109576..e1a6dce 100644
--- a/reverb/cc/sampler.cc
+++ b/reverb/cc/sampler.cc
@@ -779,7 +779,7 @@ bool Sample::is_composed_of_timesteps() const {
       // Note that we can safely assume that the tensor is not a scalar since a
       // batch dimension is always added when building a chunk. A scalar would
       // thus be represented as a tensor of shape [1].
-      column_length += column_slice.tensor.dim_size(0);
+      column_length += column_slice.tensor.dim_size(0) - column_slice.offset;
     }
 
     if (prev_column_length != -1 && prev_column_length != column_length) {
-- 
2.43.0


From 73a8c50269bbd5a612c831433fdaf053dc7f07a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 27/46] fix: do not dereference a table pointer that the server
 already deleted

---
 reverb/cc/BUILD                         |  3 +
 reverb/cc/client.cc                     | 10 ++-
 reverb/cc/reverb_service_async_impl.cc  |  5 +-
 reverb/cc/reverb_service_impl.cc        |  6 +-
 reverb/cc/support/BUILD                 |  8 +++
 reverb/cc/support/shared_ptr_handover.h | 86 +++++++++++++++++++++++++
 6 files changed, 113 insertions(+), 5 deletions(-)
 create mode 100644 reverb/cc/support/shared_ptr_handover.h

diff --git a/reverb/cc/BUILD b/reverb/cc/BUILD
index 5b6e8d6..554eb7e 100644
--- a/reverb/cc/BUILD
+++ b/reverb/cc/BUILD
@@ -361,6 +361,7 @@ reverb_cc_library(
         "//reverb/cc/platform:logging",
         "//reverb/cc/platform:status_macros",
         "//reverb/cc/support:grpc_util",
+        "//reverb/cc/support:shared_ptr_handover",
         "//reverb/cc/support:signature",
         "//reverb/cc/support:uint128",
     ] + reverb_grpc_deps() + reverb_absl_deps(),
@@ -385,6 +386,7 @@ reverb_cc_library(
         "//reverb/cc/platform:status_macros",
         "//reverb/cc/support:cleanup",
         "//reverb/cc/support:grpc_util",
+        "//reverb/cc/support:shared_ptr_handover",
         "//reverb/cc/support:trajectory_util",
         "//reverb/cc/support:uint128",
         "//reverb/cc/support:queue",
@@ -441,6 +443,7 @@ reverb_cc_library(
         "//reverb/cc/support:cleanup",
         "//reverb/cc/support:grpc_util",
         "//reverb/cc/support:periodic_closure",
+        "//reverb/cc/support:shared_ptr_handover",
         "//reverb/cc/support:trajectory_util",
         "//reverb/cc/support:uint128",
         "//reverb/cc/support:unbounded_queue",
diff --git a/reverb/cc/client.cc b/reverb/cc/client.cc
index 486d5e6..c45ebf9 100644
--- a/reverb/cc/client.cc
+++ b/reverb/cc/client.cc
@@ -29,6 +29,7 @@
 #include "reverb/cc/reverb_service.pb.h"
 #include "reverb/cc/schema.pb.h"
 #include "reverb/cc/support/grpc_util.h"
+#include "reverb/cc/support/shared_ptr_handover.h"
 #include "reverb/cc/support/uint128.h"
 #include "reverb/cc/trajectory_writer.h"
 
@@ -405,7 +406,14 @@ absl::Status Client::GetLocalTablePtr(absl::string_view table_name,
         "Client and server are not running in the same process.");
   }
 
-  *out = *reinterpret_cast<std::shared_ptr<Table>*>(response.address());
+  // The server withdraws the pointer if the stream breaks.
+  std::shared_ptr<Table> table;
+  if (!internal::SharedPtrHandover<Table>::Claim(response.address(), &table) ||
+      table->name() != table_name) {
+    return absl::UnavailableError(
+        "InitializeConnection: The table is no longer available.");
+  }
+  *out = std::move(table);
   request.set_ownership_transferred(true);
   stream->Write(request);
 
diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index fcb26cf..589770b 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -44,6 +44,7 @@
 #include "reverb/cc/sampler.h"
 #include "reverb/cc/support/cleanup.h"
 #include "reverb/cc/support/grpc_util.h"
+#include "reverb/cc/support/shared_ptr_handover.h"
 #include "reverb/cc/support/trajectory_util.h"
 #include "reverb/cc/support/uint128.h"
 #include "reverb/cc/support/unbounded_queue.h"
@@ -376,7 +377,7 @@ ReverbServiceAsyncImpl::InitializeConnection(
         // sending its response. For simplicity, the client will copy the
         // shared_ptr so the server is always responsible for cleaning up the
         // heap allocated object.
-        table_ptr_ = new std::shared_ptr<Table>(table);
+        table_ptr_ = internal::SharedPtrHandover<Table>::Offer(table);
 
         response_.set_address(reinterpret_cast<int64_t>(table_ptr_));
         StartWrite(&response_);
@@ -411,7 +412,7 @@ ReverbServiceAsyncImpl::InitializeConnection(
 
     void OnDone() override {
       if (table_ptr_ != nullptr) {
-        delete table_ptr_;
+        internal::SharedPtrHandover<Table>::Withdraw(table_ptr_);
       }
       delete this;
     }
diff --git a/reverb/cc/reverb_service_impl.cc b/reverb/cc/reverb_service_impl.cc
index 4e21de8..57ed108 100644
--- a/reverb/cc/reverb_service_impl.cc
+++ b/reverb/cc/reverb_service_impl.cc
@@ -35,6 +35,7 @@
 #include "reverb/cc/sampler.h"
 #include "reverb/cc/support/cleanup.h"
 #include "reverb/cc/support/grpc_util.h"
+#include "reverb/cc/support/shared_ptr_handover.h"
 #include "reverb/cc/support/trajectory_util.h"
 #include "reverb/cc/support/uint128.h"
 
@@ -456,8 +457,9 @@ grpc::Status ReverbServiceImpl::InitializeConnection(
   // sending its response. For simplicity, the client will copy the shared_ptr
   // so the server is always responsible for cleaning up the heap allocated
   // object.
-  auto* ptr = new std::shared_ptr<Table>(it->second);
-  auto cleanup = internal::MakeCleanup([&] { delete ptr; });
+  auto* ptr = internal::SharedPtrHandover<Table>::Offer(it->second);
+  auto cleanup = internal::MakeCleanup(
+      [&] { internal::SharedPtrHandover<Table>::Withdraw(ptr); });
 
   // Send address to client.
   InitializeConnectionResponse response;
diff --git a/reverb/cc/support/BUILD b/reverb/cc/support/BUILD
index 4af2082..f211b04 100644
--- a/reverb/cc/support/BUILD
+++ b/reverb/cc/support/BUILD
@@ -33,6 +33,14 @@ reverb_cc_library(
     ] + reverb_absl_deps() + reverb_tf_deps(),
 )
 
+reverb_cc_library(
+    name = "shared_ptr_handover",
+    hdrs = ["shared_ptr_handover.h"],
+    deps = [
+        "//reverb/cc/platform:hash_set",
+    ] + reverb_absl_deps(),
+)
+
 reverb_cc_library(
     name = "cleanup",
     hdrs = ["cleanup.h"],
diff --git a/reverb/cc/support/shared_ptr_handover.h b/reverb/cc/support/shared_ptr_handover.h
new file mode 100644
index 0000000..6682b26
--- /dev/null
+++ b/reverb/cc/support/shared_ptr_handover.h
@@ -0,0 +1,86 @@
+// Copyright 2019 DeepMind Technologies Limited.
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+#ifndef REVERB_CC_SUPPORT_SHARED_PTR_HANDOVER_H_
+#define REVERB_CC_SUPPORT_SHARED_PTR_HANDOVER_H_
+
+#include <cstdint>
+#include <memory>
+#include <utility>
+
+#include "absl/base/thread_annotations.h"
+#include "absl/synchronization/mutex.h"
+#include "reverb/cc/platform/hash_set.h"
+
+namespace deepmind {
+namespace reverb {
+namespace internal {
+
+// Passes shared pointers between parts of a process that only exchange
+// messages, by the address of a heap allocated copy.
+//
+// The copy can be withdrawn at any time, e.g. because the stream over which its
+// address was sent broke, so the receiver must not dereference the address
+// without checking that it is still valid.
+//
+// This class is thread-safe.
+template <typename T>
+class SharedPtrHandover {
+ public:
+  // Creates a heap allocated copy of `ptr` that is valid until `Withdraw`.
+  static std::shared_ptr<T>* Offer(std::shared_ptr<T> ptr) {
+    State* s = state();
+    auto* handle = new std::shared_ptr<T>(std::move(ptr));
+    absl::MutexLock lock(&s->mu);
+    s->offered.insert(reinterpret_cast<int64_t>(handle));
+    return handle;
+  }
+
+  // Copies the pointer at `address` to `out`. Returns false if there is none,
+  // i.e. if it has been withdrawn.
+  static bool Claim(int64_t address, std::shared_ptr<T>* out) {
+    State* s = state();
+    absl::MutexLock lock(&s->mu);
+    if (!s->offered.contains(address)) return false;
+    *out = *reinterpret_cast<std::shared_ptr<T>*>(address);
+    return true;
+  }
+
+  // Deletes a copy created by `Offer`.
+  static void Withdraw(std::shared_ptr<T>* handle) {
+    State* s = state();
+    {
+      absl::MutexLock lock(&s->mu);
+      s->offered.erase(reinterpret_cast<int64_t>(handle));
+    }
+    delete handle;
+  }
+
+ private:
+  struct State {
+    absl::Mutex mu;
+    flat_hash_set<int64_t> offered ABSL_GUARDED_BY(mu);
+  };
+
+  static State* state() {
+    static State* state = new State;
+    return state;
+  }
+};
+
+}  // namespace internal
+}  // namespace reverb
+}  // namespace deepmind
+
+#endif  // REVERB_CC_SUPPORT_SHARED_PTR_HANDOVER_H_
-- 
2.43.0


From 25fea3c0e590643d57ef3aeec2ca1a560a3c27a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 28/46] fix: honour a rate limiter timeout of zero in
 ReverbServiceAsyncImpl

---
 reverb/cc/reverb_service_async_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index 589770b..3de0ea8 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -574,7 +574,7 @@ ReverbServiceAsyncImpl::SampleStream(grpc::CallbackServerContext* context) {
                          request->flexible_batch_size(), "."));
       }
       if (request->has_rate_limiter_timeout() &&
-          request->rate_limiter_timeout().milliseconds() > 0) {
+          request->rate_limiter_timeout().milliseconds() >= 0) {
         task_info_.timeout =
             absl::Milliseconds(request->rate_limiter_timeout().milliseconds());
       } else {
-- 
2.43.0


From 21e21c8024011ccb0b73e000d2c1989335c09fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 29/46] fix: send samples already taken before ending a sample
 stream with an error

---
 reverb/cc/reverb_service_async_impl.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index 3de0ea8..35d8b79 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -516,9 +516,8 @@ ReverbServiceAsyncImpl::SampleStream(grpc::CallbackServerContext* context) {
                   absl::MutexLock lock(&mu_);
                   waiting_for_enqueued_sample_ = false;
                   if (!sample->status.ok()) {
-                    if (!is_finished_) {
-                      SetReactorAsFinished(ToGrpcStatus(sample->status));
-                    }
+                    sampling_status_ = ToGrpcStatus(sample->status);
+                    MaybeFinishAfterSamplingError();
                     return;
                   }
                   task_info_.fetched_samples += sample->samples.size();
@@ -555,6 +554,10 @@ ReverbServiceAsyncImpl::SampleStream(grpc::CallbackServerContext* context) {
     void OnWriteDone(bool ok) override {
       ReverbServerTableReactor::OnWriteDone(ok);
       absl::MutexLock lock(&mu_);
+      if (!sampling_status_.ok()) {
+        MaybeFinishAfterSamplingError();
+        return;
+      }
       MaybeStartSampling();
     }
 
@@ -615,6 +618,14 @@ ReverbServiceAsyncImpl::SampleStream(grpc::CallbackServerContext* context) {
                                            task_info_.timeout);
     }
 
+    // Ends the stream with the error of the last sample request once all
+    // samples that have already been taken from the table were sent.
+    void MaybeFinishAfterSamplingError() ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
+      if (!is_finished_ && responses_to_send_.empty()) {
+        SetReactorAsFinished(sampling_status_);
+      }
+    }
+
     void ProcessSample(Table::SampledItem* sample, bool write_in_flight)
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
       if (responses_to_send_.empty() ||
@@ -681,6 +692,9 @@ ReverbServiceAsyncImpl::SampleStream(grpc::CallbackServerContext* context) {
     // True if the reactor is awaiting the result of a sampling request already
     // enqueued in the target table.
     bool waiting_for_enqueued_sample_  ABSL_GUARDED_BY(mu_);
+
+    // Set if a sample request failed, after which no more samples are taken.
+    grpc::Status sampling_status_ ABSL_GUARDED_BY(mu_);
   };
 
   return new WorkerlessSampleReactor(this);
-- 
2.43.0


From e77f105a9bbd717dd1c422b9e0be168140b5c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 30/46] fix: report errors of flushing and closing checkpoint
 files, and sync them before DONE

---
 reverb/cc/platform/tfrecord_checkpointer.cc | 52 ++++++++++++++-------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/reverb/cc/platform/tfrecord_checkpointer.cc b/reverb/cc/platform/tfrecord_checkpointer.cc
index 81848d5..f1c86a7 100644
--- a/reverb/cc/platform/tfrecord_checkpointer.cc
+++ b/reverb/cc/platform/tfrecord_checkpointer.cc
@@ -60,24 +60,39 @@ constexpr char kTablesFileName[] = "tables.tfrecord";
 constexpr char kChunksFileName[] = "chunks.tfrecord";
 constexpr char kDoneFileName[] = "DONE";
 
-using RecordWriterUniquePtr =
-    std::unique_ptr<tensorflow::io::RecordWriter,
-                    std::function<void(tensorflow::io::RecordWriter*)>>;
+// Writes records to a file. Nothing can be relied on to be stored before
+// `Close` has returned OK.
+class FileRecordWriter {
+ public:
+  explicit FileRecordWriter(std::unique_ptr<tensorflow::WritableFile> file)
+      : file_(std::move(file)), writer_(file_.get()) {}
+
+  absl::Status WriteRecord(const std::string& record) {
+    return FromTensorflowStatus(writer_.WriteRecord(record));
+  }
+
+  absl::Status Close() {
+    REVERB_RETURN_IF_ERROR(FromTensorflowStatus(writer_.Close()));
+    // `RecordWriter` doesn't close the file. What it wrote may still be
+    // buffered so both of these can fail.
+    REVERB_RETURN_IF_ERROR(FromTensorflowStatus(file_->Sync()));
+    return FromTensorflowStatus(file_->Close());
+  }
+
+ private:
+  std::unique_ptr<tensorflow::WritableFile> file_;
+  tensorflow::io::RecordWriter writer_;
+};
 using RecordReaderUniquePtr =
     std::unique_ptr<tensorflow::io::RecordReader,
                     std::function<void(tensorflow::io::RecordReader*)>>;
 
 absl::Status OpenWriter(const std::string& path,
-                        RecordWriterUniquePtr* writer) {
+                        std::unique_ptr<FileRecordWriter>* writer) {
   std::unique_ptr<tensorflow::WritableFile> file;
   REVERB_RETURN_IF_ERROR(FromTensorflowStatus(
       tensorflow::Env::Default()->NewWritableFile(path, &file)));
-  auto* file_ptr = file.release();
-  *writer = RecordWriterUniquePtr(new tensorflow::io::RecordWriter(file_ptr),
-                                  [file_ptr](tensorflow::io::RecordWriter* w) {
-                                    delete w;
-                                    delete file_ptr;
-                                  });
+  *writer = absl::make_unique<FileRecordWriter>(std::move(file));
   return absl::OkStatus();
 }
 
@@ -100,6 +115,7 @@ inline absl::Status WriteDone(const std::string& path) {
   REVERB_RETURN_IF_ERROR(
       FromTensorflowStatus(tensorflow::Env::Default()->NewWritableFile(
           tensorflow::io::JoinPath(path, kDoneFileName), &file)));
+  REVERB_RETURN_IF_ERROR(FromTensorflowStatus(file->Sync()));
   return FromTensorflowStatus(file->Close());
 }
 
@@ -172,7 +188,7 @@ absl::Status TFRecordCheckpointer::Save(std::vector<Table*> tables,
   REVERB_RETURN_IF_ERROR(FromTensorflowStatus(
       tensorflow::Env::Default()->RecursivelyCreateDir(dir_path)));
 
-  RecordWriterUniquePtr table_writer;
+  std::unique_ptr<FileRecordWriter> table_writer;
   REVERB_RETURN_IF_ERROR(OpenWriter(
       tensorflow::io::JoinPath(dir_path, kTablesFileName), &table_writer));
 
@@ -180,22 +196,22 @@ absl::Status TFRecordCheckpointer::Save(std::vector<Table*> tables,
   for (Table* table : tables) {
     auto checkpoint = table->Checkpoint();
     chunks.merge(checkpoint.chunks);
-    REVERB_RETURN_IF_ERROR(FromTensorflowStatus(
-        table_writer->WriteRecord(checkpoint.checkpoint.SerializeAsString())));
+    REVERB_RETURN_IF_ERROR(
+        table_writer->WriteRecord(checkpoint.checkpoint.SerializeAsString()));
   }
 
-  REVERB_RETURN_IF_ERROR(FromTensorflowStatus(table_writer->Close()));
+  REVERB_RETURN_IF_ERROR(table_writer->Close());
   table_writer = nullptr;
 
-  RecordWriterUniquePtr chunk_writer;
+  std::unique_ptr<FileRecordWriter> chunk_writer;
   REVERB_RETURN_IF_ERROR(OpenWriter(
       tensorflow::io::JoinPath(dir_path, kChunksFileName), &chunk_writer));
 
   for (const auto& chunk : chunks) {
-    REVERB_RETURN_IF_ERROR(FromTensorflowStatus(
-        chunk_writer->WriteRecord(chunk->data().SerializeAsString())));
+    REVERB_RETURN_IF_ERROR(
+        chunk_writer->WriteRecord(chunk->data().SerializeAsString()));
   }
-  REVERB_RETURN_IF_ERROR(FromTensorflowStatus(chunk_writer->Close()));
+  REVERB_RETURN_IF_ERROR(chunk_writer->Close());
   chunk_writer = nullptr;
 
   // Both chunks and table checkpoint has now been written so we can proceed to
-- 
2.43.0


From 91412a5a872e8caef55f480a87a41aee581fc012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 31/46] fix: don't take a checkpoint whose DONE file can't be
 looked up for an interrupted one

---
 reverb/cc/platform/tfrecord_checkpointer.cc | 26 +++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/reverb/cc/platform/tfrecord_checkpointer.cc b/reverb/cc/platform/tfrecord_checkpointer.cc
index f1c86a7..a2cb5db 100644
--- a/reverb/cc/platform/tfrecord_checkpointer.cc
+++ b/reverb/cc/platform/tfrecord_checkpointer.cc
@@ -119,10 +119,15 @@ inline absl::Status WriteDone(const std::string& path) {
   return FromTensorflowStatus(file->Close());
 }
 
-inline bool HasDone(const std::string& path) {
-  return tensorflow::Env::Default()
-      ->FileExists(tensorflow::io::JoinPath(path, kDoneFileName))
-      .ok();
+// Sets `has_done` to whether `path` is a completed checkpoint. Not knowing is an
+// error as a completed checkpoint must not be mistaken for an interrupted one.
+inline absl::Status HasDone(const std::string& path, bool* has_done) {
+  absl::Status status =
+      FromTensorflowStatus(tensorflow::Env::Default()->FileExists(
+          tensorflow::io::JoinPath(path, kDoneFileName)));
+  *has_done = status.ok();
+  if (absl::IsNotFound(status)) return absl::OkStatus();
+  return status;
 }
 
 std::unique_ptr<ItemSelector> MakeDistribution(
@@ -243,7 +248,9 @@ absl::Status TFRecordCheckpointer::Load(
     absl::string_view path, ChunkStore* chunk_store,
     std::vector<std::shared_ptr<Table>>* tables) {
   REVERB_LOG(REVERB_INFO) << "Loading checkpoint from " << std::string(path);
-  if (!HasDone(std::string(path))) {
+  bool has_done;
+  REVERB_RETURN_IF_ERROR(HasDone(std::string(path), &has_done));
+  if (!has_done) {
     return absl::InvalidArgumentError(absl::StrCat(
         "Load called with invalid checkpoint path: ", std::string(path)));
   }
@@ -400,7 +407,9 @@ absl::Status TFRecordCheckpointer::LoadLatest(
           tensorflow::io::JoinPath(root_dir_, "*"), &filenames)));
   std::sort(filenames.begin(), filenames.end());
   for (auto it = filenames.rbegin(); it != filenames.rend(); it++) {
-    if (HasDone(*it)) {
+    bool has_done;
+    REVERB_RETURN_IF_ERROR(HasDone(*it, &has_done));
+    if (has_done) {
       return Load(
           tensorflow::io::JoinPath(root_dir_, tensorflow::io::Basename(*it)),
           chunk_store, tables);
@@ -415,7 +424,10 @@ absl::Status TFRecordCheckpointer::LoadFallbackCheckpoint(
   if (!fallback_checkpoint_path_.has_value()) {
     return absl::NotFoundError("No fallback checkpoint path provided.");
   }
-  if (HasDone(fallback_checkpoint_path_.value())) {
+  bool has_done;
+  REVERB_RETURN_IF_ERROR(
+      HasDone(fallback_checkpoint_path_.value(), &has_done));
+  if (has_done) {
     return Load(fallback_checkpoint_path_.value(), chunk_store, tables);
   }
   return absl::NotFoundError(absl::StrCat("No checkpoint found in ",
-- 
2.43.0


From 733d36cea6ccd5ca2267f299d48d9b6c8183c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 32/46] fix: delete nothing but old checkpoints from the root
 directory, in the order in which they were saved

---
 reverb/cc/platform/tfrecord_checkpointer.cc | 93 +++++++++++++++------
 reverb/cc/platform/tfrecord_checkpointer.h  |  6 +-
 2 files changed, 73 insertions(+), 26 deletions(-)

diff --git a/reverb/cc/platform/tfrecord_checkpointer.cc b/reverb/cc/platform/tfrecord_checkpointer.cc
index a2cb5db..bdad8d9 100644
--- a/reverb/cc/platform/tfrecord_checkpointer.cc
+++ b/reverb/cc/platform/tfrecord_checkpointer.cc
@@ -27,6 +27,7 @@
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_join.h"
 #include "absl/strings/string_view.h"
+#include "absl/synchronization/mutex.h"
 #include "absl/time/clock.h"
 #include "absl/time/time.h"
 #include "reverb/cc/checkpointing/checkpoint.pb.h"
@@ -130,6 +131,41 @@ inline absl::Status HasDone(const std::string& path, bool* has_done) {
   return status;
 }
 
+// A directory which `Save` created, or an entry which is named like one.
+struct CheckpointDir {
+  absl::Time time;
+  std::string path;
+};
+
+// Lists the checkpoints in `root_dir`, completed or not, from the oldest to the
+// most recent. Entries which are not named after the time of a checkpoint are
+// ignored as they were not created by `Save`.
+absl::Status ListCheckpoints(const std::string& root_dir,
+                             std::vector<CheckpointDir>* checkpoints) {
+  std::vector<std::string> names;
+  absl::Status status = FromTensorflowStatus(
+      tensorflow::Env::Default()->GetChildren(root_dir, &names));
+  if (absl::IsNotFound(status)) return absl::OkStatus();
+  REVERB_RETURN_IF_ERROR(status);
+  for (auto& name : names) {
+    // Some file systems return directories with a trailing slash.
+    while (!name.empty() && name.back() == '/') name.pop_back();
+    CheckpointDir checkpoint;
+    std::string error;
+    if (absl::ParseTime(absl::RFC3339_full, name, &checkpoint.time, &error) &&
+        checkpoint.time != absl::InfiniteFuture() &&
+        checkpoint.time != absl::InfinitePast()) {
+      checkpoint.path = tensorflow::io::JoinPath(root_dir, name);
+      checkpoints->push_back(std::move(checkpoint));
+    }
+  }
+  std::sort(checkpoints->begin(), checkpoints->end(),
+            [](const CheckpointDir& a, const CheckpointDir& b) {
+              return a.time < b.time;
+            });
+  return absl::OkStatus();
+}
+
 std::unique_ptr<ItemSelector> MakeDistribution(
     const KeyDistributionOptions& options) {
   switch (options.distribution_case()) {
@@ -188,8 +224,20 @@ absl::Status TFRecordCheckpointer::Save(std::vector<Table*> tables,
         "Setting non-empty group is not supported");
   }
 
+  // Concurrent calls would otherwise delete the checkpoints of each other.
+  absl::MutexLock lock(&save_mu_);
+
+  // The order of the names is the order of the checkpoints, also if the clock
+  // was set back after the previous one.
+  std::vector<CheckpointDir> checkpoints;
+  REVERB_RETURN_IF_ERROR(ListCheckpoints(root_dir_, &checkpoints));
+  absl::Time time = absl::Now();
+  if (!checkpoints.empty()) {
+    time = std::max(time, checkpoints.back().time + absl::Nanoseconds(1));
+  }
+
   std::string dir_path =
-      tensorflow::io::JoinPath(root_dir_, absl::FormatTime(absl::Now()));
+      tensorflow::io::JoinPath(root_dir_, absl::FormatTime(time));
   REVERB_RETURN_IF_ERROR(FromTensorflowStatus(
       tensorflow::Env::Default()->RecursivelyCreateDir(dir_path)));
 
@@ -223,21 +271,21 @@ absl::Status TFRecordCheckpointer::Save(std::vector<Table*> tables,
   // add the DONE-file.
   REVERB_RETURN_IF_ERROR(WriteDone(dir_path));
 
-  // Delete the older checkpoints.
-  std::vector<std::string> filenames;
-  REVERB_RETURN_IF_ERROR(
-      FromTensorflowStatus(tensorflow::Env::Default()->GetMatchingPaths(
-          tensorflow::io::JoinPath(root_dir_, "*"), &filenames)));
-  std::sort(filenames.begin(), filenames.end());
-  int history_counter = 0;
-  for (auto it = filenames.rbegin(); it != filenames.rend(); it++) {
-    if (++history_counter > keep_latest) {
-      tensorflow::int64 undeleted_files;
-      tensorflow::int64 undeleted_dirs;
-      REVERB_RETURN_IF_ERROR(
-          FromTensorflowStatus(tensorflow::Env::Default()->DeleteRecursively(
-              *it, &undeleted_files, &undeleted_dirs)));
+  // Delete everything that is older than the `keep_latest` most recent completed
+  // checkpoints, `dir_path` being one of them.
+  int num_completed = 1;
+  for (auto it = checkpoints.rbegin(); it != checkpoints.rend(); it++) {
+    if (num_completed < keep_latest) {
+      bool has_done;
+      REVERB_RETURN_IF_ERROR(HasDone(it->path, &has_done));
+      if (has_done) ++num_completed;
+      continue;
     }
+    tensorflow::int64 undeleted_files;
+    tensorflow::int64 undeleted_dirs;
+    REVERB_RETURN_IF_ERROR(
+        FromTensorflowStatus(tensorflow::Env::Default()->DeleteRecursively(
+            it->path, &undeleted_files, &undeleted_dirs)));
   }
 
   *path = std::move(dir_path);
@@ -401,18 +449,13 @@ absl::Status TFRecordCheckpointer::Load(
 absl::Status TFRecordCheckpointer::LoadLatest(
     ChunkStore* chunk_store, std::vector<std::shared_ptr<Table>>* tables) {
   REVERB_LOG(REVERB_INFO) << "Loading latest checkpoint from " << root_dir_;
-  std::vector<std::string> filenames;
-  REVERB_RETURN_IF_ERROR(
-      FromTensorflowStatus(tensorflow::Env::Default()->GetMatchingPaths(
-          tensorflow::io::JoinPath(root_dir_, "*"), &filenames)));
-  std::sort(filenames.begin(), filenames.end());
-  for (auto it = filenames.rbegin(); it != filenames.rend(); it++) {
+  std::vector<CheckpointDir> checkpoints;
+  REVERB_RETURN_IF_ERROR(ListCheckpoints(root_dir_, &checkpoints));
+  for (auto it = checkpoints.rbegin(); it != checkpoints.rend(); it++) {
     bool has_done;
-    REVERB_RETURN_IF_ERROR(HasDone(*it, &has_done));
+    REVERB_RETURN_IF_ERROR(HasDone(it->path, &has_done));
     if (has_done) {
-      return Load(
-          tensorflow::io::JoinPath(root_dir_, tensorflow::io::Basename(*it)),
-          chunk_store, tables);
+      return Load(it->path, chunk_store, tables);
     }
   }
   return absl::NotFoundError(
diff --git a/reverb/cc/platform/tfrecord_checkpointer.h b/reverb/cc/platform/tfrecord_checkpointer.h
index 13bc5cf..3d27613 100644
--- a/reverb/cc/platform/tfrecord_checkpointer.h
+++ b/reverb/cc/platform/tfrecord_checkpointer.h
@@ -21,6 +21,7 @@
 
 #include "absl/status/status.h"
 #include "absl/strings/string_view.h"
+#include "absl/synchronization/mutex.h"
 #include "absl/types/optional.h"
 #include "reverb/cc/checkpointing/interface.h"
 #include "reverb/cc/chunk_store.h"
@@ -85,7 +86,7 @@ class TFRecordCheckpointer : public Checkpointer {
   // by another experiment.
   //
   // After a successful save, all but the `keep_latest` most recent checkpoints
-  // are deleted.
+  // are deleted. Anything else in `root_dir_` is left alone.
   absl::Status Save(std::vector<Table*> tables, int keep_latest,
                     std::string* path) override;
 
@@ -111,6 +112,9 @@ class TFRecordCheckpointer : public Checkpointer {
   TFRecordCheckpointer& operator=(const TFRecordCheckpointer&) = delete;
 
  private:
+  // Held while a checkpoint is saved.
+  absl::Mutex save_mu_;
+
   const std::string root_dir_;
   const std::string group_;
   absl::optional<std::string> fallback_checkpoint_path_;
-- 
2.43.0


From ab0e7bc9b9b450863efb1e5dfd52300de8289400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:02 +0000
Subject: [PATCH 33/46] fix: fail to load an incomplete checkpoint with
 DataLoss, and without changing any table

---
 reverb/cc/platform/tfrecord_checkpointer.cc | 65 ++++++++++++++-------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/reverb/cc/platform/tfrecord_checkpointer.cc b/reverb/cc/platform/tfrecord_checkpointer.cc
index bdad8d9..181a113 100644
--- a/reverb/cc/platform/tfrecord_checkpointer.cc
+++ b/reverb/cc/platform/tfrecord_checkpointer.cc
@@ -100,8 +100,14 @@ absl::Status OpenWriter(const std::string& path,
 absl::Status OpenReader(const std::string& path,
                         RecordReaderUniquePtr* reader) {
   std::unique_ptr<tensorflow::RandomAccessFile> file;
-  REVERB_RETURN_IF_ERROR(FromTensorflowStatus(
-      tensorflow::Env::Default()->NewRandomAccessFile(path, &file)));
+  absl::Status status = FromTensorflowStatus(
+      tensorflow::Env::Default()->NewRandomAccessFile(path, &file));
+  if (absl::IsNotFound(status)) {
+    // NotFound would mean that there is no checkpoint.
+    return absl::DataLossError(
+        absl::StrCat("Checkpoint is incomplete: ", status.message()));
+  }
+  REVERB_RETURN_IF_ERROR(status);
   auto* file_ptr = file.release();
   *reader = RecordReaderUniquePtr(new tensorflow::io::RecordReader(file_ptr),
                                   [file_ptr](tensorflow::io::RecordReader* r) {
@@ -187,6 +193,12 @@ std::unique_ptr<ItemSelector> MakeDistribution(
   }
 }
 
+inline absl::Status MissingChunk(uint64_t item_key, ChunkStore::Key key) {
+  return absl::DataLossError(absl::StrCat("Checkpoint is incomplete: item ",
+                                          item_key, " refers to chunk ", key,
+                                          " which is missing."));
+}
+
 inline size_t find_table_index(
     const std::vector<std::shared_ptr<Table>>* tables,
     const std::string& name) {
@@ -348,7 +360,8 @@ absl::Status TFRecordCheckpointer::Load(
       OpenReader(tensorflow::io::JoinPath(std::string(path), kTablesFileName),
                  &table_reader));
 
-  PriorityTableCheckpoint checkpoint;
+  // Nothing is changed before everything has been read and checked.
+  std::vector<PriorityTableCheckpoint> checkpoints;
   absl::Status table_status;
   tensorflow::uint64 table_offset = 0;
   tensorflow::tstring table_record;
@@ -356,14 +369,15 @@ absl::Status TFRecordCheckpointer::Load(
     table_status = FromTensorflowStatus(
         table_reader->ReadRecord(&table_offset, &table_record));
     if (!table_status.ok()) break;
+    checkpoints.emplace_back();
+    PriorityTableCheckpoint& checkpoint = checkpoints.back();
     if (!checkpoint.ParseFromArray(table_record.data(), table_record.size())) {
       return absl::DataLossError(
           absl::StrCat("Could not parse TFRecord as Checkpoint: '",
                        absl::string_view(table_record), "'"));
     }
 
-    int index = find_table_index(tables, checkpoint.table_name());
-    if (index == -1) {
+    if (find_table_index(tables, checkpoint.table_name()) == -1) {
       std::vector<std::string> table_names;
       for (const auto& table : *tables) {
         table_names.push_back(absl::StrCat("'", table->name(), "'"));
@@ -375,6 +389,28 @@ absl::Status TFRecordCheckpointer::Load(
           absl::StrJoin(table_names, ", "), "]"));
     }
 
+    for (const auto& item : checkpoint.items()) {
+      if (item.has_deprecated_sequence_range() && item.has_flat_trajectory()) {
+        return absl::InternalError(absl::StrCat(
+            "Item ", item.key(),
+            " has both deprecated and new trajectory format: ",
+            item.DebugString(), "."));
+      }
+      for (const auto& key : item.deprecated_chunk_keys()) {
+        if (!chunk_by_key.contains(key)) return MissingChunk(item.key(), key);
+      }
+      for (const auto& key : internal::GetChunkKeys(item.flat_trajectory())) {
+        if (!chunk_by_key.contains(key)) return MissingChunk(item.key(), key);
+      }
+    }
+  } while (table_status.ok());
+
+  if (!absl::IsOutOfRange(table_status)) {
+    return table_status;
+  }
+
+  for (auto& checkpoint : checkpoints) {
+    const size_t index = find_table_index(tables, checkpoint.table_name());
     auto sampler = MakeDistribution(checkpoint.sampler());
     auto remover = MakeDistribution(checkpoint.remover());
     auto rate_limiter =
@@ -403,18 +439,11 @@ absl::Status TFRecordCheckpointer::Load(
       Table::Item insert_item;
       insert_item.item = checkpoint_item;
 
-      if (insert_item.item.has_deprecated_sequence_range() &&
-          insert_item.item.has_flat_trajectory()) {
-        return absl::InternalError(
-            absl::StrCat("Item ", insert_item.item.key(),
-                         " has both deprecated and new trajectory format: ",
-                         insert_item.item.DebugString(), "."));
-      }
-
       if (insert_item.item.has_deprecated_sequence_range()) {
         std::vector<std::shared_ptr<ChunkStore::Chunk>> trajectory_chunks;
-        REVERB_CHECK_OK(FromTensorflowStatus(chunk_store->Get(
-            insert_item.item.deprecated_chunk_keys(), &trajectory_chunks)));
+        for (const auto& key : insert_item.item.deprecated_chunk_keys()) {
+          trajectory_chunks.push_back(chunk_by_key.at(key));
+        }
 
         *insert_item.item.mutable_flat_trajectory() =
             internal::FlatTimestepTrajectory(
@@ -428,7 +457,6 @@ absl::Status TFRecordCheckpointer::Load(
 
       for (const auto& key :
            internal::GetChunkKeys(insert_item.item.flat_trajectory())) {
-        REVERB_CHECK(chunk_by_key.contains(key));
         insert_item.chunks.push_back(chunk_by_key[key]);
       }
 
@@ -438,11 +466,8 @@ absl::Status TFRecordCheckpointer::Load(
     }
 
     tables->at(index).swap(table);
-  } while (table_status.ok());
-
-  if (!absl::IsOutOfRange(table_status)) {
-    return table_status;
   }
+
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 493619deb38e855187f53e5a7d43a5bbb450379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 34/46] fix: keep the order of items in checkpoints when the
 clock is set back

---
 reverb/cc/table.cc | 17 +++++++++++++++--
 reverb/cc/table.h  |  8 ++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index e663dbe..8a94617 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -525,7 +525,8 @@ absl::Status Table::InsertOrAssign(Item item, absl::Duration timeout) {
 
     // Set the insertion timestamp after the lock has been acquired as this
     // represents the order it was inserted into the sampler and remover.
-    EncodeAsTimestampProto(absl::Now(), item.item.mutable_inserted_at());
+    EncodeAsTimestampProto(NextInsertionTime(),
+                           item.item.mutable_inserted_at());
     data_[key] = std::make_shared<Item>(std::move(item));
 
     REVERB_RETURN_IF_ERROR(sampler_->Insert(key, priority));
@@ -585,6 +586,12 @@ absl::Status Table::InsertOrAssignAsync(
   return absl::OkStatus();
 }
 
+absl::Time Table::NextInsertionTime() {
+  last_insertion_time_ =
+      std::max(absl::Now(), last_insertion_time_ + absl::Nanoseconds(1));
+  return last_insertion_time_;
+}
+
 absl::Status Table::InsertOrAssignInternal(std::shared_ptr<Item> item) {
   const auto key = item->item.key();
   const auto priority = item->item.priority();
@@ -596,7 +603,8 @@ absl::Status Table::InsertOrAssignInternal(std::shared_ptr<Item> item) {
 
   // Set the insertion timestamp after the lock has been acquired as this
   // represents the order it was inserted into the sampler and remover.
-  EncodeAsTimestampProto(absl::Now(), item->item.mutable_inserted_at());
+  EncodeAsTimestampProto(NextInsertionTime(),
+                         item->item.mutable_inserted_at());
   data_[key] = std::move(item);
 
   REVERB_RETURN_IF_ERROR(sampler_->Insert(key, priority));
@@ -1045,6 +1053,11 @@ absl::Status Table::InsertCheckpointItem(Table::Item item) {
   REVERB_RETURN_IF_ERROR(
       remover_->Insert(item.item.key(), item.item.priority()));
 
+  last_insertion_time_ =
+      std::max(last_insertion_time_,
+               absl::FromUnixSeconds(item.item.inserted_at().seconds()) +
+                   absl::Nanoseconds(item.item.inserted_at().nanos()));
+
   const auto key = item.item.key();
   auto it = data_.emplace(key, std::make_shared<Item>(std::move(item))).first;
   ExtensionOperation(ExtensionRequest::CallType::kInsert, it->second);
diff --git a/reverb/cc/table.h b/reverb/cc/table.h
index 6685f90..89fe958 100644
--- a/reverb/cc/table.h
+++ b/reverb/cc/table.h
@@ -400,6 +400,11 @@ class Table {
   void FinalizeSampleRequest(std::unique_ptr<Table::SampleRequest> request,
                              absl::Status status);
 
+  // Returns the time at which an item is inserted. As items are ordered by it
+  // when the table is loaded from a checkpoint, it always increases, even if the
+  // clock does not.
+  absl::Time NextInsertionTime() ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
+
   // Performs insertion of the `item` into the table.
   absl::Status InsertOrAssignInternal(std::shared_ptr<Item> item)
       ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
@@ -450,6 +455,9 @@ class Table {
   internal::flat_hash_map<Key, std::shared_ptr<Item>> data_
       ABSL_GUARDED_BY(mu_);
 
+  // Insertion time of the item that was inserted most recently.
+  absl::Time last_insertion_time_ ABSL_GUARDED_BY(mu_) = absl::InfinitePast();
+
   // Count of references from chunks referenced by items.
   internal::flat_hash_map<uint64_t, int64_t> episode_refs_ ABSL_GUARDED_BY(mu_);
 
-- 
2.43.0


From c3fe4356ffc599e211e2441566e02d930d1bc08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 35/46] fix: notice checkpoint files that lost records at their
 end

---
 reverb/cc/platform/tfrecord_checkpointer.cc | 29 +++++++++++++++++++--
 reverb/cc/platform/tfrecord_checkpointer.h  |  3 ++-
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/reverb/cc/platform/tfrecord_checkpointer.cc b/reverb/cc/platform/tfrecord_checkpointer.cc
index 181a113..41d992b 100644
--- a/reverb/cc/platform/tfrecord_checkpointer.cc
+++ b/reverb/cc/platform/tfrecord_checkpointer.cc
@@ -117,11 +117,19 @@ absl::Status OpenReader(const std::string& path,
   return absl::OkStatus();
 }
 
-inline absl::Status WriteDone(const std::string& path) {
+// The DONE-file holds the number of records in the other files, as the loss of
+// whole records from the end of a file can't be noticed otherwise.
+inline std::string DoneContent(size_t num_tables, size_t num_chunks) {
+  return absl::StrCat("tables: ", num_tables, " chunks: ", num_chunks, "\n");
+}
+
+inline absl::Status WriteDone(const std::string& path,
+                              const std::string& content) {
   std::unique_ptr<tensorflow::WritableFile> file;
   REVERB_RETURN_IF_ERROR(
       FromTensorflowStatus(tensorflow::Env::Default()->NewWritableFile(
           tensorflow::io::JoinPath(path, kDoneFileName), &file)));
+  REVERB_RETURN_IF_ERROR(FromTensorflowStatus(file->Append(content)));
   REVERB_RETURN_IF_ERROR(FromTensorflowStatus(file->Sync()));
   return FromTensorflowStatus(file->Close());
 }
@@ -281,7 +289,8 @@ absl::Status TFRecordCheckpointer::Save(std::vector<Table*> tables,
 
   // Both chunks and table checkpoint has now been written so we can proceed to
   // add the DONE-file.
-  REVERB_RETURN_IF_ERROR(WriteDone(dir_path));
+  REVERB_RETURN_IF_ERROR(
+      WriteDone(dir_path, DoneContent(tables.size(), chunks.size())));
 
   // Delete everything that is older than the `keep_latest` most recent completed
   // checkpoints, `dir_path` being one of them.
@@ -314,6 +323,12 @@ absl::Status TFRecordCheckpointer::Load(
     return absl::InvalidArgumentError(absl::StrCat(
         "Load called with invalid checkpoint path: ", std::string(path)));
   }
+  std::string done_content;
+  REVERB_RETURN_IF_ERROR(FromTensorflowStatus(tensorflow::ReadFileToString(
+      tensorflow::Env::Default(),
+      tensorflow::io::JoinPath(std::string(path), kDoneFileName),
+      &done_content)));
+
   // Insert data first to ensure that all data referenced by the tables
   // exists. Keep the map of chunks around so that none of the chunks are
   // cleaned up before all the tables have been loaded.
@@ -409,6 +424,16 @@ absl::Status TFRecordCheckpointer::Load(
     return table_status;
   }
 
+  // The content is missing if the checkpoint was saved by an older version, and
+  // may be incomplete if the machine crashed while it was written. All the other
+  // files had been stored then.
+  if (!done_content.empty() && done_content.back() == '\n' &&
+      done_content != DoneContent(checkpoints.size(), chunk_by_key.size())) {
+    return absl::DataLossError(absl::StrCat(
+        "Checkpoint is incomplete: ", checkpoints.size(), " tables and ",
+        chunk_by_key.size(), " chunks instead of ", done_content));
+  }
+
   for (auto& checkpoint : checkpoints) {
     const size_t index = find_table_index(tables, checkpoint.table_name());
     auto sampler = MakeDistribution(checkpoint.sampler());
diff --git a/reverb/cc/platform/tfrecord_checkpointer.h b/reverb/cc/platform/tfrecord_checkpointer.h
index 3d27613..994b708 100644
--- a/reverb/cc/platform/tfrecord_checkpointer.h
+++ b/reverb/cc/platform/tfrecord_checkpointer.h
@@ -51,7 +51,8 @@ namespace reverb {
 //       chunks.tfrecord
 //       DONE
 //
-// DONE an empty file written once the checkpoint has been successfully written.
+// DONE is a small file with the number of records in the other files. It is
+// written once the checkpoint has been successfully written.
 // If DONE does not exist then the checkpoint is in process of being written or
 // the operation was unexpectedly interrupted and the data should be considered
 // corrupt.
-- 
2.43.0


From aaa4fa88c145a22393ea485c727aeebb627dcd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 36/46] fix: write each chunk of a checkpoint once

Streams of the asynchronous service which were sent the same chunk hold
copies of their own, and the checkpoint stored them all.
---
 reverb/cc/platform/tfrecord_checkpointer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/platform/tfrecord_checkpointer.cc b/reverb/cc/platform/tfrecord_checkpointer.cc
index 41d992b..58105f4 100644
--- a/reverb/cc/platform/tfrecord_checkpointer.cc
+++ b/reverb/cc/platform/tfrecord_checkpointer.cc
@@ -280,7 +280,10 @@ absl::Status TFRecordCheckpointer::Save(std::vector<Table*> tables,
   REVERB_RETURN_IF_ERROR(OpenWriter(
       tensorflow::io::JoinPath(dir_path, kChunksFileName), &chunk_writer));
 
+  // Streams which were sent the same chunk may each hold a copy of it.
+  internal::flat_hash_set<ChunkStore::Key> written_keys;
   for (const auto& chunk : chunks) {
+    if (!written_keys.insert(chunk->key()).second) continue;
     REVERB_RETURN_IF_ERROR(
         chunk_writer->WriteRecord(chunk->data().SerializeAsString()));
   }
@@ -290,7 +293,7 @@ absl::Status TFRecordCheckpointer::Save(std::vector<Table*> tables,
   // Both chunks and table checkpoint has now been written so we can proceed to
   // add the DONE-file.
   REVERB_RETURN_IF_ERROR(
-      WriteDone(dir_path, DoneContent(tables.size(), chunks.size())));
+      WriteDone(dir_path, DoneContent(tables.size(), written_keys.size())));
 
   // Delete everything that is older than the `keep_latest` most recent completed
   // checkpoints, `dir_path` being one of them.
-- 
2.43.0


From e33d2f8335a159e22b0934a5a3b2e1c7bbf34093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 37/46] fix: do not round the timeout of server info down to
 whole seconds

Timeouts of less than a second made the call fail at once.
---
 reverb/cc/client.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reverb/cc/client.cc b/reverb/cc/client.cc
index c45ebf9..dd4a671 100644
--- a/reverb/cc/client.cc
+++ b/reverb/cc/client.cc
@@ -313,8 +313,7 @@ absl::Status Client::GetServerInfo(absl::Duration timeout,
   grpc::ClientContext context;
   context.set_wait_for_ready(true);
   if (timeout != absl::InfiniteDuration()) {
-    context.set_deadline(std::chrono::system_clock::now() +
-                         absl::ToChronoSeconds(timeout));
+    context.set_deadline(absl::ToChronoTime(absl::Now() + timeout));
   }
 
   ServerInfoRequest request;
-- 
2.43.0


From f1d386044b27ed7b2bafe09af9209a9629d749c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 38/46] fix: apply the rate limiter timeout of each request of
 a sample stream

---
 reverb/cc/reverb_service_impl.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/reverb/cc/reverb_service_impl.cc b/reverb/cc/reverb_service_impl.cc
index 57ed108..50cf59d 100644
--- a/reverb/cc/reverb_service_impl.cc
+++ b/reverb/cc/reverb_service_impl.cc
@@ -281,13 +281,14 @@ grpc::Status ReverbServiceImpl::SampleStreamInternal(
   if (!stream->Read(&request)) {
     return Internal("Could not read initial request");
   }
-  absl::Duration timeout =
-      absl::Milliseconds(request.has_rate_limiter_timeout()
-                             ? request.rate_limiter_timeout().milliseconds()
-                             : -1);
-  if (timeout < absl::ZeroDuration()) timeout = absl::InfiniteDuration();
 
   do {
+    absl::Duration timeout =
+        absl::Milliseconds(request.has_rate_limiter_timeout()
+                               ? request.rate_limiter_timeout().milliseconds()
+                               : -1);
+    if (timeout < absl::ZeroDuration()) timeout = absl::InfiniteDuration();
+
     if (request.num_samples() <= 0) {
       return grpc::Status(grpc::StatusCode::INVALID_ARGUMENT,
                           "`num_samples` must be > 0.");
-- 
2.43.0


From e0ae436bf9340478d223f3542869fcef86eb1f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 39/46] fix: answer insert requests that are empty or keep
 unknown chunks instead of crashing

---
 reverb/cc/reverb_service_async_impl.cc | 23 ++++++++++++++++-------
 reverb/cc/reverb_service_impl.cc       | 15 ++++++++++-----
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index 35d8b79..007a692 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -217,7 +217,6 @@ ReverbServiceAsyncImpl::InsertStream(grpc::CallbackServerContext* context) {
 
     grpc::Status ProcessIncomingRequest(InsertStreamRequest* request) override
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
-      REVERB_CHECK(!request->chunks().empty() || request->has_item());
       if (auto status = SaveChunks(request); !status.ok()) {
         return status;
       }
@@ -230,7 +229,11 @@ ReverbServiceAsyncImpl::InsertStream(grpc::CallbackServerContext* context) {
       if (auto status = GetItemWithChunks(&item, request); !status.ok()) {
         return status;
       }
-      ReleaseOutOfRangeChunks(request->item().keep_chunk_keys());
+      if (auto status =
+              ReleaseOutOfRangeChunks(request->item().keep_chunk_keys());
+          !status.ok()) {
+        return status;
+      }
       const auto& table_name = item.item.table();
       // Check that table name is valid.
       auto table = server_->TableByName(table_name);
@@ -292,17 +295,23 @@ ReverbServiceAsyncImpl::InsertStream(grpc::CallbackServerContext* context) {
       return grpc::Status::OK;
     }
 
-    void ReleaseOutOfRangeChunks(absl::Span<const uint64_t> keep_keys) {
+    grpc::Status ReleaseOutOfRangeChunks(absl::Span<const uint64_t> keep_keys) {
+      internal::flat_hash_set<ChunkStore::Key> keep(keep_keys.begin(),
+                                                    keep_keys.end());
+      for (ChunkStore::Key key : keep) {
+        if (!chunks_.contains(key)) {
+          return Internal(
+              absl::StrCat("Could not find chunk ", key, " to keep."));
+        }
+      }
       for (auto it = chunks_.cbegin(); it != chunks_.cend();) {
-        if (std::find(keep_keys.begin(), keep_keys.end(), it->first) ==
-            keep_keys.end()) {
+        if (!keep.contains(it->first)) {
           chunks_.erase(it++);
         } else {
           ++it;
         }
       }
-      REVERB_CHECK_EQ(chunks_.size(), keep_keys.size())
-          << "Kept less chunks than expected.";
+      return grpc::Status::OK;
     }
 
     // Incoming messages are handled one at a time. That is StartRead is not
diff --git a/reverb/cc/reverb_service_impl.cc b/reverb/cc/reverb_service_impl.cc
index 50cf59d..79ef32e 100644
--- a/reverb/cc/reverb_service_impl.cc
+++ b/reverb/cc/reverb_service_impl.cc
@@ -201,6 +201,16 @@ grpc::Status ReverbServiceImpl::InsertStreamInternal(
       Table* table = TableByName(table_name);
       if (table == nullptr) return TableNotFound(table_name);
 
+      internal::flat_hash_set<ChunkStore::Key> keep_keys{
+          request.item().keep_chunk_keys().begin(),
+          request.item().keep_chunk_keys().end()};
+      for (ChunkStore::Key key : keep_keys) {
+        if (!chunks.contains(key)) {
+          return Internal(
+              absl::StrCat("Could not find chunk ", key, " to keep."));
+        }
+      }
+
       const auto item_key = request.item().item().key();
       item.item = std::move(*request.mutable_item()->mutable_item());
 
@@ -221,9 +231,6 @@ grpc::Status ReverbServiceImpl::InsertStreamInternal(
       }
 
       // Only keep specified chunks.
-      absl::flat_hash_set<int64_t> keep_keys{
-          request.item().keep_chunk_keys().begin(),
-          request.item().keep_chunk_keys().end()};
       for (auto it = chunks.cbegin(); it != chunks.cend();) {
         if (keep_keys.find(it->first) == keep_keys.end()) {
           chunks.erase(it++);
@@ -231,8 +238,6 @@ grpc::Status ReverbServiceImpl::InsertStreamInternal(
           ++it;
         }
       }
-      REVERB_CHECK_EQ(chunks.size(), keep_keys.size())
-          << "Kept less chunks than expected.";
     }
   }
 
-- 
2.43.0


From 3bb28492559547c7a3a517635d08ad749ee27bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 40/46] fix: finish the stream of an unexpected handover
 request only once

---
 reverb/cc/reverb_service_async_impl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index 007a692..6ce8291 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -395,6 +395,7 @@ ReverbServiceAsyncImpl::InitializeConnection(
 
       if (!request_.ownership_transferred()) {
         Finish(Internal("Received unexpected request"));
+        return;
       }
 
       Finish(grpc::Status::OK);
-- 
2.43.0


From d79c7328420ca97bec8a4d5f05fe3eac537cc1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 41/46] fix: take no samples for a stream that has ended

---
 reverb/cc/reverb_service_async_impl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reverb/cc/reverb_service_async_impl.cc b/reverb/cc/reverb_service_async_impl.cc
index 6ce8291..aa3ea22 100644
--- a/reverb/cc/reverb_service_async_impl.cc
+++ b/reverb/cc/reverb_service_async_impl.cc
@@ -610,6 +610,10 @@ ReverbServiceAsyncImpl::SampleStream(grpc::CallbackServerContext* context) {
 
    private:
     void MaybeStartSampling() ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_) {
+      if (is_finished_) {
+        // Nobody receives further samples.
+        return;
+      }
       const int next_batch_size = task_info_.NextSampleSize();
       if (next_batch_size == 0) {
         // Current request has been fully processed.
-- 
2.43.0


From 17f1e0d495a6a783151bdbe4f27943b2a3e0a636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 42/46] fix: refuse items of which any column is empty

---
 reverb/cc/table.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index 8a94617..e025687 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -66,10 +66,14 @@ inline void EncodeAsTimestampProto(absl::Time t,
 }
 
 inline absl::Status CheckItemValidity(const Table::Item& item) {
-  if (item.item.flat_trajectory().columns().empty() ||
-      item.item.flat_trajectory().columns(0).chunk_slices().empty()) {
+  if (item.item.flat_trajectory().columns().empty()) {
     return absl::InvalidArgumentError("Item trajectory must not be empty.");
   }
+  for (const auto& column : item.item.flat_trajectory().columns()) {
+    if (column.chunk_slices().empty()) {
+      return absl::InvalidArgumentError("Item trajectory must not be empty.");
+    }
+  }
 
   auto trajectory_keys = internal::GetChunkKeys(item.item.flat_trajectory());
   if (trajectory_keys.size() != item.chunks.size()) {
-- 
2.43.0


From acd1b33f1517c38044c48c0c0cbac19cafa68de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 43/46] Tell simulation builds of the chunks in memory

---
 reverb/cc/chunk_store.cc | 13 +++++++++++++
 reverb/cc/chunk_store.h  |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/reverb/cc/chunk_store.cc b/reverb/cc/chunk_store.cc
index a2c67ad..5e844a2 100644
--- a/reverb/cc/chunk_store.cc
+++ b/reverb/cc/chunk_store.cc
@@ -46,7 +46,20 @@ constexpr int kDeleteQueueSize = 10000000;
 
 }  // namespace
 
+#ifdef REVERB_SIMULATION
+// Simulation builds are told of every chunk that is created (+1) or deleted.
+void (*sim_chunk_observer)(uint64_t key, int delta) = nullptr;
+
+ChunkStore::Chunk::Chunk(ChunkData data) : data_(std::move(data)) {
+  if (sim_chunk_observer != nullptr) sim_chunk_observer(key(), 1);
+}
+
+ChunkStore::Chunk::~Chunk() {
+  if (sim_chunk_observer != nullptr) sim_chunk_observer(key(), -1);
+}
+#else
 ChunkStore::Chunk::Chunk(ChunkData data) : data_(std::move(data)) {}
+#endif
 
 uint64_t ChunkStore::Chunk::key() const { return data_.chunk_key(); }
 
diff --git a/reverb/cc/chunk_store.h b/reverb/cc/chunk_store.h
index e06f0ec..b30e811 100644
--- a/reverb/cc/chunk_store.h
+++ b/reverb/cc/chunk_store.h
@@ -79,6 +79,10 @@ class ChunkStore {
    public:
     explicit Chunk(ChunkData data);
 
+#ifdef REVERB_SIMULATION
+    ~Chunk();
+#endif
+
     // Unique identifier of the chunk.
     uint64_t key() const;
 
-- 
2.43.0


From 5e6c2a806b827ee5dc4630574229716354254f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 44/46] fix: refuse priorities of infinite weight in the
 prioritized selector

The sums of its tree became NaN, even after the item had been deleted.
---
 reverb/cc/selectors/prioritized.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/reverb/cc/selectors/prioritized.cc b/reverb/cc/selectors/prioritized.cc
index 041000a..aac2c7c 100644
--- a/reverb/cc/selectors/prioritized.cc
+++ b/reverb/cc/selectors/prioritized.cc
@@ -39,12 +39,15 @@ inline double power(double base, double exponent) {
   return base == 0. ? 0. : std::pow(base, exponent);
 }
 
-absl::Status CheckValidPriority(double priority) {
+absl::Status CheckValidPriority(double priority, double priority_exponent) {
   if (std::isnan(priority))
     return absl::InvalidArgumentError("Priority must not be NaN.");
   if (priority < 0)
     return absl::InvalidArgumentError(
         "Priority must not be negative.");
+  // An infinite weight would turn the sums of the tree into NaN for ever.
+  if (std::isinf(power(priority, priority_exponent)))
+    return absl::InvalidArgumentError("Weight of the priority is infinite.");
   return absl::OkStatus();
 }
 
@@ -78,11 +81,11 @@ absl::Status PrioritizedSelector::Delete(Key key) {
 }
 
 absl::Status PrioritizedSelector::CheckPriority(double priority) const {
-  return CheckValidPriority(priority);
+  return CheckValidPriority(priority, priority_exponent_);
 }
 
 absl::Status PrioritizedSelector::Insert(Key key, double priority) {
-  REVERB_RETURN_IF_ERROR(CheckValidPriority(priority));
+  REVERB_RETURN_IF_ERROR(CheckValidPriority(priority, priority_exponent_));
   const size_t index = key_to_index_.size();
   if (index == capacity_) {
     capacity_ *= 2;
@@ -99,7 +102,7 @@ absl::Status PrioritizedSelector::Insert(Key key, double priority) {
 }
 
 absl::Status PrioritizedSelector::Update(Key key, double priority) {
-  REVERB_RETURN_IF_ERROR(CheckValidPriority(priority));
+  REVERB_RETURN_IF_ERROR(CheckValidPriority(priority, priority_exponent_));
   const auto it = key_to_index_.find(key);
   if (it == key_to_index_.end()) {
     return absl::InvalidArgumentError(absl::StrCat("Key ", key, " not found."));
-- 
2.43.0


From 6229c1babd827eaea0f66fce5480582d19bf4b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:45 +0000
Subject: [PATCH 45/46] Let simulation builds call InitializeConnection with
 their own streams

---
 reverb/cc/reverb_service_impl.cc | 15 +++++++++++++++
 reverb/cc/reverb_service_impl.h  |  7 +++++++
 2 files changed, 22 insertions(+)

diff --git a/reverb/cc/reverb_service_impl.cc b/reverb/cc/reverb_service_impl.cc
index 79ef32e..8c034ad 100644
--- a/reverb/cc/reverb_service_impl.cc
+++ b/reverb/cc/reverb_service_impl.cc
@@ -432,10 +432,25 @@ ReverbServiceImpl::tables() const {
   return tables_;
 }
 
+#ifdef REVERB_SIMULATION
+// Simulation builds have streams of their own.
+grpc::Status ReverbServiceImpl::InitializeConnection(
+    grpc::ServerContext* context,
+    grpc::ServerReaderWriter<InitializeConnectionResponse,
+                             InitializeConnectionRequest>* stream) {
+  return InitializeConnectionInternal(context, stream);
+}
+
+grpc::Status ReverbServiceImpl::InitializeConnectionInternal(
+    grpc::ServerContext* context,
+    grpc::ServerReaderWriterInterface<InitializeConnectionResponse,
+                                      InitializeConnectionRequest>* stream) {
+#else
 grpc::Status ReverbServiceImpl::InitializeConnection(
     grpc::ServerContext* context,
     grpc::ServerReaderWriter<InitializeConnectionResponse,
                              InitializeConnectionRequest>* stream) {
+#endif
   if (!IsLocalhostOrInProcess(context->peer())) {
     return grpc::Status::OK;
   }
diff --git a/reverb/cc/reverb_service_impl.h b/reverb/cc/reverb_service_impl.h
index a2dc934..f12a805 100644
--- a/reverb/cc/reverb_service_impl.h
+++ b/reverb/cc/reverb_service_impl.h
@@ -83,6 +83,13 @@ class ReverbServiceImpl : public /* grpc_gen:: */ReverbService::Service {
       grpc::ServerReaderWriter<InitializeConnectionResponse,
                                InitializeConnectionRequest>* stream) override;
 
+#ifdef REVERB_SIMULATION
+  grpc::Status InitializeConnectionInternal(
+      grpc::ServerContext* context,
+      grpc::ServerReaderWriterInterface<InitializeConnectionResponse,
+                                        InitializeConnectionRequest>* stream);
+#endif
+
   // Gets a copy of the table lookup.
   internal::flat_hash_map<std::string, std::shared_ptr<Table>> tables() const;
 
-- 
2.43.0


From d62bb45f982e55d611af7b4af840f6d89ac18fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 46/46] fix: refuse a second value of a column in one step also
 at the end of a chunk

Append and AppendPartial document that a column which appears twice in a step
is refused, but that was only noticed if the chunk of the first value was not
complete, so whether it worked depended on the chunk length.
---
 reverb/cc/chunker.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/reverb/cc/chunker.cc b/reverb/cc/chunker.cc
index 66ddb8a..0eb5173 100644
--- a/reverb/cc/chunker.cc
+++ b/reverb/cc/chunker.cc
@@ -136,6 +136,13 @@ absl::Status Chunker::Append(const tensorflow::Tensor& tensor,
         "Chunker::Append called with an episode step which was not greater "
         "than already observed.");
   }
+  // The first value of the step could have completed a chunk.
+  if (!active_refs_.empty() &&
+      active_refs_.back()->episode_id() == episode_info.episode_id &&
+      active_refs_.back()->episode_step() == episode_info.step) {
+    return absl::FailedPreconditionError(
+        "Chunker::Append called twice for the same episode step.");
+  }
 
   active_refs_.push_back(
       std::make_shared<CellRef>(std::weak_ptr<Chunker>(shared_from_this()),
-- 
2.43.0

