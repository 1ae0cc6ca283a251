From 7e8b14c6cbd0f81130b019ce53aec5976f35d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 01/37] fix: AsyncEvent::notify posts through WorkerAccess
 (Worker::post is private)

---
 kio/sync/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/sync/event.h b/kio/sync/event.h
index a52631f..fc94999 100644
--- a/kio/sync/event.h
+++ b/kio/sync/event.h
@@ -112,7 +112,7 @@ namespace kio::sync
                 if (hptr)
                 {
                     std::coroutine_handle<> h = std::coroutine_handle<>::from_address(hptr);
-                    owner_.post(h);
+                    io::internal::WorkerAccess::post(owner_, h);
                 }
 
                 curr = next;
-- 
2.43.0


From 713adead7b9cb6ae7b5c23e47a92b1b8f910a397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:36 +0000
Subject: [PATCH 02/37] fix: BytesMut::commit_write bound check no longer wraps
 around

---
 kio/core/bytes_mut.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/core/bytes_mut.h b/kio/core/bytes_mut.h
index 5ace5fa..c0c1484 100644
--- a/kio/core/bytes_mut.h
+++ b/kio/core/bytes_mut.h
@@ -151,7 +151,7 @@ namespace kio
          */
         void commit_write(const size_t n)
         {
-            if (write_pos_ + n > buffer_.size())
+            if (n > writable())
             {
                 throw std::out_of_range("BytesMut::commit_write() beyond buffer size");
             }
-- 
2.43.0


From 06affbbdae415752bd24989dfe8ef2813642d3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:36 +0000
Subject: [PATCH 03/37] fix: BytesMut::reserve rejects sizes whose sum would
 wrap around

---
 kio/core/bytes_mut.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kio/core/bytes_mut.h b/kio/core/bytes_mut.h
index c0c1484..fe82214 100644
--- a/kio/core/bytes_mut.h
+++ b/kio/core/bytes_mut.h
@@ -65,6 +65,12 @@ namespace kio
             const size_t data_len = remaining();
             const size_t available_total = buffer_.capacity();
 
+            // The sums below must not wrap around
+            if (additional > buffer_.max_size() - write_pos_)
+            {
+                throw std::length_error("BytesMut::reserve() exceeds the maximum size");
+            }
+
             // Strategy 1: Compact in place if it fits
             if (available_total >= data_len + additional) {
                 // Threshold: only compact if significant waste
-- 
2.43.0


From 30a8e436eedd0402bd96bddec62093f203743eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:05 +0000
Subject: [PATCH 04/37] fix: RESP parser rejects a bulk payload that is not
 followed by CRLF

---
 kio/resp/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kio/resp/parser.cpp b/kio/resp/parser.cpp
index 2e5901f..8e3cfdf 100644
--- a/kio/resp/parser.cpp
+++ b/kio/resp/parser.cpp
@@ -132,6 +132,9 @@ namespace kio::resp
         const auto total = header_len + payload_len + 2;
         if (data.size() < total) return std::unexpected(ParseError::NeedMoreData);
 
+        // The payload must be followed by CRLF
+        if (data[total - 2] != '\r' || data[total - 1] != '\n') return std::unexpected(ParseError::MalformedFrame);
+
         return FrameHeader{type, data.data(), total, 0};
     }
 
-- 
2.43.0


From 5c6fa5ebf27ac05b2bcd2f5370a70343bb2d6f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 05/37] fix: MPSCQueue of capacity 1 keeps at least two slots

---
 kio/sync/mpsc_queue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kio/sync/mpsc_queue.h b/kio/sync/mpsc_queue.h
index b174d12..9cfb0c9 100644
--- a/kio/sync/mpsc_queue.h
+++ b/kio/sync/mpsc_queue.h
@@ -53,13 +53,14 @@ namespace kio
         };
 
     public:
-        explicit MPSCQueue(size_t capacity) : buffer_(capacity), mask_(capacity - 1)
+        // A single slot cannot tell "holds an item" from "free for the next lap", so there are at least two
+        explicit MPSCQueue(size_t capacity) : buffer_(capacity == 1 ? 2 : capacity), mask_(buffer_.size() - 1)
         {
             // Capacity must be power of 2
             assert(capacity > 0 && (capacity & (capacity - 1)) == 0 && "Capacity must be a power of 2");
 
             // Initialize sequence numbers for each slot (no T construction)
-            for (size_t i = 0; i < capacity; ++i)
+            for (size_t i = 0; i < buffer_.size(); ++i)
             {
                 buffer_[i].sequence.store(i, std::memory_order_relaxed);
             }
-- 
2.43.0


From 2ee38108d482f3a3c2b8bda17d078d009e1acfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 06/37] fix: Logger rounds its queue size up to a power of two

---
 kio/core/async_logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/core/async_logger.h b/kio/core/async_logger.h
index 45f6113..4540142 100644
--- a/kio/core/async_logger.h
+++ b/kio/core/async_logger.h
@@ -118,7 +118,7 @@ namespace kio {
     public:
         explicit Logger(const size_t queue_size = 1024, const LogLevel level = LogLevel::Info,
                         std::ostream &output_stream = std::cout)
-            : queue_(queue_size),
+            : queue_(next_power_of_2(queue_size)),
               level_(level),
               output_stream_(output_stream),
               use_color_(false) {
-- 
2.43.0


From 00724c50608fc00d52c65ceb29e030a273112ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:27 +0000
Subject: [PATCH 07/37] fix: Logger wakes its consumer for format-error
 messages too

---
 kio/core/async_logger.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kio/core/async_logger.h b/kio/core/async_logger.h
index 4540142..2befa6f 100644
--- a/kio/core/async_logger.h
+++ b/kio/core/async_logger.h
@@ -240,7 +240,10 @@ namespace kio {
                 } else {
                     entry.set_large_message(std::move(fallback));
                 }
-                (void) queue_.try_push(std::move(entry));
+                if (queue_.try_push(std::move(entry)) && wakeup_fd_ >= 0) {
+                    constexpr uint64_t val = 1;
+                    [[maybe_unused]] const auto ret = ::write(wakeup_fd_, &val, sizeof(val));
+                }
             }
         }
 
-- 
2.43.0


From 94455a126c83f353d08e5597bdbdd36e1ea0d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:27 +0000
Subject: [PATCH 08/37] fix: Logger::flush is serialised with the consumer
 thread

---
 kio/core/async_logger.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kio/core/async_logger.h b/kio/core/async_logger.h
index 2befa6f..adc98d0 100644
--- a/kio/core/async_logger.h
+++ b/kio/core/async_logger.h
@@ -11,6 +11,7 @@
 #include <functional>
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <source_location>
 #include <span>
 #include <string>
@@ -182,6 +183,8 @@ namespace kio {
         }
 
         void flush() {
+            // The queue has a single consumer: callers take turns with the consumer thread
+            const std::scoped_lock lock(consume_mutex_);
             LogMessage entry;
             while (queue_.try_pop(entry)) {
                 write(entry);
@@ -317,6 +320,7 @@ namespace kio {
         }
 
         MPSCQueue<LogMessage> queue_;
+        std::mutex consume_mutex_;
         std::atomic<LogLevel> level_;
         std::jthread consumer_thread_;
         int wakeup_fd_{-1};
-- 
2.43.0


From 16fb31bfa26600f5b98df345df070efb978eb049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 09/37] fix: DetachedTask does not destroy a frame that
 destroys itself

---
 kio/core/coro.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kio/core/coro.h b/kio/core/coro.h
index 2059348..e0dc299 100644
--- a/kio/core/coro.h
+++ b/kio/core/coro.h
@@ -243,10 +243,9 @@ namespace kio
 
         DetachedTask(DetachedTask &&o) noexcept : coro(std::exchange(o.coro, {})) {}
 
-        ~DetachedTask()
-        {
-            if (coro) coro.destroy();
-        }
+        // The frame destroys itself when the coroutine finishes (final_suspend does not suspend), which can be
+        // before this object goes away: the handle may dangle here and must not be destroyed a second time.
+        ~DetachedTask() = default;
 
         void detach() && noexcept
         {
-- 
2.43.0


From e225cb2ad987cc3bfb7c5c7ebbc885c4efdd6c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 10/37] fix: write metric values with all their digits

---
 kio/metrics/serializer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kio/metrics/serializer.cpp b/kio/metrics/serializer.cpp
index ca5e09b..9e328e5 100644
--- a/kio/metrics/serializer.cpp
+++ b/kio/metrics/serializer.cpp
@@ -3,6 +3,7 @@
 //
 #include "kio/metrics/serializer.h"
 
+#include <format>
 #include <sstream>
 
 #include "kio/metrics/utils.h"
@@ -32,7 +33,8 @@ namespace kio
                     }
                     ss << "}";
                 }
-                ss << " " << sample.value << "\n";
+                // Shortest text that reads back as the same value: the stream default keeps only six digits
+                ss << " " << std::format("{}", sample.value) << "\n";
             }
             // Extra newline between families
             ss << "\n";
-- 
2.43.0


From 20dad4ff784a08f45582f08939effc6c01f87234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 11/37] fix: one metric family per name and scrape

---
 kio/metrics/model.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kio/metrics/model.h b/kio/metrics/model.h
index a6fc510..655ed7d 100644
--- a/kio/metrics/model.h
+++ b/kio/metrics/model.h
@@ -69,6 +69,11 @@ namespace kio
          */
         MetricFamily& BuildFamily(std::string name, std::string help, const MetricType type, const size_t max_samples = kMetricsMaxSamples)
         {
+            // Collectors of several workers report the same family: it may appear only once in a scrape
+            for (auto& family: families_)
+            {
+                if (family.name == name) return family;
+            }
             families_.emplace_back(MetricFamily{max_samples, std::move(name), std::move(help), type, {}});
             return families_.back();
         }
-- 
2.43.0


From 7b6eee6b709ec248e63ccb4405c8768bbe93afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 12/37] fix: escape the help text of metrics

---
 kio/metrics/serializer.cpp |  2 +-
 kio/metrics/utils.h        | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/kio/metrics/serializer.cpp b/kio/metrics/serializer.cpp
index 9e328e5..8e6c380 100644
--- a/kio/metrics/serializer.cpp
+++ b/kio/metrics/serializer.cpp
@@ -15,7 +15,7 @@ namespace kio
         std::ostringstream ss;
         for (const auto& family: snapshot.GetFamilies())
         {
-            ss << "# HELP " << family.name << " " << family.help << "\n";
+            ss << "# HELP " << family.name << " " << SanitizeHelp(family.help) << "\n";
             ss << "# TYPE " << family.name << " " << ToString(family.type) << "\n";
 
             for (const auto& sample: family.samples)
diff --git a/kio/metrics/utils.h b/kio/metrics/utils.h
index d67ed29..0e15f34 100644
--- a/kio/metrics/utils.h
+++ b/kio/metrics/utils.h
@@ -56,6 +56,27 @@ namespace kio
         return out;
     }
 
+    inline std::string SanitizeHelp(const std::string& help)
+    {
+        std::string out;
+        for (const char c: help)
+        {
+            switch (c)
+            {
+                case '\\':
+                    out += "\\\\";
+                    break;
+                case '\n':
+                    out += "\\n";
+                    break;
+                default:
+                    out += c;
+                    break;
+            }
+        }
+        return out;
+    }
+
     inline std::string SanitizeLabelKey(const std::string& key)
     {
         std::string out;
-- 
2.43.0


From 56b8c4016de949407fb3e7dfebf6ce39d9acae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 13/37] fix: AsyncBaton::wait_for finishes only after every
 pending resume of its coroutine

When notify() and the timer completion coincided, the timer resumed the wait
while the post of notify() was still queued; the wait finished, its frame was
destroyed, and the queued post resumed the dead frame. The slot of the timer
tells which of the two resumed the wait; in the timer's case the wait now
consumes the pending post before it finishes. The same holds when no submission
entry is available. The timer is submitted at once, because its timespec lives
in the frame and the kernel reads it at submission.
---
 kio/sync/baton.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/kio/sync/baton.h b/kio/sync/baton.h
index eb03e29..bbf5e28 100644
--- a/kio/sync/baton.h
+++ b/kio/sync/baton.h
@@ -132,6 +132,7 @@ namespace kio::sync
                 __kernel_timespec ts{};
                 bool timer_submitted = false;
                 bool baton_signaled = false;
+                bool post_pending = false;
                 std::atomic<bool> resumed{false};
 
                 bool await_ready() noexcept
@@ -178,15 +179,20 @@ namespace kio::sync
                             return false;
                         }
 
-                        // Baton was signaled while we were cleaning up
+                        // Baton was signaled while we were cleaning up: notify() posts us, so
+                        // stay suspended until that post resumes us
                         baton_signaled = true;
-                        return false;
+                        return true;
                     }
 
                     io_uring_prep_timeout(sqe, &ts, 0, 0);
                     io_uring_sqe_set_data64(sqe, timer_op_id);
                     timer_submitted = true;
 
+                    // The kernel reads ts when the entry is submitted. The baton may resume us, and end
+                    // the life of ts, before the event loop does that.
+                    io_uring_submit(&io::internal::WorkerAccess::get_ring(baton.owner_));
+
                     return true;
                 }
 
@@ -205,9 +211,10 @@ namespace kio::sync
                         return;
                     }
 
-                    // Determine who resumed us by checking baton state
+                    // Determine who resumed us: the slot holds 0 until the timer CQE is processed. (The
+                    // baton state cannot tell: it may be SET by now although the timer resumed us.)
 
-                    if (baton.state_.load(std::memory_order_acquire) == SET)
+                    if (io::internal::WorkerAccess::get_op_result(baton.owner_, timer_op_id) == 0)
                     {
                         // Baton signaled us
                         baton_signaled = true;
@@ -235,10 +242,10 @@ namespace kio::sync
                         }
                         else
                         {
-                            // CAS failed - baton was SET concurrently
-                            // Report timeout (we're processing timer CQE)
-                            // Second resume from the task queue will be caught by double-resume check
-                            baton_signaled = false;
+                            // CAS failed - baton was SET concurrently, so notify() posts us as well.
+                            // wait_for() consumes that second resume before it finishes.
+                            baton_signaled = true;
+                            post_pending = true;
                         }
                         // worker will release timer_op_id when processing the CQE
                     }
@@ -252,6 +259,7 @@ namespace kio::sync
 
             TimeoutState state{*this, timeout};
             co_await state;
+            if (state.post_pending) co_await std::suspend_always{};
             co_return state.was_signaled();
         }
 
-- 
2.43.0


From bf935f549c49bcdd2bb4f8d138468239b6ba65d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 14/37] fix: do not leave an unprepared submission entry behind
 when the op pool is exhausted

IoUringAwaitable took a submission entry before it asked for an op id. When the
pool is exhausted, get_op_id() throws and the entry is submitted with whatever
operation used it last.
---
 kio/core/uring_awaitable.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kio/core/uring_awaitable.h b/kio/core/uring_awaitable.h
index 42e96bb..e4857f3 100644
--- a/kio/core/uring_awaitable.h
+++ b/kio/core/uring_awaitable.h
@@ -39,16 +39,20 @@ namespace kio::io
                    "kio::async_* operation was called from the wrong thread. "
                    "You must co_await SwitchToWorker(worker) at the start of your task.");
 
+            // allocate an op id first: this may throw, and a submission entry that was taken
+            // but not prepared would submit the stale operation left in it
+            op_id_ = internal::WorkerAccess::get_op_id(worker_);
+
             sqe_ = io_uring_get_sqe(&internal::WorkerAccess::get_ring(worker_));
             if (sqe_ == nullptr)
             {
                 // no SQE available right now; return error immediately
+                internal::WorkerAccess::release_op_id(worker_, op_id_);
                 immediate_result_ = -EAGAIN;
                 return false;
             }
 
-            // allocate an op id and record the coroutine handle
-            op_id_ = internal::WorkerAccess::get_op_id(worker_);
+            // record the coroutine handle
             internal::WorkerAccess::init_op_slot(worker_, op_id_, h);
 
             // Call prep sqe
-- 
2.43.0


From a24bffd8b571177453fa7ca0f3203b874bc41c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 15/37] fix: grow the op pool by at least one slot

With a small pool or growth factor the product rounds down to the current size
and get_op_id() takes an id from an empty list.
---
 kio/core/worker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 6ae1476..e933bd5 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -72,7 +72,8 @@ namespace kio::io
         }
 
         const auto cur_size = op_data_pool_.size();
-        size_t new_size = std::min(static_cast<size_t>(static_cast<float>(cur_size) * config_.op_slots_growth_factor), config_.max_op_slots);
+        // grow by at least one slot, also when the factor rounds down to the current size
+        const size_t new_size = std::min(std::max(static_cast<size_t>(static_cast<float>(cur_size) * config_.op_slots_growth_factor), cur_size + 1), config_.max_op_slots);
         ALOG_DEBUG("Growing op_data_pool_ from {} to {}", cur_size, new_size);
         op_data_pool_.resize(new_size);
         for (size_t i = cur_size; i < new_size; ++i)
-- 
2.43.0


From 447556c21d944e2e54fe0bcfd5fd0e73d59f4aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 16/37] fix: signal the start and the end of a worker once

When the init callback or the loop throws, the init latch was counted down a
second time, and every later wait_ready() blocked for ever.
---
 kio/core/worker.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker.h b/kio/core/worker.h
index c5ab448..9ef8fca 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -201,8 +201,15 @@ namespace kio::io
          * @return bool
          */
         [[nodiscard]] bool is_on_worker_thread() const;
-        void signal_init_complete() { init_latch_.count_down(); }
-        void signal_shutdown_complete() { shutdown_latch_.count_down(); }
+        // A failing worker signals both, whatever it signalled before: a latch must not go below zero
+        void signal_init_complete()
+        {
+            if (!init_latch_.try_wait()) init_latch_.count_down();
+        }
+        void signal_shutdown_complete()
+        {
+            if (!shutdown_latch_.try_wait()) shutdown_latch_.count_down();
+        }
 
         /**
          *@brief Gets a std::jthread stop token linked to the worker thread
-- 
2.43.0


From 03df84676abeb301d074be2a7b9eb923bf84ade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 17/37] fix: do not close descriptor 0 when a worker that never
 ran is destroyed

---
 kio/core/worker.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index e933bd5..34e076a 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -106,6 +106,9 @@ namespace kio::io
     {
         config_.check();
 
+        // no ring yet: the destructor must not close descriptor 0
+        ring_.ring_fd = -1;
+
         wakeup_fd_ = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
         if (wakeup_fd_ < 0)
         {
@@ -128,6 +131,7 @@ namespace kio::io
 
         if (const int ret = io_uring_queue_init_params(static_cast<int>(config_.uring_queue_depth), &ring_, &params); ret < 0)
         {
+            ring_.ring_fd = -1;
             throw std::system_error(-ret, std::system_category(), "io_uring_queue_init failed");
         }
 
-- 
2.43.0


From 84945ed1690342d22ea28f490e0ca97469d417cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 18/37] fix: do not truncate the length of a read or write to
 32 bits

A buffer of 4 GiB was read with length 0, which reads as the end of the file.
---
 kio/core/worker.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 34e076a..5f94112 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -5,6 +5,7 @@
 
 #include <fcntl.h>
 #include <chrono>
+#include <limits>
 #include <liburing.h>
 #include <sys/eventfd.h>
 #include <sys/utsname.h>
@@ -14,6 +15,9 @@
 
 namespace kio::io
 {
+    // The length of a submission entry has 32 bits: a longer buffer is transferred in parts
+    static unsigned clamp_length(const size_t len) { return static_cast<unsigned>(std::min<size_t>(len, std::numeric_limits<int>::max())); }
+
     void Worker::check_kernel_version()
     {
         utsname buf{};
@@ -410,7 +414,7 @@ namespace kio::io
 
     Task<Result<int>> Worker::async_read_at(const int client_fd, std::span<char> buf, const uint64_t offset)
     {
-        auto prep = [](io_uring_sqe *sqe, const int fd, char *b, const size_t len, const uint64_t off) { io_uring_prep_read(sqe, fd, b, static_cast<int>(len), off); };
+        auto prep = [](io_uring_sqe *sqe, const int fd, char *b, const size_t len, const uint64_t off) { io_uring_prep_read(sqe, fd, b, clamp_length(len), off); };
         int ret = co_await make_uring_awaitable(*this, prep, client_fd, buf.data(), buf.size(), offset);
         if (ret < 0)
         {
@@ -467,7 +471,7 @@ namespace kio::io
 
     Task<Result<int>> Worker::async_write_at(const int client_fd, std::span<const char> buf, const uint64_t offset)
     {
-        auto prep = [](io_uring_sqe *sqe, const int fd, const char *b, const size_t len, const uint64_t off) { io_uring_prep_write(sqe, fd, b, static_cast<int>(len), off); };
+        auto prep = [](io_uring_sqe *sqe, const int fd, const char *b, const size_t len, const uint64_t off) { io_uring_prep_write(sqe, fd, b, clamp_length(len), off); };
         int ret = co_await make_uring_awaitable(*this, prep, client_fd, buf.data(), buf.size(), offset);
         if (ret < 0)
         {
-- 
2.43.0


From 32d93cbad3ae13d161eca71947b9872ff6ce516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:17 +0000
Subject: [PATCH 19/37] fix: signal the shutdown of a worker after its last use

---
 kio/core/worker.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 5f94112..b1085c0 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -191,9 +191,6 @@ namespace kio::io
         }
 
         ALOG_INFO("Worker {} loop shut down completed", this->id_);
-
-        // signal shutdown for anyone waiting
-        signal_shutdown_complete();
     }
 
     // The main per-thread body that used to be inside the thread lambda.
@@ -227,6 +224,9 @@ namespace kio::io
             ALOG_INFO("Worker {} exited event loop", id_);
 
             drain_completions();
+
+            // signal shutdown for anyone waiting: they may destroy the worker at once
+            signal_shutdown_complete();
         }
         catch (const std::exception &e)
         {
-- 
2.43.0


From 2994651c7e80d106802f124a9f96f3da2715b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:59 +0000
Subject: [PATCH 20/37] fix: report the reason when the wake-up of a worker
 cannot be written

---
 kio/core/worker.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index b1085c0..0812b3c 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -369,11 +369,12 @@ namespace kio::io
     {
         constexpr uint64_t value = 1;
         const auto ret = ::write(wakeup_fd_, &value, sizeof(value));
+        const int err = errno;
         if (ret != sizeof(value))
         {
-            ALOG_ERROR("Failed to write to wakeup eventfd: {}", strerror(errno));
+            ALOG_ERROR("Failed to write to wakeup eventfd: {}", strerror(err));
         }
-        check_syscall_return(static_cast<int>(ret));
+        check_syscall_return(ret < 0 ? -err : static_cast<int>(ret));
         ALOG_TRACE("Worker {} wrote to wakeup fd", id_);
     }
 
-- 
2.43.0


From c398f52b57807f7edb5b42b76a039e426729d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:55 +0000
Subject: [PATCH 21/37] fix: close the data file of a compaction when its hint
 file cannot be opened

---
 bitcask/src/compactor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 9b57872..5d7331c 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -27,9 +27,8 @@ namespace bitcask::compactor
         const auto hint_path = detail::get_hint_file_path(ctx, ctx.dst_file_id);
 
         const int data_fd = KIO_TRY(co_await ctx.io_worker.async_openat(data_path, ctx.config.write_flags, ctx.config.file_mode));
-        const int hint_fd = KIO_TRY(co_await ctx.io_worker.async_openat(hint_path, ctx.config.write_flags, ctx.config.file_mode));
-
         FileHandle data_handle(data_fd);
+        const int hint_fd = KIO_TRY(co_await ctx.io_worker.async_openat(hint_path, ctx.config.write_flags, ctx.config.file_mode));
         FileHandle hint_handle(hint_fd);
 
         // Pre-allocate
-- 
2.43.0


From ebd2fc9d67a72472d25c5de83a4b59ed32d5cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:20 +0000
Subject: [PATCH 22/37] fix: tell the kernel how much room there is for the
 address of an accepted peer

---
 kio/core/worker.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kio/core/worker.h b/kio/core/worker.h
index 9ef8fca..2f0e653 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -269,7 +269,12 @@ namespace kio::io
         // Io methods
         //=========================================================
         Task<Result<int>> async_accept(int server_fd, sockaddr* addr, socklen_t* addrlen);
-        Task<Result<int>> async_accept(const net::Socket& socket, net::SocketAddress& addr) { return async_accept(socket.get(), reinterpret_cast<sockaddr*>(&addr.addr), &addr.addrlen); }
+        Task<Result<int>> async_accept(const net::Socket& socket, net::SocketAddress& addr)
+        {
+            // The kernel reads the room for the address of the peer from here
+            addr.addrlen = sizeof(addr.addr);
+            return async_accept(socket.get(), reinterpret_cast<sockaddr*>(&addr.addr), &addr.addrlen);
+        }
         /**
          * @brief Asynchronously reads data from a streaming file descriptor (e.g., socket, pipe).
          *
-- 
2.43.0


From b9ed2eb2701ad16e37b3ef59c604bd8bf8f1c7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:21 +0000
Subject: [PATCH 23/37] fix: fill in the ip and port of a resolved address

---
 kio/net/net.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kio/net/net.cpp b/kio/net/net.cpp
index f1eb186..4a71f47 100644
--- a/kio/net/net.cpp
+++ b/kio/net/net.cpp
@@ -28,6 +28,7 @@ namespace kio::net
             addr4->sin_family = AF_INET;
             addr4->sin_port = htons(port);
             result.addrlen = sizeof(sockaddr_in);
+            result.populate_from_storage();
             return result;
         }
 
@@ -39,6 +40,7 @@ namespace kio::net
             addr6->sin6_family = AF_INET6;
             addr6->sin6_port = htons(port);
             result.addrlen = sizeof(sockaddr_in6);
+            result.populate_from_storage();
             return result;
         }
 
@@ -63,6 +65,7 @@ namespace kio::net
         std::memcpy(&result.addr, res->ai_addr, res->ai_addrlen);
 
         freeaddrinfo(res);
+        result.populate_from_storage();
         return result;
     }
 
-- 
2.43.0


From 56f5d9264e2bb40617f271fa7e46889e13e830d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:21 +0000
Subject: [PATCH 24/37] fix: let a TLS listener bind to addresses of other
 families than IPv4

---
 kio/tls/listener.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kio/tls/listener.cpp b/kio/tls/listener.cpp
index d14e5db..05eab48 100644
--- a/kio/tls/listener.cpp
+++ b/kio/tls/listener.cpp
@@ -15,7 +15,13 @@ namespace kio::tls
 {
     Result<TlsListener> TlsListener::bind(Worker& worker, const ListenerConfig& config, TlsContext& ctx)
     {
-        auto fd_res = create_tcp_fd(AF_INET);
+        auto addr_res = resolve_address(config.bind_address, config.port);
+        if (!addr_res.has_value())
+        {
+            return std::unexpected(addr_res.error());
+        }
+
+        auto fd_res = create_tcp_fd(addr_res->family);
         if (!fd_res.has_value())
         {
             return std::unexpected(fd_res.error());
@@ -39,12 +45,6 @@ namespace kio::tls
             ::setsockopt(socket.get(), SOL_SOCKET, SO_REUSEPORT, &opt, sizeof(opt));
         }
 
-        auto addr_res = resolve_address(config.bind_address, config.port);
-        if (!addr_res.has_value())
-        {
-            return std::unexpected(addr_res.error());
-        }
-
         // now bind and listen
         if (auto res = listen_on_sock(socket.get(), addr_res.value(), config.backlog); !res.has_value())
         {
-- 
2.43.0


From 45fb4e93184580d232d96fe2d233e2c590db485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:56 +0000
Subject: [PATCH 25/37] fix: fail a TLS handshake that the stop of the worker
 interrupts

---
 kio/tls/stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index ae280c9..ad7c262 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -81,7 +81,8 @@ namespace kio::tls
             }
         }
 
-        co_return {};
+        ALOG_ERROR("TLS handshake: the worker stopped before it completed");
+        co_return std::unexpected(Error{ErrorCategory::Tls, kTlsHandshakeFailed});
     }
 
     Task<Result<void>> TlsStream::async_handshake(std::string_view hostname)
-- 
2.43.0


From 57135a8feb24254c10a4ffbc0fb6b561769c6d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:56 +0000
Subject: [PATCH 26/37] fix: do not report a handshake as done whose kernel TLS
 failed

---
 kio/tls/stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index ad7c262..c01538b 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -87,7 +87,7 @@ namespace kio::tls
 
     Task<Result<void>> TlsStream::async_handshake(std::string_view hostname)
     {
-        if (handshake_done_) co_return {};
+        if (handshake_done_ && ktls_active_) co_return {};
 
         if (role_ == TlsRole::Client && !hostname.empty())
         {
-- 
2.43.0


From c5bb7e8fad02b2200faca312dd6234a42a4ed265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:56 +0000
Subject: [PATCH 27/37] fix: fail a TLS handshake whose host name cannot be
 checked

---
 kio/tls/stream.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index c01538b..c7307f4 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -92,8 +92,11 @@ namespace kio::tls
         if (role_ == TlsRole::Client && !hostname.empty())
         {
             server_name_ = std::string(hostname);
-            SSL_set_tlsext_host_name(ssl_, server_name_.c_str());
-            SSL_set1_host(ssl_, server_name_.c_str());
+            if (SSL_set_tlsext_host_name(ssl_, server_name_.c_str()) != 1 || SSL_set1_host(ssl_, server_name_.c_str()) != 1)
+            {
+                ALOG_ERROR("Failed to set the host name: {}", detail::get_openssl_error());
+                co_return std::unexpected(Error{ErrorCategory::Tls, kTlsHandshakeFailed});
+            }
         }
 
         ALOG_DEBUG("Starting TLS handshake for fd={}", socket_.get());
-- 
2.43.0


From be408fff4f69343ca46eb3be1b6f8a62d31f4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:56 +0000
Subject: [PATCH 28/37] fix: clear the error queue of OpenSSL before the calls
 whose errors are looked up

---
 kio/tls/stream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index c7307f4..6cc69d3 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -47,6 +47,8 @@ namespace kio::tls
 
         while (!st.stop_requested())
         {
+            // What SSL_get_error() tells depends on the errors left in the queue of this thread
+            ERR_clear_error();
             const int ret = (role_ == TlsRole::Client) ? SSL_connect(ssl_) : SSL_accept(ssl_);
             if (ret == 1) co_return {};
 
@@ -180,6 +182,7 @@ namespace kio::tls
 
         while (!st.stop_requested() && iterations++ < kMaxShutdownIterations)
         {
+            ERR_clear_error();
             const int ret = SSL_shutdown(ssl_);
 
             if (ret == 1)
-- 
2.43.0


From 98f45061624b629e2ea95e6f2cf419781f3399ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:56 +0000
Subject: [PATCH 29/37] fix: keep the address of the peer when a TLS stream is
 moved

---
 kio/tls/stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 6cc69d3..f2cc871 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -35,7 +35,7 @@ namespace kio::tls
 
     TlsStream::TlsStream(TlsStream&& other) noexcept :
         worker_(other.worker_), ctx_(other.ctx_), socket_(std::move(other.socket_)), ssl_(std::exchange(other.ssl_, nullptr)), role_(other.role_), server_name_(std::exchange(other.server_name_, "")),
-        handshake_done_(other.handshake_done_), ktls_active_(other.ktls_active_)
+        peer_addr_(std::move(other.peer_addr_)), handshake_done_(other.handshake_done_), ktls_active_(other.ktls_active_)
     {
         other.handshake_done_ = false;
         other.ktls_active_ = false;
-- 
2.43.0


From 0276537cac5c4938bf9071c72a10008730948199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:56 +0000
Subject: [PATCH 30/37] fix: report ALPN protocols that cannot be set

---
 kio/tls/context.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/kio/tls/context.cpp b/kio/tls/context.cpp
index 376052a..e400a74 100644
--- a/kio/tls/context.cpp
+++ b/kio/tls/context.cpp
@@ -179,10 +179,22 @@ namespace kio::tls
             std::vector<unsigned char> protos;
             for (const auto& p: config.alpn_protocols)
             {
+                if (p.empty() || p.length() > 255)
+                {
+                    ALOG_ERROR("Invalid ALPN protocol name of length {}", p.length());
+                    SSL_CTX_free(ctx);
+                    return std::unexpected(Error{ErrorCategory::Tls, kTlsContextCreationFailed});
+                }
                 protos.push_back(static_cast<unsigned char>(p.length()));
                 protos.insert(protos.end(), p.begin(), p.end());
             }
-            SSL_CTX_set_alpn_protos(ctx, protos.data(), protos.size());
+            // Unlike the others, this returns 0 on success
+            if (SSL_CTX_set_alpn_protos(ctx, protos.data(), protos.size()) != 0)
+            {
+                ALOG_ERROR("Failed to set ALPN protocols: {}", detail::get_openssl_error());
+                SSL_CTX_free(ctx);
+                return std::unexpected(Error{ErrorCategory::Tls, kTlsContextCreationFailed});
+            }
         }
 
         return TlsContext{ctx, role == TlsRole::Server};
-- 
2.43.0


From 859c54a383253c9f8f1e84415d5caca541b1f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:19 +0000
Subject: [PATCH 31/37] fix: resolve_endpoint read host names beyond their end

---
 kio/net/net.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kio/net/net.cpp b/kio/net/net.cpp
index 4a71f47..d73388d 100644
--- a/kio/net/net.cpp
+++ b/kio/net/net.cpp
@@ -94,10 +94,12 @@ namespace kio::net
     {
         SocketAddress out;
         out.port = port;
+        // host need not end with a zero
+        const std::string host_str(host);
 
         // Try IPv4
         sockaddr_in v4{};
-        if (inet_pton(AF_INET, host.data(), &v4.sin_addr) == 1)
+        if (inet_pton(AF_INET, host_str.c_str(), &v4.sin_addr) == 1)
         {
             v4.sin_family = AF_INET;
             v4.sin_port = htons(port);
@@ -110,7 +112,7 @@ namespace kio::net
 
         // Try IPv6
         sockaddr_in6 v6{};
-        if (inet_pton(AF_INET6, host.data(), &v6.sin6_addr) == 1)
+        if (inet_pton(AF_INET6, host_str.c_str(), &v6.sin6_addr) == 1)
         {
             v6.sin6_family = AF_INET6;
             v6.sin6_port = htons(port);
@@ -128,7 +130,7 @@ namespace kio::net
         hints.ai_socktype = SOCK_STREAM;
 
         addrinfo* res;
-        if (getaddrinfo(host.data(), nullptr, &hints, &res) != 0) return std::unexpected(Error::from_errno(ENOENT));
+        if (getaddrinfo(host_str.c_str(), nullptr, &hints, &res) != 0) return std::unexpected(Error::from_errno(ENOENT));
 
         // Take the first result
         std::memcpy(&out.addr, res->ai_addr, res->ai_addrlen);
-- 
2.43.0


From eddcd084a62b343ec2a40dfdef7c7dc88ce5a9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:14 +0000
Subject: [PATCH 32/37] fix: bitcask, reject an entry whose length field wraps
 around instead of reading past the buffer

---
 bitcask/src/entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcask/src/entry.cpp b/bitcask/src/entry.cpp
index 5f86e63..b73707a 100644
--- a/bitcask/src/entry.cpp
+++ b/bitcask/src/entry.cpp
@@ -67,7 +67,7 @@ namespace bitcask
         const auto crc = read_le<uint32_t>(buffer.data());
         const auto size = read_le<uint64_t>(buffer.data() + 4);
 
-        if (buffer.size() < kEntryFixedHeaderSize + size)
+        if (buffer.size() - kEntryFixedHeaderSize < size)
         {
             return std::unexpected(Error{ErrorCategory::Serialization, kIoNeedMoreData});
         }
-- 
2.43.0


From 069deed47ac7680cf044e0a0b795feb980035e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:35 +0000
Subject: [PATCH 33/37] fix: bitcask, copy the location of a value before
 suspending, the key directory may change meanwhile

---
 bitcask/src/partition.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 013ab3a..509afa1 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -69,7 +69,8 @@ Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string&
         co_return std::nullopt;
     }
 
-    const auto& loc = it->second;
+    // copy: the entry may be updated or erased while this coroutine is suspended
+    const ValueLocation loc = it->second;
     const int fd = KIO_TRY(co_await find_fd(loc.file_id));
 
     ALOG_TRACE("Reading entry from file {} at offset {} with size {}", loc.file_id, loc.offset, loc.total_size);
-- 
2.43.0


From 32191c2ba9bc5b341aca21d58fbe6003efd65d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:35 +0000
Subject: [PATCH 34/37] fix: bitcask, an active file with descriptor 0 was
 removed instead of sealed

---
 bitcask/src/partition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 509afa1..c530abe 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -569,7 +569,7 @@ Task<Result<void>> Partition::seal_active_file()
     const int active_fd = active_file_->handle().get();
     uint64_t actual_file_id = active_file_id();
 
-    if (active_fd > 0)
+    if (active_fd >= 0)
     {
         KIO_TRY(co_await worker_.async_fsync(active_fd));
 
-- 
2.43.0


From 8736861a3e2de87e75c4dca5955c9f6eeb1d1143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:17 +0000
Subject: [PATCH 35/37] fix: bitcask, sync the compacted copies before the
 source file is removed

---
 bitcask/src/compactor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 5d7331c..0da914b 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -83,6 +83,10 @@ namespace bitcask::compactor
 
         ctx.stats.files_compacted_total++;
 
+        // The copies must be on disk before the source is removed
+        KIO_TRY(co_await ctx.io_worker.async_fsync(dst_data_fd));
+        KIO_TRY(co_await ctx.io_worker.async_fsync(dst_hint_fd));
+
         KIO_TRY(co_await detail::cleanup_source_files(ctx, src_file_id));
 
         co_return {};
-- 
2.43.0


From e430329baf0c8e4b85bf2d75ef0eda2aafe022f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:17 +0000
Subject: [PATCH 36/37] fix: bitcask, a write that fails while a file is
 compacted fails the compaction instead of ending the file early

---
 bitcask/src/compactor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 0da914b..a17d25a 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -148,6 +148,12 @@ namespace bitcask::compactor
 
                 if (!parse_result.has_value())
                 {
+                    // A failed write is not the end of the data: keep the source file
+                    if (parse_result.error().category != ErrorCategory::Serialization)
+                    {
+                        co_return std::unexpected(parse_result.error());
+                    }
+
                     // Logic: If we encounter a deserialization error, it likely means we hit the zero-filled
                     // or garbage tail of an unsealed file. We stop processing this file but DO NOT return an error.
                     // This allows the compaction to proceed with the valid entries we've found so far.
-- 
2.43.0


From bb363f44755acc40c0750b7a5caa52b7cb85ff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:35 +0000
Subject: [PATCH 37/37] fix: keep a cached descriptor open while it is read
 from

Two coroutines that missed on the same file replaced each other's entry of FDCache, which closed
a descriptor that was still used, and an eviction or removal closed the descriptor of a pending
read. The handle is shared with the reader, and the cache is looked at again after the open.
---
 bitcask/include/fd_cache.h  |  9 ++++++---
 bitcask/include/partition.h |  2 +-
 bitcask/src/fd_cache.cpp    | 22 +++++++++++++++-------
 bitcask/src/partition.cpp   |  6 +++---
 4 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/bitcask/include/fd_cache.h b/bitcask/include/fd_cache.h
index 72e2c7a..7abb93b 100644
--- a/bitcask/include/fd_cache.h
+++ b/bitcask/include/fd_cache.h
@@ -5,6 +5,7 @@
 #ifndef KIO_FD_CACHE_H
 #define KIO_FD_CACHE_H
 #include <list>
+#include <memory>
 
 #include "kio/core/worker.h"
 #include "file_handle.h"
@@ -25,9 +26,11 @@ namespace bitcask
         explicit FDCache(kio::io::Worker& worker, size_t max_files = 100) : worker_(worker), max_open_files_(max_files) {}
 
         /**
-         * @brief Get FD for file_id, opening if not cached
+         * @brief Get the handle for file_id, opening the file if not cached
+         *
+         * The caller shares the handle: the descriptor stays open while it is held, whatever is evicted meanwhile.
          */
-        kio::Task<kio::Result<int>> get_or_open(uint64_t file_id, const std::filesystem::path& path);
+        kio::Task<kio::Result<std::shared_ptr<const FileHandle>>> get_or_open(uint64_t file_id, const std::filesystem::path& path);
         /**
          * @brief Remove file from cache (e.g., after compaction)
          */
@@ -56,7 +59,7 @@ namespace bitcask
     private:
         struct CacheEntry
         {
-            FileHandle handle;
+            std::shared_ptr<const FileHandle> handle;
             std::filesystem::path path;
             std::list<uint64_t>::iterator lru_iter;
         };
diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 4e0a8f3..a495087 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -44,7 +44,7 @@ namespace bitcask
         // Helper methods
         kio::Task<kio::Result<DataEntry>> async_read_entry(int fd, uint64_t offset, uint32_t size) const;
         kio::Task<kio::Result<void>> rotate_active_file();
-        kio::Task<kio::Result<int>> find_fd(uint64_t file_id);
+        kio::Task<kio::Result<std::shared_ptr<const FileHandle>>> find_fd(uint64_t file_id);
 
         // Start the loop in the background if a compaction flag is set
         kio::DetachedTask compaction_loop();
diff --git a/bitcask/src/fd_cache.cpp b/bitcask/src/fd_cache.cpp
index 2040b43..e998d75 100644
--- a/bitcask/src/fd_cache.cpp
+++ b/bitcask/src/fd_cache.cpp
@@ -6,35 +6,43 @@
 
 namespace bitcask
 {
-    kio::Task<kio::Result<int>> FDCache::get_or_open(uint64_t file_id, const std::filesystem::path& path)
+    kio::Task<kio::Result<std::shared_ptr<const FileHandle>>> FDCache::get_or_open(uint64_t file_id, const std::filesystem::path& path)
     {
         // Cache hit
         if (const auto it = cache_.find(file_id); it != cache_.end())
         {
             stats_.hits++;
             touch(file_id);
-            co_return it->second.handle.get();
+            co_return it->second.handle;
         }
 
         // Cache miss
         stats_.misses++;
 
+        // Open file
+        const int fd = KIO_TRY(co_await worker_.async_openat(path, O_RDONLY, 0));
+        auto handle = std::make_shared<const FileHandle>(fd);
+
+        // Another coroutine may have opened it while this one was suspended
+        if (const auto it = cache_.find(file_id); it != cache_.end())
+        {
+            touch(file_id);
+            co_return it->second.handle;
+        }
+
         // Evict if at capacity
         if (cache_.size() >= max_open_files_)
         {
             evict_oldest();
         }
 
-        // Open file
-        int fd = KIO_TRY(co_await worker_.async_openat(path, O_RDONLY, 0));
-
         // Add to cache
         lru_list_.push_front(file_id);
-        cache_[file_id] = CacheEntry{FileHandle(fd), path, lru_list_.begin()};
+        cache_[file_id] = CacheEntry{handle, path, lru_list_.begin()};
 
         ALOG_DEBUG("FdCache: Opened file {} (cache size: {})", file_id, cache_.size());
 
-        co_return fd;
+        co_return handle;
     }
 
     void FDCache::remove(uint64_t file_id)
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index c530abe..5478bd1 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -71,10 +71,10 @@ Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string&
 
     // copy: the entry may be updated or erased while this coroutine is suspended
     const ValueLocation loc = it->second;
-    const int fd = KIO_TRY(co_await find_fd(loc.file_id));
+    const auto handle = KIO_TRY(co_await find_fd(loc.file_id));
 
     ALOG_TRACE("Reading entry from file {} at offset {} with size {}", loc.file_id, loc.offset, loc.total_size);
-    DataEntry entry = KIO_TRY(co_await async_read_entry(fd, loc.offset, loc.total_size));
+    DataEntry entry = KIO_TRY(co_await async_read_entry(handle->get(), loc.offset, loc.total_size));
 
     if (entry.is_tombstone())
     {
@@ -129,7 +129,7 @@ Task<Result<void>> Partition::del(const std::string& key)
 }
 
 
-Task<Result<int>> Partition::find_fd(const uint64_t file_id)
+Task<Result<std::shared_ptr<const FileHandle>>> Partition::find_fd(const uint64_t file_id)
 {
     // if file id is the active one, flush first
     if (file_id == active_file_->file_id())
-- 
2.43.0

