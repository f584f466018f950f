From 257c607438c10b5ea08251105113352883ba6f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 01/41] fix: queue indexes never wrap, a stalled thread can no
 longer win a compare exchange after the ring went round (ABA)

---
 src/include/fn_channel.h | 38 +++++++++++++++-----------------------
 src/include/fn_core.h    | 14 +++++++-------
 src/include/fn_data.h    | 10 ++++++----
 src/include/fn_load.h    | 21 ++++++++++++---------
 4 files changed, 40 insertions(+), 43 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index c49c8ab..b6f5eca 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -106,8 +106,8 @@ namespace FNLog
             bool empty_tick = true;
             do
             {
-                int old_idx = ring_buffer.proc_idx_.load(std::memory_order_acquire);
-                int next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
+                long long old_idx = ring_buffer.proc_idx_.load(std::memory_order_acquire);
+                long long next_idx = old_idx + 1;
                 if (old_idx == ring_buffer.write_idx_.load(std::memory_order_acquire))
                 {
                     //empty branch    
@@ -120,23 +120,14 @@ namespace FNLog
                     //only one thread get log. this branch will not hit.   
                     break;
                 }
-                auto& cur_log = ring_buffer.buffer_[old_idx];
+                auto& cur_log = ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN];
                 DispatchLog(logger, channel, cur_log);
                 cur_log.data_mark_ = 0;
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED, 1);
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED_BYTES, cur_log.content_len_);
                 flush_count ++;
                 empty_tick = false;
-                int write_id = ring_buffer.write_idx_.load(std::memory_order_acquire);
-                int proc_que_size = 0;
-                if (old_idx <= write_id)
-                {
-                    proc_que_size = write_id - old_idx;
-                }
-                else
-                {
-                    proc_que_size = write_id + RingBuffer::BUFFER_LEN - old_idx;
-                }
+                long long proc_que_size = ring_buffer.write_idx_.load(std::memory_order_acquire) - old_idx;
 
                 if (proc_que_size > AtomicLoadChannelLog(channel, CHANNEL_LOG_MAX_PROC_QUE_SIZE))
                 {
@@ -156,12 +147,12 @@ namespace FNLog
                 {
                     //set read index to proc index  
                     old_idx = ring_buffer.read_idx_.load(std::memory_order_acquire);
-                    next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
+                    next_idx = old_idx + 1;
                     if (old_idx == ring_buffer.proc_idx_.load(std::memory_order_acquire))
                     {
                         break;
                     }
-                    if (ring_buffer.buffer_[old_idx].data_mark_.load(std::memory_order_acquire) != MARK_INVALID)
+                    if (ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN].data_mark_.load(std::memory_order_acquire) != MARK_INVALID)
                     {
                         break;
                     }
@@ -452,17 +443,18 @@ namespace FNLog
                 {
                     break;
                 }
-                int old_idx = ring_buffer.hold_idx_.load(std::memory_order_acquire);
-                int hold_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
-                if (hold_idx == ring_buffer.read_idx_.load(std::memory_order_acquire))
+                long long old_idx = ring_buffer.hold_idx_.load(std::memory_order_acquire);
+                long long hold_idx = old_idx + 1;
+                if (hold_idx - ring_buffer.read_idx_.load(std::memory_order_acquire) >= RingBuffer::BUFFER_LEN)
                 {
                     break;
                 }
                 if (ring_buffer.hold_idx_.compare_exchange_strong(old_idx, hold_idx))
                 {
                     AtomicIncChannelLog(channel, CHANNEL_LOG_HOLD, 1);
-                    ring_buffer.buffer_[old_idx].data_mark_.store(MARK_HOLD, std::memory_order_release);
-                    return old_idx;
+                    int slot_idx = (int)(old_idx % RingBuffer::BUFFER_LEN);
+                    ring_buffer.buffer_[slot_idx].data_mark_.store(MARK_HOLD, std::memory_order_release);
+                    return slot_idx;
                 }
                 continue;
             }
@@ -501,13 +493,13 @@ namespace FNLog
 
         do
         {
-            int old_idx = ring_buffer.write_idx_.load(std::memory_order_acquire);
-            int next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
+            long long old_idx = ring_buffer.write_idx_.load(std::memory_order_acquire);
+            long long next_idx = old_idx + 1;
             if (old_idx == ring_buffer.hold_idx_.load(std::memory_order_acquire))
             {
                 break;
             }
-            if (ring_buffer.buffer_[old_idx].data_mark_.load(std::memory_order_acquire) != 2)
+            if (ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN].data_mark_.load(std::memory_order_acquire) != 2)
             {
                 break;
             }
diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 7e27e9d..d7494b2 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -153,15 +153,15 @@ namespace FNLog
         {
             RingBuffer& ring_buffer = logger.shm_->ring_buffers_[channel_id];
 
-            while (ring_buffer.read_idx_ != ring_buffer.write_idx_)
+            //drop all, the indexes keep increasing so a late compare exchange of this session always fails.
+            long long end_idx = ring_buffer.hold_idx_;
+            for (long long idx = ring_buffer.read_idx_; idx < end_idx; idx++)
             {
-                ring_buffer.buffer_[ring_buffer.read_idx_].data_mark_ = 0;
-                ring_buffer.read_idx_ = (ring_buffer.read_idx_ + 1) % RingBuffer::BUFFER_LEN;
+                ring_buffer.buffer_[idx % RingBuffer::BUFFER_LEN].data_mark_ = MARK_INVALID;
             }
-            ring_buffer.read_idx_ = 0;
-            ring_buffer.proc_idx_ = 0;
-            ring_buffer.write_idx_ = 0;
-            ring_buffer.hold_idx_ = 0;
+            ring_buffer.write_idx_ = end_idx;
+            ring_buffer.proc_idx_ = end_idx;
+            ring_buffer.read_idx_ = end_idx;
         }
         return 0;
     }
diff --git a/src/include/fn_data.h b/src/include/fn_data.h
index bc76703..41776c6 100644
--- a/src/include/fn_data.h
+++ b/src/include/fn_data.h
@@ -283,14 +283,16 @@ namespace FNLog
         static const int BUFFER_LEN = FN_LOG_MAX_LOG_QUEUE_SIZE;
         static_assert(BUFFER_LEN > 10, "ring queue size too little");
     public:
+        //the four indexes only increase (never wrap), the slot of index i is i % BUFFER_LEN.
+        //so a stale compare exchange can't succeed after the queue went round (ABA).
         char chunk_1_[CHUNK_SIZE];
-        std::atomic_int write_idx_;
+        std::atomic_llong write_idx_;
         char chunk_2_[CHUNK_SIZE];
-        std::atomic_int hold_idx_;
+        std::atomic_llong hold_idx_;
         char chunk_3_[CHUNK_SIZE];
-        std::atomic_int read_idx_;
+        std::atomic_llong read_idx_;
         char chunk_4_[CHUNK_SIZE];
-        std::atomic_int proc_idx_;
+        std::atomic_llong proc_idx_;
         char chunk_5_[CHUNK_SIZE];
         LogData buffer_[BUFFER_LEN];
         char chunk_6_[CHUNK_SIZE];
diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 8147776..a90031c 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -97,15 +97,17 @@ namespace FNLog
                 return E_SHM_VERSION_WRONG;
             }
 
-            if (shm->ring_buffers_[i].write_idx_ >= RingBuffer::BUFFER_LEN
-                || shm->ring_buffers_[i].write_idx_ < 0)
+            if (shm->ring_buffers_[i].read_idx_ < 0
+                || shm->ring_buffers_[i].write_idx_ < shm->ring_buffers_[i].read_idx_
+                || shm->ring_buffers_[i].hold_idx_ < shm->ring_buffers_[i].write_idx_
+                || shm->ring_buffers_[i].hold_idx_ - shm->ring_buffers_[i].read_idx_ >= RingBuffer::BUFFER_LEN)
             {
                 return E_SHM_VERSION_WRONG;
             }
 
             while (shm->ring_buffers_[i].write_idx_.load() != shm->ring_buffers_[i].hold_idx_.load())
             {
-                auto& log = shm->ring_buffers_[i].buffer_[shm->ring_buffers_[i].write_idx_];
+                auto& log = shm->ring_buffers_[i].buffer_[shm->ring_buffers_[i].write_idx_ % RingBuffer::BUFFER_LEN];
                 log.data_mark_ = 2;
                 log.priority_ = PRIORITY_FATAL;
                 std::string core_desc = "!!!core recover!!!";
@@ -116,20 +118,21 @@ namespace FNLog
                 log.content_[log.content_len_++] = '\n';
                 log.content_[log.content_len_] = '\0';
 
-                shm->ring_buffers_[i].write_idx_ = (shm->ring_buffers_[i].write_idx_ + 1) % RingBuffer::BUFFER_LEN;
+                shm->ring_buffers_[i].write_idx_++;
             }
             shm->ring_buffers_[i].hold_idx_ = shm->ring_buffers_[i].write_idx_.load();
 
-            if (shm->ring_buffers_[i].read_idx_ >= RingBuffer::BUFFER_LEN
-                || shm->ring_buffers_[i].read_idx_ < 0)
+            //already processed but not yet released.
+            while (shm->ring_buffers_[i].read_idx_.load() != shm->ring_buffers_[i].write_idx_.load()
+                && shm->ring_buffers_[i].buffer_[shm->ring_buffers_[i].read_idx_ % RingBuffer::BUFFER_LEN].data_mark_ == MARK_INVALID)
             {
-                return -10;
+                shm->ring_buffers_[i].read_idx_++;
             }
             shm->ring_buffers_[i].proc_idx_ = shm->ring_buffers_[i].read_idx_.load();
             if (shm->ring_buffers_[i].read_idx_ != 0 || shm->ring_buffers_[i].write_idx_ != 0)
             {
-                printf("attach shm key:<0x%llx> channel:<%d>, write:<%d>, read:<%d> \n", logger.shm_key_,
-                    i, shm->ring_buffers_[i].write_idx_.load(), (int)shm->ring_buffers_[i].read_idx_.load());
+                printf("attach shm key:<0x%llx> channel:<%d>, write:<%lld>, read:<%lld> \n", logger.shm_key_,
+                    i, (long long)shm->ring_buffers_[i].write_idx_.load(), (long long)shm->ring_buffers_[i].read_idx_.load());
             }
         }
         logger.shm_ = shm;
-- 
2.43.0


From 28a0f719ac2b8edece1f40ee2aad4619671c3780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 02/41] fix: clear abandoned reservations and stale slot marks
 of the last session before channels start

---
 src/include/fn_core.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index d7494b2..351a74b 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -27,6 +27,19 @@ namespace FNLog
     }
 
 
+    //a thread stopped between hold and push by the last stop may have left its reservation or a stale mark behind.
+    //only the published logs (recovered from shared memory) stay in the queue.
+    inline void ResetFreeSlots(RingBuffer& ring_buffer)
+    {
+        long long read_idx = ring_buffer.read_idx_;
+        long long write_idx = ring_buffer.write_idx_;
+        for (long long idx = write_idx; idx < read_idx + RingBuffer::BUFFER_LEN; idx++)
+        {
+            ring_buffer.buffer_[idx % RingBuffer::BUFFER_LEN].data_mark_ = MARK_INVALID;
+        }
+        ring_buffer.hold_idx_ = write_idx;
+    }
+
     inline int StartChannels(Logger& logger)
     {
         for (int channel_id = 0; channel_id < logger.shm_->channel_size_; channel_id++)
@@ -34,6 +47,7 @@ namespace FNLog
             static_assert(LogData::LOG_SIZE > Device::MAX_PATH_SYS_LEN * 2 + 100, "");
             Channel& channel = logger.shm_->channels_[channel_id];
             std::thread& thd = logger.async_threads[channel_id];
+            ResetFreeSlots(logger.shm_->ring_buffers_[channel_id]);
             switch (channel.channel_type_)
             {
             case CHANNEL_SYNC:
-- 
2.43.0


From 42c3644ad293ee4f2cd2eddc21ba6a1d4fad7857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 03/41] fix: hot update must not wait for the state lock,
 StopLogger holds it while joining the thread

---
 src/include/fn_load.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index a90031c..11058ef 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -326,7 +326,12 @@ namespace FNLog
         }
 
 
-        Logger::StateLockGuard state_guard(logger.state_lock_);
+        //StopLogger holds this lock while it joins the channel thread that runs here, never wait for it. 
+        std::unique_lock<Logger::StateLock> state_guard(logger.state_lock_, std::try_to_lock);
+        if (!state_guard.owns_lock())
+        {
+            return E_LOGGER_IN_USE;
+        }
         if (logger.logger_state_ != LOGGER_STATE_RUNNING)
         {
             return E_LOGGER_NOT_RUNNING;
-- 
2.43.0


From 7f80af169fd36c12ee18925dfbad52237be73b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:12 +0000
Subject: [PATCH 04/41] fix: stop writes the logs completed behind an
 unfinished one

---
 src/include/fn_channel.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index b6f5eca..1a52cae 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -256,6 +256,19 @@ namespace FNLog
 
         if (channel.channel_type_ == CHANNEL_ASYNC)
         {
+            //logs completed behind an unfinished one can't be published any more, don't lose them.
+            long long end_idx = ring_buffer.hold_idx_.load(std::memory_order_acquire);
+            for (long long idx = ring_buffer.read_idx_.load(std::memory_order_acquire); idx < end_idx; idx++)
+            {
+                auto& cur_log = ring_buffer.buffer_[idx % RingBuffer::BUFFER_LEN];
+                if (cur_log.data_mark_.load(std::memory_order_acquire) == MARK_READY)
+                {
+                    DispatchLog(logger, channel, cur_log);
+                    AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED, 1);
+                    AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED_BYTES, cur_log.content_len_);
+                    cur_log.data_mark_ = MARK_INVALID;
+                }
+            }
             channel.channel_state_ = CHANNEL_STATE_FINISH;
         }
     }
-- 
2.43.0


From 904c1219ba590f93643858bc1af3af9a1378bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:12 +0000
Subject: [PATCH 05/41] fix: stop and config/log access on a logger that was
 never loaded must not crash

---
 src/include/fn_core.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 351a74b..94c320a 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -183,6 +183,11 @@ namespace FNLog
 
     inline int StopLogger(Logger& logger)
     {
+        if (logger.shm_ == NULL)
+        {
+            printf("StopLogger error. logger not init %p.\n", logger.shm_);
+            return E_LOGGER_NOT_INIT;
+        }
         if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
         {
             printf("StopLogger error. channel size:<%d> invalid.\n", logger.shm_->channel_size_);
@@ -277,7 +282,7 @@ namespace FNLog
 
     inline long long GetChannelLog(Logger& logger, int channel_id, ChannelLogEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -291,7 +296,7 @@ namespace FNLog
 
     inline void SetChannelConfig(Logger& logger, int channel_id, ChannelConfigEnum field, long long val)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return;
         }
@@ -305,7 +310,7 @@ namespace FNLog
 
     inline long long GetDeviceLog(Logger& logger, int channel_id, int device_id, DeviceLogEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -323,7 +328,7 @@ namespace FNLog
 
     inline void SetDeviceConfig(Logger& logger, int channel_id, int device_id, DeviceConfigEnum field, long long val)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return;
         }
@@ -341,7 +346,7 @@ namespace FNLog
 
     inline long long GetDeviceConfig(Logger& logger, int channel_id, int device_id, DeviceConfigEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -359,7 +364,7 @@ namespace FNLog
 
     inline void BatchSetChannelConfig(Logger& logger, ChannelConfigEnum cce, long long v)
     {
-        for (int i = 0; i < logger.shm_->channel_size_; i++)
+        for (int i = 0; logger.shm_ != NULL && i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
             channel.config_fields_[cce] = v;
@@ -368,7 +373,7 @@ namespace FNLog
 
     inline void BatchSetDeviceConfig(Logger& logger, DeviceOutType out_type, DeviceConfigEnum dce, long long v)
     {
-        for (int i = 0; i < logger.shm_->channel_size_; i++)
+        for (int i = 0; logger.shm_ != NULL && i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
             for (int j = 0; j < channel.device_size_; j++)
-- 
2.43.0


From 8477bc58d08d4956d4e30bdd8f482a719844ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 06/41] fix: a changed shm_key in a later start must not change
 how the attached queue memory is freed

---
 src/include/fn_load.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 11058ef..8b36a07 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -218,9 +218,10 @@ namespace FNLog
         }
         logger.yaml_path_ = path;
         logger.hot_update_ = ls->hot_update_;
-        logger.shm_key_ = ls->shm_key_;
         if (logger.shm_ == NULL)
         {
+            //the key tells how shm_ was got and how to free it, keep it as long as shm_ is attached.
+            logger.shm_key_ = ls->shm_key_;
             ret = LoadSharedMemory(logger);
             if (ret != 0 || logger.shm_ == NULL)
             {
-- 
2.43.0


From 9da58c08b4af3c690cd65108147e6940d1b99d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 07/41] fix: parsing a config with a utf8 bom never ended

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 03523cd..f69dbdd 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1411,7 +1411,7 @@ namespace FNLog
             }
         }
         ls.first_ = first;
-        ls.end_ = first + text.length();
+        ls.end_ = &text[0] + text.length();
         memset(&ls.channels_, 0, sizeof(ls.channels_));
         ls.channel_size_ = 0;
         ls.hot_update_ = false;
-- 
2.43.0


From 9b2f9ac4682d71537041048aebbc795d2dedd4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 08/41] fix: a NUL byte inside a config is a syntax error
 instead of an endless loop

---
 src/include/fn_parse.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index f69dbdd..c56550a 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -999,6 +999,11 @@ namespace FNLog
                     return PEC_NONE;
                 }
 
+                if (ch == '\0' && ls.current_ <= ls.end_)
+                {
+                    return PEC_NONSUPPORT_SYNTAX; //'\0' inside the text, not the end of it
+                }
+
                 if (ch == '\0')
                 {
                     ls.current_--; //safe; set current referer to '\0'   
-- 
2.43.0


From c7ee4b4e91b44a3b97770a267837b35ac6a70262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 09/41] fix: trim the blanks after '=' in a var definition

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index c56550a..483cc31 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -892,7 +892,7 @@ namespace FNLog
             }
 
             sep++;
-            while (sep < dot &&  IsBlank(line.at(offset)))
+            while (sep < dot &&  IsBlank(line.at(sep)))
             {
                 sep++;
             }
-- 
2.43.0


From 7fc58792d4883c923ad660a240d1d117e1980cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 10/41] fix: a define that replaces a symbol by itself never
 ended

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 483cc31..4ff066f 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -805,6 +805,7 @@ namespace FNLog
             if (bound_ok)
             {
                 memcpy(&text[text_offset], val.c_str(), val.length());
+                text_offset += val.length();
             }
         };
         return 0;
-- 
2.43.0


From d7e89d71c0c962c8c462d34e402e48e7580bf524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 11/41] fix: accept the documented upper case channel type SYNC

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 4ff066f..3857a68 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -540,7 +540,7 @@ namespace FNLog
     }
     inline ChannelType ParseChannelType(const char* begin, const char* end)
     {
-        if (end <= begin || *begin != 's')
+        if (end <= begin || (*begin != 's' && *begin != 'S'))
         {
             return CHANNEL_ASYNC;
         }
-- 
2.43.0


From 3fc96435cb8fa457cdbc6a8cd9682fedf4a87890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 12/41] fix: a channel without (enabled) virtual device must
 not call the virtual device hook

---
 src/include/fn_out_virtual_device.h | 4 ++++
 src/include/fn_parse.h              | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/include/fn_out_virtual_device.h b/src/include/fn_out_virtual_device.h
index 0bc34ef..bc7b9d0 100644
--- a/src/include/fn_out_virtual_device.h
+++ b/src/include/fn_out_virtual_device.h
@@ -35,6 +35,10 @@ namespace FNLog
         {
             Channel& channel = logger.shm_->channels_[channel_id];
             Device::ConfigFields& fields = channel.devices_[device_id].config_fields_;
+            if (!fields[FNLog::DEVICE_CFG_ABLE])
+            {
+                return;
+            }
             long long field_begin_category = fields[FNLog::DEVICE_CFG_CATEGORY];
             long long field_category_count = fields[FNLog::DEVICE_CFG_CATEGORY_EXTEND];
             unsigned long long field_category_mask = (unsigned long long)fields[FNLog::DEVICE_CFG_CATEGORY_MASK];
diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 3857a68..7fc336d 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1499,6 +1499,7 @@ namespace FNLog
                     Channel& channel = ls.channels_[ls.channel_size_++];
                     memset(&channel, 0, sizeof(channel));
                     channel.channel_id_ = channel_id;
+                    channel.virtual_device_id_ = -1;
                     ret = ParseChannel(ls, channel, ls.line_.blank_);
                     if (ret != 0)
                     {
-- 
2.43.0


From e23cd4def907d36b4647db1c96091b0bd5716a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 13/41] fix: hot update with a config without any channel
 (empty file) must keep the running config

---
 src/include/fn_load.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 8b36a07..c704bd9 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -325,7 +325,10 @@ namespace FNLog
         {
             return ret;
         }
-
+        if (ls->channel_size_ <= 0)
+        {
+            return E_INVALID_CHANNEL_SIZE; //empty or comments only, keep the running config
+        }
 
         //StopLogger holds this lock while it joins the channel thread that runs here, never wait for it. 
         std::unique_lock<Logger::StateLock> state_guard(logger.state_lock_, std::try_to_lock);
-- 
2.43.0


From 8cecd9e18065024509d8e4ce6f146fc620446c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 14/41] fix: terminate a received udp log, the screen device
 prints it as a c string

---
 src/include/fn_channel.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 1a52cae..23632af 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -236,6 +236,10 @@ namespace FNLog
                         ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 2] = '\n';
                         ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 1] = '\0';
                     }
+                    else
+                    {
+                        ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_] = '\0';
+                    }
                     if (ring_buffer.udp_buffer_.content_len_ == 0)
                     {
                         break;
-- 
2.43.0


From 75c2106f9ff6c30a46f9703ad9155d0f9279d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 15/41] fix: a sync channel must not read a log slot after it
 was released to other threads

---
 src/include/fn_channel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 23632af..5a56c9a 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -122,7 +122,6 @@ namespace FNLog
                 }
                 auto& cur_log = ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN];
                 DispatchLog(logger, channel, cur_log);
-                cur_log.data_mark_ = 0;
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED, 1);
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED_BYTES, cur_log.content_len_);
                 flush_count ++;
@@ -143,6 +142,8 @@ namespace FNLog
                         AtomicStoreChannelLog(channel, CHANNEL_LOG_MAX_DELAY_TIME_S, diff);
                     }
                 }
+                //release the log slot; after this line other thread can hold it again.
+                cur_log.data_mark_ = MARK_INVALID;
                 do
                 {
                     //set read index to proc index  
-- 
2.43.0


From 89d487a1c0c99d8546d2fb3f469194709c3427a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 16/41] fix: guard flush and close of the file handles a sync
 channel shares between threads

---
 src/include/fn_channel.h |  2 ++
 src/include/fn_core.h    | 15 +++++++--------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 5a56c9a..5d83399 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -169,6 +169,7 @@ namespace FNLog
                     {
                         if (channel.devices_[i].out_type_ == DEVICE_OUT_FILE)
                         {
+                            Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
                             logger.file_handles_[channel_id * Channel::MAX_DEVICE_SIZE + i].flush();
                         }
                     }
@@ -187,6 +188,7 @@ namespace FNLog
                 {
                     if (channel.devices_[i].out_type_ == DEVICE_OUT_FILE)
                     {
+                        Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
                         logger.file_handles_[channel_id * Channel::MAX_DEVICE_SIZE + i].flush();
                     }
                 }
diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 94c320a..a223899 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -209,18 +209,17 @@ namespace FNLog
         StopChannels(logger);
         CleanChannels(logger);
         
-        for (auto& writer : logger.file_handles_)
+        //a sync channel may still be writing in other thread
+        for (int i = 0; i < Logger::MAX_CHANNEL_SIZE * Channel::MAX_DEVICE_SIZE; i++)
         {
-            if (writer.is_open())
+            Logger::ReadGuard rg(logger.read_locks_[i / Channel::MAX_DEVICE_SIZE]);
+            if (logger.file_handles_[i].is_open())
             {
-                writer.close();
+                logger.file_handles_[i].close();
             }
-        }
-        for (auto& writer : logger.udp_handles_)
-        {
-            if (writer.is_open())
+            if (logger.udp_handles_[i].is_open())
             {
-                writer.close();
+                logger.udp_handles_[i].close();
             }
         }
         logger.logger_state_ = LOGGER_STATE_UNINIT;
-- 
2.43.0


From b1ebefdc0a317947d0bfa9a100e9670b93f74b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:48 +0000
Subject: [PATCH 17/41] fix: a start that gave up waiting for its channel
 thread must not hang in the following join

---
 src/include/fn_core.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index a223899..91c8244 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -103,6 +103,11 @@ namespace FNLog
             {
                 if (thd.joinable())
                 {
+                    //start gave up waiting for this thread. it is still on its way to the running state, don't miss it.
+                    while (channel.channel_state_ == CHANNEL_STATE_NULL)
+                    {
+                        std::this_thread::sleep_for(std::chrono::milliseconds(1));
+                    }
                     if (channel.channel_state_ == CHANNEL_STATE_RUNNING)
                     {
                         channel.channel_state_ = CHANNEL_STATE_WAITING_FINISH;
-- 
2.43.0


From 27f186caf844c28a17eadd4ccc3bb0eb318ac6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 18/41] fix: a config without shm_key used the key of a config
 parsed before (uninitialised)

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 7fc336d..8b94eff 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1425,6 +1425,7 @@ namespace FNLog
         ls.line_no_ = 1; 
         ls.desc_len_ = 0;
         ls.name_len_ = 0;
+        ls.shm_key_ = 0;
         do
         {
             const char* current = ls.current_;
-- 
2.43.0


From e15740458d86b200576a34c2ebbc661022e78c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:05 +0000
Subject: [PATCH 19/41] fix: count the bytes of a log before it is published

---
 src/include/fn_channel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 5d83399..0ec7a21 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -508,8 +508,9 @@ namespace FNLog
         log.content_[log.content_len_++] = '\n';
         log.content_[log.content_len_] = '\0';
 
-        log.data_mark_ = 2;
+        //after the mark is set other thread can process and release the log.
         AtomicIncChannelLog(channel, CHANNEL_LOG_PRIORITY + log.priority_, log.content_len_);
+        log.data_mark_ = 2;
 
         do
         {
-- 
2.43.0


From 92c988e25a109e50b6cc922b4e55465e538467e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:17 +0000
Subject: [PATCH 20/41] fix: a configuration without channels must not wipe the
 previous one and its counters

---
 src/include/fn_load.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index c704bd9..8886a0f 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -205,6 +205,12 @@ namespace FNLog
             return E_LOGGER_IN_USE;
         }
 
+        //an invalid config must not replace the channels and their counters.
+        if (ls->channel_size_ > Logger::MAX_CHANNEL_SIZE || ls->channel_size_ <= 0)
+        {
+            printf("InitFromYMAL channel size:%d out channel max%d. \n", ls->channel_size_, Logger::MAX_CHANNEL_SIZE);
+            return E_INVALID_CHANNEL_SIZE;
+        }
 
         if (ls->name_len_ > 0)
         {
@@ -240,11 +246,6 @@ namespace FNLog
         }
         memcpy(&logger.shm_->channels_, &ls->channels_, sizeof(logger.shm_->channels_));
 
-        if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
-        {
-            printf("InitFromYMAL channel size:%d out channel max%d. \n", logger.shm_->channel_size_, Logger::MAX_CHANNEL_SIZE);
-            return E_INVALID_CHANNEL_SIZE;
-        }
         return 0;
     }
 
-- 
2.43.0


From e59cbde45bc90c3b49bcbc47e808260d331b6cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:45 +0000
Subject: [PATCH 21/41] fix: channel identify and category ranges are 64 bit
 like those of devices (atoi truncated them)

---
 src/include/fn_parse.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 8b94eff..c0ad2d1 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1330,10 +1330,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_PRIORITY] = ParsePriority(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY] = atoll(ls.line_.val_begin_);
                 break;            
             case RK_CATEGORY_EXTEND:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_EXTEND] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_EXTEND] = atoll(ls.line_.val_begin_);
                 break;
             case RK_CATEGORY_WLIST:
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
@@ -1348,10 +1348,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY_EXTEND:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_EXTEND] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_EXTEND] = atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY_WLIST:
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
-- 
2.43.0


From 325956c5a226a5b704938061a72b1f95839f9652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:53 +0000
Subject: [PATCH 22/41] fix: a failed write to a log file neither shifts the
 backups nor counts as written

---
 src/include/fn_out_file_device.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index 64e7e8f..fd160d1 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -248,6 +248,9 @@ namespace FNLog
             return;
         }
 
+        //a file closed by a failed write is continued, otherwise every failure would push out a backup.
+        bool reopen = !close_file && AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_LAST_TRY_CREATE_ERROR) == 3;
+
         long long create_day = 0;
         long long create_hour = 0;
         tm t = FileHandler::time_to_tm(log.timestamp_);
@@ -278,14 +281,14 @@ namespace FNLog
 
         if (path.length() >= Device::MAX_PATH_LEN + Device::MAX_LOGGER_NAME_LEN)
         {
-            AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_LAST_TRY_CREATE_ERROR, 1);
+            AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_LAST_TRY_CREATE_ERROR, reopen ? 3 : 1);
             AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP, log.timestamp_);
             return;
         }
 
         if (AtomicLoadC(device, DEVICE_CFG_FILE_ROLLBACK) > 0 || AtomicLoadC(device, DEVICE_CFG_FILE_LIMIT_SIZE) > 0)
         {
-            bool stuff_up = (bool)AtomicLoadC(device, DEVICE_CFG_FILE_STUFF_UP);
+            bool stuff_up = (bool)AtomicLoadC(device, DEVICE_CFG_FILE_STUFF_UP) || reopen;
             if (!stuff_up || limit_out)
             {
                 //when no rollback but has limit size. need try rollback once.
@@ -299,7 +302,7 @@ namespace FNLog
         long writed_byte = writer.open(path.c_str(), "ab", file_stat);
         if (!writer.is_open())
         {
-            AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_LAST_TRY_CREATE_ERROR, 2);
+            AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_LAST_TRY_CREATE_ERROR, reopen ? 3 : 2);
             AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP, log.timestamp_);
             return;
         }
@@ -332,6 +335,11 @@ namespace FNLog
             return;
         }
         writer.write(log.content_, log.content_len_);
+        if (!writer.is_open())
+        {
+            AtomicStoreDeviceLog(channel, device_id, DEVICE_LOG_LAST_TRY_CREATE_ERROR, 3);
+            return;
+        }
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_LINE, 1);
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_BYTE, log.content_len_);
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_CUR_FILE_SIZE, log.content_len_);
-- 
2.43.0


From e44e154e2492d14de3c9f2888a39b5be1be697bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:56 +0000
Subject: [PATCH 23/41] fix: keep the sign of infinite and of small negative
 floating point numbers

---
 src/include/fn_fmt.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index fe8e408..f97d0d2 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -256,6 +256,11 @@ namespace FNLog
             *dst = '0';
             return 1;
         case FP_INFINITE:
+            if (std::signbit(number))
+            {
+                memcpy(dst, "-inf", 4);
+                return 4;
+            }
             memcpy(dst, "inf", 3);
             return 3;
         case FP_NAN:
@@ -273,7 +278,7 @@ namespace FNLog
         {
             if (fabst < 0.0001 && fabst > 0.0000001)
             {
-                snprintf(dst, 30, "%.08lf", fabst);
+                snprintf(dst, 30, "%.08lf", number);
             }
             else
             {
-- 
2.43.0


From e8ec254057f0859703216d2ec26841ec2793bff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:56 +0000
Subject: [PATCH 24/41] fix: writing zero in hexadecimal or binary relied on
 undefined behaviour

---
 src/include/fn_fmt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index f97d0d2..13cd744 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -160,7 +160,7 @@ namespace FNLog
 
         int real_wide = 0;
 #ifndef WIN32
-        real_wide = sizeof(number) * 8 - __builtin_clzll(number);
+        real_wide = sizeof(number) * 8 - __builtin_clzll(number | 1); //undefined for zero
 #else
         unsigned long win_index = 0;
         if (_BitScanReverse(&win_index, (unsigned long)(number >> 32)))
@@ -225,7 +225,7 @@ namespace FNLog
 
         int real_wide = 0;
 #ifndef WIN32
-        real_wide = sizeof(number) * 8 - __builtin_clzll(number);
+        real_wide = sizeof(number) * 8 - __builtin_clzll(number | 1); //undefined for zero
 #else
         unsigned long win_index = 0;
         _BitScanReverse64(&win_index, number);
-- 
2.43.0


From 3d0258fec207e8232ec01527306a2afbb37553f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:56 +0000
Subject: [PATCH 25/41] fix: the date of timestamps in the first day of 1970

---
 src/include/fn_fmt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index 13cd744..37becf6 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -327,7 +327,7 @@ namespace FNLog
         static thread_local long long cache_timestamp = 0;
         static const char date_fmt[] = "[20190412 13:05:35.417]";
         long long day_second = timestamp - cache_timestamp;
-        if (day_second < 0 || day_second >= 24*60*60)
+        if (day_second < 0 || day_second >= 24*60*60 || cache_date.tm_mday == 0)
         {
             cache_date = FileHandler::time_to_tm((time_t)timestamp);
             struct tm daytm = cache_date;
-- 
2.43.0


From f3288d19c8e7f07e646176a7797ef2817604f487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:56 +0000
Subject: [PATCH 26/41] fix: the terminator of an oversized datagram is not
 part of the line

---
 src/include/fn_channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 0ec7a21..f3c6871 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -238,6 +238,7 @@ namespace FNLog
                     {
                         ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 2] = '\n';
                         ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 1] = '\0';
+                        ring_buffer.udp_buffer_.content_len_--;
                     }
                     else
                     {
-- 
2.43.0


From 89227c1b3743d7a5398f35ceb202971cedadc279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:14 +0000
Subject: [PATCH 27/41] fix: flush the lines an udp input device has received

---
 src/include/fn_channel.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index f3c6871..c01f2de 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -230,7 +230,8 @@ namespace FNLog
                     continue;
                 }
                 
-                for (int i = 0; i < 1000; i++)
+                bool received = false;
+                for (int j = 0; j < 1000; j++)
                 {
                     InitLogData(logger, ring_buffer.udp_buffer_, channel.channel_id_, PRIORITY_INFO, 0, 0, LOG_PREFIX_NULL);
                     ring_buffer.udp_buffer_.content_len_ = udp.read(ring_buffer.udp_buffer_.content_, LogData::LOG_SIZE);
@@ -249,8 +250,14 @@ namespace FNLog
                         break;
                     }
                     empty_tick = false; 
+                    received = true;
                     EnterProcDevice(logger, channel.channel_id_, device.device_id_, ring_buffer.udp_buffer_);
                 }
+                if (received && device.out_type_ == DEVICE_OUT_FILE)
+                {
+                    Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
+                    logger.file_handles_[channel_id * Channel::MAX_DEVICE_SIZE + i].flush();
+                }
             }
 
             HotUpdateLogger(logger, channel.channel_id_);
-- 
2.43.0


From d56db69c6c212a861d396fa60387790cbc4c21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:28 +0000
Subject: [PATCH 28/41] fix: a virtual device added by hot update was never
 used

---
 src/include/fn_load.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 8886a0f..a14ce08 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -388,8 +388,12 @@ namespace FNLog
             {
                 return E_VERSION_MISMATCH;
             }
-            memcpy(&dst_chl.devices_[dst_chl.device_size_++], &src_dvc, sizeof(src_dvc));
-            
+            memcpy(&dst_chl.devices_[device_id], &src_dvc, sizeof(src_dvc));
+            dst_chl.device_size_++;
+            if (src_dvc.out_type_ == DEVICE_OUT_VIRTUAL)
+            {
+                dst_chl.virtual_device_id_ = device_id;
+            }
         }
         AtomicIncChannelLog(dst_chl, CHANNEL_LOG_HOTUPDATE_CHANGE, 1);
         return 0;
-- 
2.43.0


From e7312eea3f932d6d72348a8c52762b66c8c8b6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:28 +0000
Subject: [PATCH 29/41] fix: channels that hot update at the same moment made
 each other wait one more interval

---
 src/include/fn_load.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index a14ce08..42976a3 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -335,6 +335,7 @@ namespace FNLog
         std::unique_lock<Logger::StateLock> state_guard(logger.state_lock_, std::try_to_lock);
         if (!state_guard.owns_lock())
         {
+            dst_chl.last_hot_check_ = 0; //maybe another channel updates, try again at once
             return E_LOGGER_IN_USE;
         }
         if (logger.logger_state_ != LOGGER_STATE_RUNNING)
-- 
2.43.0


From a488d68607b1074e9e03d1a3ae6bb7a99f2ea096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:52 +0000
Subject: [PATCH 30/41] fix: a hot update that disables hot update reached only
 one channel

---
 src/include/fn_core.h |  1 +
 src/include/fn_data.h |  1 +
 src/include/fn_load.h | 11 +++++++----
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 91c8244..5766306 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -396,6 +396,7 @@ namespace FNLog
     inline void InitLogger(Logger& logger)
     {
         logger.hot_update_ = false;
+        logger.hot_update_mtime_ = 0;
         logger.logger_state_ = LOGGER_STATE_UNINIT;
         memset(logger.desc_, 0, Logger::MAX_LOGGER_DESC_LEN);
         logger.desc_len_ = 0;
diff --git a/src/include/fn_data.h b/src/include/fn_data.h
index 41776c6..d1a1cc0 100644
--- a/src/include/fn_data.h
+++ b/src/include/fn_data.h
@@ -415,6 +415,7 @@ namespace FNLog
         Logger();
         ~Logger();
         bool hot_update_;
+        time_t hot_update_mtime_; //time of the config file which hot_update_ is from
         std::string yaml_path_;
         unsigned int logger_state_;
         StateLock state_lock_;
diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 42976a3..9603b72 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -223,6 +223,7 @@ namespace FNLog
             logger.desc_len_ = ls->desc_len_;
         }
         logger.yaml_path_ = path;
+        logger.hot_update_mtime_ = 0;
         logger.hot_update_ = ls->hot_update_;
         if (logger.shm_ == NULL)
         {
@@ -272,6 +273,7 @@ namespace FNLog
             return ret;
         }
 
+        logger.hot_update_mtime_ = file_stat.st_mtime;
         for (int i = 0; i < logger.shm_->channel_size_; i++)
         {
             logger.shm_->channels_[i].yaml_mtime_ = file_stat.st_mtime;
@@ -285,7 +287,8 @@ namespace FNLog
         {
             return E_INVALID_CHANNEL_SIZE;
         }
-        if (!logger.hot_update_)
+        Channel& dst_chl = logger.shm_->channels_[channel_id];
+        if (!logger.hot_update_ && dst_chl.yaml_mtime_ == logger.hot_update_mtime_)
         {
             return E_DISABLE_HOTUPDATE;
         }
@@ -294,7 +297,6 @@ namespace FNLog
             return E_NO_CONFIG_PATH;
         }
 
-        Channel& dst_chl = logger.shm_->channels_[channel_id];
         time_t now = time(nullptr);
         if (now - dst_chl.last_hot_check_ < Logger::HOTUPDATE_INTERVEL)
         {
@@ -342,11 +344,12 @@ namespace FNLog
         {
             return E_LOGGER_NOT_RUNNING;
         }
-        if (!logger.hot_update_)
+        if (!logger.hot_update_ && file_stat.st_mtime != logger.hot_update_mtime_)
         {
-            return E_DISABLE_HOTUPDATE;
+            return E_DISABLE_HOTUPDATE; //only the config which disabled the hot update is still to reach every channel
         }
         dst_chl.yaml_mtime_ = file_stat.st_mtime;
+        logger.hot_update_mtime_ = file_stat.st_mtime;
         logger.hot_update_ = ls->hot_update_;
         
         static_assert(std::is_same<decltype(logger.shm_->channels_), decltype(ls->channels_)>::value, "");
-- 
2.43.0


From f817996a5bcf8a79b0837d89e77f4250b408c440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:39 +0000
Subject: [PATCH 31/41] fix: shared memory whose creator died before
 initializing it could not be used any more

---
 src/include/fn_load.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 9603b72..91fe352 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -69,8 +69,8 @@ namespace FNLog
             }
             shm = (SHMLogger*)addr;
             ResetSHMLogger(*shm);
-            shm->shm_size_ = sizeof(SHMLogger);
             shm->shm_id_ = idx;
+            shm->shm_size_ = sizeof(SHMLogger);
         }
         else
         {
@@ -81,6 +81,14 @@ namespace FNLog
                 return E_SHMAT_ERROR;
             }
             shm = (SHMLogger*)addr;
+            struct shmid_ds shm_stat;
+            if (shm->shm_size_ == 0 && shmctl(idx, IPC_STAT, &shm_stat) == 0 && shm_stat.shm_segsz == sizeof(SHMLogger))
+            {
+                //the process that created it died before it was initialized.
+                ResetSHMLogger(*shm);
+                shm->shm_id_ = idx;
+                shm->shm_size_ = sizeof(SHMLogger);
+            }
         }
 
         if (shm->shm_size_ != sizeof(SHMLogger) || shm->shm_id_ != idx)
-- 
2.43.0


From c31c41b97e719a990dc3113f941fe2efaff3c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:39 +0000
Subject: [PATCH 32/41] fix: completed logs behind an unfinished one were
 recovered as unfinished logs of fatal priority

---
 src/include/fn_load.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 91fe352..f6baaf1 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -116,15 +116,18 @@ namespace FNLog
             while (shm->ring_buffers_[i].write_idx_.load() != shm->ring_buffers_[i].hold_idx_.load())
             {
                 auto& log = shm->ring_buffers_[i].buffer_[shm->ring_buffers_[i].write_idx_ % RingBuffer::BUFFER_LEN];
-                log.data_mark_ = 2;
-                log.priority_ = PRIORITY_FATAL;
-                std::string core_desc = "!!!core recover!!!";
-                log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - (int)core_desc.length() - 2);
-                memcpy(&log.content_[log.content_len_], core_desc.c_str(), core_desc.length());
-
-                log.content_len_ += core_desc.length();
-                log.content_[log.content_len_++] = '\n';
-                log.content_[log.content_len_] = '\0';
+                if (log.data_mark_ != MARK_READY)
+                {
+                    log.priority_ = PRIORITY_FATAL;
+                    std::string core_desc = "!!!core recover!!!";
+                    log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - (int)core_desc.length() - 2);
+                    memcpy(&log.content_[log.content_len_], core_desc.c_str(), core_desc.length());
+
+                    log.content_len_ += core_desc.length();
+                    log.content_[log.content_len_++] = '\n';
+                    log.content_[log.content_len_] = '\0';
+                    log.data_mark_ = MARK_READY;
+                }
 
                 shm->ring_buffers_[i].write_idx_++;
             }
-- 
2.43.0


From 7b5e07e87fe20fb39a4dd28068fd20b4ddcad1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:39 +0000
Subject: [PATCH 33/41] fix: the recovery after a crash wrote lines again that
 had been written long before

---
 src/include/fn_channel.h | 1 +
 src/include/fn_load.h    | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index c01f2de..6aa2234 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -481,6 +481,7 @@ namespace FNLog
                 {
                     AtomicIncChannelLog(channel, CHANNEL_LOG_HOLD, 1);
                     int slot_idx = (int)(old_idx % RingBuffer::BUFFER_LEN);
+                    ring_buffer.buffer_[slot_idx].content_len_ = 0;
                     ring_buffer.buffer_[slot_idx].data_mark_.store(MARK_HOLD, std::memory_order_release);
                     return slot_idx;
                 }
diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index f6baaf1..a71c0a6 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -118,6 +118,10 @@ namespace FNLog
                 auto& log = shm->ring_buffers_[i].buffer_[shm->ring_buffers_[i].write_idx_ % RingBuffer::BUFFER_LEN];
                 if (log.data_mark_ != MARK_READY)
                 {
+                    if (log.data_mark_ == MARK_INVALID)
+                    {
+                        log.content_len_ = 0; //the text of an older log that is already written.
+                    }
                     log.priority_ = PRIORITY_FATAL;
                     std::string core_desc = "!!!core recover!!!";
                     log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - (int)core_desc.length() - 2);
-- 
2.43.0


From 5fda1eb04ac8ff3c87e667f12b095a9e08b748c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:39 +0000
Subject: [PATCH 34/41] fix: logs recovered for a synchronous channel were lost
 if nothing else was logged

---
 src/include/fn_core.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 5766306..cddd952 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -52,6 +52,10 @@ namespace FNLog
             {
             case CHANNEL_SYNC:
                 channel.channel_state_ = CHANNEL_STATE_RUNNING;
+                if (logger.shm_->ring_buffers_[channel_id].write_idx_ != logger.shm_->ring_buffers_[channel_id].read_idx_)
+                {
+                    EnterProcChannel(logger, channel_id); //recovered after a crash
+                }
                 break;
             case CHANNEL_ASYNC:
             {
-- 
2.43.0


From 9cf2968983b982ad478600dd8211cab788a3146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:06 +0000
Subject: [PATCH 35/41] fix: the mark of a recovered unfinished log could get
 on a line of its own

---
 src/include/fn_load.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index a71c0a6..c062a45 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -122,6 +122,10 @@ namespace FNLog
                     {
                         log.content_len_ = 0; //the text of an older log that is already written.
                     }
+                    if (log.content_len_ > 0 && log.content_[log.content_len_ - 1] == '\n')
+                    {
+                        log.content_len_--; //keep the recover mark in the line of the log.
+                    }
                     log.priority_ = PRIORITY_FATAL;
                     std::string core_desc = "!!!core recover!!!";
                     log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - (int)core_desc.length() - 2);
-- 
2.43.0


From 43ed64d07ae6ece4b8b8326ae4aa1f500a2fc70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:04 +0000
Subject: [PATCH 36/41] fix: a list with a huge number made the configuration
 parser hang or set arbitrary bits

---
 src/include/fn_parse.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index c0ad2d1..379c740 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -697,6 +697,15 @@ namespace FNLog
         return;
     }
 
+    //bounded: the range loop must terminate soon for any number 
+    inline int ParseBitOffset(const char* begin)
+    {
+        return (int)(std::min)(strtoll(begin, NULL, 10), 64LL);
+    }
+    inline unsigned long long ParseBit(int offset)
+    {
+        return offset < 64 ? 1ULL << offset : 0; //there are 64 bits only 
+    }
     inline unsigned long long ParseBitArray(const char* begin, const char* end)
     {
         unsigned long long bitmap = 0;
@@ -716,7 +725,7 @@ namespace FNLog
                 break;
             }
 
-            int bit_offset_first = atoi(offset);
+            int bit_offset_first = ParseBitOffset(offset);
             while (offset < end && (IsNumber(*offset) || IsBlank(*offset)))
             {
                 offset++;
@@ -724,7 +733,7 @@ namespace FNLog
 
             if (offset == end || *offset != '-') //
             {
-                bitmap |= (1ULL << bit_offset_first);
+                bitmap |= ParseBit(bit_offset_first);
                 continue;
             }
 
@@ -735,14 +744,14 @@ namespace FNLog
 
             if (offset == end || !IsNumber(*offset))
             {
-                bitmap |= (1ULL << bit_offset_first);
+                bitmap |= ParseBit(bit_offset_first);
                 continue;
             }
 
-            int bit_offset_last = atoi(offset);
+            int bit_offset_last = ParseBitOffset(offset);
             for (int i = (std::min)(bit_offset_first, bit_offset_last); i <= (std::max)(bit_offset_first, bit_offset_last); i++)
             {
-                bitmap |= (1ULL << i);
+                bitmap |= ParseBit(i);
             }
         }
         return bitmap;
-- 
2.43.0


From 3ce5a8696faf6f8970cbe62a83b633531872bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:04 +0000
Subject: [PATCH 37/41] fix: an udp address that is out of range was taken for
 another one

---
 src/include/fn_parse.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 379c740..8e94fa5 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -663,7 +663,12 @@ namespace FNLog
         }
 
 
-        return std::make_pair((long long)inet_addr(dn.c_str()), ip_end);
+        long long ip = (long long)inet_addr(dn.c_str());
+        if (ip == (long long)INADDR_NONE && dn != "255.255.255.255")
+        {
+            return std::make_pair(0, end); //not an address, no port either 
+        }
+        return std::make_pair(ip, ip_end);
     }
 
 
@@ -692,7 +697,12 @@ namespace FNLog
         char buff[50];
         memcpy(buff, port_begin, end - port_begin);
         buff[end - port_begin] = '\0';
-        port = htons((unsigned short)atoi(buff));
+        long long number = strtoll(buff, NULL, 10);
+        if (number > 65535)
+        {
+            return;
+        }
+        port = htons((unsigned short)number);
         ip = result_ip.first;
         return;
     }
-- 
2.43.0


From d0ac0e9fd79e80f38ace49cb329cd0a38909b1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:23 +0000
Subject: [PATCH 38/41] fix: the address of an udp device was checked and
 resolved only if the device was enabled before it in the file

---
 src/include/fn_parse.h | 71 ++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 8e94fa5..9679832 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1158,8 +1158,25 @@ namespace FNLog
         return PEC_ERROR;
     }
 
+    inline int ParseDeviceAddres(Device& device, const char* begin, const char* end)
+    {
+        long long ip = 0;
+        long long port = 0;
+        bool enabled = device.config_fields_[DEVICE_CFG_ABLE] != 0;
+        ParseAddres(begin, end, enabled, ip, port);
+        device.config_fields_[DEVICE_CFG_UDP_IP] = ip;
+        device.config_fields_[DEVICE_CFG_UDP_PORT] = port;
+        if (enabled && port == 0)
+        {
+            return ip == 0 ? PEC_ILLEGAL_ADDR_IP : PEC_ILLEGAL_ADDR_PORT;
+        }
+        return PEC_NONE;
+    }
+
     inline int ParseDevice(LexState& ls, Device& device, int indent)
     {
+        const char* addr_begin = nullptr;
+        const char* addr_end = nullptr;
         do
         {
             const char* current = ls.current_;
@@ -1175,7 +1192,7 @@ namespace FNLog
                 if (ls.current_ >= ls.end_)
                 {
                     //eof 
-                    return ret;
+                    break;
                 }
                 //blank line 
                 continue;
@@ -1185,7 +1202,7 @@ namespace FNLog
             {
                 ls.current_ = current;
                 ls.line_no_--; //upper re lex
-                return 0;
+                break;
             }
 
             switch (ls.line_.key_)
@@ -1277,40 +1294,32 @@ namespace FNLog
                 }
                 break;
             case RK_UDP_ADDR:
-                if (true) 
-                {
-                    long long ip = 0;
-                    long long port = 0;
-                    bool parse_dn = device.config_fields_[DEVICE_CFG_ABLE] != 0;
-                    ParseAddres(ls.line_.val_begin_, ls.line_.val_end_, parse_dn, ip, port);
-                    device.config_fields_[DEVICE_CFG_UDP_IP] = ip;
-                    device.config_fields_[DEVICE_CFG_UDP_PORT] = port;
-                }
-                if (device.config_fields_[DEVICE_CFG_ABLE])
-                {
-                    if (device.in_type_ == DEVICE_IN_NULL && device.config_fields_[DEVICE_CFG_UDP_IP] == 0)
-                    {
-                        //logic error:
-                        ls.current_ = current;
-                        ls.line_no_--;
-                        return PEC_ILLEGAL_ADDR_IP;
-                    }
-
-                    if (device.config_fields_[DEVICE_CFG_UDP_PORT] == 0)
-                    {
-                        //logic error:
-                        ls.current_ = current;
-                        ls.line_no_--;
-                        return PEC_ILLEGAL_ADDR_PORT;
-                    }
-                }
-
-
+                addr_begin = ls.line_.val_begin_;
+                addr_end = ls.line_.val_end_;
                 break;
             default:
                 return PEC_UNDEFINED_DEVICE_KEY;
             }
+
+            //the keys may come in any order, the address is used only if the device is enabled. 
+            if (addr_begin != nullptr && (ls.line_.key_ == RK_UDP_ADDR || ls.line_.key_ == RK_DISABLE))
+            {
+                ret = ParseDeviceAddres(device, addr_begin, addr_end);
+                if (ret != PEC_NONE)
+                {
+                    //logic error:
+                    ls.current_ = current;
+                    ls.line_no_--;
+                    return ret;
+                }
+            }
         } while (ls.current_ < ls.end_);
+
+        if (addr_begin != nullptr && device.config_fields_[DEVICE_CFG_ABLE]
+            && device.in_type_ == DEVICE_IN_NULL && device.config_fields_[DEVICE_CFG_UDP_IP] == 0)
+        {
+            return PEC_ILLEGAL_ADDR_IP;
+        }
         return 0;
     }
     inline int ParseChannel(LexState& ls, Channel& channel, int indent)
-- 
2.43.0


From 3cea8273c7e9fc03e44eff888bf16ce31239e153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:26 +0000
Subject: [PATCH 39/41] fix: a socket closed on purpose is opened again at once

UDPHandler::open() refuses to open for three seconds after the last open,
also when the socket was closed by StopLogger or by disabling the device:
after a restart logs for a udp output were lost and a udp input was deaf.
---
 src/include/fn_channel.h | 1 +
 src/include/fn_file.h    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 6aa2234..caa0278 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -221,6 +221,7 @@ namespace FNLog
                         if (ret != 0)
                         {
                             udp.close();
+                            udp.open_ts_ = time(NULL); //try again later
                         }
                     }
                 }
diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 0d896d5..a386cb9 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -509,6 +509,7 @@ public:
             closesocket(handler_);
 #endif 
             handler_ = FNLOG_INVALID_SOCKET;
+            open_ts_ = 0;
         }
     }
 
-- 
2.43.0


From 00eb1a09c880aba8ce056d4d5629a1bb7527a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:26 +0000
Subject: [PATCH 40/41] fix: an udp input follows a changed address

An open input socket stayed bound to the old address after udp_addr was
changed by a hot update or by SetDeviceConfig.
---
 src/include/fn_channel.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index caa0278..db79fe0 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -212,12 +212,18 @@ namespace FNLog
                     continue;
                 }
                 
+                unsigned int ip = (unsigned int)AtomicLoadC(device, DEVICE_CFG_UDP_IP);
+                unsigned short port = (unsigned short)AtomicLoadC(device, DEVICE_CFG_UDP_PORT);
+                if (udp.is_open() && (udp.addr_.sin_addr.s_addr != ip || udp.addr_.sin_port != port))
+                {
+                    udp.close(); //the address is changed
+                }
                 if (!udp.is_open())
                 {
                     udp.open();
                     if (udp.is_open())
                     {
-                        int ret = udp.bind((unsigned int)AtomicLoadC(device, DEVICE_CFG_UDP_IP), (unsigned short)AtomicLoadC(device, DEVICE_CFG_UDP_PORT));
+                        int ret = udp.bind(ip, port);
                         if (ret != 0)
                         {
                             udp.close();
-- 
2.43.0


From 48684f6eaef93cf8b1ec2bbec07f6290a20d2d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:37 +0000
Subject: [PATCH 41/41] fix: binary numbers were not padded to their width

---
 src/include/fn_fmt.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index 37becf6..81624a3 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -243,6 +243,10 @@ namespace FNLog
             *(dst + cur_wide - 1) = lut[m2];
             cur_wide--;
         } while (number);
+        while (cur_wide-- != 0)
+        {
+            *(dst + cur_wide) = '0';
+        }
         return real_wide;
     }
 
-- 
2.43.0

