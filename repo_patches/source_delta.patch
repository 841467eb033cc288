From b482b5a41997ceec0412225d44f3d6c4ce178f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 01/27] fix: use memmove for overlapping moves inside the
 message queue

---
 src/message_queue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 580b343..79309e6 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -224,7 +224,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
 
             // move old data to offset zero
             uint8_t* pOldData = pFirstMsgData + *pFrontFree;
-            memcpy(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);
+            memmove(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);
 
             // set front free to 0
             *pFrontFree = 0;
@@ -292,7 +292,7 @@ bool MessageQueue::popFront(void* buf, int64_t bufSize, int64_t& written) {
         *pFrontFree += *pFirstMsgDataSize;
 
         // pop a element from data size list
-        memcpy(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));
+        memmove(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));
 
         ret = true;
     } while (false);
-- 
2.43.0


From f5a2018f8122a5f59933091642c739d498b11e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 02/27] fix: compute the message queue size in 64 bits

---
 src/message_queue.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 79309e6..def22ed 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -27,7 +27,7 @@ bool MessageQueue::create(const std::string& path) {
             break;
         }
 
-        int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         std::string shmName = path + "_shm";
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
@@ -85,7 +85,7 @@ bool MessageQueue::open(const std::string& path) {
         close();
 
         std::string shmName = path + "_shm";
-        int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
         if (!shm_->open()) {
@@ -164,7 +164,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
     }
 
     assert(msgMaxNumber_ > 0);
-    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
+    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
         veigar::log("Veigar: Error: The data size has exceeded the total size of the message queue. Please adjust the parameters of the message queue.\n");
         return false;
     }
@@ -327,7 +327,7 @@ bool MessageQueue::waitForRead(int64_t ms) {
 
 bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const {
     assert(msgMaxNumber_ > 0);
-    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
+    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
         waitable = false;
         veigar::log("Veigar: Error: The data size has exceeded the total size of the message queue. Please adjust the parameters of the message queue.\n");
         return false;
-- 
2.43.0


From 75a2e411664df179eff00895beac4b5ac71fb356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 03/27] fix: Semaphore::IsExist must not create the semaphore

---
 src/semaphore.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index 11851d1..89bf6c5 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -20,12 +20,13 @@ bool Semaphore::IsExist(const std::string& name) {
     }
     return (h != NULL);
 #else
-    sem_t* sem = ::sem_open(name.c_str(), O_CREAT | O_EXCL);
+    // Without O_CREAT, the semaphore will not be created if it does not exist.
+    sem_t* sem = ::sem_open(name.c_str(), 0);
     if (sem == SEM_FAILED) {
-        return true;
+        return false;
     }
     ::sem_close(sem);
-    return false;
+    return true;
 #endif
 }
 
-- 
2.43.0


From 50079f4a30e61bfd49972574c2aeaac889713fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 04/27] fix: carry nanoseconds into seconds in the semaphore
 deadline

---
 src/semaphore.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index 89bf6c5..239ba24 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -113,6 +113,10 @@ bool Semaphore::wait(const int64_t& ms) {
 
         ts.tv_sec += (ms / 1000);
         ts.tv_nsec += ((ms % 1000) * 1000000);
+        if (ts.tv_nsec >= 1000000000) {
+            ts.tv_sec += 1;
+            ts.tv_nsec -= 1000000000;
+        }
 
         return (sem_timedwait(sh_->named_, &ts) == 0);
     }
-- 
2.43.0


From 73f97d58f9adf8f00d8d92a7880aac64ed56202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 05/27] fix: release the previous mapping and ownership when a
 shared memory object is reused

---
 src/shared_memory.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 5707d40..4e6d2e6 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -124,6 +124,9 @@ SharedMemory::SharedMemory(const std::string& path, int64_t size) noexcept :
 }
 
 bool SharedMemory::create() {
+    assert(!valid());
+    close();
+
     if (path_.empty()) {
         return false;
     }
@@ -179,6 +182,9 @@ bool SharedMemory::create() {
 }
 
 bool SharedMemory::open() {
+    assert(!valid());
+    close();
+
     if (path_.empty()) {
         return false;
     }
@@ -240,6 +246,7 @@ void SharedMemory::close() {
             if (!path_.empty()) {
                 shm_unlink(path_.c_str());
             }
+            shmCreator_ = false;
         }
     }
 }
-- 
2.43.0


From 8eadbab9f86a6567f465ea7579b311c4e79fab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 06/27] fix: refuse to open a shared memory object smaller than
 the mapping

---
 src/shared_memory.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 4e6d2e6..bd9e529 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -196,6 +196,15 @@ bool SharedMemory::open() {
         return false;
     }
 
+    // Accessing pages beyond the end of the object raises SIGBUS.
+    struct stat st;
+    if (fstat(fd_, &st) != 0 || (int64_t)st.st_size < size_) {
+        veigar::log("Veigar: Error: The shared memory is smaller than expected, expected size: %" PRId64 ".\n", size_);
+        ::close(fd_);
+        fd_ = -1;
+        return false;
+    }
+
     void* memory = mmap(nullptr,                 // addr
                         size_,                   // length
                         PROT_READ | PROT_WRITE,  // prot
-- 
2.43.0


From f74fa5b7621926c801a587d74c45d69a2e97e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 07/27] fix: reject message queue geometries without room for a
 message

---
 src/message_queue.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index def22ed..f454b2e 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -23,7 +23,7 @@ bool MessageQueue::create(const std::string& path) {
         assert(!shm_ && !rwLock_ && !readSmp_);
         close();
 
-        if (msgMaxNumber_ <= 0) {
+        if (msgMaxNumber_ <= 0 || msgExpectedMaxSize_ <= 0) {
             break;
         }
 
@@ -84,6 +84,10 @@ bool MessageQueue::open(const std::string& path) {
         assert(!shm_ && !rwLock_ && !readSmp_);
         close();
 
+        if (msgMaxNumber_ <= 0 || msgExpectedMaxSize_ <= 0) {
+            break;
+        }
+
         std::string shmName = path + "_shm";
         int64_t shmSize = sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
-- 
2.43.0


From 9b2a7f6ba92b910db20ca5abe0b2c64d259c38f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 08/27] fix: an unlimited event wait must not overflow the
 deadline

---
 src/event.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/event.cpp b/src/event.cpp
index d9c9601..03d6043 100644
--- a/src/event.cpp
+++ b/src/event.cpp
@@ -58,8 +58,12 @@ bool Event::isCancelled() {
 
 bool Event::wait(int64_t millseconds) {
     std::unique_lock<std::mutex> ul(m_);
-    int64_t m = (millseconds >= 0 ? millseconds : std::chrono::duration_values<int64_t>::max());
-    settedCondVar_.wait_for(ul, std::chrono::milliseconds(m), [this] { return (isSet_ || isCancelled_); });
+    if (millseconds < 0) {
+        settedCondVar_.wait(ul, [this] { return (isSet_ || isCancelled_); });
+    }
+    else {
+        settedCondVar_.wait_for(ul, std::chrono::milliseconds(millseconds), [this] { return (isSet_ || isCancelled_); });
+    }
     return (isSet_ || isCancelled_);
 }
 }  // namespace veigar
-- 
2.43.0


From 38b7b52f11a1f964d5c9cddd39a686efade6f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:37 +0000
Subject: [PATCH 09/27] fix: compute the call timeout in 64 bits

---
 src/veigar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index 6f05ebe..8b8467b 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -270,7 +270,7 @@ bool Veigar::sendCall(const std::string& channelName,
         memcpy(cm.data, buffer->data(), cm.dataSize);
     }
 
-    cm.timeout = timeoutMS * 1000;
+    cm.timeout = (int64_t)timeoutMS * 1000;
     cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
     impl_->sender_->addCall(cm);
-- 
2.43.0


From 433a9b8b56ace354e3a35b9d61f03fb97a19d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:37 +0000
Subject: [PATCH 10/27] fix: a failed init must not dereference components that
 were never created

---
 src/veigar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index 8b8467b..b3c122c 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -79,11 +79,11 @@ class Veigar::Impl {
                 veigar_->callDisp_->uninit();
             }
 
-            if (respDispatcher_->isInit()) {
+            if (respDispatcher_ && respDispatcher_->isInit()) {
                 respDispatcher_->uninit();
             }
 
-            if (sender_->isInit()) {
+            if (sender_ && sender_->isInit()) {
                 sender_->uninit();
             }
 
-- 
2.43.0


From aaed63a7dac3dc91652c9f03e3dacef1b9fc1ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:37 +0000
Subject: [PATCH 11/27] fix: free the pending responses when the sender is
 uninitialised

---
 src/sender.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index fd98ac7..d9b3ab6 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -91,7 +91,7 @@ void Sender::uninit() {
 
     // release all responses memory
     respListMutex_.lock();
-    while (!callList_.empty()) {
+    while (!respList_.empty()) {
         RespMeta rm = respList_.front();
         if (rm.data) {
             free(rm.data);
-- 
2.43.0


From 961a6049708502c869ae92c0b7e1f1b240da23c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:37 +0000
Subject: [PATCH 12/27] fix: separate function name and index in the call id

---
 src/veigar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index b3c122c..a03303d 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -237,7 +237,7 @@ uint32_t Veigar::timeoutOfRWLock() const {
 std::string Veigar::getNextCallId(const std::string& funcName) const {
     assert(impl_);
     uint32_t idx = impl_->callIndex_.fetch_add(1);
-    std::string callId = impl_->uuid_ + funcName + std::to_string((unsigned long)idx);
+    std::string callId = impl_->uuid_ + funcName + "_" + std::to_string((unsigned long)idx);
     return callId;
 }
 
-- 
2.43.0


From fad9a79481288b4bc03aa73b1f860136be3ca3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:37 +0000
Subject: [PATCH 13/27] fix: give the read signal back when the queue lock
 times out

---
 src/call_dispatcher.cpp | 1 +
 src/resp_dispatcher.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index e1f5006..fdd789f 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -183,6 +183,7 @@ void CallDispatcher::dispatchThreadProc() {
 
         if (!impl_->callMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
             veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from call message queue.\n");
+            impl_->callMsgQueue_->notifyRead();  // the message is still there: give the signal back
             continue;
         }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 74510a8..92be42f 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -99,6 +99,7 @@ void RespDispatcher::dispatchRespThreadProc() {
 
         if (!respMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
             veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from response message queue.\n");
+            respMsgQueue_->notifyRead();  // the message is still there: give the signal back
             continue;
         }
 
-- 
2.43.0


From 6b9d62b61734939b6c247810f3b753f3f449807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:37 +0000
Subject: [PATCH 14/27] fix: check that a call message is an array before
 reading its size

---
 src/call_dispatcher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index fdd789f..2865ea4 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -105,7 +105,7 @@ void CallDispatcher::unbind(std::string const& name) {
 
 Response CallDispatcher::dispatch(veigar_msgpack::object const& msg, std::string& callerChannelName) {
     // Quickly check
-    if (msg.via.array.size != 5) {
+    if (msg.type != veigar_msgpack::type::ARRAY || msg.via.array.size != 5) {
         return Response::MakeEmptyResponse();
     }
 
-- 
2.43.0


From 59b7b4975db37714b74081eebbb2b9588ec06a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:37 +0000
Subject: [PATCH 15/27] fix: a malformed message must not poison the unpacker

---
 src/call_dispatcher.cpp | 3 +++
 src/resp_dispatcher.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 2865ea4..5fa13fd 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -241,6 +241,9 @@ void CallDispatcher::dispatchThreadProc() {
             }
 
             if (!nextRet) {
+                // Every queue message is complete in itself: do not let a malformed one affect the following.
+                callPac.reset();
+                callPac.remove_nonparsed_buffer();
                 break;
             }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 92be42f..ce32d32 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -157,6 +157,9 @@ void RespDispatcher::dispatchRespThreadProc() {
             }
 
             if (!nextRet) {
+                // Every queue message is complete in itself: do not let a malformed one affect the following.
+                respPac.reset();
+                respPac.remove_nonparsed_buffer();
                 break;
             }
 
-- 
2.43.0


From fbcaef7f0eab542878aa1753515803012af8b43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 16/27] fix: reject calls with a wrong argument count in every
 build

---
 include/veigar/call_dispatcher.h   |  2 ++
 include/veigar/call_dispatcher.inl | 15 +++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index a46c2a6..d973839 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -12,6 +12,8 @@
 
 #include <functional>
 #include <memory>
+#include <stdexcept>
+#include <string>
 #include <unordered_map>
 #include "veigar/config.h"
 #include "veigar/msgpack.hpp"
diff --git a/include/veigar/call_dispatcher.inl b/include/veigar/call_dispatcher.inl
index 204cb53..bd19e7b 100644
--- a/include/veigar/call_dispatcher.inl
+++ b/include/veigar/call_dispatcher.inl
@@ -7,6 +7,13 @@
  */
 namespace veigar {
 namespace detail {
+// note: dispatcher will catch this exception.
+inline void checkArgsCount(veigar_msgpack::object const& args, int expectedCount) {
+    if (args.type != veigar_msgpack::type::ARRAY || args.via.array.size != (uint32_t)expectedCount) {
+        throw std::runtime_error("Invalid argument count, expected " + std::to_string(expectedCount));
+    }
+}
+
 template <typename F>
 bool CallDispatcher::bind(std::string const& name, F func) {
     if (name.empty() || isFuncNameExist(name)) {
@@ -29,7 +36,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
     funcs_.insert(
         std::make_pair(name, [func, name](veigar_msgpack::object const& args) {
             constexpr int args_count = std::tuple_size<args_type>::value;
-            assert(args_count == args.via.array.size);
+            checkArgsCount(args, args_count);
             func();
             return detail::make_unique<veigar_msgpack::object_handle>();
         }));
@@ -49,7 +56,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
         std::make_pair(name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
-                           assert(args_count == args.via.array.size);
+                           checkArgsCount(args, args_count);
 
                            args_type args_real;
                            // note: dispatcher will catch this type_error exception.
@@ -74,7 +81,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
         std::make_pair(name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
-                           assert(args_count == args.via.array.size);
+                           checkArgsCount(args, args_count);
 
                            auto z = detail::make_unique<veigar_msgpack::zone>();
                            auto result = veigar_msgpack::object(func(), *z);
@@ -96,7 +103,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
     funcs_.insert(std::make_pair(name,
                                  [func, name](veigar_msgpack::object const& args) {
                                      constexpr int args_count = std::tuple_size<args_type>::value;
-                                     assert(args_count == args.via.array.size);
+                                     checkArgsCount(args, args_count);
 
                                      args_type args_real;
                                      // note: dispatcher will catch this type_error exception.
-- 
2.43.0


From ceae42de3a967ac87a902c15099d530ce5eeb9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 17/27] fix: unlock the queue after an exception only when it
 is still locked

---
 src/sender.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index d9b3ab6..589a7f6 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -194,6 +194,7 @@ void Sender::sendCallThreadProc() {
 
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
+            bool locked = false;
             try {
                 errMsg.clear();
 
@@ -205,7 +206,8 @@ void Sender::sendCallThreadProc() {
                 }
 
                 if (mq) {
-                    if (mq->processRWLock(veigar_->timeoutOfRWLock())) {
+                    locked = mq->processRWLock(veigar_->timeoutOfRWLock());
+                    if (locked) {
                         if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout)) {
                             if (mq->pushBack(cm.data, cm.dataSize)) {
                                 mq->notifyRead();
@@ -219,6 +221,7 @@ void Sender::sendCallThreadProc() {
                             ec = ErrorCode::TIMEOUT;
                             errMsg = "Waiting for call queue availability timeout.";
                         }
+                        locked = false;
                         mq->processRWUnlock();
                     }
                     else {
@@ -231,14 +234,14 @@ void Sender::sendCallThreadProc() {
                 }
 
             } catch (std::exception& e) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (locked) {
+                    mq->processRWUnlock();
                 }
                 veigar::log("Veigar: Error: An exception occurred during pushing message to call queue: %s.\n", e.what());
                 errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to call queue: %s.", e.what());
             } catch (...) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (locked) {
+                    mq->processRWUnlock();
                 }
                 veigar::log("Veigar: Error: An exception occurred during pushing message to call queue.\n");
                 errMsg = "An exception occurred during pushing message to call queue.";
@@ -297,6 +300,7 @@ void Sender::sendRespThreadProc() {
 
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
+            bool locked = false;
             try {
                 errMsg.clear();
 
@@ -308,7 +312,8 @@ void Sender::sendRespThreadProc() {
                 }
 
                 if (mq) {
-                    if (mq->processRWLock(veigar_->timeoutOfRWLock())) {
+                    locked = mq->processRWLock(veigar_->timeoutOfRWLock());
+                    if (locked) {
                         if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout)) {
                             if (mq->pushBack(rm.data, rm.dataSize)) {
                                 mq->notifyRead();
@@ -322,6 +327,7 @@ void Sender::sendRespThreadProc() {
                             ec = ErrorCode::TIMEOUT;
                             errMsg = "Waiting for response queue availability timeout.";
                         }
+                        locked = false;
                         mq->processRWUnlock();
                     }
                     else {
@@ -334,13 +340,13 @@ void Sender::sendRespThreadProc() {
                 }
 
             } catch (std::exception& e) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (locked) {
+                    mq->processRWUnlock();
                 }
                 errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to response queue: %s.", e.what());
             } catch (...) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+                if (locked) {
+                    mq->processRWUnlock();
                 }
                 errMsg = "An exception occurred during parsing pushing message to response queue.";
             }
-- 
2.43.0


From aaf446c846b7c830b5fe613aca01d22293241c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 18/27] fix: do not hold the queue lock while waiting for space

---
 src/sender.cpp | 43 ++++++++++++++++++++++++++++++-------------
 src/sender.h   |  3 ++-
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index 589a7f6..4fc341b 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -208,7 +208,7 @@ void Sender::sendCallThreadProc() {
                 if (mq) {
                     locked = mq->processRWLock(veigar_->timeoutOfRWLock());
                     if (locked) {
-                        if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout)) {
+                        if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout, locked)) {
                             if (mq->pushBack(cm.data, cm.dataSize)) {
                                 mq->notifyRead();
                                 ec = ErrorCode::SUCCESS;
@@ -221,8 +221,10 @@ void Sender::sendCallThreadProc() {
                             ec = ErrorCode::TIMEOUT;
                             errMsg = "Waiting for call queue availability timeout.";
                         }
-                        locked = false;
-                        mq->processRWUnlock();
+                        if (locked) {
+                            locked = false;
+                            mq->processRWUnlock();
+                        }
                     }
                     else {
                         ec = ErrorCode::TIMEOUT;
@@ -314,7 +316,7 @@ void Sender::sendRespThreadProc() {
                 if (mq) {
                     locked = mq->processRWLock(veigar_->timeoutOfRWLock());
                     if (locked) {
-                        if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout)) {
+                        if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout, locked)) {
                             if (mq->pushBack(rm.data, rm.dataSize)) {
                                 mq->notifyRead();
                                 ec = ErrorCode::SUCCESS;
@@ -327,8 +329,10 @@ void Sender::sendRespThreadProc() {
                             ec = ErrorCode::TIMEOUT;
                             errMsg = "Waiting for response queue availability timeout.";
                         }
-                        locked = false;
-                        mq->processRWUnlock();
+                        if (locked) {
+                            locked = false;
+                            mq->processRWUnlock();
+                        }
                     }
                     else {
                         ec = ErrorCode::TIMEOUT;
@@ -365,17 +369,24 @@ void Sender::sendRespThreadProc() {
 bool Sender::checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
                                int64_t needSize,
                                int64_t startCallTimePoint,
-                               int64_t timeout) {
+                               int64_t timeout,
+                               bool& locked) {
     bool result = false;
     do {
-        bool waitable = false;
-        if (mq->checkSpaceSufficient(needSize, waitable)) {
-            result = true;
-            break;
+        if (!locked) {
+            locked = mq->processRWLock(veigar_->timeoutOfRWLock());
         }
 
-        if (!waitable) {
-            break;
+        if (locked) {
+            bool waitable = false;
+            if (mq->checkSpaceSufficient(needSize, waitable)) {
+                result = true;
+                break;
+            }
+
+            if (!waitable) {
+                break;
+            }
         }
 
         int64_t used = TimeUtil::GetCurrentTimestamp() - startCallTimePoint;
@@ -392,6 +403,12 @@ bool Sender::checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
             waitMS = ms;
         }
 
+        // Let the receiver drain the queue while waiting.
+        if (locked) {
+            locked = false;
+            mq->processRWUnlock();
+        }
+
         if (stopEvent_.wait(waitMS)) {
             break;  // user call uninit, exit now!
         }
diff --git a/src/sender.h b/src/sender.h
index 65e9cd9..e4a366b 100644
--- a/src/sender.h
+++ b/src/sender.h
@@ -62,7 +62,8 @@ class Sender {
     bool checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
                            int64_t needSize,
                            int64_t startCallTimePoint,
-                           int64_t timeout);
+                           int64_t timeout,
+                           bool& locked);
 
    private:
     bool isInit_ = false;
-- 
2.43.0


From 8b618400d53ba9b8d1eaf3179f34580c0214f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:45 +0000
Subject: [PATCH 19/27] fix: a repeated response must not complete a call twice

---
 src/resp_dispatcher.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index ce32d32..40e65f3 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -184,8 +184,11 @@ void RespDispatcher::dispatchRespThreadProc() {
                 }
 
                 ongoingCallsMutex_.lock();
-                if (ongoingCalls_.find(callId) != ongoingCalls_.end()) {
-                    retMeta = ongoingCalls_[callId];
+                auto it = ongoingCalls_.find(callId);
+                if (it != ongoingCalls_.end()) {
+                    // Take it out at once, a call is completed only once.
+                    retMeta = it->second;
+                    ongoingCalls_.erase(it);
                 }
                 else {
                     veigar::log("Veigar: Warning: Unable to find call: %s, Going-Call number: %d.\n", callId.c_str(), ongoingCalls_.size());
-- 
2.43.0


From c32733e96f57669c8689d4fb0181345ef102d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:45 +0000
Subject: [PATCH 20/27] fix: deliver a failure for calls that are still waiting
 when the sender stops

---
 src/sender.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index 4fc341b..4868526 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -82,10 +82,29 @@ void Sender::uninit() {
     callListMutex_.lock();
     while (!callList_.empty()) {
         CallMeta cm = callList_.front();
+        callList_.pop();
+
         if (cm.data) {
             free(cm.data);
         }
-        callList_.pop();
+
+        // Nobody will send this call any more, its caller is still waiting for the result.
+        CallResult failedRet;
+        failedRet.errCode = ErrorCode::FAILED;
+        failedRet.errorMessage = "The call was not sent before the sender stopped.";
+
+        callListMutex_.unlock();
+        if (cm.resultMeta.metaType == 0) {
+            if (cm.resultMeta.p) {
+                cm.resultMeta.p->set_value(std::move(failedRet));
+            }
+        }
+        else if (cm.resultMeta.metaType == 1) {
+            if (cm.resultMeta.cb) {
+                cm.resultMeta.cb(failedRet);
+            }
+        }
+        callListMutex_.lock();
     }
     callListMutex_.unlock();
 
-- 
2.43.0


From ff84722e2717d0e823ee39b29859b06e6bf0201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:20 +0000
Subject: [PATCH 21/27] fix: roll back when a worker thread cannot be started

---
 src/call_dispatcher.cpp | 13 +++++++++----
 src/resp_dispatcher.cpp | 13 +++++++++----
 src/sender.cpp          | 21 +++++++++++++--------
 3 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 5fa13fd..9a72127 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -52,12 +52,17 @@ bool CallDispatcher::init() {
 
     impl_->stop_.store(false);
 
-    for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
-        impl_->workers_.emplace_back(std::thread(&CallDispatcher::dispatchThreadProc, this));
-    }
-
     init_ = true;
 
+    try {
+        for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
+            impl_->workers_.emplace_back(std::thread(&CallDispatcher::dispatchThreadProc, this));
+        }
+    } catch (std::exception& e) {
+        veigar::log("Veigar: Error: Start call dispatcher threads failed: %s.\n", e.what());
+        uninit();
+    }
+
     return init_;
 }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 40e65f3..1327c46 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -30,12 +30,17 @@ bool RespDispatcher::init() {
         return false;
     }
 
-    for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
-        workers_.emplace_back(std::thread(&RespDispatcher::dispatchRespThreadProc, this));
-    }
-
     init_ = true;
 
+    try {
+        for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
+            workers_.emplace_back(std::thread(&RespDispatcher::dispatchRespThreadProc, this));
+        }
+    } catch (std::exception& e) {
+        veigar::log("Veigar: Error: Start response dispatcher threads failed: %s.\n", e.what());
+        uninit();
+    }
+
     return init_;
 }
 
diff --git a/src/sender.cpp b/src/sender.cpp
index 4868526..6a2bb39 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -29,17 +29,22 @@ bool Sender::init(std::shared_ptr<RespDispatcher> respDisp,
     selfCallMQ_ = selfCallMQ;
     selfRespMQ_ = selfRespMQ;
 
-    for (size_t i = 0; i < VEIGAR_SEND_CALL_THREAD_NUMBER; ++i) {
-        callWorkers_.emplace_back(std::thread(&Sender::sendCallThreadProc, this));
-    }
+    isInit_ = true;
 
-    for (size_t i = 0; i < VEIGAR_SEND_RESPONSE_THREAD_NUMBER; ++i) {
-        respWorkers_.emplace_back(std::thread(&Sender::sendRespThreadProc, this));
-    }
+    try {
+        for (size_t i = 0; i < VEIGAR_SEND_CALL_THREAD_NUMBER; ++i) {
+            callWorkers_.emplace_back(std::thread(&Sender::sendCallThreadProc, this));
+        }
 
-    isInit_ = true;
+        for (size_t i = 0; i < VEIGAR_SEND_RESPONSE_THREAD_NUMBER; ++i) {
+            respWorkers_.emplace_back(std::thread(&Sender::sendRespThreadProc, this));
+        }
+    } catch (std::exception& e) {
+        veigar::log("Veigar: Error: Start sender threads failed: %s.\n", e.what());
+        uninit();
+    }
 
-    return true;
+    return isInit_;
 }
 
 void Sender::uninit() {
-- 
2.43.0


From c037bea02f250ae6366768b8cf586f13d0f27a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 22/27] fix: a call that fails with an exception still returns
 a future with the failure

doAsyncCall handed the future to the caller only after sendCall returned. When packing the
arguments or sending threw, the failure was set on a promise whose future was already lost,
and the caller got a result without a future (waiting on it throws future_error).
---
 include/veigar/veigar.inl | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index 90c2da0..091001d 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -73,10 +73,9 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
 
     acr->first = callId;
     auto p = std::make_shared<std::promise<CallResult>>();
+    acr->second = p->get_future();
 
     try {
-        auto ft = p->get_future();
-
         std::string curChannelName = channelName();
         auto argsObj = std::make_tuple(args...);
         auto callObj = std::make_tuple(0, callId, curChannelName, funcName, argsObj);
@@ -99,8 +98,6 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
 
             p->set_value(std::move(failedRet));
         }
-
-        acr->second = std::move(ft);
     } catch (std::exception& e) {
         failedRet.errorMessage = e.what();
         p->set_value(std::move(failedRet));
-- 
2.43.0


From 3dba572bba13a848284a96328e6d2ffc2eca852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 23/27] fix: a failed call invokes its callback once, also when
 the callback throws

The callback was called inside the try block whose handler calls it again, so a throwing
callback got the failure twice.
---
 include/veigar/veigar.inl | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index 091001d..b1470a6 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -139,25 +139,22 @@ void Veigar::doAsyncCallWithCallback(
         retMeta.cb = cb;
 
         std::string errMsg;
-        if (!sendCall(targetChannel, timeoutMS, buffer, callId, funcName, retMeta, errMsg)) {
-            if (errMsg.empty()) {
-                failedRet.errorMessage = "Send failed: Unknown.";
-            }
-            else {
-                failedRet.errorMessage = "Send failed: " + errMsg;
-            }
-
-            if (cb) {
-                cb(failedRet);
-            }
+        if (sendCall(targetChannel, timeoutMS, buffer, callId, funcName, retMeta, errMsg)) {
             return;
         }
+
+        if (errMsg.empty()) {
+            failedRet.errorMessage = "Send failed: Unknown.";
+        }
+        else {
+            failedRet.errorMessage = "Send failed: " + errMsg;
+        }
     } catch (std::exception& e) {
         failedRet.errorMessage = e.what();
-        if (cb) {
-            cb(failedRet);
-        }
-        return;
+    }
+
+    if (cb) {
+        cb(failedRet);
     }
 }
 }  // namespace veigar
\ No newline at end of file
-- 
2.43.0


From 62ab534c4f6e1b77ffd90b3ccafb2d57a7ca27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 24/27] fix: packing the floating point value 2^64 converts it
 to uint64_t out of range

double(UINT64_MAX) is 2^64, which does not fit: the conversion is undefined.
---
 include/veigar/msgpack/v1/pack.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/veigar/msgpack/v1/pack.hpp b/include/veigar/msgpack/v1/pack.hpp
index 3a37742..51104c6 100644
--- a/include/veigar/msgpack/v1/pack.hpp
+++ b/include/veigar/msgpack/v1/pack.hpp
@@ -1142,7 +1142,7 @@ inline packer<Stream>& packer<Stream>::pack_float(float d)
 {
     if(d == d) { // check for nan
         // compare d to limits to avoid undefined behaviour
-        if(d >= 0 && d <= float(std::numeric_limits<uint64_t>::max()) && d == float(uint64_t(d))) {
+        if(d >= 0 && d < float(std::numeric_limits<uint64_t>::max()) && d == float(uint64_t(d))) {
             pack_imp_uint64(uint64_t(d));
             return *this;
         } else if(d < 0 && d >= float(std::numeric_limits<int64_t>::min()) && d == float(int64_t(d))) {
@@ -1164,7 +1164,7 @@ inline packer<Stream>& packer<Stream>::pack_double(double d)
 {
     if(d == d) { // check for nan
         // compare d to limits to avoid undefined behaviour
-        if(d >= 0 && d <= double(std::numeric_limits<uint64_t>::max()) && d == double(uint64_t(d))) {
+        if(d >= 0 && d < double(std::numeric_limits<uint64_t>::max()) && d == double(uint64_t(d))) {
             pack_imp_uint64(uint64_t(d));
             return *this;
         } else if(d < 0 && d >= double(std::numeric_limits<int64_t>::min()) && d == double(int64_t(d))) {
-- 
2.43.0


From 900b635c785470e6bbd57e9f6dcafa17129da992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 25/27] fix: negative zero loses its sign when it is packed

-0.0 equals the integer 0 and was packed as such.
---
 include/veigar/msgpack/v1/pack.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/veigar/msgpack/v1/pack.hpp b/include/veigar/msgpack/v1/pack.hpp
index 51104c6..c3cfe0c 100644
--- a/include/veigar/msgpack/v1/pack.hpp
+++ b/include/veigar/msgpack/v1/pack.hpp
@@ -15,6 +15,7 @@
 #include "veigar/msgpack/v1/pack_decl.hpp"
 
 #include <stdexcept>
+#include <cmath>
 #include <limits>
 #include <cstring>
 #include <climits>
@@ -1142,7 +1143,7 @@ inline packer<Stream>& packer<Stream>::pack_float(float d)
 {
     if(d == d) { // check for nan
         // compare d to limits to avoid undefined behaviour
-        if(d >= 0 && d < float(std::numeric_limits<uint64_t>::max()) && d == float(uint64_t(d))) {
+        if(!std::signbit(d) && d < float(std::numeric_limits<uint64_t>::max()) && d == float(uint64_t(d))) {
             pack_imp_uint64(uint64_t(d));
             return *this;
         } else if(d < 0 && d >= float(std::numeric_limits<int64_t>::min()) && d == float(int64_t(d))) {
@@ -1164,7 +1165,7 @@ inline packer<Stream>& packer<Stream>::pack_double(double d)
 {
     if(d == d) { // check for nan
         // compare d to limits to avoid undefined behaviour
-        if(d >= 0 && d < double(std::numeric_limits<uint64_t>::max()) && d == double(uint64_t(d))) {
+        if(!std::signbit(d) && d < double(std::numeric_limits<uint64_t>::max()) && d == double(uint64_t(d))) {
             pack_imp_uint64(uint64_t(d));
             return *this;
         } else if(d < 0 && d >= double(std::numeric_limits<int64_t>::min()) && d == double(int64_t(d))) {
-- 
2.43.0


From 105562107c57acfd78aa7b59b1ed3898d819c07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 26/27] fix: a text shorter than a char array was read past its
 end when converted

---
 include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp          | 2 +-
 include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp b/include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp
index 9872b9c..ea0f1ed 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp
@@ -38,7 +38,7 @@ struct convert<std::array<char, N>> {
             break;
         case veigar_msgpack::type::STR:
             if(o.via.str.size > N) { throw veigar_msgpack::type_error(); }
-            std::memcpy(v.data(), o.via.str.ptr, N);
+            std::memcpy(v.data(), o.via.str.ptr, o.via.str.size);
             break;
         default:
             throw veigar_msgpack::type_error();
diff --git a/include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp b/include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp
index e646573..303cd13 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp
@@ -38,7 +38,7 @@ struct convert<std::array<unsigned char, N>> {
             break;
         case veigar_msgpack::type::STR:
             if(o.via.str.size > N) { throw veigar_msgpack::type_error(); }
-            std::memcpy(v.data(), o.via.str.ptr, N);
+            std::memcpy(v.data(), o.via.str.ptr, o.via.str.size);
             break;
         default:
             throw veigar_msgpack::type_error();
-- 
2.43.0


From 3550ea547eeef4b4eaee3c371387e2b7940ae0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 27/27] fix: an empty array received for a C array of a user
 type was read through a null pointer

---
 include/veigar/msgpack/v1/adaptor/carray.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/veigar/msgpack/v1/adaptor/carray.hpp b/include/veigar/msgpack/v1/adaptor/carray.hpp
index 87fa314..03cd748 100644
--- a/include/veigar/msgpack/v1/adaptor/carray.hpp
+++ b/include/veigar/msgpack/v1/adaptor/carray.hpp
@@ -30,13 +30,15 @@ struct convert<T[N]> {
     veigar_msgpack::object const& operator()(veigar_msgpack::object const& o, T* v) const {
         if (o.type != veigar_msgpack::type::ARRAY) { throw veigar_msgpack::type_error(); }
         if (o.via.array.size > N) { throw veigar_msgpack::type_error(); }
-        veigar_msgpack::object* p = o.via.array.ptr;
-        veigar_msgpack::object* const pend = o.via.array.ptr + o.via.array.size;
-        do {
-            p->convert(*v);
-            ++p;
-            ++v;
-        } while(p < pend);
+        if (o.via.array.size > 0) {
+            veigar_msgpack::object* p = o.via.array.ptr;
+            veigar_msgpack::object* const pend = o.via.array.ptr + o.via.array.size;
+            do {
+                p->convert(*v);
+                ++p;
+                ++v;
+            } while(p < pend);
+        }
         return o;
     }
 };
-- 
2.43.0

