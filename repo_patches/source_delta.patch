From 9371986e43295be4b15a3e102fbd541af67cc93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 01/13] fix: Semaphore::wait measures the timeout correctly

The nanosecond field was not carried into the seconds (EINVAL in the last part
of a second), a signal ended the wait, and changes of the system time moved
the deadline. IsExist created the semaphore it asked for.
---
 src/semaphore.cpp | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index 11851d1..523e689 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -8,8 +8,20 @@
 #include "semaphore.h"
 #include "log.h"
 #include <assert.h>
+#include <errno.h>
 #include <limits>
 
+#ifndef VEIGAR_OS_WINDOWS
+// Measure the timeout with the monotonic clock where possible, it is not affected by changes of the system time.
+#if defined(__GLIBC__) && (__GLIBC__ > 2 || (__GLIBC__ == 2 && __GLIBC_MINOR__ >= 30))
+#define VEIGAR_SEM_CLOCK CLOCK_MONOTONIC
+#define VEIGAR_SEM_TIMED_WAIT(sem, ts) sem_clockwait(sem, CLOCK_MONOTONIC, ts)
+#else
+#define VEIGAR_SEM_CLOCK CLOCK_REALTIME
+#define VEIGAR_SEM_TIMED_WAIT(sem, ts) sem_timedwait(sem, ts)
+#endif
+#endif
+
 namespace veigar {
 
 bool Semaphore::IsExist(const std::string& name) {
@@ -20,12 +32,12 @@ bool Semaphore::IsExist(const std::string& name) {
     }
     return (h != NULL);
 #else
-    sem_t* sem = ::sem_open(name.c_str(), O_CREAT | O_EXCL);
+    sem_t* sem = ::sem_open(name.c_str(), 0);
     if (sem == SEM_FAILED) {
-        return true;
+        return false;
     }
     ::sem_close(sem);
-    return false;
+    return true;
 #endif
 }
 
@@ -87,7 +99,8 @@ void Semaphore::wait() {
 #ifdef VEIGAR_OS_WINDOWS
         WaitForSingleObject(sh_->h_, INFINITE);
 #else
-        sem_wait(sh_->named_);
+        while (sem_wait(sh_->named_) != 0 && errno == EINTR) {
+        }
 #endif
     }
 }
@@ -101,22 +114,37 @@ bool Semaphore::wait(const int64_t& ms) {
     DWORD result = WaitForSingleObject(sh_->h_, ms >= 0 ? (DWORD)ms : INFINITE);
     return (result == WAIT_OBJECT_0);
 #else
+    int ret = 0;
     if (ms >= 0) {
         timespec ts;
 
         timespec ts_now;
-        clock_gettime(CLOCK_REALTIME, &ts_now);
+        clock_gettime(VEIGAR_SEM_CLOCK, &ts_now);
 
         ts.tv_sec = ts_now.tv_sec;
         ts.tv_nsec = ts_now.tv_nsec;
 
-        ts.tv_sec += (ms / 1000);
+        const int64_t maxSec = std::numeric_limits<int32_t>::max();  // about 68 years
+        ts.tv_sec += (time_t)(ms / 1000 < maxSec ? ms / 1000 : maxSec);
         ts.tv_nsec += ((ms % 1000) * 1000000);
+        if (ts.tv_nsec >= 1000000000L) {
+            ts.tv_sec += 1;
+            ts.tv_nsec -= 1000000000L;
+        }
+
+        // The deadline is absolute, so an interrupted wait can be continued.
+        do {
+            ret = VEIGAR_SEM_TIMED_WAIT(sh_->named_, &ts);
+        } while (ret != 0 && errno == EINTR);
 
-        return (sem_timedwait(sh_->named_, &ts) == 0);
+        return (ret == 0);
     }
 
-    return (sem_wait(sh_->named_) == 0);
+    do {
+        ret = sem_wait(sh_->named_);
+    } while (ret != 0 && errno == EINTR);
+
+    return (ret == 0);
 #endif
 }
 
-- 
2.43.0


From bbc5fc27d3e9762cdad6c2e456f5d47e93270c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 02/13] fix: move overlapping queue data with memmove

Compacting the queue and removing the first entry of the size list copied
overlapping ranges with memcpy, which is undefined and can corrupt messages.
---
 src/message_queue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 580b343..79309e6 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -224,7 +224,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
 
             // move old data to offset zero
             uint8_t* pOldData = pFirstMsgData + *pFrontFree;
-            memcpy(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);
+            memmove(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);
 
             // set front free to 0
             *pFrontFree = 0;
@@ -292,7 +292,7 @@ bool MessageQueue::popFront(void* buf, int64_t bufSize, int64_t& written) {
         *pFrontFree += *pFirstMsgDataSize;
 
         // pop a element from data size list
-        memcpy(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));
+        memmove(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));
 
         ret = true;
     } while (false);
-- 
2.43.0


From 20f5cc15a6010509270d674b467b23ca1dc43f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 03/13] fix: message queues survive restarts of their creator
 and differing sizes

The creator reused the shared memory and the semaphores of an earlier, possibly
crashed, creator, never removed its semaphores, and published the memory before
it was initialised. Every opener used its own queue sizes to find the data.
Now the creator always creates new objects, marks the memory as ready and
removes the names again, and openers take the geometry from the queue, fail
while it is not ready and can tell a queue that has been replaced. Also compute
the sizes in 64 bit and reserve the memory, so that a full disk is an error.
---
 src/message_queue.cpp | 157 +++++++++++++++++++++++++-----------------
 src/message_queue.h   |  15 +++-
 src/semaphore.cpp     |  31 +++++++++
 src/semaphore.h       |   7 ++
 src/shared_memory.cpp |  64 +++++++++++++++--
 src/shared_memory.h   |   6 ++
 6 files changed, 209 insertions(+), 71 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 79309e6..ebd9ec8 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -8,14 +8,31 @@
 #include "message_queue.h"
 #include "log.h"
 #include <assert.h>
+#include <atomic>
 #include <cstring>
+#include <limits>
 
 namespace veigar {
+namespace {
+// Shm Total Size, Msg Number, Front Free Size, Max Msg Number, and the size of each message.
+int64_t HeaderSize(int64_t msgMaxNumber) {
+    return (int64_t)sizeof(int64_t) * (4 + msgMaxNumber);
+}
+
+std::atomic<int64_t>* HeaderTotalSize(uint8_t* shmData) {
+    return reinterpret_cast<std::atomic<int64_t>*>(shmData);
+}
+}  // namespace
+
 MessageQueue::MessageQueue(int32_t msgMaxNumber, int32_t msgExpectedMaxSize) noexcept :
     msgMaxNumber_(msgMaxNumber),
     msgExpectedMaxSize_(msgExpectedMaxSize) {
 }
 
+MessageQueue::~MessageQueue() noexcept {
+    close();
+}
+
 bool MessageQueue::create(const std::string& path) {
     bool result = false;
 
@@ -23,56 +40,51 @@ bool MessageQueue::create(const std::string& path) {
         assert(!shm_ && !rwLock_ && !readSmp_);
         close();
 
-        if (msgMaxNumber_ <= 0) {
+        if (msgMaxNumber_ <= 0 || msgExpectedMaxSize_ <= 0) {
             break;
         }
 
-        int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = HeaderSize(msgMaxNumber_) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         std::string shmName = path + "_shm";
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
-        if (!shm_->create()) {
+        rwLock_ = std::make_shared<Semaphore>();
+        readSmp_ = std::make_shared<Semaphore>();
+        rwLockName_ = path + "_rwlock";
+        readSmpName_ = path + "_readsmp";
+
+        // Remove what an earlier creator may have left behind.
+        // The shared memory first and last: while its name exists, the semaphores of that name belong to it.
+        shm_->unlink();
+        Semaphore::Unlink(rwLockName_);
+        Semaphore::Unlink(readSmpName_);
+        creator_ = true;
+
+        if (!rwLock_->open(rwLockName_.c_str(), 1, 1)) {
             break;
         }
 
-        std::string rwLockName = path + "_rwlock";
-        rwLock_ = std::make_shared<Semaphore>();
-        if (!rwLock_->open(rwLockName.c_str(), 1, 1)) {
+        if (!readSmp_->open(readSmpName_, 0)) {
             break;
         }
 
-        std::string readSmpName = path + "_readsmp";
-        readSmp_ = std::make_shared<Semaphore>();
-        if (!readSmp_->open(readSmpName, 0)) {
+        if (!shm_->create()) {
             break;
         }
 
         uint8_t* data = shm_->data();
         memset(data, 0, (size_t)shmSize);
         int64_t* pDataSize = (int64_t*)data;
-        *pDataSize = shmSize;
+        *(pDataSize + 3) = msgMaxNumber_;
+
+        // The queue is ready for use once the size is not zero.
+        HeaderTotalSize(data)->store(shmSize, std::memory_order_release);
 
         result = true;
     } while (false);
 
     if (!result) {
-        if (shm_) {
-            if (shm_->valid())
-                shm_->close();
-            shm_.reset();
-        }
-
-        if (rwLock_) {
-            if (rwLock_->valid())
-                rwLock_->close();
-            rwLock_.reset();
-        }
-
-        if (readSmp_) {
-            if (readSmp_->valid())
-                readSmp_->close();
-            readSmp_.reset();
-        }
+        close();
     }
 
     return result;
@@ -85,30 +97,44 @@ bool MessageQueue::open(const std::string& path) {
         close();
 
         std::string shmName = path + "_shm";
-        int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;
-
-        shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
+        shm_ = std::make_shared<SharedMemory>(shmName, 0);
         if (!shm_->open()) {
             break;
         }
 
-        std::string rwLockName = path + "_rwlock";
-        if (!Semaphore::IsExist(rwLockName)) {
+        // The geometry of the queue is determined by its creator.
+        const int64_t minShmSize = HeaderSize(1) + 1;
+        if (shm_->size() < minShmSize) {
+            break;
+        }
+
+        const int64_t shmSize = HeaderTotalSize(shm_->data())->load(std::memory_order_acquire);
+        if (shmSize < minShmSize || shmSize > shm_->size()) {
+            veigar::log("Veigar: Warning: The message queue is not ready yet.\n");
+            break;
+        }
+
+        const int64_t msgMaxNumber = *((int64_t*)shm_->data() + 3);
+        if (msgMaxNumber <= 0 || msgMaxNumber > std::numeric_limits<int32_t>::max() || HeaderSize(msgMaxNumber) >= shmSize) {
             break;
         }
+        msgMaxNumber_ = (int32_t)msgMaxNumber;
+        msgExpectedMaxSize_ = (int32_t)((shmSize - HeaderSize(msgMaxNumber)) / msgMaxNumber);
 
+        std::string rwLockName = path + "_rwlock";
         rwLock_ = std::make_shared<Semaphore>();
-        if (!rwLock_->open(rwLockName.c_str())) {
+        if (!rwLock_->openExisting(rwLockName)) {
             break;
         }
 
         std::string readSmpName = path + "_readsmp";
-        if (!Semaphore::IsExist(readSmpName)) {
+        readSmp_ = std::make_shared<Semaphore>();
+        if (!readSmp_->openExisting(readSmpName)) {
             break;
         }
 
-        readSmp_ = std::make_shared<Semaphore>();
-        if (!readSmp_->open(readSmpName)) {
+        // The semaphores may belong to a newer queue if the shared memory has been removed meanwhile.
+        if (shm_->isStale()) {
             break;
         }
 
@@ -116,23 +142,7 @@ bool MessageQueue::open(const std::string& path) {
     } while (false);
 
     if (!result) {
-        if (shm_) {
-            if (shm_->valid())
-                shm_->close();
-            shm_.reset();
-        }
-
-        if (rwLock_) {
-            if (rwLock_->valid())
-                rwLock_->close();
-            rwLock_.reset();
-        }
-
-        if (readSmp_) {
-            if (readSmp_->valid())
-                readSmp_->close();
-            readSmp_.reset();
-        }
+        close();
     }
 
     return result;
@@ -151,8 +161,8 @@ void MessageQueue::processRWUnlock() {
 }
 
 /*
-| Shm Total Size | Msg Number | Front Free Size | Msg 0 Size | Msg 1 Size | ... | Msg 0 Data | Msg 1 Data | ... |
-|      8         |      8     |       8         |    8       |    8       |     | Msg 0 Size | Msg 1 Size | ... |
+| Shm Total Size | Msg Number | Front Free Size | Max Msg Number | Msg 0 Size | Msg 1 Size | ... | Msg 0 Data | Msg 1 Data | ... |
+|      8         |      8     |       8         |       8        |    8       |    8       |     | Msg 0 Size | Msg 1 Size | ... |
 */
 bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
     bool ret = false;
@@ -164,7 +174,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
     }
 
     assert(msgMaxNumber_ > 0);
-    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
+    if (dataCapacity() < dataSize) {
         veigar::log("Veigar: Error: The data size has exceeded the total size of the message queue. Please adjust the parameters of the message queue.\n");
         return false;
     }
@@ -188,10 +198,10 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
         int64_t* const pShmSize = p64;
         int64_t* const pCurMsgNumber = p64 + 1;
         int64_t* const pFrontFree = p64 + 2;
-        int64_t* const pFirstMsgDataSize = p64 + 3;
+        int64_t* const pFirstMsgDataSize = p64 + 4;
 
         int64_t msgSizeHeaderTotalSize = msgMaxNumber_ * sizeof(int64_t);
-        uint8_t* const pFirstMsgData = shmData + msgSizeHeaderTotalSize + sizeof(int64_t) * 3;
+        uint8_t* const pFirstMsgData = shmData + msgSizeHeaderTotalSize + sizeof(int64_t) * 4;
 
         int64_t msgDataTotalSize = 0L;
         if (*pCurMsgNumber > 0) {
@@ -200,7 +210,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
             }
         }
 
-        int64_t totalFree = *pShmSize - msgSizeHeaderTotalSize - sizeof(int64_t) * 3 - msgDataTotalSize;
+        int64_t totalFree = *pShmSize - msgSizeHeaderTotalSize - sizeof(int64_t) * 4 - msgDataTotalSize;
         int64_t tailFree = totalFree - *pFrontFree;
         if (totalFree < dataSize || *pCurMsgNumber == msgMaxNumber_) {
             veigar::log("Veigar: Warning: Message queue is full. Please adjust the parameters of the message queue.\n");
@@ -264,7 +274,7 @@ bool MessageQueue::popFront(void* buf, int64_t bufSize, int64_t& written) {
             break;
         }
         int64_t* const pFrontFree = p64 + 2;
-        int64_t* const pFirstMsgDataSize = p64 + 3;
+        int64_t* const pFirstMsgDataSize = p64 + 4;
 
         if (*pFirstMsgDataSize > bufSize || !buf) {
             written = *pFirstMsgDataSize;
@@ -272,7 +282,7 @@ bool MessageQueue::popFront(void* buf, int64_t bufSize, int64_t& written) {
         }
 
         int64_t msgSizeHeaderTotalSize = msgMaxNumber_ * sizeof(int64_t);
-        uint8_t* const pFirstMsgData = shmData + sizeof(int64_t) * 3 + msgSizeHeaderTotalSize;
+        uint8_t* const pFirstMsgData = shmData + sizeof(int64_t) * 4 + msgSizeHeaderTotalSize;
 
         int64_t msgDataTotalSize = 0L;
         for (int64_t i = 0; i < *pCurMsgNumber; i++) {
@@ -327,7 +337,7 @@ bool MessageQueue::waitForRead(int64_t ms) {
 
 bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const {
     assert(msgMaxNumber_ > 0);
-    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
+    if (dataCapacity() < dataSize) {
         waitable = false;
         veigar::log("Veigar: Error: The data size has exceeded the total size of the message queue. Please adjust the parameters of the message queue.\n");
         return false;
@@ -354,10 +364,10 @@ bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const
             break;
         }
         int64_t* const pFrontFree = p64 + 2;
-        int64_t* const pFirstMsgDataSize = p64 + 3;
+        int64_t* const pFirstMsgDataSize = p64 + 4;
 
         int64_t msgSizeHeaderTotalSize = msgMaxNumber_ * sizeof(int64_t);
-        uint8_t* const pFirstMsgData = shmData + msgSizeHeaderTotalSize + sizeof(int64_t) * 3;
+        uint8_t* const pFirstMsgData = shmData + msgSizeHeaderTotalSize + sizeof(int64_t) * 4;
 
         int64_t msgDataTotalSize = 0L;
         if (*pCurMsgNumber > 0) {
@@ -366,7 +376,7 @@ bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const
             }
         }
 
-        int64_t totalFree = *pShmSize - msgSizeHeaderTotalSize - sizeof(int64_t) * 3 - msgDataTotalSize;
+        int64_t totalFree = *pShmSize - msgSizeHeaderTotalSize - sizeof(int64_t) * 4 - msgDataTotalSize;
         if (totalFree < dataSize) {
             break;
         }
@@ -377,7 +387,19 @@ bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const
     return result;
 }
 
+int64_t MessageQueue::dataCapacity() const {
+    return (shm_ && shm_->data()) ? *(int64_t*)shm_->data() - HeaderSize(msgMaxNumber_) : 0;
+}
+
+bool MessageQueue::isStale() const {
+    return !shm_ || shm_->isStale();
+}
+
 void MessageQueue::close() {
+    // Do not remove the names if they belong to a newer queue.
+    const bool unlinkNames = creator_ && (!shm_ || !shm_->valid() || !shm_->isStale());
+    creator_ = false;
+
     if (shm_) {
         if (shm_->valid())
             shm_->close();
@@ -395,6 +417,11 @@ void MessageQueue::close() {
             readSmp_->close();
         readSmp_.reset();
     }
+
+    if (unlinkNames) {
+        Semaphore::Unlink(rwLockName_);
+        Semaphore::Unlink(readSmpName_);
+    }
 }
 
 void MessageQueue::notifyRead() {
diff --git a/src/message_queue.h b/src/message_queue.h
index e5dd93f..5167e9f 100644
--- a/src/message_queue.h
+++ b/src/message_queue.h
@@ -18,7 +18,7 @@ namespace veigar {
 class MessageQueue {
    public:
     MessageQueue(int32_t msgMaxNumber, int32_t msgExpectedMaxSize) noexcept;
-    ~MessageQueue() noexcept = default;
+    ~MessageQueue() noexcept;
 
     bool create(const std::string& path);
     bool open(const std::string& path);
@@ -44,9 +44,22 @@ class MessageQueue {
 
     void notifyRead();
 
+    // Whether the creator has closed the queue or has created a new one.
+    bool isStale() const;
+
+   private:
+    MessageQueue(const MessageQueue&) = delete;
+    MessageQueue& operator=(const MessageQueue&) = delete;
+
+    // The total size of all messages that can be stored.
+    int64_t dataCapacity() const;
+
    private:
     int32_t msgMaxNumber_ = 0;
     int32_t msgExpectedMaxSize_ = 0;
+    bool creator_ = false;
+    std::string rwLockName_;
+    std::string readSmpName_;
     std::shared_ptr<SharedMemory> shm_ = nullptr;
     std::shared_ptr<Semaphore> rwLock_ = nullptr;
     std::shared_ptr<Semaphore> readSmp_ = nullptr;
diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index 523e689..3c539c1 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -75,6 +75,37 @@ bool Semaphore::open(const std::string& name, int value /*= 0*/, int maxValue /*
     return valid();
 }
 
+bool Semaphore::openExisting(const std::string& name) {
+    assert(!valid());
+    if (name.empty())
+        return false;
+
+    close();
+
+    SemaphoreHandle* sh = new SemaphoreHandle();
+#ifdef VEIGAR_OS_WINDOWS
+    sh->h_ = OpenSemaphoreA(SEMAPHORE_ALL_ACCESS, FALSE, name.c_str());
+    const bool opened = (sh->h_ != NULL);
+#else
+    sh->named_ = ::sem_open(name.c_str(), 0);
+    const bool opened = (sh->named_ != SEM_FAILED);
+#endif
+    if (!opened) {
+        delete sh;
+        veigar::log("Veigar: Error: Open existing semaphore failed, name: %s.\n", name.c_str());
+        return false;
+    }
+
+    sh_ = sh;
+    return true;
+}
+
+void Semaphore::Unlink(const std::string& name) {
+#ifndef VEIGAR_OS_WINDOWS
+    ::sem_unlink(name.c_str());
+#endif
+}
+
 void Semaphore::close() {
     if (valid()) {
 #ifdef VEIGAR_OS_WINDOWS
diff --git a/src/semaphore.h b/src/semaphore.h
index ec72dcf..6f73bc1 100644
--- a/src/semaphore.h
+++ b/src/semaphore.h
@@ -45,6 +45,13 @@ class Semaphore {
     // 
     // named semaphore used in synchronization among processes.
     bool open(const std::string& name, int value = 0, int maxValue = 2147483647);
+
+    // Open an existing semaphore, fail if it does not exist.
+    bool openExisting(const std::string& name);
+
+    // Remove the name, so that the next 'open' creates a new semaphore.
+    static void Unlink(const std::string& name);
+
     void close();
 
     bool valid() const;
diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 5707d40..8def087 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -17,6 +17,7 @@
 #include <sys/mman.h>  // mmap, munmap
 #include <sys/stat.h>  // for mode constants
 #include <unistd.h>    // unlink
+#include <errno.h>
 
 #ifdef VEIGAR_OS_MACOS
 #include <errno.h>
@@ -64,9 +65,22 @@ bool SharedMemory::open() {
         return false;
     }
 
+    // The size is determined by the creator.
+    MEMORY_BASIC_INFORMATION mbi;
+    if (VirtualQuery(data_, &mbi, sizeof(mbi)) == sizeof(mbi)) {
+        size_ = (int64_t)mbi.RegionSize;
+    }
+
     return true;
 }
 
+bool SharedMemory::isStale() const {
+    return false;
+}
+
+void SharedMemory::unlink() {
+}
+
 void SharedMemory::close() {
     if (data_) {
         UnmapViewOfFile(data_);
@@ -128,7 +142,10 @@ bool SharedMemory::create() {
         return false;
     }
 
-    fd_ = shm_open(path_.c_str(), O_CREAT | O_RDWR, 0666);
+    // Never reuse the memory of an earlier (crashed) creator.
+    shm_unlink(path_.c_str());
+
+    fd_ = shm_open(path_.c_str(), O_CREAT | O_EXCL | O_RDWR, 0666);
     if (fd_ < 0) {
         int err = errno;
         veigar::log("Veigar: Error: shm_open failed, err: %d.\n", err);
@@ -146,6 +163,20 @@ bool SharedMemory::create() {
         return false;
     }
 
+#ifdef VEIGAR_OS_LINUX
+    // Reserve the memory now, writing to memory that is not available raises SIGBUS.
+    do {
+        ret = posix_fallocate(fd_, 0, size_);
+    } while (ret == EINTR);
+    if (ret != 0) {
+        veigar::log("Veigar: Error: posix_fallocate failed, size: %" PRId64 ", err: %d.\n", size_, ret);
+        ::close(fd_);
+        fd_ = -1;
+        shm_unlink(path_.c_str());
+        return false;
+    }
+#endif
+
     void* memory = mmap(nullptr,                 // addr
                         size_,                   // length
                         PROT_READ | PROT_WRITE,  // prot
@@ -190,6 +221,16 @@ bool SharedMemory::open() {
         return false;
     }
 
+    // The size is determined by the creator.
+    struct stat st;
+    if (fstat(fd_, &st) != 0 || st.st_size <= 0) {
+        veigar::log("Veigar: Error: The shared memory is not ready.\n");
+        ::close(fd_);
+        fd_ = -1;
+        return false;
+    }
+    size_ = st.st_size;
+
     void* memory = mmap(nullptr,                 // addr
                         size_,                   // length
                         PROT_READ | PROT_WRITE,  // prot
@@ -223,6 +264,17 @@ bool SharedMemory::valid() const {
     return fd_ != -1;
 }
 
+bool SharedMemory::isStale() const {
+    struct stat st;
+    return fd_ == -1 || fstat(fd_, &st) != 0 || st.st_nlink == 0;
+}
+
+void SharedMemory::unlink() {
+    if (!path_.empty()) {
+        shm_unlink(path_.c_str());
+    }
+}
+
 void SharedMemory::close() {
     if (fd_ != -1) {
         //veigar::log("Veigar: Close fd: %d.\n", fd_);
@@ -231,16 +283,18 @@ void SharedMemory::close() {
             data_ = nullptr;
         }
 
+        // Do not remove the name if it belongs to a newer creator.
+        const bool unlinkName = shmCreator_ && !isStale();
+
         if (fd_ >= 0) {
             ::close(fd_);
             fd_ = -1;
         }
 
-        if (shmCreator_) {
-            if (!path_.empty()) {
-                shm_unlink(path_.c_str());
-            }
+        if (unlinkName) {
+            unlink();
         }
+        shmCreator_ = false;
     }
 }
 #endif  //VEIGAR_OS_WINDOWS
diff --git a/src/shared_memory.h b/src/shared_memory.h
index a62b9a6..73dd51f 100644
--- a/src/shared_memory.h
+++ b/src/shared_memory.h
@@ -31,6 +31,12 @@ class SharedMemory {
     bool valid() const;
     void close();
 
+    // Whether the shared memory has been removed by its creator, or replaced by a new one of the same name.
+    bool isStale() const;
+
+    // Remove the name, so that the memory can no longer be opened.
+    void unlink();
+
     inline int64_t size() const {
         return size_;
     }
-- 
2.43.0


From 06aa177fb5f73594d6aedd07ec1fa6d4c096b78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 04/13] fix: measure call timeouts with a steady clock and in
 64 bit

A change of the system time moved the end of the wait for queue room, and the
timeout in microseconds overflowed 32 bit, as did the wait without a timeout.
---
 src/event.cpp     | 7 ++++++-
 src/sender.cpp    | 2 +-
 src/time_util.cpp | 7 +++++++
 src/time_util.h   | 3 +++
 src/veigar.cpp    | 6 +++---
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/event.cpp b/src/event.cpp
index d9c9601..d96a0c5 100644
--- a/src/event.cpp
+++ b/src/event.cpp
@@ -58,7 +58,12 @@ bool Event::isCancelled() {
 
 bool Event::wait(int64_t millseconds) {
     std::unique_lock<std::mutex> ul(m_);
-    int64_t m = (millseconds >= 0 ? millseconds : std::chrono::duration_values<int64_t>::max());
+    if (millseconds < 0) {
+        settedCondVar_.wait(ul, [this] { return (isSet_ || isCancelled_); });
+        return true;
+    }
+    const int64_t maxMS = 1000LL * 60 * 60 * 24 * 365 * 100;  // the deadline must not overflow
+    int64_t m = (millseconds < maxMS ? millseconds : maxMS);
     settedCondVar_.wait_for(ul, std::chrono::milliseconds(m), [this] { return (isSet_ || isCancelled_); });
     return (isSet_ || isCancelled_);
 }
diff --git a/src/sender.cpp b/src/sender.cpp
index fd98ac7..4a4723d 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -372,7 +372,7 @@ bool Sender::checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
             break;
         }
 
-        int64_t used = TimeUtil::GetCurrentTimestamp() - startCallTimePoint;
+        int64_t used = TimeUtil::GetSteadyTimestamp() - startCallTimePoint;
         if (used >= timeout) {
             break;
         }
diff --git a/src/time_util.cpp b/src/time_util.cpp
index b2db84b..afe759d 100644
--- a/src/time_util.cpp
+++ b/src/time_util.cpp
@@ -7,6 +7,7 @@
  */
 #include "time_util.h"
 #include "os_platform.h"
+#include <chrono>
 #ifdef VEIGAR_OS_WINDOWS
 #ifndef _INC_WINDOWS
 #ifndef WIN32_LEAN_AND_MEAN
@@ -44,4 +45,10 @@ int64_t TimeUtil::GetCurrentTimestamp() {
     return lNowMicroMS;
 #endif
 }
+
+int64_t TimeUtil::GetSteadyTimestamp() {
+    return (int64_t)std::chrono::duration_cast<std::chrono::microseconds>(
+               std::chrono::steady_clock::now().time_since_epoch())
+        .count();
+}
 }  // namespace veigar
\ No newline at end of file
diff --git a/src/time_util.h b/src/time_util.h
index ec1f2fe..22ddfdf 100644
--- a/src/time_util.h
+++ b/src/time_util.h
@@ -16,6 +16,9 @@ class TimeUtil {
    public:
     // The microseconds that since 1970-01-01 00:00:00(UTC)
     static int64_t GetCurrentTimestamp();
+
+    // The microseconds of a clock that is not affected by changes of the system time, to measure elapsed time.
+    static int64_t GetSteadyTimestamp();
 };
 }  // namespace veigar
 #endif  // !VEIGAR_TIME_UTIL_H_
\ No newline at end of file
diff --git a/src/veigar.cpp b/src/veigar.cpp
index 6f05ebe..b1abc54 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -270,8 +270,8 @@ bool Veigar::sendCall(const std::string& channelName,
         memcpy(cm.data, buffer->data(), cm.dataSize);
     }
 
-    cm.timeout = timeoutMS * 1000;
-    cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
+    cm.timeout = (int64_t)timeoutMS * 1000;
+    cm.startCallTimePoint = TimeUtil::GetSteadyTimestamp();
 
     impl_->sender_->addCall(cm);
 
@@ -298,7 +298,7 @@ bool Veigar::sendResponse(const std::string& targetChannel,
     memcpy(rm.data, buf, bufSize);
 
     rm.timeout = VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT * 1000;
-    rm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
+    rm.startCallTimePoint = TimeUtil::GetSteadyTimestamp();
 
     impl_->sender_->addResp(rm);
 
-- 
2.43.0


From dad846f4ec5a5c423b36847ea76af81fcf2dea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 05/13] fix: call ids are unique

Unseeded rand() gave every process the same uuid, so a call of a restarted
process could be completed by a response to its predecessor, and the function
name followed by the index was ambiguous (f + 11 and f1 + 1).
---
 src/uuid.cpp   | 6 ++++--
 src/veigar.cpp | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/uuid.cpp b/src/uuid.cpp
index a7c84cc..34676d6 100644
--- a/src/uuid.cpp
+++ b/src/uuid.cpp
@@ -16,14 +16,16 @@
 #include <cstdio>
 #include <cstdlib>
 #include <ctime>
+#include <random>
 #endif
 #include "string_helper.h"
 
 namespace veigar {
 #ifndef VEIGAR_OS_WINDOWS
 uint32_t UUID::Rand32() {
-    return ((rand() & 0x3) << 30) | ((rand() & 0x7fff) << 15) |
-           (rand() & 0x7fff);
+    // rand() returns the same sequence in every process.
+    std::random_device rd;
+    return (uint32_t)rd();
 }
 
 std::string UUID::GenUuid4() {
diff --git a/src/veigar.cpp b/src/veigar.cpp
index b1abc54..663dcc4 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -237,7 +237,7 @@ uint32_t Veigar::timeoutOfRWLock() const {
 std::string Veigar::getNextCallId(const std::string& funcName) const {
     assert(impl_);
     uint32_t idx = impl_->callIndex_.fetch_add(1);
-    std::string callId = impl_->uuid_ + funcName + std::to_string((unsigned long)idx);
+    std::string callId = impl_->uuid_ + "_" + std::to_string((unsigned long)idx) + "_" + funcName;
     return callId;
 }
 
-- 
2.43.0


From db8f9874d0b06a33495ed386924afaa26ab1766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 06/13] fix: make binding, unbinding and dispatching atomic

The function registry was modified by bind/unbind and uninit while the worker
threads looked functions up and executed them, without any synchronisation.
bind reports a failed allocation as false.
---
 include/veigar/call_dispatcher.h   | 11 ++++++++++-
 include/veigar/call_dispatcher.inl | 27 +++++++++++----------------
 include/veigar/veigar.inl          |  6 +++++-
 src/call_dispatcher.cpp            | 28 ++++++++++++++++++++++++----
 src/veigar.cpp                     |  6 +++++-
 5 files changed, 55 insertions(+), 23 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index a46c2a6..3ed92f9 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -12,6 +12,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <unordered_map>
 #include "veigar/config.h"
 #include "veigar/msgpack.hpp"
@@ -76,6 +77,7 @@ class VEIGAR_API CallDispatcher {
 
     // returns a list of all names which functors are binded to
     std::vector<std::string> names() const {
+        std::lock_guard<std::mutex> lg(funcsMutex_);
         std::vector<std::string> names;
         for (auto it = funcs_.begin(); it != funcs_.end(); ++it)
             names.push_back(it->first);
@@ -89,6 +91,12 @@ class VEIGAR_API CallDispatcher {
 
     bool isFuncNameExist(std::string const& func);
 
+    // Adds a functor, returns false if the name is already in use.
+    bool addFunc(std::string const& name, AdaptorType func);
+
+    // Returns the functor, or null if there is none. The functor stays valid when it is unbound.
+    std::shared_ptr<AdaptorType> findFunc(std::string const& name) const;
+
     // Dispatches a call (which will have a response).
     detail::Response dispatchCall(veigar_msgpack::object const& msg, std::string& callerChannelName);
 
@@ -98,7 +106,8 @@ class VEIGAR_API CallDispatcher {
     Veigar* veigar_ = nullptr;
     bool init_ = false;
 
-    std::unordered_map<std::string, AdaptorType> funcs_;
+    mutable std::mutex funcsMutex_;
+    std::unordered_map<std::string, std::shared_ptr<AdaptorType>> funcs_;
 
     class Impl;
     Impl* impl_ = nullptr;
diff --git a/include/veigar/call_dispatcher.inl b/include/veigar/call_dispatcher.inl
index 204cb53..6654862 100644
--- a/include/veigar/call_dispatcher.inl
+++ b/include/veigar/call_dispatcher.inl
@@ -26,14 +26,13 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
         return false;
     }
 
-    funcs_.insert(
-        std::make_pair(name, [func, name](veigar_msgpack::object const& args) {
+    return addFunc(
+        name, [func, name](veigar_msgpack::object const& args) {
             constexpr int args_count = std::tuple_size<args_type>::value;
             assert(args_count == args.via.array.size);
             func();
             return detail::make_unique<veigar_msgpack::object_handle>();
-        }));
-    return true;
+        });
 }
 
 template <typename F>
@@ -45,8 +44,8 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
         return false;
     }
 
-    funcs_.insert(
-        std::make_pair(name,
+    return addFunc(
+        name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
                            assert(args_count == args.via.array.size);
@@ -57,8 +56,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
                            detail::call(func, args_real);
 
                            return detail::make_unique<veigar_msgpack::object_handle>();
-                       }));
-    return true;
+                       });
 }
 
 template <typename F>
@@ -70,8 +68,8 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
         return false;
     }
 
-    funcs_.insert(
-        std::make_pair(name,
+    return addFunc(
+        name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
                            assert(args_count == args.via.array.size);
@@ -80,8 +78,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
                            auto result = veigar_msgpack::object(func(), *z);
 
                            return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
-                       }));
-    return true;
+                       });
 }
 
 template <typename F>
@@ -93,7 +90,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
         return false;
     }
 
-    funcs_.insert(std::make_pair(name,
+    return addFunc(name,
                                  [func, name](veigar_msgpack::object const& args) {
                                      constexpr int args_count = std::tuple_size<args_type>::value;
                                      assert(args_count == args.via.array.size);
@@ -106,9 +103,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
                                      auto result = veigar_msgpack::object(detail::call(func, args_real), *z);
 
                                      return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
-                                 }));
-
-    return true;
+                                 });
 }
 }  // namespace detail
 }  // namespace veigar
diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index 90c2da0..a03bce9 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -11,7 +11,11 @@ bool Veigar::bind(const std::string& funcName, F func) {
     if (!callDisp_) {
         return false;
     }
-    return callDisp_->bind(funcName, func);
+    try {
+        return callDisp_->bind(funcName, std::move(func));
+    } catch (...) {
+        return false;
+    }
 }
 
 template <typename... Args>
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index e1f5006..7c174b5 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -87,7 +87,11 @@ void CallDispatcher::uninit() {
         impl_->callMsgQueue_.reset();
     }
 
-    funcs_.clear();
+    std::unordered_map<std::string, std::shared_ptr<AdaptorType>> funcs;
+    {
+        std::lock_guard<std::mutex> lg(funcsMutex_);
+        funcs.swap(funcs_);
+    }
 
     init_ = false;
 }
@@ -97,8 +101,11 @@ std::shared_ptr<veigar::MessageQueue> CallDispatcher::messageQueue() {
 }
 
 void CallDispatcher::unbind(std::string const& name) {
+    std::shared_ptr<AdaptorType> func;  // destroyed after the lock is released
+    std::lock_guard<std::mutex> lg(funcsMutex_);
     auto it = funcs_.find(name);
     if (it != funcs_.end()) {
+        func = std::move(it->second);
         funcs_.erase(it);
     }
 }
@@ -138,15 +145,15 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
     auto&& funcName = std::get<3>(the_call);
     auto&& args = std::get<4>(the_call);
 
-    std::unordered_map<std::string, AdaptorType>::const_iterator itFunc = funcs_.find(funcName);
-    if (itFunc == funcs_.cend()) {
+    std::shared_ptr<AdaptorType> func = findFunc(funcName);
+    if (!func) {
         return Response::MakeResponseWithError(
             callId,
             StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), args.via.array.size));
     }
 
     try {
-        auto result = (itFunc->second)(args);
+        auto result = (*func)(args);
         return Response::MakeResponseWithResult(callId, std::move(result));
     } catch (std::exception& e) {
         return Response::MakeResponseWithError(
@@ -272,7 +279,20 @@ void CallDispatcher::dispatchThreadProc() {
     }
 }
 
+bool CallDispatcher::addFunc(std::string const& name, AdaptorType func) {
+    std::shared_ptr<AdaptorType> f = std::make_shared<AdaptorType>(std::move(func));
+    std::lock_guard<std::mutex> lg(funcsMutex_);
+    return funcs_.insert(std::make_pair(name, f)).second;
+}
+
+std::shared_ptr<CallDispatcher::AdaptorType> CallDispatcher::findFunc(std::string const& name) const {
+    std::lock_guard<std::mutex> lg(funcsMutex_);
+    auto it = funcs_.find(name);
+    return it != funcs_.end() ? it->second : nullptr;
+}
+
 bool CallDispatcher::isFuncNameExist(std::string const& func) {
+    std::lock_guard<std::mutex> lg(funcsMutex_);
     auto pos = funcs_.find(func);
     if (pos != end(funcs_)) {
         return true;
diff --git a/src/veigar.cpp b/src/veigar.cpp
index 663dcc4..d2e0080 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -219,7 +219,11 @@ std::vector<std::string> Veigar::bindNames() const {
     if (!callDisp_) {
         return {};
     }
-    return callDisp_->names();
+    try {
+        return callDisp_->names();
+    } catch (...) {
+        return {};
+    }
 }
 
 void Veigar::setTimeoutOfRWLock(uint32_t ms) {
-- 
2.43.0


From 04c7acef8da53b2582c3644ca31d60a3c2285ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:13 +0000
Subject: [PATCH 07/13] fix: check the type of a received message and the
 number of its arguments

A message or arguments that are no array were read as one, and a call with a
wrong number of arguments called the function with default values.
---
 include/veigar/call_dispatcher.h   |  3 +++
 include/veigar/call_dispatcher.inl |  8 ++++----
 src/call_dispatcher.cpp            | 17 ++++++++++++-----
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index 3ed92f9..8ed07db 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -89,6 +89,9 @@ class VEIGAR_API CallDispatcher {
     // msg: The messagepack object that contains the call.
     detail::Response dispatch(veigar_msgpack::object const& msg, std::string& callerChannelName);
 
+    // Throws an exception if the arguments are not an array of the expected size.
+    static void checkArgsCount(veigar_msgpack::object const& args, uint32_t count);
+
     bool isFuncNameExist(std::string const& func);
 
     // Adds a functor, returns false if the name is already in use.
diff --git a/include/veigar/call_dispatcher.inl b/include/veigar/call_dispatcher.inl
index 6654862..89cc159 100644
--- a/include/veigar/call_dispatcher.inl
+++ b/include/veigar/call_dispatcher.inl
@@ -29,7 +29,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
     return addFunc(
         name, [func, name](veigar_msgpack::object const& args) {
             constexpr int args_count = std::tuple_size<args_type>::value;
-            assert(args_count == args.via.array.size);
+            checkArgsCount(args, args_count);
             func();
             return detail::make_unique<veigar_msgpack::object_handle>();
         });
@@ -48,7 +48,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
         name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
-                           assert(args_count == args.via.array.size);
+                           checkArgsCount(args, args_count);
 
                            args_type args_real;
                            // note: dispatcher will catch this type_error exception.
@@ -72,7 +72,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
         name,
                        [func, name](veigar_msgpack::object const& args) {
                            constexpr int args_count = std::tuple_size<args_type>::value;
-                           assert(args_count == args.via.array.size);
+                           checkArgsCount(args, args_count);
 
                            auto z = detail::make_unique<veigar_msgpack::zone>();
                            auto result = veigar_msgpack::object(func(), *z);
@@ -93,7 +93,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
     return addFunc(name,
                                  [func, name](veigar_msgpack::object const& args) {
                                      constexpr int args_count = std::tuple_size<args_type>::value;
-                                     assert(args_count == args.via.array.size);
+                                     checkArgsCount(args, args_count);
 
                                      args_type args_real;
                                      // note: dispatcher will catch this type_error exception.
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 7c174b5..5e4e76a 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -13,6 +13,7 @@
 #include "time_util.h"
 #include <atomic>
 #include <queue>
+#include <stdexcept>
 #include "message_queue.h"
 #include "run_time_recorder.h"
 
@@ -112,7 +113,7 @@ void CallDispatcher::unbind(std::string const& name) {
 
 Response CallDispatcher::dispatch(veigar_msgpack::object const& msg, std::string& callerChannelName) {
     // Quickly check
-    if (msg.via.array.size != 5) {
+    if (msg.type != veigar_msgpack::type::ARRAY || msg.via.array.size != 5) {
         return Response::MakeEmptyResponse();
     }
 
@@ -133,7 +134,6 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
 
     // proper validation of protocol (and responding to it)
     auto&& type = std::get<0>(the_call);
-    assert(type == 0);
 
     auto&& callId = std::get<1>(the_call);
 
@@ -144,12 +144,13 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
     callerChannelName = std::get<2>(the_call);
     auto&& funcName = std::get<3>(the_call);
     auto&& args = std::get<4>(the_call);
+    const int argsCount = (args.type == veigar_msgpack::type::ARRAY) ? (int)args.via.array.size : 0;
 
     std::shared_ptr<AdaptorType> func = findFunc(funcName);
     if (!func) {
         return Response::MakeResponseWithError(
             callId,
-            StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), args.via.array.size));
+            StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), argsCount));
     }
 
     try {
@@ -160,13 +161,13 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
             callId,
             StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
                                        "The exception contained this information: %s.",
-                                       funcName.c_str(), args.via.array.size, e.what()));
+                                       funcName.c_str(), argsCount, e.what()));
     } catch (...) {
         return Response::MakeResponseWithError(
             callId,
             StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
                                        "The exception is not derived from std::exception. No further information available.",
-                                       funcName.c_str(), args.via.array.size));
+                                       funcName.c_str(), argsCount));
     }
 }
 
@@ -291,6 +292,12 @@ std::shared_ptr<CallDispatcher::AdaptorType> CallDispatcher::findFunc(std::strin
     return it != funcs_.end() ? it->second : nullptr;
 }
 
+void CallDispatcher::checkArgsCount(veigar_msgpack::object const& args, uint32_t count) {
+    if (args.type != veigar_msgpack::type::ARRAY || args.via.array.size != count) {
+        throw std::invalid_argument("Unexpected number of arguments");
+    }
+}
+
 bool CallDispatcher::isFuncNameExist(std::string const& func) {
     std::lock_guard<std::mutex> lg(funcsMutex_);
     auto pos = funcs_.find(func);
-- 
2.43.0


From 54ba22eecd77a438e3c123933aa381913427eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:58 +0000
Subject: [PATCH 08/13] fix: the ready mark of a new queue must only be written
 atomically

memset() of the whole control block also wrote the ready mark which a process
opening the queue reads at the same time.
---
 src/message_queue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index ebd9ec8..074f442 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -73,7 +73,8 @@ bool MessageQueue::create(const std::string& path) {
         }
 
         uint8_t* data = shm_->data();
-        memset(data, 0, (size_t)shmSize);
+        HeaderTotalSize(data)->store(0, std::memory_order_relaxed);
+        memset(data + sizeof(int64_t), 0, (size_t)shmSize - sizeof(int64_t));
         int64_t* pDataSize = (int64_t*)data;
         *(pDataSize + 3) = msgMaxNumber_;
 
-- 
2.43.0


From b83d18de3a1aa640f7f080f9d79bbb4630084ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:58 +0000
Subject: [PATCH 09/13] fix: release the message buffer if formatting runs out
 of memory

---
 src/string_helper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/string_helper.cpp b/src/string_helper.cpp
index 65769d9..9d35112 100644
--- a/src/string_helper.cpp
+++ b/src/string_helper.cpp
@@ -75,6 +75,7 @@ bool StringHelper::StringPrintfV(const char* format, va_list argList, std::strin
     } catch (std::exception& e) {
         (e);
         ret = false;
+        free(pMsgBuffer);
     }
 
     return ret;
@@ -116,6 +117,7 @@ bool StringHelper::StringPrintfV(const char* format, va_list argList, std::strin
     } catch (std::exception& e) {
         (e);
         ret = false;
+        free(msgBuf);
     }
 
     return ret;
@@ -160,6 +162,7 @@ bool StringHelper::StringPrintfV(const wchar_t* format, va_list argList, std::ws
     } catch (std::exception& e) {
         (e);
         ret = false;
+        free(pMsgBuffer);
     }
 
     return ret;
@@ -201,6 +204,7 @@ bool StringHelper::StringPrintfV(const wchar_t* format, va_list argList, std::ws
     } catch (std::exception& e) {
         (e);
         ret = false;
+        free(msgBuf);
     }
 
     return ret;
-- 
2.43.0


From 402e96eb9943c03001616de98b3be673616f84ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:58 +0000
Subject: [PATCH 10/13] fix: SharedMemory constructor copies strings and must
 not be noexcept

A failing allocation in it terminated the process.
---
 src/shared_memory.cpp | 4 ++--
 src/shared_memory.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 8def087..80479ce 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -28,7 +28,7 @@
 
 namespace veigar {
 #ifdef VEIGAR_OS_WINDOWS
-SharedMemory::SharedMemory(const std::string& path, int64_t size) noexcept :
+SharedMemory::SharedMemory(const std::string& path, int64_t size) :
     path_(path),
     size_(size) {
 }
@@ -131,7 +131,7 @@ bool SharedMemory::create() {
 
 #else   // !VEIGAR_OS_WINDOWS
 
-SharedMemory::SharedMemory(const std::string& path, int64_t size) noexcept :
+SharedMemory::SharedMemory(const std::string& path, int64_t size) :
     size_(size) {
     // For portable use, a shared memory object should be identified by a name of the form / somename;
     path_ = "/" + path;
diff --git a/src/shared_memory.h b/src/shared_memory.h
index 73dd51f..a9dfb69 100644
--- a/src/shared_memory.h
+++ b/src/shared_memory.h
@@ -24,7 +24,7 @@ namespace veigar {
 class SharedMemory {
    public:
     // path should only contain alpha-numeric characters, and is normalized on linux/macOS.
-    explicit SharedMemory(const std::string& path, int64_t size) noexcept;
+    explicit SharedMemory(const std::string& path, int64_t size);
 
     bool create();
     bool open();
-- 
2.43.0


From 46bcd6797b46ba0f6399e9fb5ffc479fce269809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:57 +0000
Subject: [PATCH 11/13] fix: calls and responses survive failures, lock
 timeouts, full queues and uninit

- dispatchers: nothing of a broken message is kept for the next one, a message
  is not forgotten if the lock of the queue times out or memory is short, an
  error response is never empty (it would be a success);
- sender: a full queue does not hold up the calls to other channels, a call is
  registered before it can be answered, a response which never fits is replaced
  by an error, queues of restarted channels are opened again;
- init/uninit: serialized, complete the pending calls as failed, clean up after
  an exception; API calls do not throw and do not use freed objects.
---
 include/veigar/call_dispatcher.h |   6 +
 include/veigar/veigar.h          |   5 +
 include/veigar/veigar.inl        |  85 ++++----
 src/call_dispatcher.cpp          | 112 ++++++-----
 src/resp_dispatcher.cpp          | 173 ++++++++++-------
 src/resp_dispatcher.h            |  13 +-
 src/retry.h                      |  37 ++++
 src/sender.cpp                   | 319 ++++++++++++++++++-------------
 src/sender.h                     |  32 +++-
 src/unpack_next.h                |  28 +++
 src/veigar.cpp                   | 187 ++++++++++++------
 11 files changed, 649 insertions(+), 348 deletions(-)
 create mode 100644 src/retry.h
 create mode 100644 src/unpack_next.h

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index 8ed07db..68ddf82 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -75,6 +75,9 @@ class VEIGAR_API CallDispatcher {
     // Unbind a functor with a given name from callable functors.
     void unbind(std::string const& name);
 
+    // Unbind all functors.
+    void unbindAll();
+
     // returns a list of all names which functors are binded to
     std::vector<std::string> names() const {
         std::lock_guard<std::mutex> lg(funcsMutex_);
@@ -103,6 +106,9 @@ class VEIGAR_API CallDispatcher {
     // Dispatches a call (which will have a response).
     detail::Response dispatchCall(veigar_msgpack::object const& msg, std::string& callerChannelName);
 
+    // Throws std::bad_alloc if the error is empty, because the response would look like a success.
+    static detail::Response makeErrorResponse(std::string const& callId, std::string const& error);
+
     void dispatchThreadProc();
 
    private:
diff --git a/include/veigar/veigar.h b/include/veigar/veigar.h
index a9ded89..4954b32 100644
--- a/include/veigar/veigar.h
+++ b/include/veigar/veigar.h
@@ -101,6 +101,9 @@ class VEIGAR_API Veigar {
    private:
     std::string getNextCallId(const std::string& funcName) const;
 
+    // Without a message if there is not enough memory.
+    static void setErrorMessage(CallResult& callRet, const char* message);
+
     // std::promise will not set_exception forever.
     template <typename... Args>
     std::shared_ptr<AsyncCallResult> doAsyncCall(
@@ -126,8 +129,10 @@ class VEIGAR_API Veigar {
         const ResultMeta& retMeta,
         std::string& errMsg);
 
+    // Throws std::bad_alloc if there is not enough memory.
     bool sendResponse(
         const std::string& targetChannel,
+        const std::string& callId,
         const uint8_t* buf,
         size_t bufSize,
         std::string& errMsg);
diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index a03bce9..e330e71 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -33,7 +33,7 @@ void Veigar::asyncCall(
     uint32_t timeoutMS,
     const std::string& funcName,
     Args... args) {
-    doAsyncCallWithCallback(cb, targetChannel, timeoutMS, funcName, std::forward<Args>(args)...);
+    doAsyncCallWithCallback(std::move(cb), targetChannel, timeoutMS, funcName, std::forward<Args>(args)...);
 }
 
 template <typename... Args>
@@ -53,7 +53,14 @@ CallResult Veigar::syncCall(const std::string& targetChannel,
         return cr;
     }
 
-    CallResult callRet = acr->second.get();
+    CallResult callRet;
+    if (acr->second.wait_for(std::chrono::milliseconds(timeoutMS)) == std::future_status::ready) {
+        callRet = acr->second.get();
+    }
+    else {
+        callRet.errCode = ErrorCode::TIMEOUT;
+        callRet.errorMessage = "Timeout.";
+    }
 
     releaseCall(acr->first);
 
@@ -68,19 +75,26 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
     CallResult failedRet;
     failedRet.errCode = ErrorCode::FAILED;
 
-    std::shared_ptr<AsyncCallResult> acr = std::make_shared<AsyncCallResult>();
-    const std::string callId = getNextCallId(funcName);
-    assert(!callId.empty());
-    if (callId.empty()) {
+    std::shared_ptr<AsyncCallResult> acr;
+    std::shared_ptr<std::promise<CallResult>> p;
+    std::string callId;
+    try {
+        acr = std::make_shared<AsyncCallResult>();
+        callId = getNextCallId(funcName);
+        assert(!callId.empty());
+        if (callId.empty()) {
+            return nullptr;
+        }
+
+        acr->first = callId;
+        p = std::make_shared<std::promise<CallResult>>();
+        acr->second = p->get_future();
+    } catch (std::exception&) {
         return nullptr;
     }
 
-    acr->first = callId;
-    auto p = std::make_shared<std::promise<CallResult>>();
-
+    bool sent = false;
     try {
-        auto ft = p->get_future();
-
         std::string curChannelName = channelName();
         auto argsObj = std::make_tuple(args...);
         auto callObj = std::make_tuple(0, callId, curChannelName, funcName, argsObj);
@@ -93,20 +107,22 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
         retMeta.p = p;
 
         std::string errMsg;
-        if (!sendCall(targetChannel, timeoutMS, buffer, callId, funcName, retMeta, errMsg)) {
+        sent = sendCall(targetChannel, timeoutMS, buffer, callId, funcName, retMeta, errMsg);
+        if (!sent) {
             if (errMsg.empty()) {
                 failedRet.errorMessage = "Send failed: Unknown.";
             }
             else {
                 failedRet.errorMessage = "Send failed: " + errMsg;
             }
-
-            p->set_value(std::move(failedRet));
         }
-
-        acr->second = std::move(ft);
     } catch (std::exception& e) {
-        failedRet.errorMessage = e.what();
+        setErrorMessage(failedRet, e.what());
+    } catch (...) {
+        setErrorMessage(failedRet, "Unknown exception.");
+    }
+
+    if (!sent) {
         p->set_value(std::move(failedRet));
     }
 
@@ -123,17 +139,11 @@ void Veigar::doAsyncCallWithCallback(
     CallResult failedRet;
     failedRet.errCode = ErrorCode::FAILED;
 
-    const std::string callId = getNextCallId(funcName);
-    assert(!callId.empty());
-    if (callId.empty()) {
-        if (cb) {
-            failedRet.errorMessage = "Unable to generate call id.";
-            cb(failedRet);
-        }
-        return;
-    }
-
+    bool sent = false;
     try {
+        const std::string callId = getNextCallId(funcName);
+        assert(!callId.empty());
+
         std::string curChannelName = channelName();
         auto argsObj = std::make_tuple(args...);
         auto callObj = std::make_tuple(0, callId, curChannelName, funcName, argsObj);
@@ -146,25 +156,24 @@ void Veigar::doAsyncCallWithCallback(
         retMeta.cb = cb;
 
         std::string errMsg;
-        if (!sendCall(targetChannel, timeoutMS, buffer, callId, funcName, retMeta, errMsg)) {
+        sent = sendCall(targetChannel, timeoutMS, buffer, callId, funcName, retMeta, errMsg);
+        if (!sent) {
             if (errMsg.empty()) {
                 failedRet.errorMessage = "Send failed: Unknown.";
             }
             else {
                 failedRet.errorMessage = "Send failed: " + errMsg;
             }
-
-            if (cb) {
-                cb(failedRet);
-            }
-            return;
         }
     } catch (std::exception& e) {
-        failedRet.errorMessage = e.what();
-        if (cb) {
-            cb(failedRet);
-        }
-        return;
+        setErrorMessage(failedRet, e.what());
+    } catch (...) {
+        setErrorMessage(failedRet, "Unknown exception.");
+    }
+
+    // Once, also if it throws an exception itself.
+    if (!sent && cb) {
+        cb(failedRet);
     }
 }
 }  // namespace veigar
\ No newline at end of file
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 5e4e76a..ad645fb 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -15,6 +15,8 @@
 #include <queue>
 #include <stdexcept>
 #include "message_queue.h"
+#include "retry.h"
+#include "unpack_next.h"
 #include "run_time_recorder.h"
 
 namespace veigar {
@@ -53,6 +55,7 @@ bool CallDispatcher::init() {
 
     impl_->stop_.store(false);
 
+    impl_->workers_.reserve(VEIGAR_DISPATCHER_THREAD_NUMBER);
     for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
         impl_->workers_.emplace_back(std::thread(&CallDispatcher::dispatchThreadProc, this));
     }
@@ -67,10 +70,7 @@ bool CallDispatcher::isInit() const {
 }
 
 void CallDispatcher::uninit() {
-    if (!init_) {
-        return;
-    }
-
+    // Also called when 'init' has failed halfway.
     impl_->stop_.store(true);
 
     for (std::thread& worker : impl_->workers_) {
@@ -82,18 +82,13 @@ void CallDispatcher::uninit() {
             worker.join();
         }
     }
+    impl_->workers_.clear();
 
     if (impl_->callMsgQueue_) {
         impl_->callMsgQueue_->close();
         impl_->callMsgQueue_.reset();
     }
 
-    std::unordered_map<std::string, std::shared_ptr<AdaptorType>> funcs;
-    {
-        std::lock_guard<std::mutex> lg(funcsMutex_);
-        funcs.swap(funcs_);
-    }
-
     init_ = false;
 }
 
@@ -111,6 +106,12 @@ void CallDispatcher::unbind(std::string const& name) {
     }
 }
 
+void CallDispatcher::unbindAll() {
+    std::unordered_map<std::string, std::shared_ptr<AdaptorType>> funcs;  // destroyed after the lock is released
+    std::lock_guard<std::mutex> lg(funcsMutex_);
+    funcs.swap(funcs_);
+}
+
 Response CallDispatcher::dispatch(veigar_msgpack::object const& msg, std::string& callerChannelName) {
     // Quickly check
     if (msg.type != veigar_msgpack::type::ARRAY || msg.via.array.size != 5) {
@@ -124,6 +125,8 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
     CallMsg the_call;
     try {
         msg.convert(the_call);
+    } catch (std::bad_alloc&) {
+        throw;
     } catch (std::exception& e) {
         veigar::log("Veigar: Error: An exception occurred during parsing response message: %s.\n", e.what());
         return Response::MakeEmptyResponse();
@@ -148,36 +151,48 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
 
     std::shared_ptr<AdaptorType> func = findFunc(funcName);
     if (!func) {
-        return Response::MakeResponseWithError(
+        return makeErrorResponse(
             callId,
             StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), argsCount));
     }
 
+    Response resp;
     try {
         auto result = (*func)(args);
         return Response::MakeResponseWithResult(callId, std::move(result));
     } catch (std::exception& e) {
-        return Response::MakeResponseWithError(
-            callId,
-            StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
-                                       "The exception contained this information: %s.",
-                                       funcName.c_str(), argsCount, e.what()));
+        RetryOnBadAlloc(impl_->stop_, [&] {
+            resp = makeErrorResponse(
+                callId,
+                StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
+                                           "The exception contained this information: %s.",
+                                           funcName.c_str(), argsCount, e.what()));
+        });
     } catch (...) {
-        return Response::MakeResponseWithError(
-            callId,
-            StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
-                                       "The exception is not derived from std::exception. No further information available.",
-                                       funcName.c_str(), argsCount));
+        RetryOnBadAlloc(impl_->stop_, [&] {
+            resp = makeErrorResponse(
+                callId,
+                StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
+                                           "The exception is not derived from std::exception. No further information available.",
+                                           funcName.c_str(), argsCount));
+        });
     }
+    return resp;
+}
+
+Response CallDispatcher::makeErrorResponse(std::string const& callId, std::string const& error) {
+    if (error.empty()) {
+        throw std::bad_alloc();  // formatting has failed, an empty error would be a success
+    }
+    return Response::MakeResponseWithError(callId, error);
 }
 
 void CallDispatcher::dispatchThreadProc() {
-    veigar_msgpack::unpacker callPac;
+    std::vector<char> callBuf;
     try {
-        callPac.reserve_buffer(veigar_->expectedMsgMaxSize());
-    } catch (std::bad_alloc& e) {
+        callBuf.resize(veigar_->expectedMsgMaxSize());
+    } catch (std::exception& e) {
         veigar::log("Veigar: Error: Pre-alloc call memory(%u bytes) failed: %s.\n", veigar_->expectedMsgMaxSize(), e.what());
-        return;
     }
 
     int64_t written = 0L;
@@ -191,6 +206,7 @@ void CallDispatcher::dispatchThreadProc() {
 
         if (!impl_->callMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
             veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from call message queue.\n");
+            impl_->callMsgQueue_->notifyRead();  // the message is still in the queue
             continue;
         }
 
@@ -206,7 +222,7 @@ void CallDispatcher::dispatchThreadProc() {
             continue;
         }
 
-        if (!impl_->callMsgQueue_->popFront(callPac.buffer(), callPac.buffer_capacity(), written)) {
+        if (!impl_->callMsgQueue_->popFront(callBuf.data(), (int64_t)callBuf.size(), written)) {
             if (written <= 0) {
                 veigar::log("Veigar: Error: Pop front from call message queue failed.\n");
                 impl_->callMsgQueue_->processRWUnlock();
@@ -214,21 +230,23 @@ void CallDispatcher::dispatchThreadProc() {
             }
 
             try {
-                callPac.reserve_buffer((size_t)written);
-            } catch (std::bad_alloc& e) {
-                veigar::log("Veigar: Error: Pre-alloc call memory(%u bytes) failed: %s.\n", written, e.what());
+                callBuf.resize((size_t)written);
+            } catch (std::exception& e) {
+                veigar::log("Veigar: Error: Pre-alloc call memory(%" PRId64 " bytes) failed: %s.\n", written, e.what());
                 impl_->callMsgQueue_->processRWUnlock();
+                impl_->callMsgQueue_->notifyRead();  // the message is still in the queue
+                std::this_thread::sleep_for(std::chrono::milliseconds(10));
                 continue;
             }
 
-            if (!impl_->callMsgQueue_->popFront(callPac.buffer(), callPac.buffer_capacity(), written)) {
+            if (!impl_->callMsgQueue_->popFront(callBuf.data(), (int64_t)callBuf.size(), written)) {
                 veigar::log("Veigar: Error: Pop front from call message queue failed.\n");
                 impl_->callMsgQueue_->processRWUnlock();
                 continue;
             }
         }
 
-        callPac.buffer_consumed((size_t)written);
+        size_t offset = 0;
 
         impl_->callMsgQueue_->processRWUnlock();
 
@@ -236,7 +254,7 @@ void CallDispatcher::dispatchThreadProc() {
             veigar_msgpack::object_handle obj;
             bool nextRet = false;
             try {
-                nextRet = callPac.next(obj);
+                nextRet = offset < (size_t)written && RetryOnBadAlloc(impl_->stop_, [&] { UnpackNext(obj, callBuf.data(), (size_t)written, offset); });
             } catch (std::exception& e) {
                 veigar::log("Veigar: Error: An exception occurred during parsing received call data: %s.\n", e.what());
                 nextRet = false;
@@ -255,25 +273,31 @@ void CallDispatcher::dispatchThreadProc() {
                 auto msg = obj.get();
 
                 std::string callerChannelName;
-                Response resp = dispatch(msg, callerChannelName);
+                Response resp;
+                // Only fails before the function is executed.
+                RetryOnBadAlloc(impl_->stop_, [&] { resp = dispatch(msg, callerChannelName); });
                 if (callerChannelName.empty()) {
                     veigar::log("Veigar: Warning: Unable to parse caller's channel name.\n");
                     continue;
                 }
 
-                veigar_msgpack::sbuffer respBuf = resp.getData();
-                if (respBuf.size() == 0) {
-                    veigar::log("Veigar: Warning: The size of response data is zero.\n");
-                    continue;
-                }
-
-                std::string errMsg;
-                if (!veigar_->sendResponse(callerChannelName, (const uint8_t*)respBuf.data(), respBuf.size(), errMsg)) {
-                    veigar::log("Veigar: Error: Send response to caller failed, caller: %s, error: %s.\n",
-                                callerChannelName.c_str(), errMsg.c_str());
-                }
+                RetryOnBadAlloc(impl_->stop_, [&] {
+                    veigar_msgpack::sbuffer respBuf = resp.getData();
+                    if (respBuf.size() == 0) {
+                        veigar::log("Veigar: Warning: The size of response data is zero.\n");
+                        return;
+                    }
+
+                    std::string errMsg;
+                    if (!veigar_->sendResponse(callerChannelName, resp.getCallId(), (const uint8_t*)respBuf.data(), respBuf.size(), errMsg)) {
+                        veigar::log("Veigar: Error: Send response to caller failed, caller: %s, error: %s.\n",
+                                    callerChannelName.c_str(), errMsg.c_str());
+                    }
+                });
             } catch (std::exception& e) {
                 veigar::log("Veigar: Error: An exception occurred during handling dispatch call: %s.\n", e.what());
+            } catch (...) {
+                veigar::log("Veigar: Error: An exception occurred during handling dispatch call.\n");
             }
 
         } while (true);
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 74510a8..9fbf77f 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -10,7 +10,10 @@
 #include "log.h"
 #include "string_helper.h"
 #include "message_queue.h"
+#include "retry.h"
+#include "unpack_next.h"
 #include "run_time_recorder.h"
+#include <assert.h>
 
 namespace veigar {
 RespDispatcher::RespDispatcher(Veigar* veigar) noexcept :
@@ -30,6 +33,7 @@ bool RespDispatcher::init() {
         return false;
     }
 
+    workers_.reserve(VEIGAR_DISPATCHER_THREAD_NUMBER);
     for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
         workers_.emplace_back(std::thread(&RespDispatcher::dispatchRespThreadProc, this));
     }
@@ -44,10 +48,7 @@ bool RespDispatcher::isInit() const {
 }
 
 void RespDispatcher::uninit() {
-    if (!init_) {
-        return;
-    }
-
+    // Also called when 'init' has failed halfway.
     stop_.store(true);
 
     for (std::thread& worker : workers_) {
@@ -59,15 +60,14 @@ void RespDispatcher::uninit() {
             worker.join();
         }
     }
+    workers_.clear();
 
     if (respMsgQueue_) {
         respMsgQueue_->close();
         respMsgQueue_.reset();
     }
 
-    ongoingCallsMutex_.lock();
-    ongoingCalls_.clear();
-    ongoingCallsMutex_.unlock();
+    closeCalls();
 
     init_ = false;
 }
@@ -77,13 +77,11 @@ std::shared_ptr<veigar::MessageQueue> RespDispatcher::messageQueue() {
 }
 
 void RespDispatcher::dispatchRespThreadProc() {
-    veigar_msgpack::unpacker respPac;
-
+    std::vector<char> respBuf;
     try {
-        respPac.reserve_buffer(veigar_->expectedMsgMaxSize());
-    } catch (std::bad_alloc& e) {
-        veigar::log("Veigar: Error: Pre-alloc response memory(%d bytes) failed: %s.\n", veigar_->expectedMsgMaxSize(), e.what());
-        return;
+        respBuf.resize(veigar_->expectedMsgMaxSize());
+    } catch (std::exception& e) {
+        veigar::log("Veigar: Error: Pre-alloc response memory(%u bytes) failed: %s.\n", veigar_->expectedMsgMaxSize(), e.what());
     }
 
     int64_t written = 0L;
@@ -99,6 +97,7 @@ void RespDispatcher::dispatchRespThreadProc() {
 
         if (!respMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
             veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from response message queue.\n");
+            respMsgQueue_->notifyRead();  // the message is still in the queue
             continue;
         }
 
@@ -114,7 +113,7 @@ void RespDispatcher::dispatchRespThreadProc() {
             continue;
         }
 
-        if (!respMsgQueue_->popFront(respPac.buffer(), respPac.buffer_capacity(), written)) {
+        if (!respMsgQueue_->popFront(respBuf.data(), (int64_t)respBuf.size(), written)) {
             if (written <= 0) {
                 veigar::log("Veigar: Error: Pop front from response message queue failed.\n");
                 respMsgQueue_->processRWUnlock();
@@ -122,21 +121,23 @@ void RespDispatcher::dispatchRespThreadProc() {
             }
 
             try {
-                respPac.reserve_buffer((size_t)written);
-            } catch (std::bad_alloc& e) {
-                veigar::log("Veigar: Error: Pre-alloc response memory(%d bytes) failed: %s.\n", written, e.what());
+                respBuf.resize((size_t)written);
+            } catch (std::exception& e) {
+                veigar::log("Veigar: Error: Pre-alloc response memory(%" PRId64 " bytes) failed: %s.\n", written, e.what());
                 respMsgQueue_->processRWUnlock();
+                respMsgQueue_->notifyRead();  // the message is still in the queue
+                std::this_thread::sleep_for(std::chrono::milliseconds(10));
                 continue;
             }
 
-            if (!respMsgQueue_->popFront(respPac.buffer(), respPac.buffer_capacity(), written)) {
+            if (!respMsgQueue_->popFront(respBuf.data(), (int64_t)respBuf.size(), written)) {
                 veigar::log("Veigar: Error: Pop front from response message queue failed.\n");
                 respMsgQueue_->processRWUnlock();
                 continue;
             }
         }
 
-        respPac.buffer_consumed((size_t)written);
+        size_t offset = 0;
 
         respMsgQueue_->processRWUnlock();
 
@@ -144,7 +145,7 @@ void RespDispatcher::dispatchRespThreadProc() {
             veigar_msgpack::object_handle obj;
             bool nextRet = false;
             try {
-                nextRet = respPac.next(obj);
+                nextRet = offset < (size_t)written && RetryOnBadAlloc(stop_, [&] { UnpackNext(obj, respBuf.data(), (size_t)written, offset); });
             } catch (std::exception& e) {
                 veigar::log("Veigar: Error: An exception occurred during parsing received data: %s.\n", e.what());
                 nextRet = false;
@@ -163,8 +164,13 @@ void RespDispatcher::dispatchRespThreadProc() {
             CallResult callRet;
             std::string callId;
             try {
+                if (obj.get().type != veigar_msgpack::type::ARRAY || obj.get().via.array.size != 4) {
+                    veigar::log("Veigar: Error: Invalid response message.\n");
+                    continue;
+                }
+
                 detail::Response::ResponseMsg r;
-                obj.get().convert(r);
+                RetryOnBadAlloc(stop_, [&] { obj.get().convert(r); });
 
                 // Check protocol
                 uint32_t msgFlag = std::get<0>(r);
@@ -173,73 +179,112 @@ void RespDispatcher::dispatchRespThreadProc() {
                     continue;
                 }
 
-                callId = std::get<1>(r);
+                callId.swap(std::get<1>(r));
                 if (callId.empty()) {
                     veigar::log("Veigar: Warning: Call id is empty.\n");
                     continue;
                 }
 
-                ongoingCallsMutex_.lock();
-                if (ongoingCalls_.find(callId) != ongoingCalls_.end()) {
-                    retMeta = ongoingCalls_[callId];
-                }
-                else {
-                    veigar::log("Veigar: Warning: Unable to find call: %s, Going-Call number: %d.\n", callId.c_str(), ongoingCalls_.size());
-                    ongoingCallsMutex_.unlock();
+                if (!isOngoingCall(callId)) {
+                    veigar::log("Veigar: Warning: Unable to find call: %s.\n", callId.c_str());
                     continue;
                 }
-                ongoingCallsMutex_.unlock();
 
-                if (retMeta.metaType != 0 && retMeta.metaType != 1) {
-                    veigar::log("Veigar: Warning: Invalid result meta type: %d.\n", retMeta.metaType);
-                    continue;
-                }
+                const bool parsed = RetryOnBadAlloc(stop_, [&] {
+                    auto&& error_obj = std::get<2>(r);
+                    if (!error_obj.is_nil()) {
+                        callRet.errorMessage = error_obj.as<std::string>();
+                        if (callRet.errorMessage.empty()) {
+                            callRet.errorMessage = "Unknown Error.";
+                        }
+                    }
 
-                auto&& error_obj = std::get<2>(r);
-                if (!error_obj.is_nil()) {
-                    veigar_msgpack::object_handle errObjHandle = veigar_msgpack::clone(error_obj);
-                    callRet.errorMessage = errObjHandle.get().as<std::string>();
-                }
-
-                callRet.obj = std::move(veigar_msgpack::clone(std::get<3>(r)));
+                    callRet.obj = std::move(veigar_msgpack::clone(std::get<3>(r)));
+                });
 
                 // Last set success.
-                callRet.errCode = ErrorCode::SUCCESS;
+                if (parsed) {
+                    callRet.errCode = ErrorCode::SUCCESS;
+                }
             } catch (std::exception& e) {
                 callRet.errorMessage = StringHelper::StringPrintf("An exception occurred during parsing response message: %s.", e.what());
             } catch (...) {
-                callRet.errorMessage = "An exception occurred during parsing response message.";
-            }
-
-            if (retMeta.metaType == 0) {
-                assert(retMeta.p);
-                if (retMeta.p) {
-                    retMeta.p->set_value(std::move(callRet));
-                }
+                callRet.errorMessage = StringHelper::StringPrintf("An exception occurred during parsing response message.");
             }
-            else if (retMeta.metaType == 1) {
-                assert(retMeta.cb);
-                if (retMeta.cb) {
-                    retMeta.cb(callRet);
-                }
 
-                releaseCall(callId);
+            if (takeCall(callId, retMeta)) {
+                CompleteCall(retMeta, std::move(callRet));
             }
         } while (true);  // msgpack unpack while
     }
 }
 
-void RespDispatcher::addOngoingCall(const std::string& callId, const ResultMeta& retMeta) {
-    ongoingCallsMutex_.lock();
-    ongoingCalls_[callId] = retMeta;
-    ongoingCallsMutex_.unlock();
+bool RespDispatcher::addOngoingCall(const std::string& callId, const ResultMeta& retMeta) {
+    std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
+    if (callsClosed_) {
+        return false;
+    }
+    ongoingCalls_.insert(std::make_pair(callId, retMeta));
+    return true;
 }
 
-void RespDispatcher::releaseCall(const std::string& callId) {
+bool RespDispatcher::isOngoingCall(const std::string& callId) {
+    std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
+    return ongoingCalls_.find(callId) != ongoingCalls_.end();
+}
+
+bool RespDispatcher::takeCall(const std::string& callId, ResultMeta& retMeta) {
     std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
     auto it = ongoingCalls_.find(callId);
-    if (it != ongoingCalls_.cend()) {
-        ongoingCalls_.erase(it);
+    if (it == ongoingCalls_.end()) {
+        return false;
+    }
+    retMeta = std::move(it->second);
+    ongoingCalls_.erase(it);
+    return true;
+}
+
+void RespDispatcher::CompleteCall(ResultMeta& retMeta, CallResult&& callRet) {
+    try {
+        if (retMeta.metaType == 0) {
+            assert(retMeta.p);
+            if (retMeta.p) {
+                retMeta.p->set_value(std::move(callRet));
+            }
+        }
+        else if (retMeta.metaType == 1) {
+            if (retMeta.cb) {
+                retMeta.cb(callRet);
+            }
+        }
+    } catch (std::exception& e) {
+        veigar::log("Veigar: Error: An exception occurred during completing a call: %s.\n", e.what());
+    } catch (...) {
+        veigar::log("Veigar: Error: An exception occurred during completing a call.\n");
+    }
+}
+
+void RespDispatcher::releaseCall(const std::string& callId) {
+    ResultMeta retMeta;
+    if (takeCall(callId, retMeta) && retMeta.metaType == 0) {
+        CallResult callRet;
+        callRet.errorMessage = "Released.";
+        CompleteCall(retMeta, std::move(callRet));
+    }
+}
+
+void RespDispatcher::closeCalls() {
+    std::unordered_map<std::string, ResultMeta> calls;
+    {
+        std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
+        callsClosed_ = true;
+        calls.swap(ongoingCalls_);
+    }
+
+    for (auto& it : calls) {
+        CallResult callRet;
+        callRet.errorMessage = "Uninit.";
+        CompleteCall(it.second, std::move(callRet));
     }
 }
-}  // namespace veigar
\ No newline at end of file
+}  // namespace veigar
diff --git a/src/resp_dispatcher.h b/src/resp_dispatcher.h
index 5760a68..940cb0d 100644
--- a/src/resp_dispatcher.h
+++ b/src/resp_dispatcher.h
@@ -37,9 +37,19 @@ class RespDispatcher {
 
     std::shared_ptr<MessageQueue> messageQueue();
 
-    void addOngoingCall(const std::string& callId, const ResultMeta& retMeta);
+    // Returns false if the calls have been closed.
+    bool addOngoingCall(const std::string& callId, const ResultMeta& retMeta);
+    bool isOngoingCall(const std::string& callId);
+    // Forget the call, it completes as failed if it is not completed yet.
     void releaseCall(const std::string& callId);
 
+    // Each call is completed once, by the one who takes it.
+    bool takeCall(const std::string& callId, ResultMeta& retMeta);
+    static void CompleteCall(ResultMeta& retMeta, CallResult&& callRet);
+
+    // Complete all ongoing calls as failed, and accept no new ones.
+    void closeCalls();
+
    private:
     void dispatchRespThreadProc();
 
@@ -48,6 +58,7 @@ class RespDispatcher {
     bool init_ = false;
 
     std::mutex ongoingCallsMutex_;
+    bool callsClosed_ = false;
     std::unordered_map<std::string, ResultMeta> ongoingCalls_;  // call id -> ResultMeta
 
     std::vector<std::thread> workers_;
diff --git a/src/retry.h b/src/retry.h
new file mode 100644
index 0000000..f0c87b3
--- /dev/null
+++ b/src/retry.h
@@ -0,0 +1,37 @@
+/*
+ * Copyright (c) winsoft666.
+ * All rights reserved.
+ *
+ * This source code is licensed under the license found in the
+ * LICENSE file in the root directory of this source tree.
+ */
+#ifndef VEIGAR_RETRY_H_
+#define VEIGAR_RETRY_H_
+#pragma once
+
+#include <atomic>
+#include <chrono>
+#include <new>
+#include <thread>
+
+namespace veigar {
+// Execute 'func' again as long as it fails because of a lack of memory, for about one second.
+// Returns false if the memory is still not available or 'stop' has been set. Other exceptions are passed on.
+template <typename F>
+bool RetryOnBadAlloc(const std::atomic_bool& stop, F func) {
+    for (int i = 0; i < 100; ++i) {
+        try {
+            func();
+            return true;
+        } catch (const std::bad_alloc&) {
+            if (stop.load()) {
+                break;
+            }
+        }
+        std::this_thread::sleep_for(std::chrono::milliseconds(10));
+    }
+    return false;
+}
+}  // namespace veigar
+
+#endif  // !VEIGAR_RETRY_H_
diff --git a/src/sender.cpp b/src/sender.cpp
index 4a4723d..af17a08 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -11,8 +11,34 @@
 #include "veigar/veigar.h"
 #include "time_util.h"
 #include "run_time_recorder.h"
+#include "veigar/detail/response.h"
+#include <cstring>
 
 namespace veigar {
+namespace {
+const int64_t kRetryInterval = 5 * 1000;  // microseconds
+
+bool isTimeout(int64_t startTimePoint, int64_t timeout) {
+    return TimeUtil::GetSteadyTimestamp() - startTimePoint >= timeout;
+}
+
+// Move the first item that is due to 'node'. If there is none, but some are waiting, limit the time to wait.
+template <typename Meta>
+void TakeDue(std::list<Meta>& list, std::list<Meta>& node, int64_t& waitMS) {
+    const int64_t now = TimeUtil::GetSteadyTimestamp();
+    for (auto it = list.begin(); it != list.end(); ++it) {
+        if (it->nextTryTimePoint <= now) {
+            node.splice(node.begin(), list, it);
+            return;
+        }
+    }
+
+    if (!list.empty()) {
+        waitMS = kRetryInterval / 1000;
+    }
+}
+}  // namespace
+
 Sender::Sender(Veigar* v) noexcept :
     veigar_(v) {
 }
@@ -29,10 +55,12 @@ bool Sender::init(std::shared_ptr<RespDispatcher> respDisp,
     selfCallMQ_ = selfCallMQ;
     selfRespMQ_ = selfRespMQ;
 
+    callWorkers_.reserve(VEIGAR_SEND_CALL_THREAD_NUMBER);
     for (size_t i = 0; i < VEIGAR_SEND_CALL_THREAD_NUMBER; ++i) {
         callWorkers_.emplace_back(std::thread(&Sender::sendCallThreadProc, this));
     }
 
+    respWorkers_.reserve(VEIGAR_SEND_RESPONSE_THREAD_NUMBER);
     for (size_t i = 0; i < VEIGAR_SEND_RESPONSE_THREAD_NUMBER; ++i) {
         respWorkers_.emplace_back(std::thread(&Sender::sendRespThreadProc, this));
     }
@@ -53,12 +81,14 @@ void Sender::uninit() {
             w.join();
         }
     }
+    callWorkers_.clear();
 
     for (std::thread& w : respWorkers_) {
         if (w.joinable()) {
             w.join();
         }
     }
+    respWorkers_.clear();
 
     targetCallMQsMutex_.lock();
     for (auto it : targetCallMsgQueues_) {
@@ -80,24 +110,22 @@ void Sender::uninit() {
 
     // release all calls memory
     callListMutex_.lock();
-    while (!callList_.empty()) {
-        CallMeta cm = callList_.front();
+    for (CallMeta& cm : callList_) {
         if (cm.data) {
             free(cm.data);
         }
-        callList_.pop();
     }
+    callList_.clear();
     callListMutex_.unlock();
 
     // release all responses memory
     respListMutex_.lock();
-    while (!callList_.empty()) {
-        RespMeta rm = respList_.front();
+    for (RespMeta& rm : respList_) {
         if (rm.data) {
             free(rm.data);
         }
-        respList_.pop();
     }
+    respList_.clear();
     respListMutex_.unlock();
 
     respDisp_.reset();
@@ -111,20 +139,34 @@ bool Sender::isInit() const {
     return isInit_;
 }
 
-void Sender::addCall(const Sender::CallMeta& cm) {
-    callListMutex_.lock();
-    callList_.emplace(cm);
-    callListMutex_.unlock();
+bool Sender::addCall(const Sender::CallMeta& cm) {
+    std::list<CallMeta> node(1, cm);
+
+    {
+        std::lock_guard<std::mutex> lg(callListMutex_);
+        if (stopEvent_.isSet()) {
+            return false;
+        }
+        callList_.splice(callList_.end(), node);
+    }
 
     callListSetEvent_.set();
+    return true;
 }
 
-void Sender::addResp(const Sender::RespMeta& rm) {
-    respListMutex_.lock();
-    respList_.emplace(rm);
-    respListMutex_.unlock();
+bool Sender::addResp(const Sender::RespMeta& rm) {
+    std::list<RespMeta> node(1, rm);
+
+    {
+        std::lock_guard<std::mutex> lg(respListMutex_);
+        if (stopEvent_.isSet()) {
+            return false;
+        }
+        respList_.splice(respList_.end(), node);
+    }
 
     respListSetEvent_.set();
+    return true;
 }
 
 std::shared_ptr<MessageQueue> Sender::getTargetCallMessageQueue(const std::string& channelName) {
@@ -132,7 +174,11 @@ std::shared_ptr<MessageQueue> Sender::getTargetCallMessageQueue(const std::strin
     std::shared_ptr<MessageQueue> queue = nullptr;
     auto it = targetCallMsgQueues_.find(channelName);
     if (it != targetCallMsgQueues_.cend()) {
-        return it->second;
+        if (!it->second->isStale()) {
+            return it->second;
+        }
+        // The target has been stopped or restarted.
+        targetCallMsgQueues_.erase(it);
     }
 
     queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
@@ -151,7 +197,11 @@ std::shared_ptr<MessageQueue> Sender::getTargetRespMessageQueue(const std::strin
     std::shared_ptr<MessageQueue> queue = nullptr;
     auto it = targetRespMsgQueues_.find(channelName);
     if (it != targetRespMsgQueues_.cend()) {
-        return it->second;
+        if (!it->second->isStale()) {
+            return it->second;
+        }
+        // The target has been stopped or restarted.
+        targetRespMsgQueues_.erase(it);
     }
 
     queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
@@ -167,99 +217,102 @@ std::shared_ptr<MessageQueue> Sender::getTargetRespMessageQueue(const std::strin
 
 void Sender::sendCallThreadProc() {
     std::string errMsg;
+    int64_t waitMS = 30;
     while (true) {
-        if (!callListSetEvent_.wait(30))
-            continue;
+        callListSetEvent_.wait(waitMS);
 
         if (callListSetEvent_.isCancelled())
             break;
 
         callListSetEvent_.unset();
+        waitMS = 30;
 
         for (;;) {
             if (callListSetEvent_.isCancelled())
                 break;
 
-            CallMeta cm;
+            std::list<CallMeta> node;
             callListMutex_.lock();
-            if (callList_.empty()) {
-                callListMutex_.unlock();
+            TakeDue(callList_, node, waitMS);
+            callListMutex_.unlock();
+            if (node.empty()) {
                 break;
             }
-            cm = callList_.front();
-            callList_.pop();
-            callListMutex_.unlock();
-
-            respDisp_->addOngoingCall(cm.callId, cm.resultMeta);
+            CallMeta& cm = node.front();
 
+            bool noRoom = false;
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
             try {
                 errMsg.clear();
 
-                if (cm.channel == veigar_->channelName()) {
-                    mq = selfCallMQ_;
+                // The call may have been released meanwhile.
+                if (!respDisp_->isOngoingCall(cm.callId)) {
+                    ec = ErrorCode::SUCCESS;
                 }
                 else {
-                    mq = getTargetCallMessageQueue(cm.channel);
-                }
+                    if (cm.channel == veigar_->channelName()) {
+                        mq = selfCallMQ_;
+                    }
+                    else {
+                        mq = getTargetCallMessageQueue(cm.channel);
+                    }
 
-                if (mq) {
-                    if (mq->processRWLock(veigar_->timeoutOfRWLock())) {
-                        if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout)) {
-                            if (mq->pushBack(cm.data, cm.dataSize)) {
-                                mq->notifyRead();
+                    if (mq) {
+                        switch (tryPush(*mq, cm.data, cm.dataSize)) {
+                            case PushResult::PUSHED:
                                 ec = ErrorCode::SUCCESS;
-                            }
-                            else {
+                                break;
+                            case PushResult::NO_ROOM:
+                                if (isTimeout(cm.startCallTimePoint, cm.timeout)) {
+                                    ec = ErrorCode::TIMEOUT;
+                                    errMsg = "Waiting for call queue availability timeout.";
+                                }
+                                else {
+                                    noRoom = true;
+                                }
+                                break;
+                            case PushResult::TOO_LARGE:
+                                ec = ErrorCode::TIMEOUT;
+                                errMsg = "The message is larger than the call queue.";
+                                break;
+                            case PushResult::LOCK_TIMEOUT:
+                                ec = ErrorCode::TIMEOUT;
+                                errMsg = "Get rw-lock timeout when push call.";
+                                break;
+                            default:
                                 errMsg = "Unable to push message to queue.";
-                            }
-                        }
-                        else {
-                            ec = ErrorCode::TIMEOUT;
-                            errMsg = "Waiting for call queue availability timeout.";
+                                break;
                         }
-                        mq->processRWUnlock();
                     }
                     else {
-                        ec = ErrorCode::TIMEOUT;
-                        errMsg = "Get rw-lock timeout when push call.";
+                        errMsg = "Unable to get target message queue. It seems that the channel not started.";
                     }
                 }
-                else {
-                    errMsg = "Unable to get target message queue. It seems that the channel not started.";
-                }
-
             } catch (std::exception& e) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
-                }
                 veigar::log("Veigar: Error: An exception occurred during pushing message to call queue: %s.\n", e.what());
                 errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to call queue: %s.", e.what());
             } catch (...) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
-                }
                 veigar::log("Veigar: Error: An exception occurred during pushing message to call queue.\n");
-                errMsg = "An exception occurred during pushing message to call queue.";
+                errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to call queue.");
             }
 
-            if (ec != ErrorCode::SUCCESS) {
-                respDisp_->releaseCall(cm.callId);
+            if (noRoom) {
+                // Try again later, other calls must not wait for it.
+                cm.nextTryTimePoint = TimeUtil::GetSteadyTimestamp() + kRetryInterval;
+                std::lock_guard<std::mutex> lg(callListMutex_);
+                callList_.splice(callList_.end(), node);
+                continue;
+            }
 
+            if (ec != ErrorCode::SUCCESS) {
                 CallResult failedRet;
                 failedRet.errCode = ec;
-                failedRet.errorMessage = errMsg;
+                failedRet.errorMessage.swap(errMsg);
 
-                if (cm.resultMeta.metaType == 0) {
-                    if (cm.resultMeta.p) {
-                        cm.resultMeta.p->set_value(std::move(failedRet));
-                    }
-                }
-                else if (cm.resultMeta.metaType == 1) {
-                    if (cm.resultMeta.cb) {
-                        cm.resultMeta.cb(failedRet);
-                    }
+                ResultMeta retMeta;
+                if (respDisp_->takeCall(cm.callId, retMeta)) {
+                    RespDispatcher::CompleteCall(retMeta, std::move(failedRet));
                 }
             }
 
@@ -272,29 +325,30 @@ void Sender::sendCallThreadProc() {
 
 void Sender::sendRespThreadProc() {
     std::string errMsg;
+    int64_t waitMS = 30;
     while (true) {
-        if (!respListSetEvent_.wait(30))
-            continue;
+        respListSetEvent_.wait(waitMS);
 
         if (respListSetEvent_.isCancelled())
             break;
 
         respListSetEvent_.unset();
+        waitMS = 30;
 
         for (;;) {
             if (respListSetEvent_.isCancelled())
                 break;
 
-            RespMeta rm;
+            std::list<RespMeta> node;
             respListMutex_.lock();
-            if (respList_.empty()) {
-                respListMutex_.unlock();
+            TakeDue(respList_, node, waitMS);
+            respListMutex_.unlock();
+            if (node.empty()) {
                 break;
             }
-            rm = respList_.front();
-            respList_.pop();
-            respListMutex_.unlock();
+            RespMeta& rm = node.front();
 
+            bool tryAgain = false;
             ErrorCode ec = ErrorCode::FAILED;
             std::shared_ptr<MessageQueue> mq = nullptr;
             try {
@@ -308,41 +362,45 @@ void Sender::sendRespThreadProc() {
                 }
 
                 if (mq) {
-                    if (mq->processRWLock(veigar_->timeoutOfRWLock())) {
-                        if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout)) {
-                            if (mq->pushBack(rm.data, rm.dataSize)) {
-                                mq->notifyRead();
-                                ec = ErrorCode::SUCCESS;
-                            }
-                            else {
-                                errMsg = "Unable to push message to response queue.";
-                            }
-                        }
-                        else {
-                            ec = ErrorCode::TIMEOUT;
+                    switch (tryPush(*mq, rm.data, rm.dataSize)) {
+                        case PushResult::PUSHED:
+                            ec = ErrorCode::SUCCESS;
+                            break;
+                        case PushResult::NO_ROOM:
+                            tryAgain = true;
                             errMsg = "Waiting for response queue availability timeout.";
-                        }
-                        mq->processRWUnlock();
-                    }
-                    else {
-                        ec = ErrorCode::TIMEOUT;
-                        errMsg = "Get rw-lock timeout when push response.";
+                            break;
+                        case PushResult::LOCK_TIMEOUT:
+                            tryAgain = true;
+                            errMsg = "Get rw-lock timeout when push response.";
+                            break;
+                        case PushResult::TOO_LARGE:
+                            tryAgain = makeErrorResp(rm);
+                            errMsg = "The response is larger than the response queue.";
+                            break;
+                        default:
+                            errMsg = "Unable to push message to response queue.";
+                            break;
                     }
                 }
                 else {
+                    tryAgain = true;  // the channel may be restarting
                     errMsg = "Unable to get target message queue. It seems that the channel not started.";
                 }
-
             } catch (std::exception& e) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
-                }
+                tryAgain = (ec != ErrorCode::SUCCESS);
                 errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to response queue: %s.", e.what());
             } catch (...) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
-                }
-                errMsg = "An exception occurred during parsing pushing message to response queue.";
+                tryAgain = (ec != ErrorCode::SUCCESS);
+                errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to response queue.");
+            }
+
+            if (tryAgain && !isTimeout(rm.startCallTimePoint, rm.timeout)) {
+                // Try again later, other responses must not wait for it.
+                rm.nextTryTimePoint = TimeUtil::GetSteadyTimestamp() + kRetryInterval;
+                std::lock_guard<std::mutex> lg(respListMutex_);
+                respList_.splice(respList_.end(), node);
+                continue;
             }
 
             if (ec != ErrorCode::SUCCESS) {
@@ -356,41 +414,34 @@ void Sender::sendRespThreadProc() {
     }
 }
 
-bool Sender::checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
-                               int64_t needSize,
-                               int64_t startCallTimePoint,
-                               int64_t timeout) {
-    bool result = false;
-    do {
-        bool waitable = false;
-        if (mq->checkSpaceSufficient(needSize, waitable)) {
-            result = true;
-            break;
-        }
-
-        if (!waitable) {
-            break;
-        }
+Sender::PushResult Sender::tryPush(MessageQueue& mq, const uint8_t* data, size_t dataSize) {
+    if (!mq.processRWLock(veigar_->timeoutOfRWLock())) {
+        return PushResult::LOCK_TIMEOUT;
+    }
 
-        int64_t used = TimeUtil::GetSteadyTimestamp() - startCallTimePoint;
-        if (used >= timeout) {
-            break;
-        }
+    PushResult result = PushResult::FAILED;
+    bool waitable = false;
+    if (!mq.checkSpaceSufficient((int64_t)dataSize, waitable)) {
+        result = waitable ? PushResult::NO_ROOM : PushResult::TOO_LARGE;
+    }
+    else if (mq.pushBack(data, (int64_t)dataSize)) {
+        mq.notifyRead();
+        result = PushResult::PUSHED;
+    }
 
-        int64_t waitMS = 0;
-        int64_t ms = (timeout - used) / 1000;
-        if (ms > 5) {
-            waitMS = 5;
-        }
-        else {
-            waitMS = ms;
-        }
+    mq.processRWUnlock();
+    return result;
+}
 
-        if (stopEvent_.wait(waitMS)) {
-            break;  // user call uninit, exit now!
-        }
-    } while (true);
+bool Sender::makeErrorResp(RespMeta& rm) {
+    const detail::Response resp = detail::Response::MakeResponseWithError(rm.callId, std::string("The response is larger than the response queue of the caller."));
+    const veigar_msgpack::sbuffer buf = resp.getData();
+    if (buf.size() >= rm.dataSize) {
+        return false;
+    }
 
-    return result;
+    memcpy(rm.data, buf.data(), buf.size());
+    rm.dataSize = buf.size();
+    return true;
 }
 }  // namespace veigar
diff --git a/src/sender.h b/src/sender.h
index 65e9cd9..0e953d8 100644
--- a/src/sender.h
+++ b/src/sender.h
@@ -9,7 +9,8 @@
 #define VEIGAR_SENDER_H_
 #pragma once
 
-#include <queue>
+#include <list>
+#include <unordered_map>
 #include <mutex>
 #include <vector>
 #include <string>
@@ -25,18 +26,20 @@ class Sender {
     struct CallMeta {
         std::string channel;
         std::string callId;
-        ResultMeta resultMeta;
         uint8_t* data = nullptr;
         size_t dataSize = 0;
         int64_t startCallTimePoint;  // microseconds
         int64_t timeout = 0;         // the timeout for waiting call queue availability, microseconds
+        int64_t nextTryTimePoint = 0;  // not before, when waiting for queue availability, microseconds
     };
     struct RespMeta {
         std::string channel;
+        std::string callId;
         uint8_t* data = nullptr;
         size_t dataSize = 0;
         int64_t startCallTimePoint;  // microseconds
         int64_t timeout = 0;         // the timeout for waiting response queue availability, microseconds
+        int64_t nextTryTimePoint = 0;  // not before, when waiting for queue availability, microseconds
     };
     Sender(Veigar* v) noexcept;
     ~Sender() noexcept = default;
@@ -49,8 +52,9 @@ class Sender {
 
     bool isInit() const;
 
-    void addCall(const Sender::CallMeta& cm);
-    void addResp(const Sender::RespMeta& rm);
+    // Returns false if the sender has been stopped, the data still belongs to the caller then.
+    bool addCall(const Sender::CallMeta& cm);
+    bool addResp(const Sender::RespMeta& rm);
 
    private:
     std::shared_ptr<MessageQueue> getTargetCallMessageQueue(const std::string& channelName);
@@ -59,10 +63,18 @@ class Sender {
     void sendCallThreadProc();
     void sendRespThreadProc();
 
-    bool checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
-                           int64_t needSize,
-                           int64_t startCallTimePoint,
-                           int64_t timeout);
+    enum class PushResult {
+        PUSHED,
+        NO_ROOM,       // no room yet
+        TOO_LARGE,     // never fits
+        LOCK_TIMEOUT,
+        FAILED,
+    };
+
+    PushResult tryPush(MessageQueue& mq, const uint8_t* data, size_t dataSize);
+
+    // Replace a response that never fits by an error response.
+    bool makeErrorResp(RespMeta& rm);
 
    private:
     bool isInit_ = false;
@@ -75,12 +87,12 @@ class Sender {
     std::shared_ptr<MessageQueue> selfRespMQ_ = nullptr;
 
     std::mutex callListMutex_;
-    std::queue<CallMeta> callList_;
+    std::list<CallMeta> callList_;
     Event callListSetEvent_;
     std::vector<std::thread> callWorkers_;
 
     std::mutex respListMutex_;
-    std::queue<RespMeta> respList_;
+    std::list<RespMeta> respList_;
     Event respListSetEvent_;
     std::vector<std::thread> respWorkers_;
 
diff --git a/src/unpack_next.h b/src/unpack_next.h
new file mode 100644
index 0000000..9ac6e49
--- /dev/null
+++ b/src/unpack_next.h
@@ -0,0 +1,28 @@
+/*
+ * Copyright (c) winsoft666.
+ * All rights reserved.
+ *
+ * This source code is licensed under the license found in the
+ * LICENSE file in the root directory of this source tree.
+ */
+#ifndef VEIGAR_UNPACK_NEXT_H_
+#define VEIGAR_UNPACK_NEXT_H_
+#pragma once
+
+#include "veigar/config.h"
+#include "veigar/msgpack.hpp"
+
+namespace veigar {
+// Unpack the object at 'offset' of a received message and move the offset behind it, throws an exception if there is none.
+// Nothing is kept from one message to the next. The object refers to 'data'.
+inline void UnpackNext(veigar_msgpack::object_handle& obj, const char* data, size_t size, size_t& offset) {
+    // No element is smaller than one byte, and the nesting is handled recursively.
+    const size_t maxDepth = 512;
+    veigar_msgpack::unpack(
+        obj, data, size, offset,
+        [](veigar_msgpack::type::object_type, size_t, void*) { return true; }, nullptr,
+        veigar_msgpack::unpack_limit(size, size, size, size, size, maxDepth));
+}
+}  // namespace veigar
+
+#endif  // !VEIGAR_UNPACK_NEXT_H_
diff --git a/src/veigar.cpp b/src/veigar.cpp
index d2e0080..7253794 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -6,11 +6,13 @@
  * LICENSE file in the root directory of this source tree.
  */
 #include "veigar/veigar.h"
+#include <assert.h>
 #include <cstdlib>
+#include <cstring>
+#include <mutex>
 #include "uuid.h"
 #include "log.h"
 #include "message_queue.h"
-#include "time_util.h"
 #include "resp_dispatcher.h"
 #include "sender.h"
 #include "time_util.h"
@@ -26,6 +28,7 @@ class Veigar::Impl {
     ~Impl() noexcept = default;
 
     bool init(const std::string& channelName, uint32_t msgQueueCapacity, uint32_t expectedMsgMaxSize) {
+        std::lock_guard<std::recursive_mutex> initLock(initMutex_);
         if (isInit_) {
             veigar::log("Veigar: Warning: Already init.\n");
             if (channelName_ == channelName) {
@@ -34,24 +37,64 @@ class Veigar::Impl {
             return false;
         }
 
+        try {
+            tryInit(channelName, msgQueueCapacity, expectedMsgMaxSize);
+        } catch (std::exception& e) {
+            veigar::log("Veigar: Error: An exception occurred during init: %s.\n", e.what());
+        }
+
+        if (!isInit_) {
+            if (sender_) {
+                sender_->uninit();
+            }
+
+            if (respDispatcher_) {
+                respDispatcher_->closeCalls();
+            }
+
+            veigar_->callDisp_->uninit();
+
+            if (respDispatcher_) {
+                respDispatcher_->uninit();
+            }
+
+            std::lock_guard<std::mutex> lg(mutex_);
+            uuid_.clear();
+            channelName_.clear();
+
+            sender_.reset();
+            respDispatcher_.reset();
+        }
+        else {
+            veigar::log("Veigar: Init success, channel: %s, uuid: %s.\n", channelName_.c_str(), uuid_.c_str());
+        }
+
+        return isInit_;
+    }
+
+    void tryInit(const std::string& channelName, uint32_t msgQueueCapacity, uint32_t expectedMsgMaxSize) {
         do {
             if (channelName.empty()) {
                 veigar::log("Veigar: Error: Channel name is empty.\n");
                 break;
             }
 
-            channelName_ = channelName;
             msgQueueCapacity_ = msgQueueCapacity;
             expectedMsgMaxSize_ = expectedMsgMaxSize;
 
-            uuid_ = UUID::Create();
-            if (uuid_.empty()) {
+            std::string uuid = UUID::Create();
+            if (uuid.empty()) {
                 veigar::log("Veigar: Error: Generate uuid failed.\n");
                 break;
             }
 
-            respDispatcher_ = std::make_shared<RespDispatcher>(veigar_);
-            sender_ = std::make_shared<Sender>(veigar_);
+            {
+                std::lock_guard<std::mutex> lg(mutex_);
+                channelName_ = channelName;
+                uuid_.swap(uuid);
+                respDispatcher_ = std::make_shared<RespDispatcher>(veigar_);
+                sender_ = std::make_shared<Sender>(veigar_);
+            }
 
             assert(veigar_->callDisp_);
             if (!veigar_->callDisp_->init()) {
@@ -73,66 +116,57 @@ class Veigar::Impl {
 
             isInit_ = true;
         } while (false);
-
-        if (!isInit_) {
-            if (veigar_->callDisp_->isInit()) {
-                veigar_->callDisp_->uninit();
-            }
-
-            if (respDispatcher_->isInit()) {
-                respDispatcher_->uninit();
-            }
-
-            if (sender_->isInit()) {
-                sender_->uninit();
-            }
-
-            uuid_.clear();
-            channelName_.clear();
-
-            sender_.reset();
-            respDispatcher_.reset();
-        }
-        else {
-            veigar::log("Veigar: Init success, channel: %s, uuid: %s.\n", channelName_.c_str(), uuid_.c_str());
-        }
-
-        return isInit_;
     }
 
     void uninit() {
+        std::lock_guard<std::recursive_mutex> initLock(initMutex_);
         if (!isInit_) {
             return;
         }
 
+        // From now on the API reports failure.
+        isInit_ = false;
+
         assert(sender_);
         if (sender_) {
-            if (sender_->isInit()) {
-                sender_->uninit();
-            }
-            sender_.reset();
+            sender_->uninit();
         }
 
-        assert(veigar_ && veigar_->callDisp_);
-        if (veigar_->callDisp_->isInit()) {
-            veigar_->callDisp_->uninit();
+        // Complete the pending calls, the running functions may be waiting for them.
+        assert(respDispatcher_);
+        if (respDispatcher_) {
+            respDispatcher_->closeCalls();
         }
 
-        assert(respDispatcher_);
+        assert(veigar_ && veigar_->callDisp_);
+        veigar_->callDisp_->uninit();
+        veigar_->callDisp_->unbindAll();
+
         if (respDispatcher_) {
-            if (respDispatcher_->isInit()) {
-                respDispatcher_->uninit();
-            }
-            respDispatcher_.reset();
+            respDispatcher_->uninit();
         }
 
-        isInit_ = false;
+        std::lock_guard<std::mutex> lg(mutex_);
+        sender_.reset();
+        respDispatcher_.reset();
+    }
+
+    std::shared_ptr<RespDispatcher> respDispatcher() const {
+        std::lock_guard<std::mutex> lg(mutex_);
+        return respDispatcher_;
+    }
+
+    std::shared_ptr<Sender> sender() const {
+        std::lock_guard<std::mutex> lg(mutex_);
+        return sender_;
     }
 
     Veigar* veigar_ = nullptr;
-    bool isInit_ = false;
-    uint32_t msgQueueCapacity_ = 0;
-    uint32_t expectedMsgMaxSize_ = 0;
+    std::recursive_mutex initMutex_;  // serializes init and uninit
+    mutable std::mutex mutex_;        // protects the strings and the pointers below
+    std::atomic_bool isInit_ = {false};
+    std::atomic<uint32_t> msgQueueCapacity_ = {0};
+    std::atomic<uint32_t> expectedMsgMaxSize_ = {0};
 
     std::atomic<uint32_t> processRWTimeout_ = { 30 };  // ms
 
@@ -206,6 +240,7 @@ uint32_t Veigar::expectedMsgMaxSize() const {
 
 std::string Veigar::channelName() const {
     assert(impl_);
+    std::lock_guard<std::mutex> lg(impl_->mutex_);
     return impl_->channelName_;
 }
 
@@ -241,10 +276,19 @@ uint32_t Veigar::timeoutOfRWLock() const {
 std::string Veigar::getNextCallId(const std::string& funcName) const {
     assert(impl_);
     uint32_t idx = impl_->callIndex_.fetch_add(1);
+    std::lock_guard<std::mutex> lg(impl_->mutex_);
     std::string callId = impl_->uuid_ + "_" + std::to_string((unsigned long)idx) + "_" + funcName;
     return callId;
 }
 
+void Veigar::setErrorMessage(CallResult& callRet, const char* message) {
+    try {
+        callRet.errorMessage = message;
+    } catch (std::exception&) {
+        callRet.errorMessage.clear();
+    }
+}
+
 bool Veigar::sendCall(const std::string& channelName,
                       uint32_t timeoutMS,
                       std::shared_ptr<veigar_msgpack::sbuffer> buffer,
@@ -255,14 +299,15 @@ bool Veigar::sendCall(const std::string& channelName,
     assert(impl_);
     assert(timeoutMS > impl_->processRWTimeout_ && "The call timeout should be greater than the timeout for acquiring the inter-process read-write lock.");
 
-    if (!impl_->sender_) {
+    std::shared_ptr<Sender> sender = impl_->sender();
+    std::shared_ptr<RespDispatcher> respDispatcher = impl_->respDispatcher();
+    if (!impl_->isInit_ || !sender || !respDispatcher) {
         return false;
     }
 
     Sender::CallMeta cm;
     cm.channel = channelName;
     cm.callId = callId;
-    cm.resultMeta = retMeta;
     cm.dataSize = buffer ? buffer->size() : 0;
     cm.data = (uint8_t*)malloc(cm.dataSize);
     if (!cm.data) {
@@ -277,41 +322,69 @@ bool Veigar::sendCall(const std::string& channelName,
     cm.timeout = (int64_t)timeoutMS * 1000;
     cm.startCallTimePoint = TimeUtil::GetSteadyTimestamp();
 
-    impl_->sender_->addCall(cm);
+    bool added = false;
+    bool ongoing = false;
+    try {
+        ongoing = respDispatcher->addOngoingCall(callId, retMeta);
+        added = ongoing && sender->addCall(cm);
+    } catch (std::exception& e) {
+        veigar::log("Veigar: Error: An exception occurred during adding a call: %s.\n", e.what());
+    }
+
+    if (!added) {
+        free(cm.data);
+
+        // It is not a failure of sending if the call has already been completed (by uninit).
+        ResultMeta meta;
+        return ongoing && !respDispatcher->takeCall(callId, meta);
+    }
 
     return true;
 }
 
 bool Veigar::sendResponse(const std::string& targetChannel,
+                          const std::string& callId,
                           const uint8_t* buf,
                           size_t bufSize,
                           std::string& errMsg) {
     assert(impl_);
-    if (!impl_->sender_) {
+    std::shared_ptr<Sender> sender = impl_->sender();
+    if (!sender) {
         return false;
     }
 
     Sender::RespMeta rm;
     rm.channel = targetChannel;
+    rm.callId = callId;
     rm.dataSize = bufSize;
     rm.data = (uint8_t*)malloc(bufSize);
     if (!rm.data) {
-        errMsg = "Unable to allocate memory.";
-        return false;
+        throw std::bad_alloc();
     }
     memcpy(rm.data, buf, bufSize);
 
     rm.timeout = VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT * 1000;
     rm.startCallTimePoint = TimeUtil::GetSteadyTimestamp();
 
-    impl_->sender_->addResp(rm);
+    bool added = false;
+    try {
+        added = sender->addResp(rm);
+    } catch (...) {
+        free(rm.data);
+        throw;
+    }
+
+    if (!added) {
+        free(rm.data);
+    }
 
-    return true;
+    return added;
 }
 
 void Veigar::releaseCall(const std::string& callId) {
-    if (impl_->respDispatcher_) {
-        impl_->respDispatcher_->releaseCall(callId);
+    std::shared_ptr<RespDispatcher> respDispatcher = impl_->respDispatcher();
+    if (respDispatcher) {
+        respDispatcher->releaseCall(callId);
     }
 }
 
-- 
2.43.0


From 0b9122df15bba6955ace56dabb14e9798ee75580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 12/13] fix: a lack of memory for more than a second no longer
 loses received messages

RetryOnBadAlloc gave up after about one second and the request or response was
dropped, so that a promise or callback call could never complete. It retries
until the dispatcher is stopped. A received message is checked for completeness
before anything is allocated for it, so that a malformed one is rejected at
once and does not claim memory for elements that it does not contain.
---
 src/retry.h       | 9 ++++-----
 src/unpack_next.h | 7 +++++++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/retry.h b/src/retry.h
index f0c87b3..3f3c0a4 100644
--- a/src/retry.h
+++ b/src/retry.h
@@ -15,22 +15,21 @@
 #include <thread>
 
 namespace veigar {
-// Execute 'func' again as long as it fails because of a lack of memory, for about one second.
-// Returns false if the memory is still not available or 'stop' has been set. Other exceptions are passed on.
+// Execute 'func' again as long as it fails because of a lack of memory, however long that takes.
+// Returns false if 'stop' has been set before it could be executed. Other exceptions are passed on.
 template <typename F>
 bool RetryOnBadAlloc(const std::atomic_bool& stop, F func) {
-    for (int i = 0; i < 100; ++i) {
+    while (true) {
         try {
             func();
             return true;
         } catch (const std::bad_alloc&) {
             if (stop.load()) {
-                break;
+                return false;
             }
         }
         std::this_thread::sleep_for(std::chrono::milliseconds(10));
     }
-    return false;
 }
 }  // namespace veigar
 
diff --git a/src/unpack_next.h b/src/unpack_next.h
index 9ac6e49..56d4f4d 100644
--- a/src/unpack_next.h
+++ b/src/unpack_next.h
@@ -16,6 +16,13 @@ namespace veigar {
 // Unpack the object at 'offset' of a received message and move the offset behind it, throws an exception if there is none.
 // Nothing is kept from one message to the next. The object refers to 'data'.
 inline void UnpackNext(veigar_msgpack::object_handle& obj, const char* data, size_t size, size_t& offset) {
+    // Memory is allocated according to the sizes that the message claims, so look first whether it is complete.
+    size_t end = offset;
+    veigar_msgpack::null_visitor visitor;
+    if (!veigar_msgpack::parse(data, size, end, visitor)) {
+        throw veigar_msgpack::unpack_error("invalid or incomplete message");
+    }
+
     // No element is smaller than one byte, and the nesting is handled recursively.
     const size_t maxDepth = 512;
     veigar_msgpack::unpack(
-- 
2.43.0


From 3491e5b0bfe65fa7338aaa428dcc9b2546a49e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:02 +0000
Subject: [PATCH 13/13] fix: complete calls whose response cannot fit the
 caller's response queue

---
 src/sender.cpp | 18 ++++++++++--------
 src/veigar.cpp | 14 ++++++++++++++
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index af17a08..ea6173d 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -13,6 +13,7 @@
 #include "run_time_recorder.h"
 #include "veigar/detail/response.h"
 #include <cstring>
+#include <initializer_list>
 
 namespace veigar {
 namespace {
@@ -434,14 +435,15 @@ Sender::PushResult Sender::tryPush(MessageQueue& mq, const uint8_t* data, size_t
 }
 
 bool Sender::makeErrorResp(RespMeta& rm) {
-    const detail::Response resp = detail::Response::MakeResponseWithError(rm.callId, std::string("The response is larger than the response queue of the caller."));
-    const veigar_msgpack::sbuffer buf = resp.getData();
-    if (buf.size() >= rm.dataSize) {
-        return false;
+    for (const char* error : {"The response is larger than the response queue of the caller.", ""}) {
+        const detail::Response resp = detail::Response::MakeResponseWithError(rm.callId, std::string(error));
+        const veigar_msgpack::sbuffer buf = resp.getData();
+        if (buf.size() < rm.dataSize) {
+            memcpy(rm.data, buf.data(), buf.size());
+            rm.dataSize = buf.size();
+            return true;
+        }
     }
-
-    memcpy(rm.data, buf.data(), buf.size());
-    rm.dataSize = buf.size();
-    return true;
+    return false;
 }
 }  // namespace veigar
diff --git a/src/veigar.cpp b/src/veigar.cpp
index 7253794..458eecc 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -19,6 +19,14 @@
 #include "run_time_recorder.h"
 
 namespace veigar {
+namespace {
+// array, flag, string header, call id, error and result
+int64_t MinResponseSize(const std::string& callId) {
+    const int64_t len = (int64_t)callId.size();
+    return len + (len < 32 ? 1 : len < 256 ? 2 : len < 65536 ? 3 : 5) + 4;
+}
+}  // namespace
+
 class Veigar::Impl {
    public:
     Impl(Veigar* veigar) noexcept :
@@ -305,6 +313,12 @@ bool Veigar::sendCall(const std::string& channelName,
         return false;
     }
 
+    // Every response contains the call id.
+    if (MinResponseSize(callId) > (int64_t)impl_->msgQueueCapacity_ * impl_->expectedMsgMaxSize_) {
+        exceptionMsg = "The response queue is too small for this call.";
+        return false;
+    }
+
     Sender::CallMeta cm;
     cm.channel = channelName;
     cm.callId = callId;
-- 
2.43.0

