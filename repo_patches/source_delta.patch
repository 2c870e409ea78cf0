From 1894690835762f2869e63708fb70c7b118f8f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:31 +0000
Subject: [PATCH 01/21] fix: destroy a finished task outside the pool's lock

A task's captured state was destroyed while the worker held the pool's
mutex, so a destructor that used the pool deadlocked the worker.
---
 include/pluto/thread_pool.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index e0a2ac1..7c57a01 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -401,7 +401,7 @@ namespace pluto
                 else
                 {
                     const auto begin{ m_waitingTasks.begin() };
-                    const auto task { std::move(begin->second) };
+                    auto task       { std::move(begin->second) };
                     m_waitingTasks.erase(begin);
 
                     if (m_waitingTasks.empty())
@@ -414,6 +414,9 @@ namespace pluto
 
                     task();
 
+                    // Destroy what the task captured before locking the mutex, it may use this pool
+                    task = nullptr;
+
                     lock.lock();
                     --m_activeWorkersSize;
                 }
-- 
2.43.0


From df61dd4f0a379f60f636591e008809ac7028cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 02/21] fix: start the scheduler thread while holding the
 pool's mutex

run_at released the mutex before assigning the new scheduler thread. Two
threads calling run_at at once then assigned over a joinable thread, and a
scheduler that finished first detached a thread that was not assigned yet;
both end the process. If the thread could not be created, the task stayed
accepted although run_at had thrown.
---
 include/pluto/thread_pool.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 7c57a01..7cc551b 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -299,14 +299,15 @@ namespace pluto
         {
             std::unique_lock<std::mutex> lock{ m_mutex };
 
-            m_scheduledTasks.emplace(time, task_info{ priority, task });
-
             if (!m_scheduler.joinable())
             {
-                lock.unlock();
+                // Keep the mutex locked, the scheduler must not finish before it's assigned here
                 m_scheduler = std::thread{ &thread_pool::start_scheduling, this };
             }
-            else if (time == m_scheduledTasks.begin()->first)
+
+            m_scheduledTasks.emplace(time, task_info{ priority, task });
+
+            if (time == m_scheduledTasks.begin()->first)
             {
                 // Wake the scheduler so it knows it has less time to sleep
                 lock.unlock();
-- 
2.43.0


From fe9b2329c34373e4dc2c06483e3bfa8f044d7658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 03/21] fix: notify waiting threads when the last worker leaves

When the pool was shrunk to zero while a task was running, the worker left
without notifying wait_until_all_tasks_complete, which then never returned.
---
 include/pluto/thread_pool.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 7cc551b..f908aca 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -431,6 +431,12 @@ namespace pluto
                     it->second.detach();
                     m_workers.erase(it);
                 }
+
+                // The last worker may leave without another one noticing that all tasks are complete
+                if (m_waitingTasks.empty() && m_activeWorkersSize == 0)
+                {
+                    m_tasksCompleteCondition.notify_all();
+                }
             }
         }
     };
-- 
2.43.0


From ed3f87473f0b539c1dbe63a16218a35c0eb08baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 04/21] fix: complete waiting tasks if the pool stops while it
 is shrinking

Workers of a stopping pool are not removed, so if the pool was destroyed
before surplus workers had left, every worker saw too many workers and left
at once, dropping the tasks complete_tasks promises to run.
---
 include/pluto/thread_pool.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index f908aca..1e25c03 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -387,8 +387,10 @@ namespace pluto
         {
             std::unique_lock<std::mutex> lock{ m_mutex };
 
-            while (m_workers.size() <= m_targetWorkersSize &&
-                (!m_isStopping || (m_onStop == action::complete_tasks && !m_waitingTasks.empty())))
+            // A stopping pool doesn't remove workers, so the target size only counts before that
+            while (m_isStopping ?
+                (m_onStop == action::complete_tasks && !m_waitingTasks.empty()) :
+                (m_workers.size() <= m_targetWorkersSize))
             {
                 if (m_waitingTasks.empty())
                 {
-- 
2.43.0


From 64df24eec2adcc5e8ded06e9af3d5806b1d5a385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 05/21] fix: survive a failure to start a worker

If a thread could not be created while constructing the pool, the workers
started before were destroyed while joinable, which ends the process. The
same happened to a new worker that could not be added for lack of memory,
also when the pool was grown.
---
 include/pluto/thread_pool.hpp | 42 +++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 1e25c03..bd35ba8 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -109,18 +109,15 @@ namespace pluto
         std::size_t m_activeWorkersSize;
 
     public:
+        // Delegates so that the destructor stops the workers already started if starting one throws
         explicit thread_pool(const std::size_t targetWorkersSize = std::thread::hardware_concurrency()) :
-            m_onStop            { action::join_all },
-            m_isStopping        { false },
-            m_targetWorkersSize { targetWorkersSize },
-            m_activeWorkersSize { 0 }
+            thread_pool{ action::join_all, targetWorkersSize }
         {
-            const std::unique_lock<std::mutex> lock{ m_mutex };
+            std::unique_lock<std::mutex> lock{ m_mutex };
 
             while (m_workers.size() < m_targetWorkersSize)
             {
-                std::thread worker{ &thread_pool::start_working, this };
-                m_workers.emplace(worker.get_id(), std::move(worker));
+                add_worker(lock);
             }
         }
 
@@ -226,8 +223,7 @@ namespace pluto
 
                 while (m_workers.size() < m_targetWorkersSize)
                 {
-                    std::thread worker{ &thread_pool::start_working, this };
-                    m_workers.emplace(worker.get_id(), std::move(worker));
+                    add_worker(lock);
                 }
 
                 if (m_targetWorkersSize < m_workers.size())
@@ -360,6 +356,29 @@ namespace pluto
         }
 
     private:
+        thread_pool(const action onStop, const std::size_t targetWorkersSize) :
+            m_onStop            { onStop },
+            m_isStopping        { false },
+            m_targetWorkersSize { targetWorkersSize },
+            m_activeWorkersSize { 0 } {}
+
+        void add_worker(std::unique_lock<std::mutex>& lock)
+        {
+            std::thread worker{ &thread_pool::start_working, this };
+
+            try
+            {
+                m_workers.emplace(worker.get_id(), std::move(worker));
+            }
+            catch (...)
+            {
+                // Let the worker see that it wasn't added, it'll leave at once
+                lock.unlock();
+                worker.join();
+                throw;
+            }
+        }
+
         void start_scheduling()
         {
             std::unique_lock<std::mutex> lock{ m_mutex };
@@ -387,6 +406,11 @@ namespace pluto
         {
             std::unique_lock<std::mutex> lock{ m_mutex };
 
+            if (m_workers.find(std::this_thread::get_id()) == m_workers.end())
+            {
+                return;
+            }
+
             // A stopping pool doesn't remove workers, so the target size only counts before that
             while (m_isStopping ?
                 (m_onStop == action::complete_tasks && !m_waitingTasks.empty()) :
-- 
2.43.0


From d1a4f12a415202b85116e51d7217d28dca8ceaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 06/21] fix: hand over scheduled tasks in the order of their
 times

A task scheduled while the scheduler was about to wake up for a later one
was handed to the workers after that one.
---
 include/pluto/thread_pool.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index bd35ba8..396cebb 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -385,9 +385,11 @@ namespace pluto
 
             while (!m_scheduledTasks.empty() && !m_isStopping)
             {
-                const auto begin{ m_scheduledTasks.begin() };
-                if (m_schedulerCondition.wait_until(lock, begin->first) == std::cv_status::timeout)
+                const auto time{ m_scheduledTasks.begin()->first };
+                if (m_schedulerCondition.wait_until(lock, time) == std::cv_status::timeout)
                 {
+                    // A task with an earlier time may have been added meanwhile
+                    const auto begin{ m_scheduledTasks.begin() };
                     m_waitingTasks.emplace(begin->second.priority, begin->second.task);
                     m_scheduledTasks.erase(begin);
 
-- 
2.43.0


From dfd7a00da92cbfbb558bf3ca13a88af535d4ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 07/21] fix: log the empty message of writef instead of its
 scheme

---
 include/pluto/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 94100e4..2080af3 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -638,7 +638,7 @@ namespace pluto
                 {
                     // Create message from scheme and args
                     auto messageLength{ std::vsnprintf(nullptr, 0, scheme, args) };
-                    if (0 < messageLength)
+                    if (0 <= messageLength)
                     {
                         message.resize(messageLength + 1);
                         if (std::vsnprintf(&message[0], message.size(), scheme, argsCopy) == messageLength)
-- 
2.43.0


From 17e527a4725b6c438270ef78226703363188e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 08/21] fix: don't let the logging thread miss the logger's
 destruction

---
 include/pluto/logger.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 2080af3..6042db6 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -380,7 +380,12 @@ namespace pluto
 
         ~logger()
         {
-            m_isLogging.store(false);
+            {
+                // Hold the mutex so that the logging thread can't miss this before it waits
+                const std::unique_lock<std::mutex> lock{ m_loggingMutex };
+                m_isLogging.store(false);
+            }
+
             m_loggingCondition.notify_all();
 
             if (m_loggingThread.joinable())
-- 
2.43.0


From 7844cb7137aa60ea6c4f04ff98c0131952fef8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 09/21] fix: don't let the logging thread miss a lowered flush
 size

---
 include/pluto/logger.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 6042db6..c32cd04 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -559,7 +559,12 @@ namespace pluto
 
         inline logger& buffer_flush_size(const std::size_t bufferFlushSize)
         {
-            m_bufferFlushSize.store(bufferFlushSize);
+            {
+                // Hold the mutex so that the logging thread can't miss this before it waits
+                const std::unique_lock<std::mutex> lock{ m_loggingMutex };
+                m_bufferFlushSize.store(bufferFlushSize);
+            }
+
             m_loggingCondition.notify_one(); // wake the logging thread
             return *this;
         }
-- 
2.43.0


From 2bd18d9e411a3bb517b90c1844228d368623637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 10/21] fix: remove surplus rotated files from the oldest one
 on

---
 include/pluto/logger.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index c32cd04..4128cb3 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -794,13 +794,17 @@ namespace pluto
                     break;
                 }
 
-                if (i < fileRotationLimit)
-                {
-                    ++numFiles;
-                    continue;
-                }
+                ++numFiles;
+            }
+
+            // Remove the oldest files first so that an interruption never leaves a gap
+            while (fileRotationLimit < numFiles)
+            {
+                const auto oldestIndex  { numFiles - 1 };
+                const auto oldestStem   { stem + ((oldestIndex == 0) ? "" : ("_" + std::to_string(oldestIndex))) };
 
-                pluto::filesystem::remove(thisPath);
+                pluto::filesystem::remove(parentPath / (oldestStem + extension));
+                numFiles = oldestIndex;
             }
 
             for (auto i{ numFiles }; 0 < i; )
-- 
2.43.0


From 3001738dfcf4ca4334158b0fadd43658412dd77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:09 +0000
Subject: [PATCH 11/21] fix: keep the remaining logs when writing to a log file
 fails

---
 include/pluto/logger.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 4128cb3..dc8da3b 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -854,6 +854,13 @@ namespace pluto
 
                 while (itWritten != begin)
                 {
+                    // Keep the remaining logs if writing to the file failed
+                    if (!fileStream.good())
+                    {
+                        throw pluto::filesystem::filesystem_error{
+                            "pluto::logger failed to write to file", std::make_error_code(std::errc::io_error) };
+                    }
+
                     fileSize = static_cast<std::size_t>(fileStream.tellp());
 
                     // Rotate file if needed
-- 
2.43.0


From a3030a72d7c5a98aceb59b0bba26460cf3b07285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 12/21] fix: keep the list and the map of the LRU cache the
 same if insert throws

---
 include/pluto/lru_cache.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index 0ed430c..3adf05b 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -128,8 +128,11 @@ namespace pluto
                         evict_lru();
                     }
 
-                    m_list.push_front(key);
-                    m_map.emplace(key, std::make_pair(value, m_list.begin()));
+                    // Add to the list last, so that both stay the same if something throws
+                    list_type newItem{};
+                    newItem.push_front(key);
+                    m_map.emplace(key, std::make_pair(value, newItem.begin()));
+                    m_list.splice(m_list.begin(), newItem);
                 }
 
                 result = true;
-- 
2.43.0


From 1f288caa85921ae135ea8216a19792400617f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 13/21] fix: don't allocate to move an item to the front of the
 LRU cache

---
 include/pluto/lru_cache.hpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index 3adf05b..9fd27d3 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -150,14 +150,7 @@ namespace pluto
         void move_to_front(typename map_type::iterator itMap)
         {
             // Move item to front of most recently used list
-            auto itList{ itMap->second.second };
-            if (itList != m_list.begin())
-            {
-                m_list.erase(itList);
-                m_list.push_front(itMap->first);
-
-                itMap->second.second = m_list.begin();
-            }
+            m_list.splice(m_list.begin(), m_list, itMap->second.second);
         }
 
         void evict_lru()
-- 
2.43.0


From 9a8cc14941fb270d07bac3e61451a7f1be0d5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 14/21] fix: don't leave the LRU cache above its capacity if an
 eviction throws

---
 include/pluto/lru_cache.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index 9fd27d3..5a4f2ad 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -61,20 +61,21 @@ namespace pluto
 
         void capacity(const std::size_t newCapacity)
         {
-            m_capacity = newCapacity;
-
-            if (m_capacity == 0)
+            if (newCapacity == 0)
             {
                 clear();
             }
             else
             {
                 // While cache is above capacity, evict the least recently used item
-                while (m_capacity < size())
+                while (newCapacity < size())
                 {
                     evict_lru();
                 }
             }
+
+            // Set last, so that the cache is never above capacity if an eviction throws
+            m_capacity = newCapacity;
         }
 
         inline bool insert(const key_type& key, const value_type& value)
-- 
2.43.0


From 0f2d0bcaa11f971ab66402771be3d98909c1ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 15/21] fix: make copies of the LRU cache independent of their
 source

---
 include/pluto/lru_cache.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index 5a4f2ad..887f118 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -10,6 +10,7 @@
 
 #include <map>
 #include <list>
+#include <utility>
 
 #include "version.hpp"
 
@@ -33,6 +34,28 @@ namespace pluto
         inline explicit lru_cache(const std::size_t capacity) :
             m_capacity{ capacity } {}
 
+        lru_cache(const lru_cache& other) :
+            m_capacity{ other.m_capacity },
+            m_list{ other.m_list },
+            m_map{ other.m_map }
+        {
+            // The copied map still points into the list of the other cache
+            for (auto itList{ m_list.begin() }; itList != m_list.end(); ++itList)
+            {
+                m_map.at(*itList).second = itList;
+            }
+        }
+
+        lru_cache(lru_cache&& other) = default;
+
+        lru_cache& operator=(const lru_cache& other)
+        {
+            lru_cache copy{ other };
+            return (*this = std::move(copy));
+        }
+
+        lru_cache& operator=(lru_cache&& other) = default;
+
         PLUTO_UTILS_NODISCARD inline std::size_t size() const
         {
             return m_map.size();
-- 
2.43.0


From 20438f17485f1bde280a5738b3bf3786afbe7926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 16/21] fix: run each task of a scope guard once if a task adds
 another

---
 include/pluto/scope.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/pluto/scope.hpp b/include/pluto/scope.hpp
index 82b6ad2..84c1165 100644
--- a/include/pluto/scope.hpp
+++ b/include/pluto/scope.hpp
@@ -9,6 +9,7 @@
 #define PLUTO_UTILS_SCOPE_HPP
 
 #include <stack>
+#include <utility>
 #include <exception>
 #include <functional>
 
@@ -30,9 +31,11 @@ namespace pluto
 
         ~on_scope_exit()
         {
-            for (; !m_tasks.empty(); m_tasks.pop())
+            while (!m_tasks.empty())
             {
-                const auto& task{ m_tasks.top() };
+                // Remove before running, as the task may add another
+                const auto task{ std::move(m_tasks.top()) };
+                m_tasks.pop();
 
                 if (task)
                 {
@@ -79,9 +82,11 @@ namespace pluto
             if (!std::uncaught_exception())
 #endif
             {
-                for (; !m_tasks.empty(); m_tasks.pop())
+                while (!m_tasks.empty())
                 {
-                    const auto& task{ m_tasks.top() };
+                    // Remove before running, as the task may add another
+                    const auto task{ std::move(m_tasks.top()) };
+                    m_tasks.pop();
 
                     if (task)
                     {
@@ -129,9 +134,11 @@ namespace pluto
             if (std::uncaught_exception())
 #endif
             {
-                for (; !m_tasks.empty(); m_tasks.pop())
+                while (!m_tasks.empty())
                 {
-                    const auto& task{ m_tasks.top() };
+                    // Remove before running, as the task may add another
+                    const auto task{ std::move(m_tasks.top()) };
+                    m_tasks.pop();
 
                     if (task)
                     {
-- 
2.43.0


From d6c1dbb4f5085b7e9c983da5975a13b2ce363c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 17/21] fix: let scope guards ignore exceptions thrown before
 their scope was entered

---
 include/pluto/scope.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/pluto/scope.hpp b/include/pluto/scope.hpp
index 84c1165..f7cb464 100644
--- a/include/pluto/scope.hpp
+++ b/include/pluto/scope.hpp
@@ -65,6 +65,9 @@ namespace pluto
     class on_scope_success
     {
         std::stack<std::function<void()>> m_tasks{};
+#if PLUTO_UTILS_HAS_CXX_17
+        int m_uncaughtExceptions{ std::uncaught_exceptions() };
+#endif
 
     public:
         inline on_scope_success() = default;
@@ -77,7 +80,7 @@ namespace pluto
         ~on_scope_success()
         {
 #if PLUTO_UTILS_HAS_CXX_17
-            if (std::uncaught_exceptions() == 0)
+            if (std::uncaught_exceptions() <= m_uncaughtExceptions)
 #else
             if (!std::uncaught_exception())
 #endif
@@ -117,6 +120,9 @@ namespace pluto
     class on_scope_fail
     {
         std::stack<std::function<void()>> m_tasks{};
+#if PLUTO_UTILS_HAS_CXX_17
+        int m_uncaughtExceptions{ std::uncaught_exceptions() };
+#endif
 
     public:
         inline on_scope_fail() = default;
@@ -129,7 +135,7 @@ namespace pluto
         ~on_scope_fail()
         {
 #if PLUTO_UTILS_HAS_CXX_17
-            if (std::uncaught_exceptions() != 0)
+            if (std::uncaught_exceptions() > m_uncaughtExceptions)
 #else
             if (std::uncaught_exception())
 #endif
-- 
2.43.0


From 38ae7694707fb366812a6ca0a647ab9a7d2f8753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 18/21] fix: never destroy what a scheduled task captured
 inside the pool's lock

The scheduler copied a due task and destroyed the original while it held the
mutex, and run_at destroyed its copy there if it failed to allocate. If the
destructor of something the task captured calls the pool, it deadlocked.
---
 include/pluto/thread_pool.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 396cebb..2f30b1f 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -293,6 +293,7 @@ namespace pluto
             const std::function<void()>&    task,
             const signed char               priority = PLUTO_THREAD_POOL_PRIORITY_NORMAL)
         {
+            task_info taskInfo{ priority, task };
             std::unique_lock<std::mutex> lock{ m_mutex };
 
             if (!m_scheduler.joinable())
@@ -301,7 +302,7 @@ namespace pluto
                 m_scheduler = std::thread{ &thread_pool::start_scheduling, this };
             }
 
-            m_scheduledTasks.emplace(time, task_info{ priority, task });
+            m_scheduledTasks.emplace(time, std::move(taskInfo));
 
             if (time == m_scheduledTasks.begin()->first)
             {
@@ -390,7 +391,8 @@ namespace pluto
                 {
                     // A task with an earlier time may have been added meanwhile
                     const auto begin{ m_scheduledTasks.begin() };
-                    m_waitingTasks.emplace(begin->second.priority, begin->second.task);
+                    // Move the task, destroying a copy of what it captured may use this pool
+                    m_waitingTasks.emplace(begin->second.priority, std::move(begin->second.task));
                     m_scheduledTasks.erase(begin);
 
                     // New task from schedule, wake one of the workers
-- 
2.43.0


From c79f6801e689e8442baecb50dffee3b62411fff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 19/21] fix: create the directories of a log file again after
 they were removed

Once created, the directories were never created again: if they were removed
while the logger was running, the file could not be opened any more, the logging
thread retried for ever and the logs were lost when the logger was destroyed.
---
 include/pluto/logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index dc8da3b..018c887 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -838,8 +838,8 @@ namespace pluto
                     filePath = pluto::filesystem::absolute(fileName);
                 }
 
-                // Create path to file if needed
-                if (create_dirs() && !dirsCreated)
+                // Create path to file if needed, it may have been removed since the last time
+                if (create_dirs() && (!dirsCreated || !pluto::filesystem::exists(filePath.parent_path())))
                 {
                     pluto::filesystem::create_directories(filePath.parent_path());
                     dirsCreated = true;
-- 
2.43.0


From 351d2153b3a911c98c52a996a7ddea48cf895920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:31 +0000
Subject: [PATCH 20/21] fix: survive running out of memory in the logging
 thread

---
 include/pluto/logger.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 018c887..0970bc8 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -9,6 +9,7 @@
 #define PLUTO_UTILS_LOGGER_HPP
 
 #include <map>
+#include <new>
 #include <list>
 #include <mutex>
 #include <atomic>
@@ -885,6 +886,7 @@ namespace pluto
                 }
             }
             catch (const pluto::filesystem::filesystem_error&) {}
+            catch (const std::bad_alloc&) {}
 
             return itWritten;
         }
-- 
2.43.0


From 92fc2986320b9029ac3e5f6de34bc3ab3e4bd410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:31 +0000
Subject: [PATCH 21/21] fix: keep a scheduled task if there is no memory to
 hand it over

---
 include/pluto/thread_pool.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 2f30b1f..7f18fae 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -9,6 +9,7 @@
 #define PLUTO_UTILS_THREAD_POOL_HPP
 
 #include <map>
+#include <new>
 #include <mutex>
 #include <chrono>
 #include <future>
@@ -391,8 +392,18 @@ namespace pluto
                 {
                     // A task with an earlier time may have been added meanwhile
                     const auto begin{ m_scheduledTasks.begin() };
-                    // Move the task, destroying a copy of what it captured may use this pool
-                    m_waitingTasks.emplace(begin->second.priority, std::move(begin->second.task));
+
+                    try
+                    {
+                        // Move the task, destroying a copy of what it captured may use this pool
+                        m_waitingTasks.emplace(begin->second.priority, std::move(begin->second.task));
+                    }
+                    catch (const std::bad_alloc&)
+                    {
+                        // Not enough memory now, try again
+                        continue;
+                    }
+
                     m_scheduledTasks.erase(begin);
 
                     // New task from schedule, wake one of the workers
-- 
2.43.0

