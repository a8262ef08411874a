From 63f07b3f0832e29cefcb5d53df13bb7fb32893a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 01/35] fix: TimeStamp from boost ptime must store only the
 sub-second nanoseconds

---
 src/icl_core/src/icl_core/TimeStamp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index b321c8a..07cb1fd 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -92,7 +92,7 @@ TimeStamp::TimeStamp(const boost::posix_time::ptime& ptime_stamp)
 
   secs = boost::posix_time::time_period(unix_time_base, ptime_stamp).length().total_seconds();
   nsecs = int32_t(boost::posix_time::time_period(unix_time_base, ptime_stamp).
-  length().total_nanoseconds());
+  length().total_nanoseconds() % 1000000000);
   normalizeTime();
 }
 
@@ -102,7 +102,7 @@ TimeStamp& TimeStamp::operator = (const boost::posix_time::ptime& ptime_stamp)
 
   secs = boost::posix_time::time_period(unix_time_base, ptime_stamp).length().total_seconds();
   nsecs = int32_t(boost::posix_time::time_period(unix_time_base, ptime_stamp).
-  length().total_nanoseconds());
+  length().total_nanoseconds() % 1000000000);
   normalizeTime();
   return *this;
 }
-- 
2.43.0


From 54bf6805fadeb24d6de83038aa91d8d339db7d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 02/35] fix: ZBuffer::reset() must compile and empty every
 element

---
 src/icl_core/src/icl_core/ZBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/ZBuffer.h b/src/icl_core/src/icl_core/ZBuffer.h
index 19cb5d0..d6fb1a0 100644
--- a/src/icl_core/src/icl_core/ZBuffer.h
+++ b/src/icl_core/src/icl_core/ZBuffer.h
@@ -77,7 +77,7 @@ public:
   }
 
   //! Empties the Z buffer.
-  void reset() { m_buffer.assign(size); }
+  void reset() { m_buffer.assign(m_buffer.size(), boost::optional<T>()); }
   //! Returns the buffer size.
   const size_type size() const { return m_buffer.size(); }
   //! Read-only access to the buffer.
-- 
2.43.0


From b27bc94e33b96d9839690e0b6c38ba69865f34e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 03/35] fix: bit field helpers must keep the bits above an int

---
 src/icl_core/src/icl_core/BitfieldHelper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/BitfieldHelper.h b/src/icl_core/src/icl_core/BitfieldHelper.h
index c93539b..9bb28bc 100644
--- a/src/icl_core/src/icl_core/BitfieldHelper.h
+++ b/src/icl_core/src/icl_core/BitfieldHelper.h
@@ -39,7 +39,7 @@ namespace icl_core {
 template <typename T>
 void setBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  bitfield = T(int(bitfield) | bits);
+  bitfield = T(bitfield | T(bits));
 }
 
 /*!
@@ -48,7 +48,7 @@ void setBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 template <typename T>
 void clearBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  bitfield = T(int(bitfield) & ~bits);
+  bitfield = T(bitfield & ~T(bits));
 }
 
 /*!
-- 
2.43.0


From 62f6d0f55283f436e4ee69e1df8f7ce5351a5bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 04/35] fix: SpinLock::tryLock must report success when the
 lock was taken

---
 src/icl_core/src/icl_core_thread/SpinLock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/SpinLock.h b/src/icl_core/src/icl_core_thread/SpinLock.h
index ab955c5..85fafa2 100644
--- a/src/icl_core/src/icl_core_thread/SpinLock.h
+++ b/src/icl_core/src/icl_core_thread/SpinLock.h
@@ -59,7 +59,7 @@ public:
    */
   bool tryLock()
   {
-    return (m_state.exchange(LOCKED, boost::memory_order_acquire) == LOCKED);
+    return (m_state.exchange(LOCKED, boost::memory_order_acquire) == UNLOCKED);
   }
 
   //! Unlocks the mutex.
-- 
2.43.0


From f337b2458dd9e8fbad14494eff913d1eaa75c116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:17 +0000
Subject: [PATCH 05/35] fix: Thread::join must join a thread whose work has
 already finished

The thread of execution was joined only while it was still running, so a
thread that had finished was never joined: its resources leaked, and
join(), wait() and the destructor could return while it was still using
the object.
---
 src/icl_core/src/icl_core_thread/Thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index fce345e..0ac2694 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -137,7 +137,7 @@ bool Thread::executesHardRealtime() const
 
 void Thread::join()
 {
-  if (running())
+  if (!m_joined)
   {
     m_impl->join();
   }
-- 
2.43.0


From cb43df0100902d02ff99a83a7ed04972658f3709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 06/35] fix: Thread::wait without limit must not fail

The thread of execution released the mutex on which wait() blocks before it
marked itself as finished, so wait() could acquire the mutex, see an
unfinished thread and return false.
---
 src/icl_core/src/icl_core_thread/Thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index 0ac2694..f8247fd 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -241,8 +241,8 @@ void Thread::runThread()
   run();
 
   m_execute = false;
-  m_thread_mutex.unlock();
   m_finished = true;
+  m_thread_mutex.unlock();
 
   LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Done." << endl);
 }
-- 
2.43.0


From e950133c55e24e82a73cf8b9a5f1f0c9e0c5aaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:40 +0000
Subject: [PATCH 07/35] fix: logging::Thread::join must join a thread whose
 work has already finished

As in the thread library: the thread of execution was joined only while
it was still running.
---
 src/icl_core/src/icl_core_logging/Thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/Thread.cpp b/src/icl_core/src/icl_core_logging/Thread.cpp
index 4a26fb4..10f730c 100644
--- a/src/icl_core/src/icl_core_logging/Thread.cpp
+++ b/src/icl_core/src/icl_core_logging/Thread.cpp
@@ -83,7 +83,7 @@ Thread::~Thread()
 
 void Thread::join()
 {
-  if (running())
+  if (!m_joined)
   {
     m_impl->join();
   }
-- 
2.43.0


From d1bcd8f1b9aeafaf4764f46bd206e45df1ff6895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:03 +0000
Subject: [PATCH 08/35] fix: ActiveObject must not touch its queue without the
 mutex, nor accept operations after a stop request

---
 .../src/icl_core_thread/ActiveObject.cpp      | 41 ++++++++++++++++---
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.cpp b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
index 8b53767..2f97335 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.cpp
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
@@ -42,11 +42,18 @@ void ActiveObject::run()
     if (execute())
     {
       // Process all queued operations.
-      while (!m_operation_queue.empty())
+      while (true)
       {
         // Try to lock the queue mutex
         if (m_operation_queue_mutex.lock())
         {
+          // The queue must only be inspected while holding the mutex!
+          if (m_operation_queue.empty())
+          {
+            m_operation_queue_mutex.unlock();
+            break;
+          }
+
           // Extract the next pending operation from the queue.
           ActiveOperation *op = m_operation_queue.front();
           m_operation_queue.pop_front();
@@ -63,10 +70,21 @@ void ActiveObject::run()
   }
 
   // Delete any pending operations.
-  while (!m_operation_queue.empty())
+  while (true)
   {
-    delete m_operation_queue.front();
-    m_operation_queue.pop_front();
+    if (m_operation_queue_mutex.lock())
+    {
+      if (m_operation_queue.empty())
+      {
+        m_operation_queue_mutex.unlock();
+        break;
+      }
+
+      ActiveOperation *op = m_operation_queue.front();
+      m_operation_queue.pop_front();
+      m_operation_queue_mutex.unlock();
+      delete op;
+    }
   }
 
   onThreadStop();
@@ -80,10 +98,21 @@ void ActiveObject::stop()
 
 void ActiveObject::queue(ActiveOperation *active_operation)
 {
-  if (execute() && m_operation_queue_mutex.lock())
+  // The stop request must be checked while holding the mutex: after it
+  // has been issued the thread empties the queue for the last time.
+  bool queued = false;
+  if (m_operation_queue_mutex.lock())
   {
-    m_operation_queue.push_back(active_operation);
+    if (execute())
+    {
+      m_operation_queue.push_back(active_operation);
+      queued = true;
+    }
     m_operation_queue_mutex.unlock();
+  }
+
+  if (queued)
+  {
     m_sem.post();
   }
   else
-- 
2.43.0


From 355d5c3c689e70d083928f26e9a8860181dfd569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:39 +0000
Subject: [PATCH 09/35] fix: PeriodicThreadImplTimerfd must close its timer

---
 .../src/icl_core_thread/PeriodicThreadImplTimerfd.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
index a96e422..d8df18a 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
@@ -41,11 +41,22 @@ PeriodicThreadImplTimerfd::PeriodicThreadImplTimerfd(const icl_core::TimeSpan& p
 
 PeriodicThreadImplTimerfd::~PeriodicThreadImplTimerfd()
 {
+  if (timer_created)
+  {
+    close(m_info->timer_fd);
+  }
   delete m_info;
 }
 
 void PeriodicThreadImplTimerfd::makePeriodic()
 {
+  /* Close the timer of a previous run */
+  if (timer_created)
+  {
+    close(m_info->timer_fd);
+    timer_created = false;
+  }
+
   /* Create the timer */
   int fd = timerfd_create(CLOCK_MONOTONIC, 0);
   m_info->wakeups_missed = 0;
-- 
2.43.0


From 28d6bcecd3b494dfd1634514e220a982fc2ab919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:14 +0000
Subject: [PATCH 10/35] fix: PeriodicThreadImplTimerfd::waitPeriod must not end
 early when a signal interrupts it

---
 .../src/icl_core_thread/PeriodicThreadImplTimerfd.cpp     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
index d8df18a..c913c14 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
@@ -27,7 +27,9 @@
 #include "PeriodicThreadImplTimerfd.h"
 #include "Logging.h"
 
+#include <errno.h>
 #include <sys/timerfd.h>
+#include <unistd.h>
 
 namespace icl_core {
 namespace thread {
@@ -106,7 +108,11 @@ void PeriodicThreadImplTimerfd::waitPeriod()
 
   /* Wait for the next timer event. If we have missed any the
      number is written to "missed" */
-  ret = read(m_info->timer_fd, &missed, sizeof(missed));
+  do
+  {
+    ret = read(m_info->timer_fd, &missed, sizeof(missed));
+  }
+  while (ret == -1 && errno == EINTR);
   if (ret == -1)
   {
     perror ("read timer");
-- 
2.43.0


From a5d247904f12438ee69ec8af36539420cc6899e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:22 +0000
Subject: [PATCH 11/35] fix: inspect the message queue of a log output stream
 only under its mutex

---
 src/icl_core/src/icl_core_logging/LogOutputStream.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index ddd5366..d5e698c 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -568,11 +568,7 @@ void LogOutputStream::WorkerThread::run()
   {
     if (m_fill_count->wait())
     {
-#ifdef ICL_CORE_LOG_OUTPUT_STREAM_USE_FIXED_QUEUE
-      if (!isMessageQueueEmpty())
-#else
-      if (!m_message_queue.empty())
-#endif
+      // The message queue may only be inspected while the mutex is held.
       {
         if (m_mutex->wait())
         {
-- 
2.43.0


From 38b5617457c193c83fb332d01da03d4aabe20a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:28 +0000
Subject: [PATCH 12/35] fix: reset a thread stream before it is released to
 other threads

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 80ef7f0..23d4e4c 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -135,6 +135,8 @@ void ThreadStream::flush()
                     m_classname, m_objectname, m_function, m_data);
     }
 
+    // As soon as it is released another thread may write to this thread stream.
+    m_write_index = 0;
     m_parent->releaseThreadStream(this);
 
     m_parent->m_mutex.post();
@@ -142,8 +144,8 @@ void ThreadStream::flush()
   else
   {
     PRINTF("ThreadStream(%s)::Flush: mutex lock failed\n", m_parent->nameCStr());
+    m_write_index = 0;
   }
-  m_write_index = 0;
 }
 
 ThreadStream::ThreadStream(LogStream *parent)
-- 
2.43.0


From 5ab12cec6fbfd711618cd31968e330f3ed1cba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:28 +0000
Subject: [PATCH 13/35] fix: initialise all texts of a thread stream

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 23d4e4c..e7f958c 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -155,7 +155,9 @@ ThreadStream::ThreadStream(LogStream *parent)
     m_line(0),
     m_write_index(0)
 {
+  memset(m_filename, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_classname, 0, cDEFAULT_LOG_SIZE + 1);
+  memset(m_objectname, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_function, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_data, 0, cDEFAULT_LOG_SIZE + 1);
 }
-- 
2.43.0


From 86f110d9d0eef4c928640e7957f78fb1a8fbf846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:46 +0000
Subject: [PATCH 14/35] fix: terminate the texts of a log message which are too
 long

---
 src/icl_core/src/icl_core_logging/LogOutputStream.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index d5e698c..49df07c 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -671,6 +671,14 @@ LogOutputStream::LogMessage::LogMessage(const icl_core::TimeStamp& timestamp,
   std::strncpy(LogMessage::object_name, object_name, cMAX_DESCRIPTION_LENGTH+1);
   std::strncpy(LogMessage::function_name, function_name, cMAX_IDENTIFIER_LENGTH+1);
   std::strncpy(LogMessage::message_text, message_text, cDEFAULT_LOG_SIZE+1);
+
+  // Surplus characters are truncated.
+  LogMessage::log_stream[cMAX_IDENTIFIER_LENGTH] = 0;
+  LogMessage::filename[cMAX_DESCRIPTION_LENGTH] = 0;
+  LogMessage::class_name[cMAX_IDENTIFIER_LENGTH] = 0;
+  LogMessage::object_name[cMAX_DESCRIPTION_LENGTH] = 0;
+  LogMessage::function_name[cMAX_IDENTIFIER_LENGTH] = 0;
+  LogMessage::message_text[cDEFAULT_LOG_SIZE] = 0;
 }
 
 }
-- 
2.43.0


From 10aca4e002eb08919cea5ad024b5a7b25bc7e34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:57 +0000
Subject: [PATCH 15/35] fix: parsing a log format must not write or read past
 the end of its buffers

---
 .../src/icl_core_logging/LogOutputStream.cpp      | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index 49df07c..596fb63 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -412,8 +412,12 @@ void LogOutputStream::parseLogFormat(const char *format)
            && format[0] != 'E' && format[0] != 'F' && format[0] != 'G' && format[0] != 'L'
            && format[0] != 'S' && format[0] != 'T' && format[0] != 'M')
     {
-      *prefix_ptr = format[0];
-      ++prefix_ptr;
+      // Surplus characters are truncated.
+      if (prefix_ptr < new_entry.text + sizeof(new_entry.text) - 1)
+      {
+        *prefix_ptr = format[0];
+        ++prefix_ptr;
+      }
       ++format;
     }
 
@@ -474,14 +478,15 @@ void LogOutputStream::parseLogFormat(const char *format)
     if (format[0] != 0)
     {
       m_new_log_format.push_back(new_entry);
+      ++format;
     }
-
-    ++format;
   }
   else
   {
     char *text_ptr = new_entry.text;
-    while (format[0] != '~' && format[0] != 0)
+    // The remainder of a text which does not fit is put into further entries.
+    while (format[0] != '~' && format[0] != 0
+           && text_ptr < new_entry.text + sizeof(new_entry.text) - 1)
     {
       *text_ptr = format[0];
       ++text_ptr;
-- 
2.43.0


From e02090340d42c05161b217923174d6dd1a6001ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:06 +0000
Subject: [PATCH 16/35] fix: large floating point numbers must not be read past
 the end of the format buffer

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index e7f958c..24def45 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -271,8 +271,9 @@ ThreadStream& operator << (ThreadStream& stream, const std::string& text)
 
 ThreadStream& operator << (ThreadStream& stream, double value)
 {
-  char local_buffer[100];
-  size_t length = os::snprintf(local_buffer, 100, "%f", value);
+  // The largest values have more than 300 digits.
+  char local_buffer[350];
+  size_t length = os::snprintf(local_buffer, 350, "%f", value);
   stream.write(local_buffer, length);
   return stream;
 }
-- 
2.43.0


From bd0304c86095190ca68fed6c3eaeb9d10ed68eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:30 +0000
Subject: [PATCH 17/35] fix: reset the values of a log entry after a flush, as
 documented

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 24def45..f7f96af 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -136,6 +136,11 @@ void ThreadStream::flush()
     }
 
     // As soon as it is released another thread may write to this thread stream.
+    m_filename[0] = '\0';
+    m_line = 0;
+    m_classname[0] = '\0';
+    m_objectname[0] = '\0';
+    m_function[0] = '\0';
     m_write_index = 0;
     m_parent->releaseThreadStream(this);
 
-- 
2.43.0


From ddd3ec90ac6f1ea470f79220aa85c5db31132317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:25 +0000
Subject: [PATCH 18/35] fix: single quotes were not escaped in UDP log records

---
 src/icl_core/src/icl_core_logging/UdpLogOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
index 67f3675..11acebc 100644
--- a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
@@ -124,7 +124,7 @@ icl_core::String UdpLogOutput::escape(icl_core::String str) const
 {
   // TODO: Which characters have to be escaped to ensure that a
   // correct SQL statement is created?
-  str = boost::regex_replace(str, boost::regex("'"), "\\'");
+  str = boost::regex_replace(str, boost::regex("'"), "\\\\'");
   //str = boost::regex_replace(str, boost::regex("\\n"), "\\\\n");
   return str;
 }
-- 
2.43.0


From 81dab940db9d59ceb69e9157f91c45ba7ecae16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:52 +0000
Subject: [PATCH 19/35] fix: times formatted by several threads at the same
 time were mixed up

---
 src/icl_core/src/icl_core/TimeStamp.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index 07cb1fd..58e1702 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -204,14 +204,27 @@ void TimeStamp::strfTime(char* dest, size_t max_len, const char *format) const
 {
   time_t time = tsSec();
   struct tm *newtime;
+#if defined _SYSTEM_POSIX_
+  // The result of gmtime() is shared with the other threads.
+  struct tm result;
+  newtime = gmtime_r(&time, &result);
+#else
   newtime = gmtime(&time);
+#endif
   strftime(dest, max_len, format, newtime);
 }
 
 void TimeStamp::strfLocaltime(char* dest, size_t max_len, const char *format) const
 {
   time_t time = tsSec();
+#if defined _SYSTEM_POSIX_
+  // The result of localtime() is shared with the other threads.
+  struct tm result;
+  tzset();
+  struct tm *newtime = localtime_r(&time, &result);
+#else
   struct tm *newtime = localtime(&time);
+#endif
   if (newtime)
   {
     strftime(dest, max_len, format, newtime);
-- 
2.43.0


From a82cd353366039f523a82f904be8a348db4873b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:55 +0000
Subject: [PATCH 20/35] fix: the text of a time that cannot be formatted was
 left uninitialised

---
 src/icl_core/src/icl_core/TimeStamp.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index 58e1702..5d3ddef 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -211,7 +211,11 @@ void TimeStamp::strfTime(char* dest, size_t max_len, const char *format) const
 #else
   newtime = gmtime(&time);
 #endif
-  strftime(dest, max_len, format, newtime);
+  if ((newtime == NULL || strftime(dest, max_len, format, newtime) == 0) && max_len > 0)
+  {
+    // The time cannot be represented, or its text does not fit.
+    dest[0] = 0;
+  }
 }
 
 void TimeStamp::strfLocaltime(char* dest, size_t max_len, const char *format) const
@@ -225,9 +229,10 @@ void TimeStamp::strfLocaltime(char* dest, size_t max_len, const char *format) co
 #else
   struct tm *newtime = localtime(&time);
 #endif
-  if (newtime)
+  if ((newtime == NULL || strftime(dest, max_len, format, newtime) == 0) && max_len > 0)
   {
-    strftime(dest, max_len, format, newtime);
+    // The time cannot be represented, or its text does not fit.
+    dest[0] = 0;
   }
 }
 
-- 
2.43.0


From d515c109b557bf0d50eb337a419d2a57754b122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:57 +0000
Subject: [PATCH 21/35] fix: parsing a month beyond 12 read past the table of
 the months

---
 src/icl_core/src/icl_core/TimeStamp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index 5d3ddef..8799ae6 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -181,7 +181,7 @@ TimeStamp TimeStamp::fromIso8601BasicUTC(const String& str)
   {
     days_per_month[1] = 29;
   }
-  for (int32_t m = 1; m < tm_mon; ++m)
+  for (int32_t m = 1; m < tm_mon && m <= 12; ++m)
   {
     days_since_epoch += days_per_month[m-1];
   }
-- 
2.43.0


From 70877003823c82e53f455520c75da469fdd4dc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:40 +0000
Subject: [PATCH 22/35] fix: splitting by an empty delimiter never ended

---
 src/icl_core/src/icl_core/StringHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/StringHelper.cpp b/src/icl_core/src/icl_core/StringHelper.cpp
index 71107e2..71d78e8 100644
--- a/src/icl_core/src/icl_core/StringHelper.cpp
+++ b/src/icl_core/src/icl_core/StringHelper.cpp
@@ -34,7 +34,7 @@ std::vector<String> split(const String& str, const String& delimiter)
     substrings.push_back("");
     return substrings;
   }
-  while ((pos = s.find(delimiter)) != String::npos)
+  while (!delimiter.empty() && (pos = s.find(delimiter)) != String::npos)
   {
     substrings.push_back(s.substr(0, pos));
     s.erase(0, pos+delimiter.size());
-- 
2.43.0


From b7345c351d5c71e1c89b165ce1a4c8e7f6177c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:40 +0000
Subject: [PATCH 23/35] fix: trimming an empty text read the character before
 it

---
 src/icl_core/src/icl_core/StringHelper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/StringHelper.cpp b/src/icl_core/src/icl_core/StringHelper.cpp
index 71d78e8..1e96811 100644
--- a/src/icl_core/src/icl_core/StringHelper.cpp
+++ b/src/icl_core/src/icl_core/StringHelper.cpp
@@ -72,7 +72,8 @@ String trim(String const & str)
     ++trim_front;
   }
 
-  std::string::size_type trim_end = length - 1;
+  // The last character, or the first one if there is none.
+  std::string::size_type trim_end = length > 0 ? length - 1 : 0;
   while ((trim_end > trim_front) && isspace(static_cast<unsigned char>(str[trim_end])))
   {
     --trim_end;
-- 
2.43.0


From eb133bf7bc1c86f243b9ac7e73c2a3ddc1d1e515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:36 +0000
Subject: [PATCH 24/35] fix: a long option without its value was accepted with
 an empty one

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 9f04e5c..2ed3fb1 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -149,9 +149,9 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
       {
         if (find_it->second.hasValue())
         {
-          // According to the regular expression the value has to be
-          // the 3rd (and last) match result.
-          if (mres.size() == 4)
+          // According to the regular expression the value is the 3rd
+          // (and last) match result, and it is given if the 2nd one is.
+          if (mres[2].matched)
           {
             m_param_opt[name] = mres[3];
           }
@@ -182,7 +182,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
 
             if (prefix_it->second.hasValue())
             {
-              if (mres.size() == 4)
+              if (mres[2].matched)
               {
                 m_prefix_param_opt[prefix_it->first].push_back(KeyValue(prefix_res[1], mres[3]));
               }
-- 
2.43.0


From 3549f8eb3721395f869bcb90d7cd4bf08a275754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:36 +0000
Subject: [PATCH 25/35] fix: cleaning the command line kept option values equal
 to a kept argument

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 2ed3fb1..09e6d17 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -349,12 +349,13 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
   // Remove all option parameters from the "real" commandline.
   if (cleanup == eCLC_Cleanup)
   {
+    // The non-option arguments have been stored in the order of the
+    // commandline.
     int check = 1;
+    size_t next_non_opt = 0;
     while (check < argc)
     {
-      icl_core::Vector<icl_core::String>::const_iterator find_it =
-        std::find(m_param_non_opt.begin(), m_param_non_opt.end(), icl_core::String(argv[check]));
-      if (find_it == m_param_non_opt.end())
+      if (next_non_opt >= m_param_non_opt.size() || m_param_non_opt[next_non_opt] != argv[check])
       {
         for (int move = check + 1; move < argc; ++move)
         {
@@ -365,6 +366,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
       else
       {
         ++check;
+        ++next_non_opt;
       }
     }
   }
-- 
2.43.0


From 2d63c1687ca86467740d9c7c48dbdc479b835969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:36 +0000
Subject: [PATCH 26/35] fix: the command line parser never noted that it is
 initialised

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 09e6d17..f45a13b 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -371,6 +371,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
     }
   }
 
+  m_initialized = true;
   return true;
 }
 
-- 
2.43.0


From 297d2d888c6575affd85a31d0e2a679c632105e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:18 +0000
Subject: [PATCH 27/35] fix: a search of a key-value directory stays at its end

Calling next() again after it had returned false incremented the end
iterator, which is undefined behaviour.
---
 src/icl_core/src/icl_core/KeyValueDirectory.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/KeyValueDirectory.hpp b/src/icl_core/src/icl_core/KeyValueDirectory.hpp
index d021f6d..b3113f4 100644
--- a/src/icl_core/src/icl_core/KeyValueDirectory.hpp
+++ b/src/icl_core/src/icl_core/KeyValueDirectory.hpp
@@ -105,8 +105,8 @@ bool KeyValueDirectoryIterator<T>::next()
     m_reset = false;
     m_current_entry = m_directory->m_items.begin();
   }
-  // Otherwise move to the next iterator position.
-  else
+  // Otherwise move to the next iterator position, if there is one.
+  else if (m_current_entry != m_directory->m_items.end())
   {
     ++m_current_entry;
   }
-- 
2.43.0


From a04b92b5302b64554cffbbb2a351296f0b407989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:18 +0000
Subject: [PATCH 28/35] fix: an observed configuration key is not a regular
 expression

registerObserver() looked the key up with find(), so an observer was told
of a key that is not there ("/a.b" when only "/axb" exists), or not told
of one that is ("/sizes[1]").
---
 src/icl_core/src/icl_core_config/ConfigManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigManager.cpp b/src/icl_core/src/icl_core_config/ConfigManager.cpp
index 673c78b..e680023 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.cpp
+++ b/src/icl_core/src/icl_core_config/ConfigManager.cpp
@@ -309,7 +309,7 @@ void ConfigManager::registerObserver(ConfigObserver *observer, const icl_core::S
       observer->valueChanged(iter.key());
     }
   }
-  else if (find(key).next())
+  else if (hasKey(key))
   {
     observer->valueChanged(key);
   }
-- 
2.43.0


From 3bab1ff939a34f0c2fc009f1b697c7b68a47709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:03 +0000
Subject: [PATCH 29/35] fix: a time span with microseconds is written as the
 number of microseconds, not of nanoseconds

---
 src/icl_core/src/icl_core/TimeSpan.cpp        | 2 +-
 src/icl_core/src/icl_core_logging/Logging.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeSpan.cpp b/src/icl_core/src/icl_core/TimeSpan.cpp
index 9f7077c..28f8305 100644
--- a/src/icl_core/src/icl_core/TimeSpan.cpp
+++ b/src/icl_core/src/icl_core/TimeSpan.cpp
@@ -256,7 +256,7 @@ std::ostream& operator << (std::ostream& stream, const TimeSpan& time_span)
   }
   else if (calc_nsec / 1000 * 1000 == calc_nsec)
   {
-    stream << calc_nsec << "us";
+    stream << calc_nsec / 1000 << "us";
   }
   else
   {
diff --git a/src/icl_core/src/icl_core_logging/Logging.cpp b/src/icl_core/src/icl_core_logging/Logging.cpp
index 35ccdd7..240d302 100644
--- a/src/icl_core/src/icl_core_logging/Logging.cpp
+++ b/src/icl_core/src/icl_core_logging/Logging.cpp
@@ -83,7 +83,7 @@ ThreadStream& operator << (ThreadStream& stream, const icl_core::TimeSpan& time_
   }
   else if (calc_nsec / 1000 * 1000 == calc_nsec)
   {
-    stream << calc_nsec << "us";
+    stream << calc_nsec / 1000 << "us";
   }
   else
   {
-- 
2.43.0


From dc04039f9d0f9ce979bc302ed33d9c845e20e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:03 +0000
Subject: [PATCH 30/35] fix: the sign of a time span written as text covers all
 of its parts

---
 src/icl_core/src/icl_core/TimeSpan.cpp        | 3 ++-
 src/icl_core/src/icl_core_logging/Logging.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeSpan.cpp b/src/icl_core/src/icl_core/TimeSpan.cpp
index 28f8305..65d8f1d 100644
--- a/src/icl_core/src/icl_core/TimeSpan.cpp
+++ b/src/icl_core/src/icl_core/TimeSpan.cpp
@@ -230,10 +230,11 @@ std::ostream& operator << (std::ostream& stream, const TimeSpan& time_span)
 {
   int64_t calc_secs = time_span.tsSec();
   int64_t calc_nsec = time_span.tsNSec();
-  if (calc_secs < 0)
+  if (calc_secs < 0 || calc_nsec < 0)
   {
     stream << "-";
     calc_secs = -calc_secs;
+    calc_nsec = -calc_nsec;
   }
   if (calc_secs > 3600)
   {
diff --git a/src/icl_core/src/icl_core_logging/Logging.cpp b/src/icl_core/src/icl_core_logging/Logging.cpp
index 240d302..8b93b36 100644
--- a/src/icl_core/src/icl_core_logging/Logging.cpp
+++ b/src/icl_core/src/icl_core_logging/Logging.cpp
@@ -57,10 +57,11 @@ ThreadStream& operator << (ThreadStream& stream, const icl_core::TimeSpan& time_
 {
   int64_t calc_secs = time_span.tsSec();
   int64_t calc_nsec = time_span.tsNSec();
-  if (calc_secs < 0)
+  if (calc_secs < 0 || calc_nsec < 0)
   {
     stream << "-";
     calc_secs = -calc_secs;
+    calc_nsec = -calc_nsec;
   }
   if (calc_secs > 3600)
   {
-- 
2.43.0


From 1864fd6d79e17b461eaaf2c0d4220326b417d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:03 +0000
Subject: [PATCH 31/35] fix: the summary of a name without measurements does
 not read outside of its values

---
 .../PerformanceMonitor.cpp                    | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index b5069db..dc9910b 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -25,6 +25,7 @@
 
 #include <stdlib.h>
 #include <algorithm>
+#include <limits>
 #include <sstream>
 
 #include <icl_core/TimeSpan.h>
@@ -400,19 +401,26 @@ void PerformanceMonitor::getMedian(string name, double& median, double& min, dou
 {
   vector<double> tmp = m_data[name];
   sort(tmp.begin(), tmp.end());
-  median = tmp[tmp.size() / 2];
-  min = tmp[0];
-  max = tmp[tmp.size() - 1];
+  median = min = max = std::numeric_limits<double>::quiet_NaN();
+  if (tmp.size() > 0)
+  {
+    median = tmp[tmp.size() / 2];
+    min = tmp[0];
+    max = tmp[tmp.size() - 1];
+  }
 }
 
 void PerformanceMonitor::getMedianNonTime(string name, double& median, double& min, double& max)
 {
   vector<double> tmp = m_data_nontime[name];
   sort(tmp.begin(), tmp.end());
+  median = min = max = std::numeric_limits<double>::quiet_NaN();
   if (tmp.size() > 0)
-  median = tmp[tmp.size() / 2];
-  min = tmp[0];
-  max = tmp[tmp.size() - 1];
+  {
+    median = tmp[tmp.size() / 2];
+    min = tmp[0];
+    max = tmp[tmp.size() - 1];
+  }
 }
 
 } // namespace timer
-- 
2.43.0


From 76f8804d90879060c6e04481996f4eb9b9fefc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:03 +0000
Subject: [PATCH 32/35] fix: a disabled performance monitor records nothing,
 also if all groups are enabled

---
 .../src/icl_core_performance_monitor/PerformanceMonitor.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index dc9910b..85449d6 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -78,7 +78,7 @@ void PerformanceMonitor::initialize(const uint32_t num_names, const uint32_t num
 
 bool PerformanceMonitor::isEnabled(string prefix)
 {
-  return (m_enabled && m_enabled_prefix.find(prefix) != m_enabled_prefix.end()) || m_all_enabled;
+  return m_enabled && (m_all_enabled || m_enabled_prefix.find(prefix) != m_enabled_prefix.end());
 }
 
 void PerformanceMonitor::start(string timer_name)
-- 
2.43.0


From aa90e4e156c496030095f14a3af2239c0c594455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:00 +0000
Subject: [PATCH 33/35] fix: zipFile reports failure when a file cannot be
 opened, read or closed

---
 src/icl_core/src/icl_core/os_fs.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/os_fs.cpp b/src/icl_core/src/icl_core/os_fs.cpp
index 60d0ebf..a636d1d 100644
--- a/src/icl_core/src/icl_core/os_fs.cpp
+++ b/src/icl_core/src/icl_core/os_fs.cpp
@@ -59,6 +59,15 @@ bool zipFile(const char *filename, const char *additional_extension)
 
       bytes_read = gzread(unzipped_file, big_buffer, 0x1000);
     }
+    if (bytes_read < 0)
+    {
+      std::cerr << "ZipFile(" << filename << "->" << gzip_file_name << ") Error on reading." << std::endl;
+      ret = false;
+    }
+  }
+  else
+  {
+    ret = false;
   }
 
   if (unzipped_file != NULL)
@@ -67,7 +76,11 @@ bool zipFile(const char *filename, const char *additional_extension)
   }
   if (zipped_file != NULL)
   {
-    gzclose(zipped_file);
+    // Buffered data is written on closing, so this may fail, too.
+    if (gzclose(zipped_file) != Z_OK)
+    {
+      ret = false;
+    }
   }
 
   return ret;
-- 
2.43.0


From d79ad471e4b9182f9fd32fb6bb96a2abf5ce0b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:00 +0000
Subject: [PATCH 34/35] fix: keep a log file that could not be zipped on
 rotation

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index c6cbfdb..1c33756 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -252,8 +252,11 @@ void FileLogOutput::rotateLogFile()
 #ifdef _IC_BUILDER_ZLIB_
       if (!m_online_zip)
       {
-        icl_core::os::zipFile(m_filename.c_str(), time_str);
-        icl_core::os::unlink(m_filename.c_str());
+        // Keep the log file if it could not be zipped.
+        if (icl_core::os::zipFile(m_filename.c_str(), time_str))
+        {
+          icl_core::os::unlink(m_filename.c_str());
+        }
       }
       else
 #endif
-- 
2.43.0


From 94859c8501fc2ee7a9321730172f37170cfb7064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:00 +0000
Subject: [PATCH 35/35] fix: open a zipped log file in a mode that zlib accepts

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 1c33756..553125c 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -208,7 +208,7 @@ void FileLogOutput::openLogFile()
 #if defined(_IC_BUILDER_ZLIB_)
   if (m_online_zip)
   {
-    m_zipped_log_file = gzopen(m_filename.c_str(), "a+b");
+    m_zipped_log_file = gzopen(m_filename.c_str(), "ab");
     if (m_zipped_log_file == NULL)
     {
       std::cerr << "Could not open log file " << m_filename << std::endl;
-- 
2.43.0

