From ab124938522aacf369cf1d3a9a505520ac1a774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 01/50] fix: normalise negative nanosecond counts when
 converting to timespec

A deadline before the internal clock's epoch (any system_clock deadline further in the past
than the machine's uptime) produced a timespec with negative tv_nsec, which pthread rejects
with EINVAL: timed locks asserted or spun, condition waits threw condition_error.
---
 include/boost/thread/detail/platform_time.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/thread/detail/platform_time.hpp b/include/boost/thread/detail/platform_time.hpp
index c0e40d6..14827e9 100644
--- a/include/boost/thread/detail/platform_time.hpp
+++ b/include/boost/thread/detail/platform_time.hpp
@@ -117,6 +117,11 @@ inline FP init_steady_clock(kern_return_t & err)
     inline timespec ns_to_timespec(boost::time_max_t const& ns)
     {
       boost::time_max_t s = ns / 1000000000l;
+      // A timespec must have 0 <= tv_nsec < 1000000000, also for negative values.
+      if (ns < s * 1000000000l)
+      {
+        --s;
+      }
       timespec ts;
       ts.tv_sec = static_cast<long> (s);
       ts.tv_nsec = static_cast<long> (ns - s * 1000000000l);
-- 
2.43.0


From 02692fcbcc9154ea4e515f9d9f0b05b7545dc789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 02/50] fix: honour special date-time values in timed
 operations

An infinite absolute time (or, for timed_join and sleep, duration) was read as an ordinary
tick count, so waiting until pos_infin timed out at once.
---
 include/boost/thread/detail/platform_time.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/thread/detail/platform_time.hpp b/include/boost/thread/detail/platform_time.hpp
index 14827e9..c13e268 100644
--- a/include/boost/thread/detail/platform_time.hpp
+++ b/include/boost/thread/detail/platform_time.hpp
@@ -149,6 +149,14 @@ inline FP init_steady_clock(kern_return_t & err)
 #if defined BOOST_THREAD_USES_DATETIME
       platform_duration(boost::posix_time::time_duration const& rel_time)
       {
+        if (rel_time.is_special())
+        {
+          // An infinite duration is represented by one that is out of reach but can still be added to
+          // the current time; not_a_date_time has already elapsed.
+          const boost::time_max_t far_ns = (std::numeric_limits<boost::time_max_t>::max)() / 2;
+          *this = platform_duration(rel_time.is_pos_infinity() ? far_ns : rel_time.is_neg_infinity() ? -far_ns : boost::time_max_t(0));
+          return;
+        }
 #if defined BOOST_THREAD_CHRONO_POSIX_API || defined BOOST_THREAD_CHRONO_MAC_API
         ts_val.tv_sec = rel_time.total_seconds();
         ts_val.tv_nsec = static_cast<long>(rel_time.fractional_seconds() * (1000000000l / rel_time.ticks_per_second()));
-- 
2.43.0


From 03631fb1d811ae50dbcaaa8c841d81ff34a58c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 03/50] fix: timed_lock with a special duration claimed a lock
 it did not take

timed_mutex and recursive_timed_mutex returned true without locking for neg_infin and
not_a_date_time; such a duration has already elapsed, so make a single attempt.
---
 include/boost/thread/pthread/mutex.hpp           | 4 ----
 include/boost/thread/pthread/recursive_mutex.hpp | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/include/boost/thread/pthread/mutex.hpp b/include/boost/thread/pthread/mutex.hpp
index 94a7388..e55466c 100644
--- a/include/boost/thread/pthread/mutex.hpp
+++ b/include/boost/thread/pthread/mutex.hpp
@@ -140,10 +140,6 @@ namespace boost
                 lock();
                 return true;
             }
-            if (relative_time.is_special())
-            {
-                return true;
-            }
             detail::platform_duration d(relative_time);
 #if defined(BOOST_THREAD_HAS_MONO_CLOCK) && !defined(BOOST_THREAD_INTERNAL_CLOCK_IS_MONO)
             const detail::mono_platform_timepoint ts(detail::mono_platform_clock::now() + d);
diff --git a/include/boost/thread/pthread/recursive_mutex.hpp b/include/boost/thread/pthread/recursive_mutex.hpp
index 2aaf425..c0e7ed3 100644
--- a/include/boost/thread/pthread/recursive_mutex.hpp
+++ b/include/boost/thread/pthread/recursive_mutex.hpp
@@ -246,10 +246,6 @@ namespace boost
                 lock();
                 return true;
             }
-            if (relative_time.is_special())
-            {
-                return true;
-            }
             detail::platform_duration d(relative_time);
 #if defined(BOOST_THREAD_HAS_MONO_CLOCK) && !defined(BOOST_THREAD_INTERNAL_CLOCK_IS_MONO)
             const detail::mono_platform_timepoint ts(detail::mono_platform_clock::now() + d);
-- 
2.43.0


From accd154dbfaf97edc95a65b8f26e186c3035a656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 04/50] fix: try_unlock_shared_and_lock_until must not overtake
 an upgrade owner

The timed conversion from shared to exclusive ownership only looked at the
number of shared owners. While another thread was inside
unlock_upgrade_and_lock (which gives up its own share and waits for the rest)
or held upgrade ownership that count can be one, and the conversion took
exclusive ownership and cleared the other thread's upgrade mark.
try_unlock_shared_and_lock already requires that there is no upgrade owner.
---
 include/boost/thread/pthread/shared_mutex.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index d4b8280..b52e3e4 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -105,6 +105,11 @@ namespace boost
                 return shared_count==1;
             }
 
+            bool one_shared_not_upgraded () const
+            {
+                return shared_count==1 && ! upgrade;
+            }
+
             void lock_shared ()
             {
                 ++shared_count;
@@ -569,7 +574,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.assert_lock_shared();
-          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::one_shared, &state)))
+          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::one_shared_not_upgraded, &state)))
           {
               return false;
           }
-- 
2.43.0


From 73c88d9bf8559b995df689333a08c0c2f0ff5e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 05/50] fix: wake timed upward conversions of shared_mutex when
 they become possible

unlock_shared did not wake anybody when one shared owner was left, which is
what try_unlock_upgrade_and_lock_until and try_unlock_shared_and_lock_until
wait for, and try_unlock_shared_and_lock_upgrade_until waited on the condition
variable of the exclusive waiters, where it is not woken by unlock_upgrade and
can consume the single notification meant for a writer.
---
 include/boost/thread/pthread/shared_mutex.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index b52e3e4..a08ff0d 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -266,6 +266,11 @@ namespace boost
                 }
                 release_waiters();
             }
+            else if (state.one_shared())
+            {
+                // A timed conversion to exclusive ownership may be waiting for this.
+                shared_cond.notify_all();
+            }
         }
 
         void lock()
@@ -628,7 +633,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.assert_lock_shared();
-          if(!exclusive_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_upgrade, &state)))
+          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_upgrade, &state)))
           {
               return false;
           }
-- 
2.43.0


From 08f3aafe6653ce914358d01a46ce93c15c1f1633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 06/50] fix: v2 upgrade_mutex restored a stale reader count
 after a timed conversion

Readers can leave while a timed conversion to exclusive ownership waits for
them. When it timed out it wrote back the count from before the wait, so the
mutex kept counting readers that were gone and could never be locked again.
---
 include/boost/thread/v2/shared_mutex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index 70ba47d..da95e67 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -908,7 +908,7 @@ namespace boost {
       if (!gate2_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
-        ++num_readers;
+        num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= num_readers;
         return false;
@@ -1019,7 +1019,7 @@ namespace boost {
       if (!gate2_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
-        ++num_readers;
+        num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= (upgradable_entered_ | num_readers);
         return false;
-- 
2.43.0


From e6fd524808f27b2be7cc02149cb4d28c123379f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 07/50] fix: v2 shared mutexes left readers blocked after a
 timed exclusive attempt failed

The attempt sets write_entered_, which makes others wait at the first gate.
When it gave up it cleared the flag without waking them.
---
 include/boost/thread/v2/shared_mutex.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index da95e67..b8754f7 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -307,6 +307,7 @@ namespace boost {
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -328,6 +329,7 @@ namespace boost {
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -685,6 +687,7 @@ namespace boost {
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -706,6 +709,7 @@ namespace boost {
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -911,6 +915,7 @@ namespace boost {
         num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= num_readers;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -1022,6 +1027,7 @@ namespace boost {
         num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= (upgradable_entered_ | num_readers);
+        gate1_.notify_all();
         return false;
       }
       return true;
-- 
2.43.0


From cf38371740d35d833ce5abf563bf9de82ebe4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 08/50] fix: v2 shared mutexes applied a relative timeout twice
 in timed_lock

Both gates waited for the whole relative time, so a timed_lock could return up
to twice as late as asked. Deduct the time already spent before the second
wait.
---
 include/boost/thread/v2/shared_mutex.hpp | 35 ++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index b8754f7..4c4e4b6 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -163,6 +163,31 @@ public:
 namespace boost {
   namespace thread_v2 {
 
+#if defined BOOST_THREAD_USES_DATETIME
+    namespace detail
+    {
+      // What is left of a timeout, given when the operation started, so that
+      // an operation that waits twice has one deadline.
+      inline system_time const& remaining(system_time const& abs_time,
+          boost::detail::internal_platform_timepoint const&)
+      {
+        return abs_time;
+      }
+      inline boost::xtime const& remaining(boost::xtime const& abs_time,
+          boost::detail::internal_platform_timepoint const&)
+      {
+        return abs_time;
+      }
+      template<typename TimeDuration>
+      posix_time::time_duration remaining(TimeDuration const& rel_time,
+          boost::detail::internal_platform_timepoint const& start)
+      {
+        return rel_time - posix_time::microseconds(
+            (boost::detail::internal_platform_clock::now() - start).getNs() / 1000);
+      }
+    }
+#endif
+
     class shared_mutex
     {
       typedef boost::mutex              mutex_t;
@@ -318,6 +343,8 @@ namespace boost {
     template<typename T>
     bool shared_mutex::timed_lock(T const & abs_or_rel_time)
     {
+      boost::detail::internal_platform_timepoint const start(
+          boost::detail::internal_platform_clock::now());
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &shared_mutex::no_writer, this)))
@@ -325,7 +352,8 @@ namespace boost {
         return false;
       }
       state_ |= write_entered_;
-      if (!gate2_.timed_wait(lk, abs_or_rel_time, boost::bind(
+      if (!gate2_.timed_wait(lk, detail::remaining(abs_or_rel_time, start),
+            boost::bind(
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
@@ -698,6 +726,8 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock(T const & abs_or_rel_time)
     {
+      boost::detail::internal_platform_timepoint const start(
+          boost::detail::internal_platform_clock::now());
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader, this)))
@@ -705,7 +735,8 @@ namespace boost {
         return false;
       }
       state_ |= write_entered_;
-      if (!gate2_.timed_wait(lk, abs_or_rel_time, boost::bind(
+      if (!gate2_.timed_wait(lk, detail::remaining(abs_or_rel_time, start),
+            boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
-- 
2.43.0


From 028ec9e0af56862eec93fce7a1c02d87f856071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 09/50] fix: make the version-2 shared and upgrade mutex
 operations uninterruptible

An interruption delivered while a lock waits for the readers to leave left
write_entered_ set for good, so the mutex was never free again; version 1
disables interruption in these functions.
---
 include/boost/thread/v2/shared_mutex.hpp | 60 ++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index 4c4e4b6..cb806ad 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -153,6 +153,9 @@ public:
 #include <boost/thread/mutex.hpp>
 #include <boost/thread/condition_variable.hpp>
 #include <boost/thread/mutex.hpp>
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+#include <boost/thread/detail/thread_interruption.hpp>
+#endif
 #ifdef BOOST_THREAD_USES_CHRONO
 #include <boost/chrono.hpp>
 #endif
@@ -299,6 +302,9 @@ namespace boost {
 
     inline void shared_mutex::lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&shared_mutex::no_writer, this));
       state_ |= write_entered_;
@@ -321,6 +327,9 @@ namespace boost {
     bool shared_mutex::try_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &shared_mutex::no_writer, this)))
@@ -345,6 +354,9 @@ namespace boost {
     {
       boost::detail::internal_platform_timepoint const start(
           boost::detail::internal_platform_clock::now());
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &shared_mutex::no_writer, this)))
@@ -379,6 +391,9 @@ namespace boost {
 
     inline void shared_mutex::lock_shared()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&shared_mutex::no_writer_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -404,6 +419,9 @@ namespace boost {
     bool shared_mutex::try_lock_shared_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &shared_mutex::no_writer_no_max_readers, this)))
@@ -421,6 +439,9 @@ namespace boost {
     template<typename T>
     bool shared_mutex::timed_lock_shared(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &shared_mutex::no_writer_no_max_readers, this)))
@@ -682,6 +703,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_upgrader, this));
       state_ |= write_entered_;
@@ -704,6 +728,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader, this)))
@@ -728,6 +755,9 @@ namespace boost {
     {
       boost::detail::internal_platform_timepoint const start(
           boost::detail::internal_platform_clock::now());
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader, this)))
@@ -763,6 +793,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock_shared()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -788,6 +821,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_shared_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_max_readers, this)))
@@ -805,6 +841,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock_shared(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_max_readers, this)))
@@ -841,6 +880,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock_upgrade()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_upgrader_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -866,6 +908,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_upgrade_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader_no_max_readers, this)))
@@ -883,6 +928,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock_upgrade(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader_no_max_readers, this)))
@@ -930,6 +978,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_shared_and_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(one_or_more_readers());
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
@@ -986,6 +1037,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_shared_and_lock_upgrade_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(one_or_more_readers());
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
@@ -1016,6 +1070,9 @@ namespace boost {
 
     inline void upgrade_mutex::unlock_upgrade_and_lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(no_writer());
       BOOST_ASSERT(one_upgrader());
@@ -1045,6 +1102,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_upgrade_and_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(no_writer());
       BOOST_ASSERT(one_upgrader());
-- 
2.43.0


From f268fb3ff1c77bb9b8dba24792ba2dbd666a9e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 10/50] fix: carry out notifications deferred to thread exit
 when the thread exits

notify_all_at_thread_exit and the ..._at_thread_exit functions of promise and
packaged_task were carried out by the destructor of the thread data, that is
only once nobody refers to the thread any more: with a boost::thread object
that still represents the thread, the mutex stayed locked and the futures
never became ready, so waiting for them before joining blocked for ever. In
threads not created by Boost.Thread they were never carried out at all.
---
 src/pthread/thread.cpp | 65 +++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 9deef7a..666bef1 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -46,21 +46,34 @@ namespace boost
 {
     namespace detail
     {
-        thread_data_base::~thread_data_base()
+        namespace
         {
-            for (notify_list_t::iterator i = notify.begin(), e = notify.end();
-                    i != e; ++i)
+            // Carries out what has been deferred to the exit of the thread.
+            void run_deferred_notifications(thread_data_base& data)
             {
-                i->second->unlock();
-                i->first->notify_all();
-            }
+                thread_data_base::notify_list_t notify;
+                notify.swap(data.notify);
+                for (thread_data_base::notify_list_t::iterator i = notify.begin(), e = notify.end();
+                        i != e; ++i)
+                {
+                    i->second->unlock();
+                    i->first->notify_all();
+                }
 //#ifndef BOOST_NO_EXCEPTIONS
-            for (async_states_t::iterator i = async_states_.begin(), e = async_states_.end();
-                    i != e; ++i)
-            {
-                (*i)->notify_deferred();
-            }
+                thread_data_base::async_states_t async_states;
+                async_states.swap(data.async_states_);
+                for (thread_data_base::async_states_t::iterator i = async_states.begin(), e = async_states.end();
+                        i != e; ++i)
+                {
+                    (*i)->notify_deferred();
+                }
 //#endif
+            }
+        }
+
+        thread_data_base::~thread_data_base()
+        {
+            run_deferred_notifications(*this);
         }
 
         struct thread_exit_callback_node
@@ -92,7 +105,8 @@ namespace boost
 
                     if(thread_info)
                     {
-                        while(!thread_info->tss_data.empty() || thread_info->thread_exit_callbacks)
+                        while(!thread_info->tss_data.empty() || thread_info->thread_exit_callbacks
+                              || !thread_info->notify.empty() || !thread_info->async_states_.empty())
                         {
 
                             while(thread_info->thread_exit_callbacks)
@@ -116,6 +130,7 @@ namespace boost
                                 }
                                 thread_info->tss_data.erase(current);
                             }
+                            run_deferred_notifications(*thread_info);
                         }
                         thread_info->self.reset();
                     }
@@ -212,20 +227,9 @@ namespace boost
 #if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
                 interrupt_enabled=false;
 #endif
-            }
-            ~externally_launched_thread()
-            {
-                BOOST_ASSERT(notify.empty());
-                notify.clear();
-//#ifndef BOOST_NO_EXCEPTIONS
-                BOOST_ASSERT(async_states_.empty());
-                async_states_.clear();
-//#endif
             }
             void run()
             {}
-            void notify_all_at_thread_exit(condition_variable*, mutex*)
-            {}
 
         private:
             externally_launched_thread(externally_launched_thread&);
@@ -789,11 +793,9 @@ namespace boost
 
     BOOST_THREAD_DECL void notify_all_at_thread_exit(condition_variable& cond, unique_lock<mutex> lk)
     {
-        detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
-        if(current_thread_data)
-        {
-            current_thread_data->notify_all_at_thread_exit(&cond, lk.release());
-        }
+        detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
+        current_thread_data->notify_all_at_thread_exit(&cond, lk.mutex());
+        lk.release();
     }
 
 //#ifndef BOOST_NO_EXCEPTIONS
@@ -801,11 +803,8 @@ namespace detail
 {
     void BOOST_THREAD_DECL make_ready_at_thread_exit(shared_ptr<shared_state_base> as)
     {
-        detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
-        if(current_thread_data)
-        {
-            current_thread_data->make_ready_at_thread_exit(as);
-        }
+        detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
+        current_thread_data->make_ready_at_thread_exit(as);
     }
 }
 //#endif
-- 
2.43.0


From 33795be092b08a8e8b0b8e7f7f1063f194fa2237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 11/50] fix: refuse a second result while the first is deferred

set_value, set_exception and their _deferred and _at_thread_exit forms only
looked at done (some only at a ready value), so a result stored with one of
the deferred forms could silently be replaced before it became ready, and a
ready exception could be replaced by a deferred result. Documented to throw
promise_already_satisfied.
---
 include/boost/thread/future.hpp | 34 +++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 154114a..46a025c 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -464,7 +464,7 @@ namespace boost
             void set_exception_deferred(exception_ptr e)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (has_value(lk))
+              if (is_satisfied(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -501,6 +501,12 @@ namespace boost
                 return done && exception;
             }
 
+            // Whether a result has been set, ready or deferred.
+            bool is_satisfied(unique_lock<boost::mutex>& )  const
+            {
+                return done || is_constructed;
+            }
+
             launch launch_policy(boost::unique_lock<boost::mutex>&) const
             {
                 return policy_;
@@ -669,7 +675,7 @@ namespace boost
             void set_value_deferred(source_reference_type result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->is_satisfied(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -684,7 +690,7 @@ namespace boost
             void set_value_deferred(rvalue_source_type result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->is_satisfied(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -810,7 +816,7 @@ namespace boost
             void set_value_deferred(T& result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->is_satisfied(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -885,7 +891,7 @@ namespace boost
             void set_value_deferred()
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->is_satisfied(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -2375,7 +2381,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2386,7 +2392,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2398,7 +2404,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2453,7 +2459,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2466,7 +2472,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2651,7 +2657,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2670,7 +2676,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2836,7 +2842,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2856,7 +2862,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
-- 
2.43.0


From 13886d850924e41eddab0a30173d65d4e0cffe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 12/50] fix: break the overwritten promise in promise's move
 assignment

The shared state of the promise assigned to was just dropped, so its future
never became ready; a promise moved to itself lost its state.
---
 include/boost/thread/future.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 46a025c..2393d54 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2333,10 +2333,9 @@ namespace boost
         }
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // temp breaks the promise that *this has not kept
+            promise temp(static_cast<BOOST_THREAD_RV_REF(promise)>(rhs));
+            swap(temp);
             return *this;
         }
 
@@ -2624,10 +2623,9 @@ namespace boost
         }
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // temp breaks the promise that *this has not kept
+            promise temp(static_cast<BOOST_THREAD_RV_REF(promise)>(rhs));
+            swap(temp);
             return *this;
         }
 
@@ -2807,10 +2805,9 @@ namespace boost
 
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // temp breaks the promise that *this has not kept
+            promise temp(static_cast<BOOST_THREAD_RV_REF(promise)>(rhs));
+            swap(temp);
             return *this;
         }
 
-- 
2.43.0


From 8c4eba29c0d33ef23c07bb3821cd4da391c31b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 13/50] fix: promise operations on a moved-from promise must
 throw, not crash

Most of them threw promise_moved, but set_value, emplace, set_exception and
set_wait_callback dereferenced the null shared state, and
promise<R&>::set_value_deferred reported promise_already_satisfied.
---
 include/boost/thread/future.hpp | 50 ++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 2393d54..df85236 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2379,6 +2379,10 @@ namespace boost
             set_value(TR const &  r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2390,6 +2394,10 @@ namespace boost
         void set_value(source_reference_type r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2402,6 +2410,10 @@ namespace boost
         void set_value(rvalue_source_type r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2457,6 +2469,10 @@ namespace boost
         void emplace(BOOST_THREAD_FWD_REF(Args) ...args)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2470,6 +2486,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2544,6 +2564,10 @@ namespace boost
         void set_wait_callback(F f)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             future_->set_wait_callback(f,this);
         }
         void notify_deferred()
@@ -2654,6 +2678,10 @@ namespace boost
         void set_value(R& r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2666,13 +2694,17 @@ namespace boost
             lazy_init();
             if (future_.get()==0)
             {
-                boost::throw_exception(promise_already_satisfied());
+                boost::throw_exception(promise_moved());
             }
             future_->set_value_deferred(r);
         }
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2727,6 +2759,10 @@ namespace boost
         void set_wait_callback(F f)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             future_->set_wait_callback(f,this);
         }
         void notify_deferred()
@@ -2838,6 +2874,10 @@ namespace boost
         void set_value()
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2858,6 +2898,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2912,6 +2956,10 @@ namespace boost
         void set_wait_callback(F f)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             future_->set_wait_callback(f,this);
         }
         void notify_deferred()
-- 
2.43.0


From dac49cfd4440fa6c3d9df83cf3abb9461cf3a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 14/50] fix: run a deferred function returning a reference
 without holding the lock

The other specialisations release the mutex of the shared state while the
function runs; this one kept it, so asking the future for its state from
another thread blocked until the end of the function, and from the function
itself for ever.
---
 include/boost/thread/future.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index df85236..bdf5b58 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1087,7 +1087,11 @@ namespace boost
           virtual void execute(boost::unique_lock<boost::mutex>& lck) {
             try
             {
-              this->mark_finished_with_result_internal(func_(), lck);
+              Fp local_fuct=boost::move(func_);
+              relocker relock(lck);
+              Rp& res = local_fuct();
+              relock.lock();
+              this->mark_finished_with_result_internal(res, lck);
             }
             catch (...)
             {
-- 
2.43.0


From 34e99203283cac1309272b8790187c1e8360ecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 15/50] fix: let exit functions and cleanups see the values of
 a native thread

When the system runs the key destructor it has already cleared the key, so in
threads not created by Boost.Thread functions registered with at_thread_exit
and cleanup functions saw null for every thread_specific_ptr, and values they
set went to a second set of thread data that the system drops after a few
rounds.
---
 src/pthread/thread.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 666bef1..4da3de3 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -105,6 +105,8 @@ namespace boost
 
                     if(thread_info)
                     {
+                        // The system has already cleared the key if it called this.
+                        BOOST_VERIFY(!pthread_setspecific(current_thread_tls_key,data));
                         while(!thread_info->tss_data.empty() || thread_info->thread_exit_callbacks
                               || !thread_info->notify.empty() || !thread_info->async_states_.empty())
                         {
@@ -132,6 +134,7 @@ namespace boost
                             }
                             run_deferred_notifications(*thread_info);
                         }
+                        BOOST_VERIFY(!pthread_setspecific(current_thread_tls_key,0));
                         thread_info->self.reset();
                     }
                 }
-- 
2.43.0


From 9890ba94bb22ef605563f341e69fff7aadfc3478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 16/50] fix: make_shared_future() must return a ready future,
 not a broken one

---
 include/boost/thread/future.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index bdf5b58..6638225 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4520,6 +4520,7 @@ namespace detail {
 
   inline shared_future<void> make_shared_future()  {
     promise<void> p;
+    p.set_value();
     return BOOST_THREAD_MAKE_RV_REF(p.get_future().share());
   }
 
-- 
2.43.0


From 08dab0269a0e2993c7f9031a45da1470ada769e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 17/50] fix: get_or and fallback_to must not move from an
 lvalue alternative

---
 include/boost/thread/future.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 6638225..8bb59e3 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1837,7 +1837,11 @@ namespace boost
               return this->future_->get(lk);
             }
             else {
+#if ! defined  BOOST_NO_CXX11_RVALUE_REFERENCES
+              return boost::forward<R2>(v); // v may be an lvalue
+#else
               return boost::move(v);
+#endif
             }
         }
 
@@ -5434,7 +5438,11 @@ namespace detail
   template <typename R2>
   inline typename boost::disable_if< is_void<R2>, BOOST_THREAD_FUTURE<R> >::type
   BOOST_THREAD_FUTURE<R>::fallback_to(BOOST_THREAD_RV_REF(R2) v) {
+#if ! defined  BOOST_NO_CXX11_RVALUE_REFERENCES
+    return then(detail::mfallbacker_to<R>(R(boost::forward<R2>(v)))); // v may be an lvalue
+#else
     return then(detail::mfallbacker_to<R>(boost::move(v)));
+#endif
   }
 
   template <typename R>
-- 
2.43.0


From 9c7a8eb10a027f512ebd28c5eebd40183aad30bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 18/50] fix: packaged_task::reset must make a new shared state,
 not reopen the old one

After reset() the task kept its shared state, so futures of the previous
run and the next future shared one result: get_future() gave a future that
was ready at once with the old (possibly moved-from) result.
---
 include/boost/thread/future.hpp | 42 ++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 8bb59e3..fe929f3 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -3026,12 +3026,15 @@ namespace boost
                 started(false)
             {}
 
-            void reset()
+            // A new state, not started and without result, that takes over the function of this one.
+            virtual task_base_shared_state* renew()=0;
+            void inherit_settings(task_base_shared_state& old)
             {
-              // todo The packaged_task::reset must be as if an assignemnt froma new packaged_task with the same function
-              // the reset function is an optimization that avoids reallocating a new task.
-              started=false;
-              this->validate();
+              boost::lock_guard<boost::mutex> lk(old.mutex);
+              this->policy_=old.policy_;
+              this->is_deferred_=old.is_deferred_;
+              this->ex_=old.ex_;
+              this->callback=old.callback;
             }
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             virtual void do_run(BOOST_THREAD_RV_REF(ArgTypes) ... args)=0;
@@ -3123,6 +3126,10 @@ namespace boost
             {
               return boost::move(f);
             }
+            task_shared_state* renew()
+            {
+              return new task_shared_state(boost::move(f));
+            }
 
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
@@ -3203,6 +3210,10 @@ namespace boost
             {
               return f;
             }
+            task_shared_state* renew()
+            {
+              return new task_shared_state(boost::move(f));
+            }
 
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
@@ -3283,6 +3294,10 @@ namespace boost
                 {
                   return f;
                 }
+                task_shared_state* renew()
+                {
+                  return new task_shared_state(f);
+                }
 
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
                 void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
@@ -3362,6 +3377,10 @@ namespace boost
                 {
                   return boost::move(f);
                 }
+                task_shared_state* renew()
+                {
+                  return new task_shared_state(f);
+                }
 
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
                 void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
@@ -3438,6 +3457,10 @@ namespace boost
             {
               return boost::move(f);
             }
+            task_shared_state* renew()
+            {
+              return new task_shared_state(boost::move(f));
+            }
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
             {
@@ -3513,6 +3536,10 @@ namespace boost
             {
               return f;
             }
+            task_shared_state* renew()
+            {
+              return new task_shared_state(f);
+            }
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
             {
@@ -3806,7 +3833,10 @@ namespace boost
 
             // As if *this = packaged_task(task->callable());
 
-            task->reset();
+            task_ptr fresh(task->renew());
+            fresh->inherit_settings(*task);
+            task->owner_destroyed();
+            task.swap(fresh);
             future_obtained=false;
         }
 
-- 
2.43.0


From c9e1653e3b1371914792a73e50dd1e25f95c0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 19/50] fix: do not wait for an async function whose thread was
 never started

A future_async_shared_state is owned by the thread that runs the function;
when it dies unfinished (the thread or memory for it could not be had) its
destructor waited forever, so async(launch::async, ...) hung instead of
reporting the failure.
---
 include/boost/thread/future.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index fe929f3..7ac4645 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -943,10 +943,9 @@ namespace boost
           {
 #ifdef BOOST_THREAD_FUTURE_BLOCKING
             join();
-#elif defined BOOST_THREAD_ASYNC_FUTURE_WAITS
-            unique_lock<boost::mutex> lk(this->mutex);
-            this->waiters.wait(lk, boost::bind(&shared_state_base::is_done, this));
 #endif
+            // The thread that runs the function shares the ownership of this state, so if the
+            // state dies unfinished then no thread was started and waiting would never end.
           }
 
           virtual void wait(boost::unique_lock<boost::mutex>& lk, bool rethrow)
-- 
2.43.0


From 8f25a2eb315a753e7648b87384b32bc5f4885e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 20/50] fix: a deferred continuation must not be registered
 with its antecedent

Both kept each other alive, so that e.g. async(launch::deferred, f).then(g)
leaked unless somebody waited for the result.
---
 include/boost/thread/future.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 7ac4645..59dcf21 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4935,12 +4935,13 @@ namespace detail {
   template<typename F, typename Rp, typename Fp>
   BOOST_THREAD_FUTURE<Rp>
   make_future_deferred_continuation_shared_state(
-      boost::unique_lock<boost::mutex> &lock,
+      boost::unique_lock<boost::mutex> &,
       BOOST_THREAD_RV_REF(F) f, BOOST_THREAD_FWD_REF(Fp) c) {
     typedef typename decay<Fp>::type Cont;
     shared_ptr<future_deferred_continuation_shared_state<F, Rp, Cont> >
         h(new future_deferred_continuation_shared_state<F, Rp, Cont>(boost::move(f), boost::forward<Fp>(c)));
-    h->init(lock);
+    // Not registered with the parent, which is waited for on demand: the parent would keep
+    // this state alive and this state the parent, for ever if nobody completes the parent.
     return BOOST_THREAD_FUTURE<Rp>(h);
   }
 
@@ -5000,12 +5001,13 @@ namespace detail {
   template<typename F, typename Rp, typename Fp>
   BOOST_THREAD_FUTURE<Rp>
   make_shared_future_deferred_continuation_shared_state(
-      boost::unique_lock<boost::mutex> &lock,
+      boost::unique_lock<boost::mutex> &,
       F f, BOOST_THREAD_FWD_REF(Fp) c) {
     typedef typename decay<Fp>::type Cont;
     shared_ptr<shared_future_deferred_continuation_shared_state<F, Rp, Cont> >
         h(new shared_future_deferred_continuation_shared_state<F, Rp, Cont>(f, boost::forward<Fp>(c)));
-    h->init(lock);
+    // Not registered with the parent, which is waited for on demand: the parent would keep
+    // this state alive and this state the parent, for ever if nobody completes the parent.
 
     return BOOST_THREAD_FUTURE<Rp>(h);
   }
-- 
2.43.0


From 41de538ed1e0c0e94d05bad9e159a58e0c5c30af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:04 +0000
Subject: [PATCH 21/50] fix: an interrupted or slow deferred continuation must
 not block or strand other waiters

The state's mutex was held while the antecedent was waited for, so that polling and timed
waits blocked, and an interruption of that wait left a future that never became ready.
---
 include/boost/thread/future.hpp | 45 +++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 59dcf21..2a72518 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -359,13 +359,29 @@ namespace boost
                 }
             }
 
+            // Runs the deferred function; it remains deferred if it could not be run, that is,
+            // if waiting for its antecedent was interrupted.
+            void run_deferred(boost::unique_lock<boost::mutex>& lk)
+            {
+              is_deferred_=false;
+              try
+              {
+                execute(lk);
+              }
+              catch(...)
+              {
+                is_deferred_=true;
+                waiters.notify_all();
+                throw;
+              }
+            }
+
             virtual bool run_if_is_deferred()
             {
               boost::unique_lock<boost::mutex> lk(this->mutex);
               if (is_deferred_)
               {
-                is_deferred_=false;
-                execute(lk);
+                run_deferred(lk);
                 return true;
               }
               else
@@ -376,9 +392,7 @@ namespace boost
               boost::unique_lock<boost::mutex> lk(this->mutex);
               if (is_deferred_)
               {
-                is_deferred_=false;
-                execute(lk);
-
+                run_deferred(lk);
                 return true;
               }
               else
@@ -387,12 +401,13 @@ namespace boost
             void wait_internal(boost::unique_lock<boost::mutex> &lk, bool rethrow=true)
             {
               do_callback(lk);
-              if (is_deferred_)
+              while (!done)
               {
-                is_deferred_=false;
-                execute(lk);
+                if (is_deferred_)
+                  run_deferred(lk);
+                else
+                  waiters.wait(lk);
               }
-              waiters.wait(lk, boost::bind(&shared_state_base::is_done, this));
               if(rethrow && exception)
               {
                   boost::rethrow_exception(exception);
@@ -4899,7 +4914,11 @@ namespace detail {
     }
 
     virtual void execute(boost::unique_lock<boost::mutex>& lk) {
-      this->parent.wait();
+      {
+        // the others must be able to poll or wait for this state in the meantime
+        relocker relock(lk);
+        this->parent.wait();
+      }
       this->call(lk);
     }
 
@@ -4922,7 +4941,11 @@ namespace detail {
     }
 
     virtual void execute(boost::unique_lock<boost::mutex>& lk) {
-      this->parent.wait();
+      {
+        // the others must be able to poll or wait for this state in the meantime
+        relocker relock(lk);
+        this->parent.wait();
+      }
       this->call(lk);
     }
 
-- 
2.43.0


From bf7b44b8449c1325931fed76a81d20225e4e4d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 22/50] fix: attaching an eager continuation to a deferred
 future must run the deferred function

Nobody else was bound to run it, so that the continuation never ran and waiting for its
future (or for an unwrapped one) never ended.
---
 include/boost/thread/future.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 2a72518..240c058 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -329,6 +329,15 @@ namespace boost
               continuations.push_back(continuation);
               if (done) {
                 do_continuation(lock);
+              } else if (is_deferred_) {
+                // nobody else is bound to run the deferred function
+                try {
+                  run_deferred(lock);
+                } catch (...) {
+                  continuations.erase(
+                      std::remove(continuations.begin(), continuations.end(), continuation), continuations.end());
+                  throw;
+                }
               }
             }
 #endif
-- 
2.43.0


From c118805889ae31b727c6be3eed299cccd234c708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:44 +0000
Subject: [PATCH 23/50] fix: unwrapping an invalid inner future must give
 broken_promise, as documented

---
 include/boost/thread/future.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 240c058..d2bfc15 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5550,7 +5550,7 @@ namespace detail
             boost::unique_lock<boost::mutex> lk2(unwrapped.future_->mutex);
             unwrapped.future_->set_continuation_ptr(this->shared_from_this(), lk2);
           } else {
-            this->mark_exceptional_finish_internal(boost::copy_exception(future_uninitialized()), lk);
+            this->mark_exceptional_finish_internal(boost::copy_exception(broken_promise()), lk);
           }
         }
       } else {
@@ -5590,7 +5590,7 @@ namespace detail
             boost::unique_lock<boost::mutex> lk2(unwrapped.future_->mutex);
             unwrapped.future_->set_continuation_ptr(this->shared_from_this(), lk2);
           } else {
-            this->mark_exceptional_finish_internal(boost::copy_exception(future_uninitialized()), lk);
+            this->mark_exceptional_finish_internal(boost::copy_exception(broken_promise()), lk);
           }
         }
       } else {
-- 
2.43.0


From c5a882bd3b63cacf40b38da7d556f76a93edc746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:52 +0000
Subject: [PATCH 24/50] fix: a joined basic_thread_pool can be destroyed when
 precondition violations throw

Its destructor joins again, which throws (and so terminates the program) when
BOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED is defined.
---
 include/boost/thread/executors/basic_thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index ef40ea0..517d885 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -244,7 +244,7 @@ namespace executors
       for (unsigned i = 0; i < threads.size(); ++i)
       {
         //threads[i].interrupt();
-        threads[i].join();
+        if (threads[i].joinable()) threads[i].join();
       }
     }
 
@@ -267,7 +267,7 @@ namespace executors
       for (unsigned i = 0; i < threads.size(); ++i)
       {
         threads[i].interrupt();
-        threads[i].join();
+        if (threads[i].joinable()) threads[i].join();
       }
     }
 
-- 
2.43.0


From 1eede49c487dc2c425e7f343cd6de51b78a8578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:07 +0000
Subject: [PATCH 25/50] fix: a continuation that cannot be launched must end
 its own future with the error

The exception of thread creation or of a closed executor propagated out of set_value or
into the antecedent's result, and the continuation's future never became ready.
---
 include/boost/thread/future.hpp | 48 ++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index d2bfc15..dff403c 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4642,6 +4642,12 @@ namespace detail
       }
     }
 
+    // The continuation cannot be run: its future, and nobody else's, tells why.
+    void not_launched() {
+      this->mark_exceptional_finish();
+      this->parent = F();
+    }
+
     static void run(shared_ptr<boost::detail::shared_state_base> that_)
     {
       continuation_shared_state* that = static_cast<continuation_shared_state*>(that_.get());
@@ -4702,6 +4708,12 @@ namespace detail
       }
     }
 
+    // The continuation cannot be run: its future, and nobody else's, tells why.
+    void not_launched() {
+      this->mark_exceptional_finish();
+      this->parent = F();
+    }
+
     static void run(shared_ptr<boost::detail::shared_state_base> that_)
     {
       continuation_shared_state* that = static_cast<continuation_shared_state*>(that_.get());
@@ -4724,12 +4736,16 @@ namespace detail
     {    }
 
     void launch_continuation() {
+      try {
 #if defined BOOST_THREAD_FUTURE_BLOCKING
-      boost::lock_guard<boost::mutex> lk(this->mutex);
-      this->thr_ = boost::thread(&future_async_continuation_shared_state::run, static_shared_from_this(this));
+        boost::lock_guard<boost::mutex> lk(this->mutex);
+        this->thr_ = boost::thread(&future_async_continuation_shared_state::run, static_shared_from_this(this));
 #else
-      boost::thread(&base_type::run, static_shared_from_this(this)).detach();
+        boost::thread(&base_type::run, static_shared_from_this(this)).detach();
 #endif
+      } catch (...) {
+        this->not_launched();
+      }
     }
   };
 
@@ -4821,8 +4837,12 @@ namespace detail {
     }
 
     void launch_continuation() {
-      run_it<base_type> fct(static_shared_from_this(this));
-      this->get_executor()->submit(boost::move(fct));
+      try {
+        run_it<base_type> fct(static_shared_from_this(this));
+        this->get_executor()->submit(boost::move(fct));
+      } catch (...) {
+        this->not_launched();
+      }
     }
 
     ~future_executor_continuation_shared_state() {}
@@ -4845,12 +4865,16 @@ namespace detail {
     }
 
     void launch_continuation() {
+      try {
 #if defined BOOST_THREAD_FUTURE_BLOCKING
-      boost::lock_guard<boost::mutex> lk(this->mutex);
-      this->thr_ = boost::thread(&base_type::run, static_shared_from_this(this));
+        boost::lock_guard<boost::mutex> lk(this->mutex);
+        this->thr_ = boost::thread(&base_type::run, static_shared_from_this(this));
 #else
-      boost::thread(&base_type::run, static_shared_from_this(this)).detach();
+        boost::thread(&base_type::run, static_shared_from_this(this)).detach();
 #endif
+      } catch (...) {
+        this->not_launched();
+      }
     }
   };
 
@@ -4900,8 +4924,12 @@ namespace detail {
     }
 
     void launch_continuation() {
-      run_it<base_type> fct(static_shared_from_this(this));
-      this->get_executor()->submit(boost::move(fct));
+      try {
+        run_it<base_type> fct(static_shared_from_this(this));
+        this->get_executor()->submit(boost::move(fct));
+      } catch (...) {
+        this->not_launched();
+      }
     }
 
     ~shared_future_executor_continuation_shared_state() {}
-- 
2.43.0


From 358e0e00da3a4830ad319cd895dc2c5044d06116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 26/50] fix: a continuation that inherits its parent's executor
 must share it

It kept a reference to the executor_ref object owned by its parent, which the parent's
destruction freed.
---
 include/boost/thread/future.hpp | 38 ++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index dff403c..2907766 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4836,6 +4836,13 @@ namespace detail {
       this->base_type::init(lk);
     }
 
+    // shares the executor of the parent, which may die first
+    void init(boost::unique_lock<boost::mutex> &lk, executor_ptr_type& ex)
+    {
+      this->set_executor_policy(ex, lk);
+      this->base_type::init(lk);
+    }
+
     void launch_continuation() {
       try {
         run_it<base_type> fct(static_shared_from_this(this));
@@ -4923,6 +4930,13 @@ namespace detail {
       this->base_type::init(lk);
     }
 
+    // shares the executor of the parent, which may die first
+    void init(boost::unique_lock<boost::mutex> &lk, executor_ptr_type& ex)
+    {
+      this->set_executor_policy(ex, lk);
+      this->base_type::init(lk);
+    }
+
     void launch_continuation() {
       try {
         run_it<base_type> fct(static_shared_from_this(this));
@@ -5150,8 +5164,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
     } else if (underlying_cast<int>(policy) & int(launch::executor)) {
       assert(this->future_->get_executor());
-      typedef executor Ex;
-      Ex& ex = *(this->future_->get_executor());
+      typedef executor_ptr_type Ex;
+      Ex ex(this->future_->get_executor());
       return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                     lock, boost::move(*this), boost::forward<F>(func)
                 )));
@@ -5174,8 +5188,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
         } else if (underlying_cast<int>(policy_) & int(launch::executor)) {
           assert(this->future_->get_executor());
-          typedef executor Ex;
-          Ex& ex = *(this->future_->get_executor());
+          typedef executor_ptr_type Ex;
+          Ex ex(this->future_->get_executor());
           return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                         lock, boost::move(*this), boost::forward<F>(func)
                     )));
@@ -5276,8 +5290,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
     } else if (underlying_cast<int>(policy) & int(launch::executor)) {
       assert(this->future_->get_executor());
-      typedef executor Ex;
-      Ex& ex = *(this->future_->get_executor());
+      typedef executor_ptr_type Ex;
+      Ex ex(this->future_->get_executor());
       return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                     lock, boost::move(*this), boost::forward<F>(func)
                 )));
@@ -5300,8 +5314,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
         } else if (underlying_cast<int>(policy_) & int(launch::executor)) {
           assert(this->future_->get_executor());
-          typedef executor Ex;
-          Ex& ex = *(this->future_->get_executor());
+          typedef executor_ptr_type Ex;
+          Ex ex(this->future_->get_executor());
           return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                         lock, boost::move(*this), boost::forward<F>(func)
                     )));
@@ -5402,8 +5416,8 @@ namespace detail {
               )));
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
     } else if (underlying_cast<int>(policy) & int(launch::executor)) {
-      typedef executor Ex;
-      Ex& ex = *(this->future_->get_executor());
+      typedef executor_ptr_type Ex;
+      Ex ex(this->future_->get_executor());
       return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_shared_future_executor_continuation_shared_state<Ex, shared_future<R>, future_type>(ex,
                     lock, *this, boost::forward<F>(func)
                 )));
@@ -5425,8 +5439,8 @@ namespace detail {
                   )));
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
         } else if (underlying_cast<int>(policy_) & int(launch::executor)) {
-          typedef executor Ex;
-          Ex& ex = *(this->future_->get_executor());
+          typedef executor_ptr_type Ex;
+          Ex ex(this->future_->get_executor());
           return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_shared_future_executor_continuation_shared_state<Ex, shared_future<R>, future_type>(ex,
                         lock, *this, boost::forward<F>(func)
                     )));
-- 
2.43.0


From 04b15500b1909186dba7f26b2ae6580d1d34a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 27/50] fix: variadic when_all and when_any must treat their
 futures in the order supplied

when_any checked the last future first, so that it ran the deferred function of a later
future although an earlier one was ready or deferred; when_all stopped running deferred
functions at the last future that was not deferred.
---
 include/boost/thread/future.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 2907766..11fcdfe 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5852,7 +5852,9 @@ namespace detail
   struct accumulate_run_if_is_deferred {
     bool operator ()(Tuple& t)
     {
-      return (! csbl::get<i-1>(t).run_if_is_deferred()) || accumulate_run_if_is_deferred<Tuple,i-1>()(t);
+      // all the deferred functions are run, in the order supplied
+      bool const res = accumulate_run_if_is_deferred<Tuple,i-1>()(t);
+      return (! csbl::get<i-1>(t).run_if_is_deferred()) || res;
     }
   };
   template <class Tuple>
@@ -5924,8 +5926,9 @@ namespace detail
   struct apply_any_run_if_is_deferred_or_ready {
     bool operator ()(Tuple& t)
     {
-      if (csbl::get<i-1>(t).run_if_is_deferred_or_ready()) return true;
-      return apply_any_run_if_is_deferred_or_ready<Tuple,i-1>()(t);
+      // in the order supplied
+      if (apply_any_run_if_is_deferred_or_ready<Tuple,i-1>()(t)) return true;
+      return csbl::get<i-1>(t).run_if_is_deferred_or_ready();
     }
   };
   template <class Tuple>
-- 
2.43.0


From 6c2079daa572573811119e0441f11b3b2d442548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:22 +0000
Subject: [PATCH 28/50] fix: wait_for_any must not deadlock with another
 thread's or with itself

It locked the futures in the order given, so that two threads waiting for the same futures
in different orders deadlocked, as did one given the same future twice. The iterator form
also returned the wrong position when an invalid future came first.
---
 include/boost/thread/future.hpp               | 16 +++++++++++---
 include/boost/thread/futures/wait_for_any.hpp | 21 ++++++++++++++-----
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 11fcdfe..cde0efe 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -89,6 +89,7 @@ struct shared_state_base {
 #endif
 
 #include <algorithm>
+#include <functional>
 #include <list>
 #include <vector>
 #include <utility>
@@ -1179,11 +1180,20 @@ namespace boost
                    boost::scoped_array<boost::unique_lock<boost::mutex> > locks;
 
                 all_futures_lock(std::vector<registered_waiter>& futures):
-                    count(futures.size()),locks(new boost::unique_lock<boost::mutex>[count])
+                    count(0),locks(new boost::unique_lock<boost::mutex>[futures.size()])
                 {
-                    for(count_type_portable i=0;i<count;++i)
+                    // The same futures may be waited for in another order by another thread,
+                    // and a future may be given more than once.
+                    std::vector<boost::mutex*> mutexes;
+                    for(count_type i=0;i<futures.size();++i)
+                    {
+                        mutexes.push_back(&futures[i].future_->mutex);
+                    }
+                    std::sort(mutexes.begin(),mutexes.end(),std::less<boost::mutex*>());
+                    mutexes.erase(std::unique(mutexes.begin(),mutexes.end()),mutexes.end());
+                    for(count_type i=0;i<mutexes.size();++i)
                     {
-                        locks[i]=BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(futures[i].future_->mutex));
+                        locks[count++]=BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(*mutexes[i]));
                     }
                 }
 
diff --git a/include/boost/thread/futures/wait_for_any.hpp b/include/boost/thread/futures/wait_for_any.hpp
index 3f5d7b0..5780dbe 100644
--- a/include/boost/thread/futures/wait_for_any.hpp
+++ b/include/boost/thread/futures/wait_for_any.hpp
@@ -19,6 +19,8 @@
 #include <boost/core/enable_if.hpp>
 #include <boost/scoped_array.hpp>
 
+#include <algorithm>
+#include <functional>
 #include <iterator>
 #include <vector>
 
@@ -58,11 +60,20 @@ namespace boost
         boost::scoped_array<boost::unique_lock<boost::mutex> > locks;
 
         all_futures_lock(std::vector<registered_waiter>& waiters) :
-          count(waiters.size()), locks(new boost::unique_lock<boost::mutex>[count])
+          count(0), locks(new boost::unique_lock<boost::mutex>[waiters.size()])
         {
-          for (count_type_portable i = 0; i < count; ++i)
+          // The same futures may be waited for in another order by another thread,
+          // and a future may be given more than once.
+          std::vector<boost::mutex*> mutexes;
+          for (count_type i = 0; i < waiters.size(); ++i)
+          {
+            mutexes.push_back(&waiters[i].future_->mutex());
+          }
+          std::sort(mutexes.begin(), mutexes.end(), std::less<boost::mutex*>());
+          mutexes.erase(std::unique(mutexes.begin(), mutexes.end()), mutexes.end());
+          for (count_type i = 0; i < mutexes.size(); ++i)
           {
-            locks[i] = BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(waiters[i].future_->mutex()));
+            locks[count++] = BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(*mutexes[i]));
           }
         }
 
@@ -105,8 +116,8 @@ namespace boost
             f.future_->unnotify_when_ready(waiter.handle);
             throw;
           }
-          ++future_count;
         }
+        ++future_count;
       }
 
 #ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
@@ -125,7 +136,7 @@ namespace boost
         {
           for (count_type i = 0; i < waiters_.size(); ++i)
           {
-            if (waiters_[i].future_->is_ready(lk.locks[i]))
+            if (waiters_[i].future_->is_ready(lk.locks[0]))
             {
               return waiters_[i].index;
             }
-- 
2.43.0


From 1d6f51f1f2199f52c8cf17b9276cb82fc907967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 29/50] fix: wait_push_back of a sync_bounded_queue closed
 meanwhile must report closed, not throw

---
 .../concurrent_queues/sync_bounded_queue.hpp  | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index c081bfe..8ced0ae 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -542,8 +542,10 @@ namespace concurrent
   template <typename ValueType>
   queue_op_status sync_bounded_queue<ValueType>::wait_push_back(const ValueType& elem, unique_lock<mutex>& lk)
   {
-    if (closed(lk)) return queue_op_status::closed;
-    push_at(elem, wait_until_not_full(lk), lk);
+    bool is_closed = false;
+    const size_type in_p_1 = wait_until_not_full(lk, is_closed);
+    if (is_closed) return queue_op_status::closed;
+    push_at(elem, in_p_1, lk);
     return queue_op_status::success;
   }
   template <typename ValueType>
@@ -587,6 +589,21 @@ namespace concurrent
       not_full_.wait(lk);
     }
   }
+  template <typename ValueType>
+  typename sync_bounded_queue<ValueType>::size_type sync_bounded_queue<ValueType>::wait_until_not_full(unique_lock<mutex>& lk, bool & closed)
+  {
+    for (;;)
+    {
+      size_type in_p_1 = inc(in_);
+      if (closed_) {closed=true; return in_p_1;}
+      if (in_p_1 != out_) // ! full()
+      {
+        return in_p_1;
+      }
+      ++waiting_full_;
+      not_full_.wait(lk);
+    }
+  }
 
 #ifndef BOOST_THREAD_QUEUE_DEPRECATE_OLD
   template <typename ValueType>
@@ -647,8 +664,10 @@ namespace concurrent
   template <typename ValueType>
   queue_op_status sync_bounded_queue<ValueType>::wait_push_back(BOOST_THREAD_RV_REF(ValueType) elem, unique_lock<mutex>& lk)
   {
-    if (closed(lk)) return queue_op_status::closed;
-    push_at(boost::move(elem), wait_until_not_full(lk), lk);
+    bool is_closed = false;
+    const size_type in_p_1 = wait_until_not_full(lk, is_closed);
+    if (is_closed) return queue_op_status::closed;
+    push_at(boost::move(elem), in_p_1, lk);
     return queue_op_status::success;
   }
   template <typename ValueType>
-- 
2.43.0


From 4b4016e180c538c85053396e25cc69206c0dc530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 30/50] fix: sync_bounded_queue::size() was wrong once the ring
 had wrapped around

---
 .../boost/thread/concurrent_queues/sync_bounded_queue.hpp    | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index 8ced0ae..f049932 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -124,10 +124,9 @@ namespace concurrent
     {
       return capacity_-1;
     }
-    inline size_type size(lock_guard<mutex>& lk) const BOOST_NOEXCEPT
+    inline size_type size(lock_guard<mutex>& ) const BOOST_NOEXCEPT
     {
-      if (full(lk)) return capacity(lk);
-      return ((in_+capacity(lk)-out_) % capacity(lk));
+      return ((in_+capacity_-out_) % capacity_);
     }
 
     inline void throw_if_closed(unique_lock<mutex>&);
-- 
2.43.0


From 3f74323b437d37839839159363b243c2b1d3b529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 31/50] fix: sync_timed_queue::pull_until read the top of an
 empty queue when the clock was set back

---
 include/boost/thread/concurrent_queues/sync_timed_queue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
index fd8d5a3..4b1ee08 100644
--- a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
@@ -290,6 +290,9 @@ namespace detail
       if (super::closed(lk)) return queue_op_status::closed;
       if (clock::now() >= tp) return super::empty(lk) ? queue_op_status::timeout : queue_op_status::not_ready;
 
+      // The clock may have been set back since the wait for an element timed out.
+      if (super::empty(lk)) continue;
+
       const time_point tpmin((std::min)(tp, detail::limit_timepoint(super::data_.top().time)));
       super::cond_.wait_until(lk, tpmin);
     }
-- 
2.43.0


From 8c0aa8f125bd8da55f2cc7b68c49459748b4bc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 32/50] fix: a queue whose container was moved out must be
 empty, not have a stale front

csbl::devector left its front index behind when moved from, so a
sync_queue was unusable after underlying_queue() (which is how
loop_executor::run_queued_closures takes the closures).
---
 include/boost/thread/csbl/devector.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/csbl/devector.hpp b/include/boost/thread/csbl/devector.hpp
index c2bc0bb..39b1234 100644
--- a/include/boost/thread/csbl/devector.hpp
+++ b/include/boost/thread/csbl/devector.hpp
@@ -45,7 +45,11 @@ namespace boost
       devector(BOOST_RV_REF(devector) x) BOOST_NOEXCEPT
          :  data_(boost::move(x.data_)),
             front_index_(x.front_index_)
-      {}
+      {
+        // the elements before the front went with the others
+        x.data_.clear();
+        x.front_index_ = 0;
+      }
 
       devector& operator=(BOOST_COPY_ASSIGN_REF(devector) x)
       {
@@ -62,8 +66,13 @@ namespace boost
          BOOST_NOEXCEPT_IF(vector_type::allocator_traits_type::propagate_on_container_move_assignment::value)
 #endif
       {
-        data_ = boost::move(x.data_);
-        front_index_ = x.front_index_;
+        if (&x != this)
+        {
+          data_ = boost::move(x.data_);
+          front_index_ = x.front_index_;
+          x.data_.clear();
+          x.front_index_ = 0;
+        }
         return *this;
       }
 
-- 
2.43.0


From 6f33d67154dee3cbb0a9ac3cb850ee359c466225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 33/50] fix: each thread of a basic_thread_pool needs its own
 copy of the entry function

The function was moved into the first thread, so that the others ran a
moved-from one; an lvalue could not be given at all.
---
 include/boost/thread/executors/basic_thread_pool.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index 517d885..ea10a3f 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -207,12 +207,14 @@ namespace executors
     template <class AtThreadEntry>
     basic_thread_pool( unsigned const thread_count, BOOST_THREAD_FWD_REF(AtThreadEntry) at_thread_entry)
     {
+      typedef typename decay<AtThreadEntry>::type entry_type;
       try
       {
         threads.reserve(thread_count);
         for (unsigned i = 0; i < thread_count; ++i)
         {
-          thread th (&basic_thread_pool::worker_thread3<AtThreadEntry>, this, boost::forward<AtThreadEntry>(at_thread_entry));
+          // each thread needs a function of its own
+          thread th (&basic_thread_pool::worker_thread3<entry_type>, this, entry_type(at_thread_entry));
           threads.push_back(thread_t(boost::move(th)));
           //threads.push_back(thread_t(&basic_thread_pool::worker_thread, this)); // do not compile
         }
-- 
2.43.0


From 4c280d34a3187fccd3bae74924210e36dbd9953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 34/50] fix: a thread pool whose threads cannot all be created
 must join those that were

Their queue was destroyed while they used it, and the joinable threads
terminated the program.
---
 .../boost/thread/executors/basic_thread_pool.hpp  |  8 ++++++++
 .../thread/executors/scheduled_thread_pool.hpp    | 15 +++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index ea10a3f..236b09a 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -155,7 +155,9 @@ namespace executors
       }
       catch (...)
       {
+        // the threads already created use the queue
         close();
+        interrupt_and_join();
         throw;
       }
     }
@@ -181,7 +183,9 @@ namespace executors
       }
       catch (...)
       {
+        // the threads already created use the queue
         close();
+        interrupt_and_join();
         throw;
       }
     }
@@ -200,7 +204,9 @@ namespace executors
       }
       catch (...)
       {
+        // the threads already created use the queue
         close();
+        interrupt_and_join();
         throw;
       }
     }
@@ -221,7 +227,9 @@ namespace executors
       }
       catch (...)
       {
+        // the threads already created use the queue
         close();
+        interrupt_and_join();
         throw;
       }
     }
diff --git a/include/boost/thread/executors/scheduled_thread_pool.hpp b/include/boost/thread/executors/scheduled_thread_pool.hpp
index 6202f2d..62e2d4c 100644
--- a/include/boost/thread/executors/scheduled_thread_pool.hpp
+++ b/include/boost/thread/executors/scheduled_thread_pool.hpp
@@ -26,9 +26,20 @@ namespace executors
 
     scheduled_thread_pool(size_t num_threads) : super()
     {
-      for(size_t i = 0; i < num_threads; i++)
+      try
       {
-        _workers.create_thread(bind(&super::loop, this));
+        for(size_t i = 0; i < num_threads; i++)
+        {
+          _workers.create_thread(bind(&super::loop, this));
+        }
+      }
+      catch (...)
+      {
+        // the threads already created use the queue
+        this->close();
+        _workers.interrupt_all();
+        _workers.join_all();
+        throw;
       }
     }
 
-- 
2.43.0


From 91c48a420d874360136bbb0f04eeb82b1e5ddc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 35/50] fix: the destructor of serial_executor_cont must wait
 for its closures, as documented

It returned while closures were pending, which were then launched using
the destroyed executor reference.
---
 include/boost/thread/executors/serial_executor_cont.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/thread/executors/serial_executor_cont.hpp b/include/boost/thread/executors/serial_executor_cont.hpp
index baccf73..9f4b413 100644
--- a/include/boost/thread/executors/serial_executor_cont.hpp
+++ b/include/boost/thread/executors/serial_executor_cont.hpp
@@ -99,6 +99,11 @@ namespace executors
     {
       // signal to the worker thread that there will be no more submissions.
       close();
+      // wait for the closures, which are launched one by one using ex_.
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      this_thread::disable_interruption di;
+#endif
+      if (fut_.valid()) fut_.wait();
     }
 
     /**
-- 
2.43.0


From 32a812db5464b1d94094cf318ab5acd434f5c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 36/50] fix: thread_group::create_thread must not lose a thread
 that has been started

If there was no memory for the list entry, the thread had been started
already; destroying its boost::thread terminated the program or detached
it.
---
 include/boost/thread/detail/thread_group.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/detail/thread_group.hpp b/include/boost/thread/detail/thread_group.hpp
index 4105c73..d1ac0d6 100644
--- a/include/boost/thread/detail/thread_group.hpp
+++ b/include/boost/thread/detail/thread_group.hpp
@@ -76,9 +76,11 @@ namespace boost
         thread* create_thread(F threadfunc)
         {
             boost::lock_guard<shared_mutex> guard(m);
-            boost::csbl::unique_ptr<thread> new_thread(new thread(threadfunc));
-            threads.push_back(new_thread.get());
-            return new_thread.release();
+            // allocate the entry first: a thread that has been started can not be left out
+            std::list<thread*> entry(1);
+            entry.front() = new thread(threadfunc);
+            threads.splice(threads.end(), entry);
+            return threads.back();
         }
 
         void add_thread(thread* thrd)
-- 
2.43.0


From 1300d46d779cfe815867651d8b2a27aef90f1677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 37/50] fix: resubmit() must copy the function when it is given
 as an lvalue

It was moved from, so submitting an lvalue through scheduler.on(ex) left
the caller's function empty.
---
 include/boost/thread/executors/scheduler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/scheduler.hpp b/include/boost/thread/executors/scheduler.hpp
index 654c9fb..1d244b7 100644
--- a/include/boost/thread/executors/scheduler.hpp
+++ b/include/boost/thread/executors/scheduler.hpp
@@ -50,7 +50,7 @@ namespace boost
     template <class Executor, class Function>
     resubmitter<Executor, typename decay<Function>::type>
     resubmit(Executor& ex, BOOST_THREAD_FWD_REF(Function) funct) {
-      return resubmitter<Executor, typename decay<Function>::type >(ex, boost::move(funct));
+      return resubmitter<Executor, typename decay<Function>::type >(ex, boost::forward<Function>(funct));
     }
 
     /// Wraps references to a @c Scheduler and an @c Executor providing an @c Executor that
-- 
2.43.0


From 92842abd041296d0ea3b6281d7c123bb20afca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 38/50] fix: a timed queue must not oversleep when the clock is
 set back between two readings

The wait limited to the poll interval was converted to a time point of
the system clock first; set back at that moment, that clock reaches it
only after as long again as it was set back, polling nothing.
---
 .../concurrent_queues/sync_timed_queue.hpp    | 23 ++-----------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
index 4b1ee08..3f4a1ba 100644
--- a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
@@ -61,25 +61,6 @@ namespace detail
     }
   }; //end struct
 
-  template <class Duration>
-  chrono::time_point<chrono::steady_clock,Duration>
-  limit_timepoint(chrono::time_point<chrono::steady_clock,Duration> const& tp)
-  {
-    // Clock == chrono::steady_clock
-    return tp;
-  }
-
-  template <class Clock, class Duration>
-  chrono::time_point<Clock,Duration>
-  limit_timepoint(chrono::time_point<Clock,Duration> const& tp)
-  {
-    // Clock != chrono::steady_clock
-    // The system time may jump while wait_until() is waiting. To compensate for this and time out near
-    // the correct time, we limit how long wait_until() can wait before going around the loop again.
-    const chrono::time_point<Clock,Duration> tpmax(chrono::time_point_cast<Duration>(Clock::now() + chrono::milliseconds(BOOST_THREAD_POLL_INTERVAL_MILLISECONDS)));
-    return (std::min)(tp, tpmax);
-  }
-
   template <class Duration>
   chrono::steady_clock::time_point
   convert_to_steady_clock_timepoint(chrono::time_point<chrono::steady_clock,Duration> const& tp)
@@ -270,7 +251,7 @@ namespace detail
       if (not_empty_and_time_reached(lk)) return false; // success
       if (super::closed(lk)) return true; // closed
 
-      const time_point tpmin(detail::limit_timepoint(super::data_.top().time));
+      const chrono::steady_clock::time_point tpmin(detail::convert_to_steady_clock_timepoint(super::data_.top().time));
       super::cond_.wait_until(lk, tpmin);
     }
   }
@@ -293,7 +274,7 @@ namespace detail
       // The clock may have been set back since the wait for an element timed out.
       if (super::empty(lk)) continue;
 
-      const time_point tpmin((std::min)(tp, detail::limit_timepoint(super::data_.top().time)));
+      const chrono::steady_clock::time_point tpmin(detail::convert_to_steady_clock_timepoint((std::min)(tp, super::data_.top().time)));
       super::cond_.wait_until(lk, tpmin);
     }
   }
-- 
2.43.0


From efe7ee4c4b0c22e807b0d00da55c9d9936f16bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 39/50] fix: comparing a synchronized_value with itself must
 not hang

---
 include/boost/thread/synchronized_value.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/thread/synchronized_value.hpp b/include/boost/thread/synchronized_value.hpp
index 4e48a85..291051f 100644
--- a/include/boost/thread/synchronized_value.hpp
+++ b/include/boost/thread/synchronized_value.hpp
@@ -840,6 +840,7 @@ namespace boost
      */
     bool operator==(synchronized_value const& rhs)  const
     {
+      if (this == &rhs) return *this == rhs.value_;
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -852,6 +853,7 @@ namespace boost
      */
     bool operator<(synchronized_value const& rhs) const
     {
+      if (this == &rhs) return *this < rhs.value_;
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -864,6 +866,7 @@ namespace boost
      */
     bool operator>(synchronized_value const& rhs) const
     {
+      if (this == &rhs) return *this > rhs.value_;
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -872,6 +875,7 @@ namespace boost
     }
     bool operator<=(synchronized_value const& rhs) const
     {
+      if (this == &rhs) return *this <= rhs.value_;
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -880,6 +884,7 @@ namespace boost
     }
     bool operator>=(synchronized_value const& rhs) const
     {
+      if (this == &rhs) return *this >= rhs.value_;
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
-- 
2.43.0


From 50b15a98d160c65c16d3e4c7ae90ccf5b552bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 40/50] fix: owns_lock() of a moved-from stream_guard must be
 false, not dereference null

---
 include/boost/thread/externally_locked_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/externally_locked_stream.hpp b/include/boost/thread/externally_locked_stream.hpp
index aa9aeff..15fbb8d 100644
--- a/include/boost/thread/externally_locked_stream.hpp
+++ b/include/boost/thread/externally_locked_stream.hpp
@@ -58,7 +58,7 @@ namespace boost
 
     bool owns_lock(const mutex_type * l) const BOOST_NOEXCEPT
     {
-      return l == mtx_->mutex();
+      return mtx_ != 0 && l == mtx_->mutex();
     }
 
     /**
-- 
2.43.0


From d6504350f54474aee4ad242561fc48e9cc28b1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 41/50] fix: a signal handler must not end an uninterruptible
 sleep early

---
 src/pthread/thread.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 4da3de3..7c0d082 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -40,6 +40,7 @@
 #include <string>
 #include <set>
 #include <vector>
+#include <errno.h>
 #include <string.h> // memcmp.
 
 namespace boost
@@ -463,7 +464,9 @@ namespace boost
                         BOOST_VERIFY(!pthread_delay_np(&ts.getTs()));
 #       endif
 #   elif defined(BOOST_HAS_NANOSLEEP)
-                        nanosleep(&ts.getTs(), 0);
+                        // A signal handler must not end the sleep early.
+                        timespec remaining = ts.getTs();
+                        while (nanosleep(&remaining, &remaining) == -1 && errno == EINTR) {}
 #   else
                         // This should never be reached due to BOOST_THREAD_SLEEP_FOR_IS_STEADY
 #   endif
-- 
2.43.0


From 6138a770e4739999c5a61179cdd92a5f6848f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 42/50] fix: task_region reports each exception once when
 wait() was called in the region

---
 .../boost/thread/experimental/parallel/v2/task_region.hpp   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/experimental/parallel/v2/task_region.hpp b/include/boost/thread/experimental/parallel/v2/task_region.hpp
index b8ec759..7626618 100644
--- a/include/boost/thread/experimental/parallel/v2/task_region.hpp
+++ b/include/boost/thread/experimental/parallel/v2/task_region.hpp
@@ -143,9 +143,13 @@ BOOST_THREAD_INLINE_NAMESPACE(v2)
           }
         }
       }
+      // what has been collected is reported by this call: not again by the next one.
+      group.clear();
       if (exs.size() != 0)
       {
-        boost::throw_exception(exs);
+        exception_list el(exs);
+        exs = exception_list();
+        boost::throw_exception(el);
       }
     }
 protected:
-- 
2.43.0


From d139fc8d9ce06cb1d9c0a5ef589f69974d625c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 43/50] fix: task_region must not be left while its tasks run
 (interruption, no memory)

---
 .../experimental/parallel/v2/task_region.hpp  | 46 +++++++++++++++++--
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/experimental/parallel/v2/task_region.hpp b/include/boost/thread/experimental/parallel/v2/task_region.hpp
index 7626618..dfa6b52 100644
--- a/include/boost/thread/experimental/parallel/v2/task_region.hpp
+++ b/include/boost/thread/experimental/parallel/v2/task_region.hpp
@@ -152,6 +152,30 @@ BOOST_THREAD_INLINE_NAMESPACE(v2)
         boost::throw_exception(el);
       }
     }
+
+    // Waits for the tasks when the region is left by an exception (e.g. an interruption of wait_all):
+    // they use the handle and what the region's function refers to.
+    struct joiner
+    {
+      task_region_handle_gen& tr;
+      explicit joiner(task_region_handle_gen& tr_) : tr(tr_) {}
+      ~joiner()
+      {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        boost::this_thread::disable_interruption di;
+#endif
+        for (group_type::iterator it = tr.group.begin(); it != tr.group.end(); ++it)
+        {
+          try
+          {
+            it->wait();
+          }
+          catch (...)
+          {
+          }
+        }
+      }
+    };
 protected:
 #if ! defined BOOST_THREAD_TASK_REGION_HAS_SHARED_CANCELED && ! defined BOOST_THREAD_PROVIDES_EXECUTORS
     task_region_handle_gen()
@@ -218,18 +242,30 @@ protected:
           boost::throw_exception(task_canceled_exception());
         }
       }
+#endif
+      // make room first: a task whose future cannot be stored would not be waited for.
+      group.push_back(BOOST_THREAD_FUTURE<void>());
+      try
+      {
+#if defined BOOST_THREAD_TASK_REGION_HAS_SHARED_CANCELED
 #if defined BOOST_THREAD_PROVIDES_EXECUTORS
-      group.push_back(async(*ex, detail::wrapped<task_region_handle_gen<Executor>, F>(*this, forward<F>(f))));
+        group.back() = async(*ex, detail::wrapped<task_region_handle_gen<Executor>, F>(*this, forward<F>(f)));
 #else
-      group.push_back(async(detail::wrapped<task_region_handle_gen<Executor>, F>(*this, forward<F>(f))));
+        group.back() = async(detail::wrapped<task_region_handle_gen<Executor>, F>(*this, forward<F>(f)));
 #endif
 #else
 #if defined BOOST_THREAD_PROVIDES_EXECUTORS
-      group.push_back(async(*ex, forward<F>(f)));
+        group.back() = async(*ex, forward<F>(f));
 #else
-      group.push_back(async(forward<F>(f)));
+        group.back() = async(forward<F>(f));
 #endif
 #endif
+      }
+      catch (...)
+      {
+        group.pop_back();
+        throw;
+      }
     }
 
     void wait()
@@ -276,6 +312,7 @@ protected:
   void task_region_final(Executor& ex, BOOST_THREAD_FWD_REF(F) f)
   {
     task_region_handle_gen<Executor> tr(ex);
+    typename task_region_handle_gen<Executor>::joiner guard(tr);
     try
     {
       f(tr);
@@ -297,6 +334,7 @@ protected:
   void task_region_final(BOOST_THREAD_FWD_REF(F) f)
   {
     task_region_handle tr;
+    task_region_handle::joiner guard(tr);
     try
     {
       f(tr);
-- 
2.43.0


From c38b3bdf734b4221f926bffe0f353aac1de3f877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 44/50] fix: destructors of executors must not be interrupted
 while they join their threads

---
 .../boost/thread/executors/basic_thread_pool.hpp  | 15 +++++++++++++++
 .../thread/executors/scheduled_thread_pool.hpp    |  6 ++++++
 include/boost/thread/executors/scheduler.hpp      |  3 +++
 .../boost/thread/executors/scheduling_adaptor.hpp |  3 +++
 4 files changed, 27 insertions(+)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index 236b09a..a12bd61 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -156,6 +156,9 @@ namespace executors
       catch (...)
       {
         // the threads already created use the queue
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        boost::this_thread::disable_interruption do_not_disturb;
+#endif
         close();
         interrupt_and_join();
         throw;
@@ -184,6 +187,9 @@ namespace executors
       catch (...)
       {
         // the threads already created use the queue
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        boost::this_thread::disable_interruption do_not_disturb;
+#endif
         close();
         interrupt_and_join();
         throw;
@@ -205,6 +211,9 @@ namespace executors
       catch (...)
       {
         // the threads already created use the queue
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        boost::this_thread::disable_interruption do_not_disturb;
+#endif
         close();
         interrupt_and_join();
         throw;
@@ -228,6 +237,9 @@ namespace executors
       catch (...)
       {
         // the threads already created use the queue
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        boost::this_thread::disable_interruption do_not_disturb;
+#endif
         close();
         interrupt_and_join();
         throw;
@@ -240,6 +252,9 @@ namespace executors
      */
     ~basic_thread_pool()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       // signal to all the worker threads that there will be no more submissions.
       close();
       // joins all the threads before destroying the thread pool resources (e.g. the queue).
diff --git a/include/boost/thread/executors/scheduled_thread_pool.hpp b/include/boost/thread/executors/scheduled_thread_pool.hpp
index 62e2d4c..4aa9f57 100644
--- a/include/boost/thread/executors/scheduled_thread_pool.hpp
+++ b/include/boost/thread/executors/scheduled_thread_pool.hpp
@@ -36,6 +36,9 @@ namespace executors
       catch (...)
       {
         // the threads already created use the queue
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        boost::this_thread::disable_interruption do_not_disturb;
+#endif
         this->close();
         _workers.interrupt_all();
         _workers.join_all();
@@ -45,6 +48,9 @@ namespace executors
 
     ~scheduled_thread_pool()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       this->close();
       _workers.interrupt_all();
       _workers.join_all();
diff --git a/include/boost/thread/executors/scheduler.hpp b/include/boost/thread/executors/scheduler.hpp
index 1d244b7..b73bafc 100644
--- a/include/boost/thread/executors/scheduler.hpp
+++ b/include/boost/thread/executors/scheduler.hpp
@@ -236,6 +236,9 @@ namespace boost
 
       ~scheduler()
       {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        boost::this_thread::disable_interruption do_not_disturb;
+#endif
         this->close();
         thr.interrupt();
         thr.join();
diff --git a/include/boost/thread/executors/scheduling_adaptor.hpp b/include/boost/thread/executors/scheduling_adaptor.hpp
index 9a432f9..65f0a86 100644
--- a/include/boost/thread/executors/scheduling_adaptor.hpp
+++ b/include/boost/thread/executors/scheduling_adaptor.hpp
@@ -37,6 +37,9 @@ namespace executors
 
     ~scheduling_adaptor()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       this->close();
       _scheduler.interrupt();
       _scheduler.join();
-- 
2.43.0


From c285dee24ed6a3699072b78f36616f936420d9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 45/50] fix: sync_bounded_queue left a thread waiting when the
 one notified was interrupted or failed

---
 .../boost/thread/concurrent_queues/sync_bounded_queue.hpp    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index f049932..90ddf60 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -158,7 +158,8 @@ namespace concurrent
       {
         --waiting_empty_;
         lk.unlock();
-        not_empty_.notify_one();
+        // all: a single waiter could be interrupted, or fail to copy the element, and leave the others waiting.
+        not_empty_.notify_all();
       }
     }
     inline void notify_not_full_if_needed(unique_lock<mutex>& lk)
@@ -167,7 +168,7 @@ namespace concurrent
       {
         --waiting_full_;
         lk.unlock();
-        not_full_.notify_one();
+        not_full_.notify_all();
       }
     }
 
-- 
2.43.0


From d5782ef9f8d264297f54a8663cea1153b2b4b746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 46/50] fix: shared_future::get_or must give the alternative,
 not throw the stored exception

---
 include/boost/thread/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index cde0efe..5d4549d 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2280,7 +2280,7 @@ namespace boost
             {
                 boost::throw_exception(future_uninitialized());
             }
-            this->future_->wait();
+            this->future_->wait(false);
             if (this->future_->has_value()) return this->future_->get_sh();
             else return boost::move(v);
         }
-- 
2.43.0


From 48d1fdc4a935bc3e9e035b42985d47a595e1b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 47/50] fix: completion_latch: try_wait blocked, timed waits
 did not time out, late waits never returned, interrupted waits left the latch
 stuck

---
 include/boost/thread/completion_latch.hpp | 87 ++++++++++++++++-------
 1 file changed, 60 insertions(+), 27 deletions(-)

diff --git a/include/boost/thread/completion_latch.hpp b/include/boost/thread/completion_latch.hpp
index 03f4e89..2ffbd99 100644
--- a/include/boost/thread/completion_latch.hpp
+++ b/include/boost/thread/completion_latch.hpp
@@ -9,6 +9,7 @@
 #include <boost/thread/detail/config.hpp>
 #include <boost/thread/detail/delete.hpp>
 #include <boost/thread/detail/counter.hpp>
+#include <boost/thread/detail/thread_interruption.hpp>
 
 #include <boost/thread/mutex.hpp>
 #include <boost/thread/lock_types.hpp>
@@ -47,13 +48,10 @@ namespace boost
     struct around_wait
     {
       completion_latch &that_;
-      boost::unique_lock<boost::mutex> &lk_;
-      around_wait(completion_latch &that, boost::unique_lock<boost::mutex> &lk)
-      : that_(that), lk_(lk)
+      around_wait(completion_latch &that)
+      : that_(that)
       {
-        that_.leavers_.cond_.wait(lk, detail::counter_is_zero(that_.leavers_));
         that_.waiters_.inc_and_notify_all();
-        that_.leavers_.cond_.wait(lk, detail::counter_is_not_zero(that_.leavers_));
       }
       ~around_wait()
       {
@@ -61,16 +59,56 @@ namespace boost
       }
     };
 
+    // The count is exhausted and no thread needs to be waited for in order to go on.
+    bool is_open() const
+    {
+      return count_ == 0 && (leavers_ != 0 || !opening_);
+    }
+
+    struct can_enter;
+    friend struct can_enter;
+    struct can_enter
+    {
+      completion_latch const& that_;
+      explicit can_enter(completion_latch const& that) : that_(that) {}
+      bool operator()() const { return that_.leavers_ == 0 || that_.is_open(); }
+    };
+
+    void wait(unique_lock<mutex> &lk)
+    {
+      leavers_.cond_.wait(lk, can_enter(*this));
+      if (is_open()) return;
+      around_wait aw(*this);
+      leavers_.cond_.wait(lk, detail::counter_is_not_zero(leavers_));
+    }
+
+    template <class Clock, class Duration>
+    cv_status wait_until(unique_lock<mutex> &lk, const chrono::time_point<Clock, Duration>& abs_time)
+    {
+      if (! leavers_.cond_.wait_until(lk, abs_time, can_enter(*this))) return cv_status::timeout;
+      if (is_open()) return cv_status::no_timeout;
+      around_wait aw(*this);
+      return leavers_.cond_.wait_until(lk, abs_time, detail::counter_is_not_zero(leavers_)) || count_ == 0
+          ? cv_status::no_timeout
+          : cv_status::timeout;
+    }
+
     bool count_down(unique_lock<mutex> &lk)
     {
       BOOST_ASSERT(count_ > 0);
       if (--count_ == 0)
       {
-        waiters_.cond_.wait(lk, detail::counter_is_not_zero(waiters_));
-        leavers_.assign_and_notify_all(waiters_);
-        count_.cond_.notify_all();
-        waiters_.cond_.wait(lk, detail::counter_is_zero(waiters_));
-        leavers_.assign_and_notify_all(0);
+        {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+          boost::this_thread::disable_interruption do_not_disturb;
+#endif
+          opening_ = true;
+          waiters_.cond_.wait(lk, detail::counter_is_not_zero(waiters_));
+          leavers_.assign_and_notify_all(waiters_);
+          waiters_.cond_.wait(lk, detail::counter_is_zero(waiters_));
+          opening_ = false;
+          leavers_.assign_and_notify_all(0);
+        }
         lk.unlock();
         funct_();
         return true;
@@ -83,7 +121,7 @@ namespace boost
 
     /// Constructs a latch with a given count.
     completion_latch(std::size_t count) :
-      count_(count), funct_(noop()), waiters_(0), leavers_(0)
+      count_(count), funct_(noop()), waiters_(0), leavers_(0), opening_(false)
     {
     }
 
@@ -93,11 +131,12 @@ namespace boost
     count_(count),
     funct_(boost::move(funct)),
     waiters_(0),
-    leavers_(0)
+    leavers_(0),
+    opening_(false)
     {
     }
     completion_latch(std::size_t count, void(*funct)()) :
-      count_(count), funct_(funct), waiters_(0), leavers_(0)
+      count_(count), funct_(funct), waiters_(0), leavers_(0), opening_(false)
     {
     }
 
@@ -110,16 +149,16 @@ namespace boost
     void wait()
     {
       boost::unique_lock<boost::mutex> lk(mutex_);
-      around_wait aw(*this, lk);
-      count_.cond_.wait(lk, detail::counter_is_zero(count_));
+      wait(lk);
     }
 
     /// @return true if the internal counter is already 0, false otherwise
     bool try_wait()
     {
       boost::unique_lock<boost::mutex> lk(mutex_);
-      around_wait aw(*this, lk);
-      return (count_ == 0);
+      if (count_ != 0) return false;
+      wait(lk);
+      return true;
     }
 
     /// try to wait for a specified amount of time
@@ -128,10 +167,7 @@ namespace boost
     cv_status wait_for(const chrono::duration<Rep, Period>& rel_time)
     {
       boost::unique_lock<boost::mutex> lk(mutex_);
-      around_wait aw(*this, lk);
-      return count_.cond_.wait_for(lk, rel_time, detail::counter_is_zero(count_))
-              ? cv_status::no_timeout
-              : cv_status::timeout;
+      return wait_until(lk, chrono::steady_clock::now() + rel_time);
     }
 
     /// try to wait until the specified time_point is reached
@@ -140,10 +176,7 @@ namespace boost
     cv_status wait_until(const chrono::time_point<Clock, Duration>& abs_time)
     {
       boost::unique_lock<boost::mutex> lk(mutex_);
-      around_wait aw(*this, lk);
-      return count_.cond_.wait_until(lk, abs_time, detail::counter_is_zero(count_))
-          ? cv_status::no_timeout
-          : cv_status::timeout;
+      return wait_until(lk, abs_time);
     }
 
     /// Decrement the count and notify anyone waiting if we reach zero.
@@ -168,8 +201,7 @@ namespace boost
       {
         return;
       }
-      around_wait aw(*this, lk);
-      count_.cond_.wait(lk, detail::counter_is_zero(count_));
+      wait(lk);
     }
     void sync()
     {
@@ -216,6 +248,7 @@ namespace boost
     completion_function funct_;
     detail::counter waiters_;
     detail::counter leavers_;
+    bool opening_; // a thread has exhausted the count and waits for a waiter or for the waiters to leave
   };
 
 } // namespace boost
-- 
2.43.0


From 55f17982175bf5f0eedb232dd3e100320546695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 48/50] fix: promise and packaged_task constructors with an
 allocator leaked their block when the construction in it threw

---
 include/boost/thread/detail/memory.hpp | 27 ++++++++++++++++++++
 include/boost/thread/future.hpp        | 35 ++++++++++++++++++++------
 2 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/include/boost/thread/detail/memory.hpp b/include/boost/thread/detail/memory.hpp
index 51ce84f..f285e29 100644
--- a/include/boost/thread/detail/memory.hpp
+++ b/include/boost/thread/detail/memory.hpp
@@ -13,6 +13,7 @@
 #define BOOST_THREAD_DETAIL_MEMORY_HPP
 
 #include <boost/config.hpp>
+#include <boost/thread/detail/delete.hpp>
 
 #include <boost/thread/csbl/memory/pointer_traits.hpp>
 #include <boost/thread/csbl/memory/allocator_arg.hpp>
@@ -43,6 +44,32 @@ namespace boost
         alloc_traits::deallocate(alloc_, p, s_);
       }
     };
+
+    // Gives a block back to its allocator unless released, i.e. when constructing the object in it throws.
+    template <class _Alloc>
+    class allocation_guard
+    {
+      typedef csbl::allocator_traits<_Alloc> alloc_traits;
+    public:
+      typedef typename alloc_traits::pointer pointer;
+      typedef typename alloc_traits::size_type size_type;
+    private:
+      _Alloc& alloc_;
+      size_type s_;
+      pointer p_;
+      bool owns_;
+    public:
+      BOOST_THREAD_NO_COPYABLE(allocation_guard)
+      allocation_guard(_Alloc& a, size_type s)
+      : alloc_(a), s_(s), p_(a.allocate(s)), owns_(true)
+      {}
+      ~allocation_guard()
+      {
+        if (owns_) alloc_traits::deallocate(alloc_, p_, s_);
+      }
+      pointer get() const BOOST_NOEXCEPT { return p_; }
+      void release() BOOST_NOEXCEPT { owns_ = false; }
+    };
   } //namespace thread_detail
 }
 #endif //  BOOST_THREAD_DETAIL_MEMORY_HPP
diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 5d4549d..84252fa 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2339,7 +2339,10 @@ namespace boost
           A2 a2(a);
           typedef thread_detail::allocator_destructor<A2> D;
 
-          future_ = future_ptr(::new(a2.allocate(1)) detail::shared_state<R>(), D(a2, 1) );
+          thread_detail::allocation_guard<A2> block(a2, 1);
+          detail::shared_state<R>* state = ::new(block.get()) detail::shared_state<R>();
+          block.release();
+          future_ = future_ptr(state, D(a2, 1) );
           future_obtained = false;
         }
 #endif
@@ -2653,7 +2656,10 @@ namespace boost
           A2 a2(a);
           typedef thread_detail::allocator_destructor<A2> D;
 
-          future_ = future_ptr(::new(a2.allocate(1)) detail::shared_state<R&>(), D(a2, 1) );
+          thread_detail::allocation_guard<A2> block(a2, 1);
+          detail::shared_state<R&>* state = ::new(block.get()) detail::shared_state<R&>();
+          block.release();
+          future_ = future_ptr(state, D(a2, 1) );
           future_obtained = false;
         }
 #endif
@@ -2845,7 +2851,10 @@ namespace boost
           A2 a2(a);
           typedef thread_detail::allocator_destructor<A2> D;
 
-          future_ = future_ptr(::new(a2.allocate(1)) detail::shared_state<void>(), D(a2, 1) );
+          thread_detail::allocation_guard<A2> block(a2, 1);
+          detail::shared_state<void>* state = ::new(block.get()) detail::shared_state<void>();
+          block.release();
+          future_ = future_ptr(state, D(a2, 1) );
           future_obtained = false;
         }
 #endif
@@ -3758,7 +3767,10 @@ namespace boost
           A2 a2(a);
           typedef thread_detail::allocator_destructor<A2> D;
 
-          task = task_ptr(::new(a2.allocate(1)) task_shared_state_type(f), D(a2, 1) );
+          thread_detail::allocation_guard<A2> block(a2, 1);
+          task_shared_state_type* state = ::new(block.get()) task_shared_state_type(f);
+          block.release();
+          task = task_ptr(state, D(a2, 1) );
           future_obtained = false;
         }
 #endif // BOOST_THREAD_RVALUE_REFERENCES_DONT_MATCH_FUNCTION_PTR
@@ -3782,7 +3794,10 @@ namespace boost
           A2 a2(a);
           typedef thread_detail::allocator_destructor<A2> D;
 
-          task = task_ptr(::new(a2.allocate(1)) task_shared_state_type(boost::forward<F>(f)), D(a2, 1) );
+          thread_detail::allocation_guard<A2> block(a2, 1);
+          task_shared_state_type* state = ::new(block.get()) task_shared_state_type(boost::forward<F>(f));
+          block.release();
+          task = task_ptr(state, D(a2, 1) );
           future_obtained = false;
         }
 #else // ! defined BOOST_NO_CXX11_RVALUE_REFERENCES
@@ -3802,7 +3817,10 @@ namespace boost
           A2 a2(a);
           typedef thread_detail::allocator_destructor<A2> D;
 
-          task = task_ptr(::new(a2.allocate(1)) task_shared_state_type(f), D(a2, 1) );
+          thread_detail::allocation_guard<A2> block(a2, 1);
+          task_shared_state_type* state = ::new(block.get()) task_shared_state_type(f);
+          block.release();
+          task = task_ptr(state, D(a2, 1) );
           future_obtained = false;
         }
         template <class F, class Allocator>
@@ -3821,7 +3839,10 @@ namespace boost
           A2 a2(a);
           typedef thread_detail::allocator_destructor<A2> D;
 
-          task = task_ptr(::new(a2.allocate(1)) task_shared_state_type(boost::move(f)), D(a2, 1) );
+          thread_detail::allocation_guard<A2> block(a2, 1);
+          task_shared_state_type* state = ::new(block.get()) task_shared_state_type(boost::move(f));
+          block.release();
+          task = task_ptr(state, D(a2, 1) );
           future_obtained = false;
         }
 
-- 
2.43.0


From 5010f5194c5650519db0e19aa8ae24dca9a29f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:10 +0000
Subject: [PATCH 49/50] fix: a promise whose result cannot be registered for
 the thread's exit must not stay half satisfied

---
 include/boost/thread/future.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 84252fa..16d5c49 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -496,6 +496,21 @@ namespace boost
               exception=e;
               this->is_constructed = true;
             }
+            // The result has been stored: make it ready when the thread ends, or take it back if that cannot be registered.
+            void make_ready_at_thread_exit()
+            {
+              try
+              {
+                detail::make_ready_at_thread_exit(shared_from_this());
+              }
+              catch (...)
+              {
+                unique_lock<boost::mutex> lk(this->mutex);
+                exception = exception_ptr();
+                this->is_constructed = false;
+                throw;
+              }
+            }
             void set_exception_at_thread_exit(exception_ptr e)
             {
               set_exception_deferred(e);
@@ -506,7 +521,7 @@ namespace boost
 //              }
 //              exception=e;
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              this->make_ready_at_thread_exit();
             }
 
             bool has_value() const
@@ -751,7 +766,7 @@ namespace boost
 //#endif
 //
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              this->make_ready_at_thread_exit();
             }
             void set_value_at_thread_exit(rvalue_source_type result_)
             {
@@ -774,7 +789,7 @@ namespace boost
 //#endif
 //#endif
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              this->make_ready_at_thread_exit();
             }
 
         private:
@@ -857,7 +872,7 @@ namespace boost
 //                  throw_exception(promise_already_satisfied());
 //              result= &result_;
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              this->make_ready_at_thread_exit();
             }
 
         private:
@@ -931,7 +946,7 @@ namespace boost
 //                  throw_exception(promise_already_satisfied());
 //              }
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              this->make_ready_at_thread_exit();
             }
         private:
             shared_state(shared_state const&);
-- 
2.43.0


From 713f4815f080cc0413205e7823ee77311cff35c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:26 +0000
Subject: [PATCH 50/50] fix: at_thread_exit leaked its function when it could
 not be registered

---
 include/boost/thread/detail/thread.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/detail/thread.hpp b/include/boost/thread/detail/thread.hpp
index a1bfe64..2e033eb 100644
--- a/include/boost/thread/detail/thread.hpp
+++ b/include/boost/thread/detail/thread.hpp
@@ -854,7 +854,15 @@ namespace boost
         void at_thread_exit(F f)
         {
             detail::thread_exit_function_base* const thread_exit_func=detail::heap_new<detail::thread_exit_function<F> >(f);
-            detail::add_thread_exit_function(thread_exit_func);
+            try
+            {
+                detail::add_thread_exit_function(thread_exit_func);
+            }
+            catch(...)
+            {
+                detail::heap_delete(thread_exit_func);
+                throw;
+            }
         }
     }
 }
-- 
2.43.0

