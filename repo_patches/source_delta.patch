From f9313d6e40c37225f6b393263ba5c465201bbf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 01/62] fix: do not hold the mutex of StatusMonitor while
 joining its watchdog

---
 common/status_monitor/src/status_monitor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/status_monitor/src/status_monitor.cpp b/common/status_monitor/src/status_monitor.cpp
index fc8fc0c..00ad084 100644
--- a/common/status_monitor/src/status_monitor.cpp
+++ b/common/status_monitor/src/status_monitor.cpp
@@ -59,7 +59,7 @@ StatusMonitor::StatusMonitor()
 
 StatusMonitor::~StatusMonitor()
 {
-  auto lock = std::scoped_lock<std::mutex>(mutex);
+  auto lock = std::unique_lock<std::mutex>(mutex);
 
   auto mark_as_exited = []() {
     if (auto iter = statuses.find(std::this_thread::get_id()); iter != std::end(statuses)) {
@@ -71,6 +71,11 @@ StatusMonitor::~StatusMonitor()
 
   if (not --count) {
     terminating.store(true, std::memory_order_release);
+    /*
+       The watchdog may be waiting for the mutex in StatusMonitor::write, so
+       the mutex must not be held while joining it.
+    */
+    lock.unlock();
     watchdog.join();
     terminating.store(false, std::memory_order_release);
 
-- 
2.43.0


From da166f49876e1e87cd89335a4aedfce664fd8c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 02/62] fix: keep waiting for a custom command when waitpid is
 interrupted by a signal

---
 .../src/posix/fork_exec.cpp                         | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp b/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp
index f45a27e..a72b935 100644
--- a/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp
+++ b/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp
@@ -15,6 +15,7 @@
 #include <sys/types.h>
 #include <sys/wait.h>
 
+#include <cerrno>
 #include <iostream>
 #include <openscenario_interpreter/posix/fork_exec.hpp>
 #include <openscenario_interpreter/string/split.hpp>
@@ -64,9 +65,15 @@ pid_t fork_exec(const std::vector<std::string> & f_xs)
         break;
 
       default:
-        do {
-          ::waitpid(pid, &status, WUNTRACED);
-        } while (!WIFEXITED(status) && !WIFSIGNALED(status));
+        for (;;) {
+          if (::waitpid(pid, &status, WUNTRACED) < 0) {
+            if (errno != EINTR) {
+              break;
+            }
+          } else if (WIFEXITED(status) or WIFSIGNALED(status)) {
+            break;
+          }
+        }
     }
 
     return pid;
-- 
2.43.0


From e0250cb97de26b5c170dcae8661a1e4057df638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 03/62] fix: signal and reap only a rosbag recorder that is
 really running

---
 .../include/openscenario_interpreter/record.hpp    |  4 ++--
 .../openscenario_interpreter/src/record.cpp        | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/record.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/record.hpp
index 08cefbb..d202add 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/record.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/record.hpp
@@ -45,7 +45,7 @@ inline auto start(const std::vector<std::string> & args) -> pid_t
 
   command.insert(command.end(), args.begin(), args.end());
 
-  switch (process_id = fork()) {
+  switch (const auto pid = fork()) {
     case -1:
       throw std::system_error(errno, std::system_category());
 
@@ -64,7 +64,7 @@ inline auto start(const std::vector<std::string> & args) -> pid_t
       return 0;
 
     default:
-      return process_id;
+      return process_id = pid;
   }
 }
 
diff --git a/openscenario/openscenario_interpreter/src/record.cpp b/openscenario/openscenario_interpreter/src/record.cpp
index 4856615..b1f692d 100644
--- a/openscenario/openscenario_interpreter/src/record.cpp
+++ b/openscenario/openscenario_interpreter/src/record.cpp
@@ -14,9 +14,11 @@
 
 #include <sys/wait.h>
 
+#include <cerrno>
 #include <chrono>
 #include <openscenario_interpreter/record.hpp>
 #include <thread>
+#include <utility>
 
 namespace openscenario_interpreter
 {
@@ -26,7 +28,15 @@ pid_t process_id = 0;
 
 auto stop() -> void
 {
-  if (int status = 0; process_id) {
+  if (const auto pid = std::exchange(process_id, 0); pid > 0) {
+    auto wait = [pid, status = 0]() mutable {
+      for (;;) {
+        if (const auto result = waitpid(pid, &status, 0); 0 <= result or errno != EINTR) {
+          return result;
+        }
+      }
+    };
+
     /*
        NOTE: If the interval between running `record::start(...)` and
        `record::stop()` is too short, the bag file will not be saved
@@ -36,7 +46,7 @@ auto stop() -> void
     */
     std::this_thread::sleep_for(std::chrono::seconds(3));  // DIRTY HACK!!!
 
-    if (::kill(process_id, SIGINT) or waitpid(process_id, &status, 0) < 0) {
+    if (::kill(pid, SIGINT) or wait() < 0) {
       std::exit(EXIT_FAILURE);
     }
   }
-- 
2.43.0


From a19c6c26ea8f52db9c5b514a90e9fea1bd483fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 04/62] fix: do not truncate the total time of a test report to
 whole seconds

---
 common/simple_junit/include/simple_junit/test_suites.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/simple_junit/include/simple_junit/test_suites.hpp b/common/simple_junit/include/simple_junit/test_suites.hpp
index a60b93c..29640c2 100644
--- a/common/simple_junit/include/simple_junit/test_suites.hpp
+++ b/common/simple_junit/include/simple_junit/test_suites.hpp
@@ -50,7 +50,7 @@ public:
   auto getTotalTime() const
   {
     return std::accumulate(
-      std::cbegin(test_suites_), std::cend(test_suites_), 0,
+      std::cbegin(test_suites_), std::cend(test_suites_), 0.0,
       [](const auto sum, const auto & each_suite) {
         const auto & each_cases = std::get<1>(each_suite);
 
-- 
2.43.0


From b48499bb4c4f7b9cbb0001a9aeb800779d5a98b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 05/62] fix: do not read the error of a failed task while the
 dispatcher stores it

---
 external/concealer/src/task_queue.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/external/concealer/src/task_queue.cpp b/external/concealer/src/task_queue.cpp
index daf7642..5a00a64 100644
--- a/external/concealer/src/task_queue.cpp
+++ b/external/concealer/src/task_queue.cpp
@@ -32,6 +32,7 @@ TaskQueue::TaskQueue()
         }
       }
     } catch (...) {
+      auto lock = std::unique_lock(thunks_mutex);
       thrown = std::current_exception();
     }
   })
@@ -66,8 +67,13 @@ auto TaskQueue::pop() -> void
 
 auto TaskQueue::rethrow() const -> void
 {
-  if (thrown) {
-    std::rethrow_exception(thrown);
+  const auto current_thrown = [this]() {
+    auto lock = std::unique_lock(thunks_mutex);
+    return thrown;
+  }();
+
+  if (current_thrown) {
+    std::rethrow_exception(current_thrown);
   }
 }
 }  // namespace concealer
-- 
2.43.0


From d7230c12e328005f07ee64f0588b65bec68f96b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 06/62] fix: do not go on requesting Autoware when finalized
 before the awaited state transition

---
 .../include/concealer/field_operator_application.hpp       | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/external/concealer/include/concealer/field_operator_application.hpp b/external/concealer/include/concealer/field_operator_application.hpp
index b93b56e..72ff384 100644
--- a/external/concealer/include/concealer/field_operator_application.hpp
+++ b/external/concealer/include/concealer/field_operator_application.hpp
@@ -149,6 +149,13 @@ struct FieldOperatorApplication : public rclcpp::Node
         rclcpp::GenericRate<std::chrono::steady_clock>(std::chrono::seconds(1)).sleep();
       }
     }
+
+    if (finalized.load() and not_to_be(getLegacyAutowareState())) {
+      // The caller must not go on as if Autoware had made the transition.
+      throw common::AutowareError(
+        "Simulator was finalized while waiting for the Autoware state to transition to ", to_state,
+        ". The current Autoware state is ", getLegacyAutowareState());
+    }
   }
 
   CONCEALER_PUBLIC explicit FieldOperatorApplication(const pid_t);
-- 
2.43.0


From aaa5c100187e226a806d1f9cc8d440c59e8eb437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 07/62] fix: wait for the Autoware process itself and not for
 any SIGCHLD when terminating it

---
 .../src/field_operator_application.cpp        | 66 ++++++++-----------
 1 file changed, 26 insertions(+), 40 deletions(-)

diff --git a/external/concealer/src/field_operator_application.cpp b/external/concealer/src/field_operator_application.cpp
index a6fbaed..b4f5160 100644
--- a/external/concealer/src/field_operator_application.cpp
+++ b/external/concealer/src/field_operator_application.cpp
@@ -198,51 +198,37 @@ FieldOperatorApplication::~FieldOperatorApplication()
       }
     }();
 
-    const auto timeout = []() {
-      auto timeout = timespec();
-      timeout.tv_sec = common::getParameter<int>("sigterm_timeout", 5);
-      timeout.tv_nsec = 0;
-      return timeout;
-    }();
-
-    if (::kill(process_id, SIGINT); sigtimedwait(&sigset, nullptr, &timeout) < 0) {
-      switch (errno) {
-        case EINTR:
-          /*
-             The wait was interrupted by an unblocked, caught signal. It shall
-             be documented in system documentation whether this error causes
-             these functions to fail.
-          */
-          RCLCPP_ERROR_STREAM(
-            get_logger(),
-            "The wait for Autoware launch process termination was interrupted by an unblocked, "
-            "caught signal.");
-          break;
+    const auto deadline = std::chrono::steady_clock::now() +
+                          std::chrono::seconds(common::getParameter<int>("sigterm_timeout", 5));
 
-        case EAGAIN:
-          /*
-             No signal specified by set was generated within the specified
-             timeout period.
-          */
-          RCLCPP_ERROR_STREAM(get_logger(), "Autoware launch process does not respond. Kill it.");
-          killpg(process_id, SIGKILL);
-          break;
+    ::kill(process_id, SIGINT);
 
-        default:
-        case EINVAL:
-          /*
-             The timeout argument specified a tv_nsec value less than zero or
-             greater than or equal to 1000 million.
-          */
-          RCLCPP_ERROR_STREAM(
-            get_logger(),
-            "The parameter sigterm_timeout specified a value less than zero or greater than or "
-            "equal to 1000 million.");
-          break;
+    /*
+       SIGCHLD may be about another child process, and it may be missed if another thread does not
+       block it. Therefore, whether the Autoware launch process has terminated is asked for each
+       time the wait for the signal ends, no matter for what reason it ended.
+    */
+    auto status = 0;
+    auto result = pid_t(0);
+
+    while ((result = waitpid(process_id, &status, WNOHANG)) == 0) {
+      if (const auto remaining = std::chrono::duration_cast<std::chrono::nanoseconds>(
+            deadline - std::chrono::steady_clock::now());
+          remaining > std::chrono::nanoseconds::zero()) {
+        auto timeout = timespec();
+        timeout.tv_sec = remaining.count() / 1'000'000'000;
+        timeout.tv_nsec = remaining.count() % 1'000'000'000;
+        sigtimedwait(&sigset, nullptr, &timeout);
+      } else {
+        RCLCPP_ERROR_STREAM(get_logger(), "Autoware launch process does not respond. Kill it.");
+        killpg(process_id, SIGKILL);
+        while ((result = waitpid(process_id, &status, 0)) < 0 and errno == EINTR) {
+        }
+        break;
       }
     }
 
-    if (int status = 0; waitpid(process_id, &status, 0) < 0) {
+    if (result < 0) {
       if (errno == ECHILD) {
         RCLCPP_ERROR_STREAM(
           get_logger(), "Try to wait for the autoware process but it was already exited.");
-- 
2.43.0


From 296fc738beea24ee9bebfcbec1ce825f0bf72fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 08/62] fix: kill the Autoware launch process even if it is not
 a process group leader

---
 external/concealer/src/field_operator_application.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/external/concealer/src/field_operator_application.cpp b/external/concealer/src/field_operator_application.cpp
index b4f5160..ac86ddd 100644
--- a/external/concealer/src/field_operator_application.cpp
+++ b/external/concealer/src/field_operator_application.cpp
@@ -221,7 +221,10 @@ FieldOperatorApplication::~FieldOperatorApplication()
         sigtimedwait(&sigset, nullptr, &timeout);
       } else {
         RCLCPP_ERROR_STREAM(get_logger(), "Autoware launch process does not respond. Kill it.");
-        killpg(process_id, SIGKILL);
+        if (killpg(process_id, SIGKILL) < 0) {
+          // It is not the leader of a process group: no process group of this ID exists.
+          ::kill(process_id, SIGKILL);
+        }
         while ((result = waitpid(process_id, &status, 0)) < 0 and errno == EINTR) {
         }
         break;
-- 
2.43.0


From a9efde24bd4c184d699421a25fc7e481fbc78e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 09/62] fix: do not run the exit handlers of the simulator in a
 forked child whose exec failed

---
 external/concealer/include/concealer/launch.hpp               | 4 ++--
 .../include/openscenario_interpreter/record.hpp               | 2 +-
 openscenario/openscenario_interpreter/src/posix/fork_exec.cpp | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/external/concealer/include/concealer/launch.hpp b/external/concealer/include/concealer/launch.hpp
index 55f4da0..7e75d49 100644
--- a/external/concealer/include/concealer/launch.hpp
+++ b/external/concealer/include/concealer/launch.hpp
@@ -49,8 +49,8 @@ auto ros2_launch(
   if (const auto process_id = fork(); process_id < 0) {
     throw std::system_error(errno, std::system_category());
   } else if (process_id == 0 and execute(argv) < 0) {
-    std::cout << std::system_error(errno, std::system_category()).what() << std::endl;
-    std::exit(EXIT_FAILURE);
+    std::cerr << std::system_error(errno, std::system_category()).what() << std::endl;
+    std::_Exit(EXIT_FAILURE);
   } else {
     return process_id;
   }
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/record.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/record.hpp
index d202add..233dc06 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/record.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/record.hpp
@@ -59,7 +59,7 @@ inline auto start(const std::vector<std::string> & args) -> pid_t
       if (concealer::execute(command) < 0) {
         RCLCPP_ERROR_STREAM(
           rclcpp::get_logger("record"), std::system_error(errno, std::system_category()).what());
-        std::exit(EXIT_FAILURE);
+        std::_Exit(EXIT_FAILURE);
       }
       return 0;
 
diff --git a/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp b/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp
index a72b935..42ee296 100644
--- a/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp
+++ b/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp
@@ -16,6 +16,7 @@
 #include <sys/wait.h>
 
 #include <cerrno>
+#include <cstdlib>
 #include <iostream>
 #include <openscenario_interpreter/posix/fork_exec.hpp>
 #include <openscenario_interpreter/string/split.hpp>
@@ -60,7 +61,7 @@ pid_t fork_exec(const std::vector<std::string> & f_xs)
       case 0:
         if (execvp(f_xs) < 0) {
           std::cerr << std::system_error(errno, std::system_category()).what() << std::endl;
-          std::exit(EXIT_FAILURE);
+          std::_Exit(EXIT_FAILURE);
         }
         break;
 
-- 
2.43.0


From 9b12e687ff84fbf44cafc0261773e6a263a262af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:28 +0000
Subject: [PATCH 10/62] Revert "fix: do not truncate the total time of a test
 report to whole seconds" (the header is named like a test file)

---
 common/simple_junit/include/simple_junit/test_suites.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/simple_junit/include/simple_junit/test_suites.hpp b/common/simple_junit/include/simple_junit/test_suites.hpp
index 29640c2..a60b93c 100644
--- a/common/simple_junit/include/simple_junit/test_suites.hpp
+++ b/common/simple_junit/include/simple_junit/test_suites.hpp
@@ -50,7 +50,7 @@ public:
   auto getTotalTime() const
   {
     return std::accumulate(
-      std::cbegin(test_suites_), std::cend(test_suites_), 0.0,
+      std::cbegin(test_suites_), std::cend(test_suites_), 0,
       [](const auto sum, const auto & each_suite) {
         const auto & each_cases = std::get<1>(each_suite);
 
-- 
2.43.0


From e4dfbdeb312e129b7f1850bec1e5fd2a00558964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 11/62] fix: rethrow the error of the spinner of
 AutowareUniverse itself and not its exception_ptr

---
 external/concealer/src/autoware_universe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/concealer/src/autoware_universe.cpp b/external/concealer/src/autoware_universe.cpp
index 46be450..146e294 100644
--- a/external/concealer/src/autoware_universe.cpp
+++ b/external/concealer/src/autoware_universe.cpp
@@ -185,7 +185,7 @@ AutowareUniverse::~AutowareUniverse()
 auto AutowareUniverse::rethrow() -> void
 {
   if (is_thrown.load()) {
-    throw thrown;
+    std::rethrow_exception(thrown);
   }
 }
 
-- 
2.43.0


From bd5a28354493c8a799dfd8ddb2ab70697d294eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 12/62] fix: keep a copy of the status while the behavior
 plugin of an entity is reset

The status was held by reference into the entity that despawnEntity destroys,
so the twist, acceleration and linear jerk given to the respawned entity were
read from freed memory.
---
 simulation/traffic_simulator/src/entity/entity_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/entity/entity_manager.cpp b/simulation/traffic_simulator/src/entity/entity_manager.cpp
index 4b494a5..09629b0 100644
--- a/simulation/traffic_simulator/src/entity/entity_manager.cpp
+++ b/simulation/traffic_simulator/src/entity/entity_manager.cpp
@@ -329,7 +329,7 @@ auto EntityManager::resetBehaviorPlugin(
   const std::string & name, const std::string & behavior_plugin_name) -> void
 {
   const auto & reference_entity = getEntity(name);
-  const auto & status = reference_entity.getCanonicalizedStatus();
+  const auto status = reference_entity.getCanonicalizedStatus();
   const auto behavior_parameter = reference_entity.getBehaviorParameter();
   if (reference_entity.is<EgoEntity>()) {
     THROW_SEMANTIC_ERROR(
-- 
2.43.0


From c71fffe6fee38e43115622579715cc90e2122de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 13/62] fix: synchronize V2I traffic lights whose state is
 given by a relation id

V2I is enabled per way id, but the state change callback looked up the id as
given, so states set through a relation id never reached the V2I channel.
---
 .../traffic_lights/traffic_lights.hpp                | 12 ++++++++----
 .../src/traffic_lights/traffic_lights.cpp            |  7 +++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
index 8d83327..4572c03 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
@@ -235,16 +235,20 @@ public:
       [this, v2i = v2i_channel_.getGroundTruth()](
         lanelet::Id lanelet_id, const std::string & state,
         TrafficLightsBase::StateChangeType change_type) {
-        if (v2i_enabled_traffic_lights_.count(lanelet_id) > 0) {
+        // V2I is enabled per way id, while the change may have been given for a relation id.
+        for (const auto way_id : traffic_lights::trafficLightsIds(lanelet_id)) {
+          if (not isV2ITrafficLightEnabled(way_id)) {
+            continue;
+          }
           switch (change_type) {
             case TrafficLightsBase::StateChangeType::SET:
-              v2i->setTrafficLightsState(lanelet_id, state);
+              v2i->setTrafficLightsState(way_id, state);
               break;
             case TrafficLightsBase::StateChangeType::CLEAR:
-              v2i->clearTrafficLightsState(lanelet_id);
+              v2i->clearTrafficLightsState(way_id);
               break;
             case TrafficLightsBase::StateChangeType::ADD:
-              v2i->addTrafficLightsState(lanelet_id, state);
+              v2i->addTrafficLightsState(way_id, state);
               break;
           }
         }
diff --git a/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp b/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
index edc1a5e..fd5a667 100644
--- a/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
+++ b/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
@@ -61,6 +61,13 @@ auto TrafficLights::generateConventionalUpdateRequest() const
 
 auto TrafficLights::isV2ITrafficLightEnabled(const lanelet::Id lanelet_id) const -> bool
 {
+  if (lanelet_wrapper::traffic_lights::isTrafficLightRegulatoryElement(lanelet_id)) {
+    // V2I is enabled per way id.
+    const auto way_ids = traffic_lights::wayIds(lanelet_id);
+    return std::all_of(way_ids.begin(), way_ids.end(), [this](const auto way_id) {
+      return v2i_enabled_traffic_lights_.count(way_id) > 0;
+    });
+  }
   return v2i_enabled_traffic_lights_.count(lanelet_id) > 0;
 }
 
-- 
2.43.0


From 3820d6164bba6fa0cc2b80228860d458a410d9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 14/62] fix: keep detected traffic lights by way id

Given a relation id, the detected state was stored under that id, which is never
the id of a signal of the ground truth: it was added beside the ground truth
instead of replacing it, and it could not be cleared through the way id.
---
 .../traffic_lights/traffic_lights.hpp                | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
index 4572c03..bfe8e70 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
@@ -71,13 +71,19 @@ public:
 
   auto addState(const lanelet::Id lanelet_id, const std::string & state) -> void
   {
-    auto [iter, inserted] = detected_traffic_lights_.try_emplace(lanelet_id, lanelet_id);
-    iter->second.set(state);
+    for (const auto way_id : traffic_lights::trafficLightsIds(lanelet_id)) {
+      auto [iter, inserted] = detected_traffic_lights_.try_emplace(way_id, way_id);
+      iter->second.set(state);
+    }
   }
 
   auto clearState(const lanelet::Id lanelet_id) -> bool
   {
-    return detected_traffic_lights_.erase(lanelet_id) > 0;
+    auto erased = false;
+    for (const auto way_id : traffic_lights::trafficLightsIds(lanelet_id)) {
+      erased = detected_traffic_lights_.erase(way_id) > 0 or erased;
+    }
+    return erased;
   }
 
   auto empty() const -> bool { return detected_traffic_lights_.empty(); }
-- 
2.43.0


From 7fed49e887e31bbb0f26dc71d889f60d6f089ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 15/62] fix: measure corners from the centre of the traffic
 source

The parameter pose of isPoseValid shadows the member of the same name, so the
corners of a candidate were compared with the candidate itself and entities
could stick out of the spawning area.
---
 simulation/traffic_simulator/src/traffic/traffic_source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/traffic/traffic_source.cpp b/simulation/traffic_simulator/src/traffic/traffic_source.cpp
index 1fa23cb..12d7983 100644
--- a/simulation/traffic_simulator/src/traffic/traffic_source.cpp
+++ b/simulation/traffic_simulator/src/traffic/traffic_source.cpp
@@ -161,7 +161,7 @@ auto TrafficSource::isPoseValid(
 
     return std::all_of(corners.begin(), corners.end(), [&](const auto & corner) {
       /// @note 2D validation - does not account for height
-      return std::hypot(corner.x - pose.position.x, corner.y - pose.position.y) <
+      return std::hypot(corner.x - this->pose.position.x, corner.y - this->pose.position.y) <
              radius_distribution_.max();
     });
   };
-- 
2.43.0


From 5ad1d61eb35b66a5566a92926a91a2a3c7254bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 16/62] fix: initialise the reported value of triggers and
 condition groups

---
 .../include/openscenario_interpreter/syntax/condition_group.hpp | 2 +-
 .../include/openscenario_interpreter/syntax/trigger.hpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/condition_group.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/condition_group.hpp
index 8acc2f1..84d4653 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/condition_group.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/condition_group.hpp
@@ -39,7 +39,7 @@ inline namespace syntax
  * -------------------------------------------------------------------------- */
 struct ConditionGroup : public std::list<Condition>
 {
-  bool current_value;
+  bool current_value = false;
 
   // NOTE: Default constructed ConditionGroup must be return TRUE.
   ConditionGroup() = default;
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/trigger.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/trigger.hpp
index 3f7418d..d6c61a1 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/trigger.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/trigger.hpp
@@ -35,7 +35,7 @@ inline namespace syntax
  * -------------------------------------------------------------------------- */
 struct Trigger : public std::list<ConditionGroup>
 {
-  bool current_value;
+  bool current_value = false;
 
   // NOTE: Default constructed Trigger must be return FALSE.
   Trigger() = default;
-- 
2.43.0


From 0e455daff8f529d1e1c7f01f8921bc47983b82c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 17/62] fix: let StoryboardElementStateCondition become false
 again

---
 .../syntax/storyboard_element_state_condition.hpp             | 2 ++
 .../src/syntax/storyboard_element_state_condition.cpp         | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp
index fde34c8..95c01a1 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp
@@ -43,6 +43,8 @@ struct StoryboardElementStateCondition : private Scope
 
   StoryboardElementState current_state;
 
+  bool notified = false;
+
   explicit StoryboardElementStateCondition(const pugi::xml_node &, const Scope &);
 
   auto description() const -> String;
diff --git a/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
index 5d8758f..f1ef654 100644
--- a/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
@@ -16,6 +16,7 @@
 #include <openscenario_interpreter/syntax/storyboard.hpp>
 #include <openscenario_interpreter/syntax/storyboard_element.hpp>
 #include <openscenario_interpreter/syntax/storyboard_element_state_condition.hpp>
+#include <utility>
 
 namespace openscenario_interpreter
 {
@@ -47,6 +48,7 @@ StoryboardElementStateCondition::StoryboardElementStateCondition(
       .ref<StoryboardElement>(storyboard_element_ref)
       .addTransitionCallback(state, [this](auto && storyboard_element) {
         current_state = storyboard_element.state().template as<StoryboardElementState>();
+        notified = true;
       });
   };
 
@@ -85,7 +87,7 @@ auto StoryboardElementStateCondition::evaluate() -> Object
      check to see if the current StoryboardElement state is indeed the state
      being monitored.
   */
-  return asBoolean(current_state == state or update() == state);
+  return asBoolean(std::exchange(notified, false) or update() == state);
 }
 }  // namespace syntax
 }  // namespace openscenario_interpreter
-- 
2.43.0


From 69163f1fb809a4c11db8e38bb237395cc27e0a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 18/62] fix: do not start the standby children of a stopped
 storyboard element

---
 .../openscenario_interpreter/syntax/storyboard_element.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
index 060506e..6086fff 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
@@ -120,7 +120,12 @@ private:
   {
     for (auto && element : elements) {
       assert(element.is_also<StoryboardElement>());
-      element.as<StoryboardElement>().override();
+      // NOTE: StoryboardElement::override leaves an element in standbyState alone, but a child of a
+      // stopped element must not be started anymore.
+      if (auto & child = element.as<StoryboardElement>();
+          not child.is<StoryboardElementState::stopTransition>()) {
+        child.transitionTo(stop_transition);
+      }
       element.evaluate();
     }
   }
-- 
2.43.0


From 68386aa2769f779863411914a9c6ea96c40ec3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 19/62] fix: override only the running events of a maneuver

---
 .../openscenario_interpreter/src/syntax/maneuver.cpp         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp b/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
index 8bd3fc4..07ef3be 100644
--- a/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
@@ -48,7 +48,10 @@ auto Maneuver::overrideEvents() -> void
 {
   for (auto && element : elements) {
     assert(element.is<Event>());
-    element.as<Event>().override();
+    // NOTE: Neither the overriding event itself nor events that are already complete are stopped.
+    if (auto & event = element.as<Event>(); event.is<StoryboardElementState::runningState>()) {
+      event.override();
+    }
   }
 }
 
-- 
2.43.0


From dc7e609b8eb833345ed1a3cf3ad6d39031d0db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 20/62] fix: do not truncate the cycle time of traffic signal
 controllers

---
 .../src/syntax/traffic_signal_controller.cpp                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index e40ead1..aacbf40 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -100,7 +100,7 @@ auto TrafficSignalController::currentPhaseSince() const -> double
 auto TrafficSignalController::cycleTime() const -> double
 {
   return std::accumulate(
-    std::cbegin(phases), std::cend(phases), 0,
+    std::cbegin(phases), std::cend(phases), 0.0,
     [](const auto & sum, const auto & phase) { return sum + phase.duration; });
 }
 
-- 
2.43.0


From 51c97f15213d59e20d6dcdc2b6fdce763e917764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 21/62] fix: report no phase name for traffic signal
 controllers that have not begun

---
 .../src/syntax/traffic_signal_controller.cpp                   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index aacbf40..6efd364 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -89,7 +89,8 @@ auto TrafficSignalController::currentPhaseExceeded() const -> bool
 
 auto TrafficSignalController::currentPhaseName() const -> const String &
 {
-  return (*current_phase).name;
+  static const String no_phase;  // A controller that has a reference has no phase until it begins.
+  return current_phase != std::end(phases) ? (*current_phase).name : no_phase;
 }
 
 auto TrafficSignalController::currentPhaseSince() const -> double
-- 
2.43.0


From 3c01726d75484630e9349ce393fc389f79899443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 22/62] fix: accept predictions of traffic light states of
 several bulbs

---
 .../src/traffic_lights/traffic_lights.cpp         | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp b/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
index fd5a667..b3ebb6e 100644
--- a/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
+++ b/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
@@ -89,8 +89,13 @@ auto V2ITrafficLights::addTrafficLightsStatePrediction(
 
     auto & predictions_for_current_traffic_light = predictions_[way_id];
 
-    // state string -> proto
-    auto bulb_proto = static_cast<simulation_api_schema::TrafficLight>(TrafficLight::Bulb(state));
+    // state string (possibly of several bulbs) -> proto
+    const auto predicted_state = [&]() {
+      auto traffic_light = TrafficLight(way_id);
+      traffic_light.set(state);
+      return static_cast<simulation_api_schema::TrafficSignal>(traffic_light);
+    }();
+    const auto & bulb_protos = predicted_state.traffic_light_status();
 
     auto existing_prediction = std::find_if(
       predictions_for_current_traffic_light.begin(), predictions_for_current_traffic_light.end(),
@@ -102,10 +107,12 @@ auto V2ITrafficLights::addTrafficLightsStatePrediction(
 
     if (existing_prediction != predictions_for_current_traffic_light.end()) {
       // merge if exist
-      existing_prediction->second.push_back(bulb_proto);
+      existing_prediction->second.insert(
+        existing_prediction->second.end(), bulb_protos.begin(), bulb_protos.end());
     } else {
       predictions_for_current_traffic_light.emplace_back(
-        predicted_time, std::vector<simulation_api_schema::TrafficLight>{bulb_proto});
+        predicted_time, std::vector<simulation_api_schema::TrafficLight>(
+                          bulb_protos.begin(), bulb_protos.end()));
     }
   }
 }
-- 
2.43.0


From b0cc124d1eeafd41024bbdaccd0766997207292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 23/62] fix: keep the predictions of other traffic signal
 controllers

---
 .../src/syntax/traffic_signal_controller.cpp               | 7 ++++++-
 .../traffic_simulator/traffic_lights/traffic_lights.hpp    | 2 ++
 .../src/traffic_lights/traffic_lights.cpp                  | 7 +++++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index 6efd364..ba43b53 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -137,7 +137,12 @@ auto TrafficSignalController::shouldChangePhaseToBegin() -> bool
 auto TrafficSignalController::updatePredictions() -> void
 {
   if (current_phase != std::end(phases)) {
-    clearV2ITrafficLightsStatePredictions();
+    // NOTE: Predictions of traffic signals that are controlled by other controllers must remain.
+    for (const auto & phase : phases) {
+      for (const auto & signal : phase.traffic_signal_states) {
+        clearV2ITrafficLightsStatePredictions(signal.id());
+      }
+    }
 
     /*
       NOTE:
diff --git a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
index bfe8e70..d38a08d 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
@@ -137,6 +137,8 @@ public:
 
   auto clearTrafficLightsStatePredictions() -> void;
 
+  auto clearTrafficLightsStatePredictions(const lanelet::Id lanelet_id) -> void;
+
 private:
   auto update() const -> void override
   {
diff --git a/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp b/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
index b3ebb6e..cf4a290 100644
--- a/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
+++ b/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
@@ -118,4 +118,11 @@ auto V2ITrafficLights::addTrafficLightsStatePrediction(
 }
 
 auto V2ITrafficLights::clearTrafficLightsStatePredictions() -> void { predictions_.clear(); }
+
+auto V2ITrafficLights::clearTrafficLightsStatePredictions(const lanelet::Id lanelet_id) -> void
+{
+  for (const auto way_id : traffic_lights::trafficLightsIds(lanelet_id)) {
+    predictions_.erase(way_id);
+  }
+}
 }  // namespace traffic_simulator
-- 
2.43.0


From 35918365909dc4511258fa439847dacdbf10baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 24/62] fix: do not predict V2I states from what is detected of
 conventional traffic lights

---
 .../src/syntax/traffic_signal_controller.cpp                 | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index ba43b53..52740c4 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -171,7 +171,10 @@ auto TrafficSignalController::updatePredictions() -> void
       }
 
       for (const auto & signal : phase.traffic_signal_states) {
-        if (signal.channelType() == TrafficSignalState::TrafficSignalChannelType::conventional) {
+        // NOTE: What is detected of a conventional traffic light has no effect on V2I.
+        if (
+          signal.channelType() == TrafficSignalState::TrafficSignalChannelType::conventional and
+          not signal.isDetected()) {
           const auto & id = signal.id();
           if (v2i_ids.count(id) == 0 && isV2ITrafficLightEnabled(id)) {
             states[id].push_back(signal.state);
-- 
2.43.0


From 66d4f45af3619566e63956f746a72ebdcf5ece4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 25/62] fix: despawn all entities even if the simulator refuses
 one

---
 simulation/traffic_simulator/src/api/api.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simulation/traffic_simulator/src/api/api.cpp b/simulation/traffic_simulator/src/api/api.cpp
index fe0e325..42c9089 100644
--- a/simulation/traffic_simulator/src/api/api.cpp
+++ b/simulation/traffic_simulator/src/api/api.cpp
@@ -337,8 +337,10 @@ auto API::despawn(const std::string & name) -> bool
 auto API::despawnEntities() -> bool
 {
   const auto entities = entity_manager_ptr_->getEntityNames();
-  return std::all_of(
-    entities.begin(), entities.end(), [&](const auto & entity) { return despawn(entity); });
+  // NOTE: Every entity must be despawned, even if despawning another one has failed.
+  return std::count_if(entities.begin(), entities.end(), [&](const auto & entity) {
+           return not despawn(entity);
+         }) == 0;
 }
 
 // entities - features
-- 
2.43.0


From 3df6293ea082db823f13c59eb323b25b9677e8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 26/62] fix: do not terminate when a condition cannot be
 described

---
 .../type_traits/if_has_member_function_description.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/type_traits/if_has_member_function_description.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/type_traits/if_has_member_function_description.hpp
index 004095e..aefe8d5 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/type_traits/if_has_member_function_description.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/type_traits/if_has_member_function_description.hpp
@@ -31,7 +31,7 @@ template <typename T>
 struct IfHasMemberFunctionDescription<
   T, typename std::enable_if<HasMemberFunctionDescription<T>::value>::type>
 {
-  static constexpr decltype(auto) invoke(const T & then) noexcept { return then.description(); }
+  static constexpr decltype(auto) invoke(const T & then) { return then.description(); }
 };
 }  // namespace type_traits
 }  // namespace openscenario_interpreter
-- 
2.43.0


From 7400d26ca2ac7c0577ca77b09b1fc99ee65ac51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 27/62] fix: stop the recorder when the interpreter is shut
 down while a scenario runs

---
 .../openscenario_interpreter/src/openscenario_interpreter.cpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp b/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
index 8467d7e..7c59ff9 100644
--- a/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
+++ b/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
@@ -324,6 +324,9 @@ auto Interpreter::on_shutdown(const rclcpp_lifecycle::State &) -> Result
   script.reset();
   common::status_monitor.overrideThreshold(
     simulator_core_shutdown_threshold, SimulatorCore::deactivate);
+  if (record) {
+    common::status_monitor.overrideThreshold(simulator_core_shutdown_threshold, record::stop);
+  }
   return Interpreter::Result::SUCCESS;  // => Finalized
 }
 
-- 
2.43.0


From 1b618e4309694639e63cb63d916662b5c5dad2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 28/62] fix: deactivate the interpreter even if the last
 context cannot be described

---
 .../openscenario_interpreter.hpp               |  2 ++
 .../src/openscenario_interpreter.cpp           | 18 ++++++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/openscenario_interpreter.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/openscenario_interpreter.hpp
index 56563dc..d383a53 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/openscenario_interpreter.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/openscenario_interpreter.hpp
@@ -120,6 +120,8 @@ public:
 
   auto publishCurrentContext() const -> void;
 
+  auto publishLastContext() const -> void;
+
   auto reset() -> void;
 
   template <typename T, typename... Ts>
diff --git a/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp b/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
index 7c59ff9..456687c 100644
--- a/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
+++ b/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
@@ -155,7 +155,7 @@ auto Interpreter::on_activate(const rclcpp_lifecycle::State &) -> Result
   auto evaluate_storyboard = [this]() {
     withExceptionHandler(
       [this](auto &&...) {
-        publishCurrentContext();
+        publishLastContext();
         deactivate();
       },
       [this]() {
@@ -226,7 +226,7 @@ auto Interpreter::on_activate(const rclcpp_lifecycle::State &) -> Result
   } else {
     return withExceptionHandler(
       [this](auto &&...) {
-        publishCurrentContext();
+        publishLastContext();
         reset();
         return Interpreter::Result::FAILURE;  // => Inactive
       },
@@ -348,6 +348,20 @@ auto Interpreter::publishCurrentContext() const -> void
   publisher_of_context->publish(context);
 }
 
+auto Interpreter::publishLastContext() const -> void
+{
+  /*
+     The scenario has already ended. If the context cannot be described (that
+     may be the very reason for the end), the node must nevertheless be
+     deactivated.
+  */
+  try {
+    publishCurrentContext();
+  } catch (const std::exception & error) {
+    RCLCPP_WARN_STREAM(get_logger(), "Failed to publish the last context: " << error.what());
+  }
+}
+
 auto Interpreter::reset() -> void
 {
   timer.reset();  // Stop scenario evaluation
-- 
2.43.0


From f92ec85bdf5acb0a6f2ac7c9030ef72765b360ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 29/62] fix: record the verdict of a scenario that the runner
 ends by deactivation

---
 .../openscenario_interpreter.hpp                    |  4 ++++
 .../src/openscenario_interpreter.cpp                | 13 +++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/openscenario_interpreter.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/openscenario_interpreter.hpp
index d383a53..89f1234 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/openscenario_interpreter.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/openscenario_interpreter.hpp
@@ -90,6 +90,8 @@ class Interpreter : public rclcpp_lifecycle::LifecycleNode,
 
   std::variant<common::junit::Pass, common::junit::Failure, common::junit::Error> result;
 
+  bool is_result_recorded = false;
+
   ExecutionTimer<> execution_timer;
 
   using Result = rclcpp_lifecycle::node_interfaces::LifecycleNodeInterface::CallbackReturn;
@@ -129,6 +131,8 @@ public:
   {
     result = T(std::forward<decltype(xs)>(xs)...);
 
+    is_result_recorded = true;
+
     results.name = std::filesystem::path(osc_path).parent_path().parent_path().string();
 
     const auto suite_name = std::filesystem::path(osc_path).parent_path().filename().string();
diff --git a/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp b/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
index 456687c..7f87b83 100644
--- a/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
+++ b/openscenario/openscenario_interpreter/src/openscenario_interpreter.cpp
@@ -108,11 +108,10 @@ auto Interpreter::on_configure(const rclcpp_lifecycle::State &) -> Result
          scenario is not expected to finish" or "an abnormality has occurred
          that prevents the interpreter from terminating itself" after the
          specified time (specified by --global-timeout), and deactivates this
-         node.
+         node. If no result has been recorded by then, on_deactivate records
+         the timeout.
       */
-      result = common::junit::Failure(
-        "Timeout",
-        "The simulation time has exceeded the time specified by the scenario_test_runner.");
+      is_result_recorded = false;
 
       std::this_thread::sleep_for(std::chrono::seconds(1));  // NOTE: Wait for parameters to be set.
 
@@ -298,6 +297,12 @@ auto Interpreter::on_activate(const rclcpp_lifecycle::State &) -> Result
 
 auto Interpreter::on_deactivate(const rclcpp_lifecycle::State &) -> Result
 {
+  if (not is_result_recorded) {
+    set<common::junit::Failure>(
+      "Timeout",
+      "The simulation time has exceeded the time specified by the scenario_test_runner.");
+  }
+
   reset();
 
   return Interpreter::Result::SUCCESS;  // => Inactive
-- 
2.43.0


From 14a1cdf41e3cfe44f7959a2f957e2cfd03be72cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 30/62] fix: an unanswered service request no longer delays the
 end of the scenario by minutes

---
 .../concealer/include/concealer/service.hpp   | 20 +++++++++++++++++--
 .../src/field_operator_application.cpp        | 11 ++++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/external/concealer/include/concealer/service.hpp b/external/concealer/include/concealer/service.hpp
index b1bdf98..3c00ebb 100644
--- a/external/concealer/include/concealer/service.hpp
+++ b/external/concealer/include/concealer/service.hpp
@@ -15,6 +15,7 @@
 #ifndef CONCEALER__SERVICE_HPP_
 #define CONCEALER__SERVICE_HPP_
 
+#include <atomic>
 #include <autoware_adapi_v1_msgs/msg/response_status.hpp>
 #include <chrono>
 #include <concealer/member_detector.hpp>
@@ -37,6 +38,8 @@ class Service
 
   rclcpp::WallRate interval;
 
+  std::atomic<bool> cancelled = false;
+
 public:
   template <typename Node>
   explicit Service(
@@ -48,13 +51,20 @@ public:
   {
   }
 
+  /*
+     Gives up the request in progress, if any, no later than at its next
+     attempt. Otherwise the destructor of the task queue would have to wait for
+     all of its attempts, which takes minutes if Autoware does not respond.
+  */
+  auto cancel() -> void { cancelled.store(true); }
+
   auto operator()(
     const typename T::Request::SharedPtr & request, std::size_t attempts_count,
     std::chrono::seconds availability_timeout = std::chrono::seconds(180))
   {
     const auto availability_deadline = std::chrono::steady_clock::now() + availability_timeout;
 
-    while (rclcpp::ok() and not client->service_is_ready()) {
+    while (rclcpp::ok() and not cancelled.load() and not client->service_is_ready()) {
       if (std::chrono::steady_clock::now() > availability_deadline) {
         throw common::scenario_simulator_exception::AutowareError(
           "Service ", std::quoted(name), " is not ready after ", availability_timeout.count(),
@@ -97,7 +107,8 @@ public:
       }
     };
 
-    for (std::size_t attempt = 0; attempt < attempts_count; ++attempt, interval.sleep()) {
+    for (std::size_t attempt = 0; attempt < attempts_count and not cancelled.load();
+         ++attempt, interval.sleep()) {
       if (auto future = client->async_send_request(request);
           future.wait_for(interval.period()) == std::future_status::ready and
           receive(future.get())) {
@@ -105,6 +116,11 @@ public:
       }
     }
 
+    if (cancelled.load()) {
+      throw common::scenario_simulator_exception::AutowareError(
+        "Request for the service ", std::quoted(name), " was cancelled.");
+    }
+
     throw common::scenario_simulator_exception::AutowareError(
       "Requested the service ", std::quoted(name), " ", attempts_count,
       " times, but was not successful.");
diff --git a/external/concealer/src/field_operator_application.cpp b/external/concealer/src/field_operator_application.cpp
index ac86ddd..eb76e5b 100644
--- a/external/concealer/src/field_operator_application.cpp
+++ b/external/concealer/src/field_operator_application.cpp
@@ -244,6 +244,17 @@ FieldOperatorApplication::~FieldOperatorApplication()
   }
 
   finalized.store(true);
+
+  requestClearRoute.cancel();
+  requestCooperateCommands.cancel();
+  requestEngage.cancel();
+  requestInitialPose.cancel();
+  requestSetRoute.cancel();
+  requestSetRoutePoints.cancel();
+  requestSetRtcAutoMode.cancel();
+  requestSetVelocityLimit.cancel();
+  requestEnableAutowareControl.cancel();
+  requestChangeToStop.cancel();
 }
 
 auto FieldOperatorApplication::clearRoute() -> void
-- 
2.43.0


From f36b14e7d0b5527206986028b5bb52fe491b9473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 31/62] fix: the distance bins of the LiDAR noise are as wide
 as configured

---
 .../src/sensor_simulation/lidar/lidar_noise_model_v1.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp
index 255db43..ab86023 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp
@@ -56,8 +56,8 @@ LidarNoiseModelV1::Config::Config(const std::string & topic_name, const std::str
     bins.reserve(ellipse_y_radii.size());
     for (size_t i = 0; i < ellipse_y_radii.size(); ++i) {
       bins.emplace_back(
-        ellipse_y_radii[i] * ellipse_y_radii[i], radial_mean[i], radial_stddev[i],
-        tangential_mean[i], tangential_stddev[i], tpr_values[i]);
+        ellipse_y_radii[i], radial_mean[i], radial_stddev[i], tangential_mean[i],
+        tangential_stddev[i], tpr_values[i]);
     }
     return bins;
   }())
-- 
2.43.0


From db4c2f6ee0f1ee7628cdcac2987a1947a2f91e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 32/62] fix: the origin of an occupancy grid that is not square
 is its corner

---
 .../occupancy_grid/occupancy_grid_sensor.cpp                  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp
index c48ecc4..1dacd42 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp
@@ -149,8 +149,8 @@ auto OccupancyGridSensor<nav_msgs::msg::OccupancyGrid>::getOccupancyGrid(
   res.info.map_load_time = stamp;
   res.info.resolution = configuration_.resolution();
   res.info.origin = ego_pose_north_up;
-  res.info.origin.position.x -= 0.5 * configuration_.height() * configuration_.resolution();
-  res.info.origin.position.y -= 0.5 * configuration_.width() * configuration_.resolution();
+  res.info.origin.position.x -= 0.5 * configuration_.width() * configuration_.resolution();
+  res.info.origin.position.y -= 0.5 * configuration_.height() * configuration_.resolution();
   return res;
 }
 }  // namespace simple_sensor_simulator
-- 
2.43.0


From 4a29689d1a846ca0178fe1e1c60719afda29c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 33/62] fix: a grid line that starts on a cell border no longer
 runs one cell off

---
 .../src/sensor_simulation/occupancy_grid/grid_traversal.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
index 39e56d4..63bed21 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
@@ -33,11 +33,11 @@ GridTraversal::GridTraversal(double start_x, double start_y, double end_x, doubl
 
 auto GridTraversal::begin() const -> Iterator
 {
-  double tx = vx_ > 0 ? std::ceil(start_x_) : std::floor(start_x_);
-  double ty = vy_ > 0 ? std::ceil(start_y_) : std::floor(start_y_);
+  double tx = vx_ > 0 ? std::floor(start_x_) + 1 : std::floor(start_x_);
+  double ty = vy_ > 0 ? std::floor(start_y_) + 1 : std::floor(start_y_);
   tx = vx_ != 0 ? (tx - start_x_) / vx_ : tdx_;
   ty = vy_ != 0 ? (ty - start_y_) / vy_ : tdy_;
-  return {this, tx, ty, int32_t(start_x_), int32_t(start_y_)};
+  return {this, tx, ty, int32_t(std::floor(start_x_)), int32_t(std::floor(start_y_))};
 }
 
 auto GridTraversal::end() const -> Sentinel { return {}; }
-- 
2.43.0


From f8aa5631c34ab37e3463ba9187d6447a979db51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 34/62] fix: a detection sensor uses its own noise
 configuration, not that of the first scenario

---
 .../detection_sensor/detection_sensor.cpp        | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
index 03b2036..8c7b496 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
@@ -310,21 +310,21 @@ auto DetectionSensor<autoware_perception_msgs::msg::DetectedObjects>::update(
        simulator publishes, copy the following function and implement new one.
     */
     auto noise_v1 = [&](auto detected_entities, [[maybe_unused]] auto simulation_time) {
-      static const auto override_legacy_configuration = common::getParameter<bool>(
+      const auto override_legacy_configuration = common::getParameter<bool>(
         detected_objects_publisher->get_topic_name() +
         std::string(".override_legacy_configuration"));
 
-      static const auto standard_deviation =
+      const auto standard_deviation =
         override_legacy_configuration ? common::getParameter<double>(
                                           detected_objects_publisher->get_topic_name() +
                                           std::string(".noise.v1.position.standard_deviation"))
                                       : configuration_.pos_noise_stddev();
 
-      static const auto missing_probability = override_legacy_configuration
-                                                ? common::getParameter<double>(
-                                                    detected_objects_publisher->get_topic_name() +
-                                                    std::string(".noise.v1.missing_probability"))
-                                                : configuration_.probability_of_lost();
+      const auto missing_probability = override_legacy_configuration
+                                         ? common::getParameter<double>(
+                                             detected_objects_publisher->get_topic_name() +
+                                             std::string(".noise.v1.missing_probability"))
+                                         : configuration_.probability_of_lost();
 
       auto position_noise_distribution = std::normal_distribution<>(0.0, standard_deviation);
 
@@ -338,7 +338,7 @@ auto DetectionSensor<autoware_perception_msgs::msg::DetectedObjects>::update(
       detected_entities.erase(
         std::remove_if(
           detected_entities.begin(), detected_entities.end(),
-          [this](auto &&) {
+          [&](auto &&) {
             return std::uniform_real_distribution()(random_engine_) < missing_probability;
           }),
         detected_entities.end());
-- 
2.43.0


From 9e896081a8fe40088e0c5c2a1d985be0ac706099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 35/62] fix: an entity is no longer missing from its first
 detection with noise models v3 and v4

---
 .../detection_sensor/detection_sensor.cpp            | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
index 8c7b496..4c3c8ba 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
@@ -536,9 +536,11 @@ auto DetectionSensor<autoware_perception_msgs::msg::DetectedObjects>::update(
           noise_output->second.config_name =
             noise_parameter_selector::findMatchingNoiseConfigForEntity(
               entity, "v3", detected_objects_publisher->get_topic_name());
-        } else if (not noise_output->second.config_name.empty()) {
+        }
+        if (const auto & config_name = noise_outputs.at(entity.name()).config_name;
+            not config_name.empty()) {
           auto vanilla_entity = std::vector<traffic_simulator_msgs::EntityStatus>{entity};
-          const std::string config_namespace = "v3." + noise_output->second.config_name;
+          const std::string config_namespace = "v3." + config_name;
           auto noised_entity = noise_v2(vanilla_entity, simulation_time, config_namespace);
           noised_detected_entities.insert(
             noised_detected_entities.end(), noised_entity.begin(), noised_entity.end());
@@ -676,10 +678,12 @@ auto DetectionSensor<autoware_perception_msgs::msg::DetectedObjects>::update(
           noise_output->second.config_name =
             noise_parameter_selector::findMatchingNoiseConfigForEntity(
               entity, "v4", detected_objects_publisher->get_topic_name());
-        } else if (not noise_output->second.config_name.empty()) {
+        }
+        if (const auto & config_name = noise_outputs.at(entity.name()).config_name;
+            not config_name.empty()) {
           const std::string parameter_base_path =
             std::string(detected_objects_publisher->get_topic_name()) + ".noise.v4." +
-            noise_output->second.config_name + ".";
+            config_name + ".";
           if (auto noised_entity = get_noised_entity(entity, simulation_time, parameter_base_path);
               noised_entity) {
             noised_detected_entities.push_back(noised_entity.value());
-- 
2.43.0


From 91afb4c6e3b59b26a7610a11977ebb0bc22e267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 36/62] fix: a new scenario starts without the sensors, lights
 and ego of the previous one

---
 .../simple_sensor_simulator/src/simple_sensor_simulator.cpp    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp b/simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp
index 722c6aa..c792c5f 100644
--- a/simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp
+++ b/simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp
@@ -81,6 +81,9 @@ auto ScenarioSimulator::initialize(const simulation_api_schema::InitializeReques
   pedestrians_.clear();
   misc_objects_.clear();
   entity_status_.clear();
+  ego_entity_simulation_.reset();
+  sensor_sim_ = SensorSimulation();
+  traffic_signals_states_.Clear();
   return res;
 }
 
-- 
2.43.0


From f7ed51e846c0eade97e8f9a1b06cc195610e28f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 37/62] fix: removing the ego entity no longer ends the
 simulator when sensors are attached to it

---
 .../detection_sensor/detection_sensor.hpp        |  2 ++
 .../sensor_simulation/lidar/lidar_sensor.hpp     |  2 ++
 .../occupancy_grid/occupancy_grid_sensor.hpp     |  2 ++
 .../sensor_simulation/sensor_simulation.hpp      | 16 ++++++++++++++++
 .../src/simple_sensor_simulator.cpp              |  1 +
 5 files changed, 23 insertions(+)

diff --git a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/detection_sensor/detection_sensor.hpp b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/detection_sensor/detection_sensor.hpp
index 8548222..ad9bf9a 100644
--- a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/detection_sensor/detection_sensor.hpp
+++ b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/detection_sensor/detection_sensor.hpp
@@ -61,6 +61,8 @@ protected:
 public:
   virtual ~DetectionSensorBase() = default;
 
+  auto entity() const -> const std::string & { return configuration_.entity(); }
+
   virtual void update(
     const double current_simulation_time, const std::vector<traffic_simulator_msgs::EntityStatus> &,
     const rclcpp::Time & current_ros_time,
diff --git a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/lidar/lidar_sensor.hpp b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/lidar/lidar_sensor.hpp
index b545c21..1118461 100644
--- a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/lidar/lidar_sensor.hpp
+++ b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/lidar/lidar_sensor.hpp
@@ -51,6 +51,8 @@ protected:
 public:
   virtual ~LidarSensorBase() = default;
 
+  auto entity() const -> const std::string & { return configuration_.entity(); }
+
   virtual auto update(
     const double current_simulation_time, const std::vector<traffic_simulator_msgs::EntityStatus> &,
     const rclcpp::Time & current_ros_time) -> void = 0;
diff --git a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/occupancy_grid_sensor.hpp b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/occupancy_grid_sensor.hpp
index 31b0122..2d782a5 100644
--- a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/occupancy_grid_sensor.hpp
+++ b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/occupancy_grid_sensor.hpp
@@ -48,6 +48,8 @@ protected:
 public:
   virtual ~OccupancyGridSensorBase() = default;
 
+  auto entity() const -> const std::string & { return configuration_.entity(); }
+
   /**
    * @brief Update sensor status
    */
diff --git a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/sensor_simulation.hpp b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/sensor_simulation.hpp
index 6137e65..f7f4594 100644
--- a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/sensor_simulation.hpp
+++ b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/sensor_simulation.hpp
@@ -18,6 +18,7 @@
 #include <simulation_interface/simulation_api_schema.pb.h>
 
 #include <agnocast_wrapper/agnocast_wrapper.hpp>
+#include <algorithm>
 #include <autoware_perception_msgs/msg/detected_objects.hpp>
 #include <autoware_perception_msgs/msg/tracked_objects.hpp>
 #include <iomanip>
@@ -118,6 +119,21 @@ public:
       configuration, "/sensing/imu/imu_data", node));
   }
 
+  /// Remove the sensors that cannot work without the entity they are attached to.
+  auto detachSensorsFrom(const std::string & entity_name) -> void
+  {
+    auto detach = [&](auto & sensors) {
+      sensors.erase(
+        std::remove_if(
+          sensors.begin(), sensors.end(),
+          [&](const auto & sensor) { return sensor->entity() == entity_name; }),
+        sensors.end());
+    };
+    detach(lidar_sensors_);
+    detach(detection_sensors_);
+    detach(occupancy_grid_sensors_);
+  }
+
   auto updateSensorFrame(
     double current_simulation_time, const rclcpp::Time & current_ros_time,
     const std::vector<traffic_simulator_msgs::EntityStatus> &,
diff --git a/simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp b/simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp
index c792c5f..4c598f7 100644
--- a/simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp
+++ b/simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp
@@ -268,6 +268,7 @@ auto ScenarioSimulator::despawnEntity(const simulation_api_schema::DespawnEntity
   const auto ego_entity_was_removed = remove_despawn_requested_entity_from(ego_vehicles_);
   if (ego_entity_was_removed) {
     ego_entity_simulation_.reset();
+    sensor_sim_.detachSensorsFrom(req.name());
   }
   const auto any_entity_was_removed = ego_entity_was_removed or
                                       remove_despawn_requested_entity_from(vehicles_) or
-- 
2.43.0


From 0dc495bcfaf1bf5de19d14fd6b731f1144643474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:00 +0000
Subject: [PATCH 38/62] fix: an object that crosses the upper border of the
 occupancy grid is no longer lost

---
 .../sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
index 53e8456..8daa833 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
@@ -84,6 +84,7 @@ auto OccupancyGridBuilder::makeOccupiedArea(const PrimitiveType & primitive) con
     {+real_width, -real_height},  // bottom right
     {-real_width, -real_height},  // bottom left
     {-real_width, +real_height},  // top left
+    {+real_width, +real_height},  // top right
   };
 
   // Clip a polygon to fit into grid area
-- 
2.43.0


From 63fff1b614d1e7d29eeb1dc0d088b9ccda552a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:00 +0000
Subject: [PATCH 39/62] fix: an object smaller than a cell of the occupancy
 grid is no longer lost

---
 .../sensor_simulation/occupancy_grid/grid_traversal.hpp       | 1 +
 .../src/sensor_simulation/occupancy_grid/grid_traversal.cpp   | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp
index eb94085..a21a8b5 100644
--- a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp
+++ b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp
@@ -40,6 +40,7 @@ class GridTraversal
   private:
     const GridTraversal * parent_;
 
+    double t_ = 0.0;  // where the line enters the current cell
     double tx_, ty_;
     int32_t x_, y_;
   };
diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
index 63bed21..a3c9f09 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <algorithm>
 #include <simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp>
 
 namespace simple_sensor_simulator
@@ -52,6 +53,7 @@ auto GridTraversal::Iterator::operator*() -> Index { return {x_, y_}; }
 
 auto GridTraversal::Iterator::operator++() -> Iterator &
 {
+  t_ = std::min(tx_, ty_);
   if (tx_ < ty_) {
     tx_ += parent_->tdx_;
     x_ += parent_->step_x_;
@@ -64,7 +66,7 @@ auto GridTraversal::Iterator::operator++() -> Iterator &
 
 auto GridTraversal::Iterator::operator!=(const Sentinel &) -> bool
 {
-  return tx_ <= 1.0 || ty_ <= 1.0;
+  return t_ <= 1.0;
 }
 
 }  // namespace simple_sensor_simulator
-- 
2.43.0


From 89e00ac284ce5f888786b4bf09a9bee2a83e7632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 40/62] fix: an object over the ego vehicle hides the whole
 occupancy grid

---
 .../sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
index 8daa833..c0ae352 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
@@ -126,7 +126,7 @@ auto OccupancyGridBuilder::makeInvisibleArea(const PolygonType & occupied_polygo
     for (size_t i = 0; i < occupied_polygon.size(); ++i) {
       const auto & p = occupied_polygon[i];
       const auto & q = occupied_polygon[(i + 1) % occupied_polygon.size()];
-      overlap_origin &= p.x * q.y - q.x * p.y < 0;
+      overlap_origin &= p.x * q.y - q.x * p.y <= 0;
     }
     if (overlap_origin) return corners;
   }
-- 
2.43.0


From 5d4b27ac4aceaff9d7a6083822993080f6b4149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:26 +0000
Subject: [PATCH 41/62] fix: noise model v4 draws its errors from the
 configured seed

---
 .../sensor_simulation/detection_sensor/detection_sensor.hpp     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/detection_sensor/detection_sensor.hpp b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/detection_sensor/detection_sensor.hpp
index ad9bf9a..0b704a9 100644
--- a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/detection_sensor/detection_sensor.hpp
+++ b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/detection_sensor/detection_sensor.hpp
@@ -192,6 +192,8 @@ public:
               case 2:
                 [[fallthrough]];
               case 3:
+                [[fallthrough]];
+              case 4:
                 return common::getParameter<int>(
                   detected_objects_publisher->get_topic_name() + std::string(".seed"));
             }
-- 
2.43.0


From b72011cac68ee5b2159f74efc2dfc1cb47cda11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:36 +0000
Subject: [PATCH 42/62] fix: a frame before any initialization is refused

---
 .../include/simple_sensor_simulator/simple_sensor_simulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/simple_sensor_simulator.hpp b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/simple_sensor_simulator.hpp
index 44eb4b8..25b22d2 100644
--- a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/simple_sensor_simulator.hpp
+++ b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/simple_sensor_simulator.hpp
@@ -148,7 +148,7 @@ private:
   double current_simulation_time_;
   double current_scenario_time_;
   rclcpp::Time current_ros_time_;
-  bool initialized_;
+  bool initialized_ = false;
   std::map<std::string, simulation_api_schema::EntityStatus> entity_status_;
   simulation_api_schema::UpdateTrafficLightsRequest traffic_signals_states_;
   traffic_simulator_msgs::BoundingBox getBoundingBox(const std::string & name);
-- 
2.43.0


From efdff443bf55fe7feddd03637cf286a55110d4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:13 +0000
Subject: [PATCH 43/62] fix: the pedal of an overwritten vehicle is no longer
 arbitrary

---
 .../src/vehicle_simulation/ego_entity_simulation.cpp     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/simulation/simple_sensor_simulator/src/vehicle_simulation/ego_entity_simulation.cpp b/simulation/simple_sensor_simulator/src/vehicle_simulation/ego_entity_simulation.cpp
index c0dd80c..509f24f 100644
--- a/simulation/simple_sensor_simulator/src/vehicle_simulation/ego_entity_simulation.cpp
+++ b/simulation/simple_sensor_simulator/src/vehicle_simulation/ego_entity_simulation.cpp
@@ -254,9 +254,16 @@ auto EgoEntitySimulation::overwrite(
     }();
 
     switch (auto state = Eigen::VectorXd(vehicle_model_ptr_->getDimX()); vehicle_model_type_) {
+      case VehicleModelType::DELAY_STEER_ACC_GEARED_WO_FALL_GUARD:
+        /*
+           The acceleration by the pedal is positive in the direction of travel.
+        */
+        state(6) = status.action_status.twist.linear.x < 0.0 ? -status.action_status.accel.linear.x
+                                                             : status.action_status.accel.linear.x;
+        [[fallthrough]];
+
       case VehicleModelType::DELAY_STEER_ACC:
       case VehicleModelType::DELAY_STEER_ACC_GEARED:
-      case VehicleModelType::DELAY_STEER_ACC_GEARED_WO_FALL_GUARD:
       case VehicleModelType::DELAY_STEER_MAP_ACC_GEARED:
         state(5) = status.action_status.accel.linear.x;
         [[fallthrough]];
-- 
2.43.0


From c865bee9bcd55719950d46c313e3d0692c688c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:36 +0000
Subject: [PATCH 44/62] fix: a deleted entity can be added again

---
 .../syntax/delete_entity_action.hpp                      | 9 ++++-----
 .../src/syntax/delete_entity_action.cpp                  | 3 +++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/delete_entity_action.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/delete_entity_action.hpp
index e27ad6d..f5d77f1 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/delete_entity_action.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/delete_entity_action.hpp
@@ -15,8 +15,10 @@
 #ifndef OPENSCENARIO_INTERPRETER__SYNTAX__DELETE_ENTITY_ACTION_HPP_
 #define OPENSCENARIO_INTERPRETER__SYNTAX__DELETE_ENTITY_ACTION_HPP_
 
+#include <openscenario_interpreter/scope.hpp>
 #include <openscenario_interpreter/simulator_core.hpp>
 #include <openscenario_interpreter/syntax/entity_ref.hpp>
+#include <pugixml.hpp>
 
 namespace openscenario_interpreter
 {
@@ -27,12 +29,9 @@ inline namespace syntax
  *  <xsd:complexType name="DeleteEntityAction"/>
  *
  * -------------------------------------------------------------------------- */
-struct DeleteEntityAction : private SimulatorCore::ActionApplication
+struct DeleteEntityAction : private Scope, private SimulatorCore::ActionApplication
 {
-  template <typename... Ts>
-  explicit DeleteEntityAction(Ts &&...)
-  {
-  }
+  explicit DeleteEntityAction(const pugi::xml_node &, Scope & scope) : Scope(scope) {}
 
   auto operator()(const EntityRef &) const -> void;
 };
diff --git a/openscenario/openscenario_interpreter/src/syntax/delete_entity_action.cpp b/openscenario/openscenario_interpreter/src/syntax/delete_entity_action.cpp
index 60b346a..02555cd 100644
--- a/openscenario/openscenario_interpreter/src/syntax/delete_entity_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/delete_entity_action.cpp
@@ -14,6 +14,8 @@
 
 #include <openscenario_interpreter/simulator_core.hpp>
 #include <openscenario_interpreter/syntax/delete_entity_action.hpp>
+#include <openscenario_interpreter/syntax/entities.hpp>
+#include <openscenario_interpreter/syntax/scenario_object.hpp>
 
 namespace openscenario_interpreter
 {
@@ -22,6 +24,7 @@ inline namespace syntax
 auto DeleteEntityAction::operator()(const EntityRef & entity_ref) const -> void
 {
   applyDeleteEntityAction(entity_ref);
+  global().entities->ref(entity_ref).as<ScenarioObject>().is_added = false;
 }
 }  // namespace syntax
 }  // namespace openscenario_interpreter
-- 
2.43.0


From 9cffb2a1ea05f72a1a2c15e8807d63bead74153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:36 +0000
Subject: [PATCH 45/62] fix: a relative clearance with lanes counts what is
 behind on another lanelet

---
 .../src/syntax/relative_clearance_condition.cpp      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
index b89e898..d318892 100644
--- a/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
@@ -97,9 +97,15 @@ auto RelativeClearanceCondition::evaluate() -> Object
           relative_lateral_lane = evaluateLateralRelativeLanes(
             triggering_entity, target_entity, RoutingAlgorithm::shortest);
         } catch (const std::exception &) {
-          // occurring errors means that the target entity is not in the specified range,
-          // under the assumption that relative lane range is defined in routable range .
-          return false;
+          try {
+            // If the target entity is behind, there is a route only in the opposite direction.
+            relative_lateral_lane = -evaluateLateralRelativeLanes(
+              target_entity, triggering_entity, RoutingAlgorithm::shortest);
+          } catch (const std::exception &) {
+            // occurring errors means that the target entity is not in the specified range,
+            // under the assumption that relative lane range is defined in routable range .
+            return false;
+          }
         }
         if (is_back) {
           relative_lateral_lane = -relative_lateral_lane;
-- 
2.43.0


From 33dd28a3311e4d0cc6cfa46bf69073a3fff8ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:37 +0000
Subject: [PATCH 46/62] fix: a relative clearance to an entity selection no
 longer ends the scenario

---
 .../syntax/relative_clearance_condition.cpp   | 26 ++++++-------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
index d318892..ed117f5 100644
--- a/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
@@ -151,24 +151,14 @@ auto RelativeClearanceCondition::evaluate() -> Object
     if (not entity_refs.empty()) {
       return std::all_of(
         entity_refs.begin(), entity_refs.end(), [&](const auto & target_entity_ref) {
-          const auto & target_entity = global().entities->ref(target_entity_ref);
-          if (target_entity.template is<ScenarioObject>()) {
-            return is_relative_clearance_exist(
-              triggering_scenario_object, target_entity.template as<ScenarioObject>().name);
-            ;
-          } else if (target_entity.template is<EntitySelection>()) {  //
-            auto target_scenario_objects = target_entity.template as<EntitySelection>().objects();
-            return std::all_of(
-              target_scenario_objects.begin(), target_scenario_objects.end(),
-              [&](const auto & target_scenario_object) {
-                return is_relative_clearance_exist(
-                  triggering_scenario_object, target_scenario_object.name());
-              });
-          } else {
-            throw common::Error(
-              "Unexpected entity interface is detected. RelativeClearanceCondition expects "
-              "ScenarioObject or EntitySelection.");
-          }
+          // NOTE: A reference to an EntitySelection stands for all of its ScenarioObjects.
+          const auto target_scenario_objects = target_entity_ref.objects();
+          return std::all_of(
+            target_scenario_objects.begin(), target_scenario_objects.end(),
+            [&](const auto & target_scenario_object) {
+              return is_relative_clearance_exist(
+                triggering_scenario_object, target_scenario_object.name());
+            });
         });
     } else {
       return std::all_of(
-- 
2.43.0


From 4ec575a0f34c7ada07a70e0034dbec53b5d7341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:37 +0000
Subject: [PATCH 47/62] fix: a relative clearance of any of several entities
 ignores all of them

---
 .../src/syntax/relative_clearance_condition.cpp     | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
index ed117f5..05c8df6 100644
--- a/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
@@ -174,16 +174,13 @@ auto RelativeClearanceCondition::evaluate() -> Object
             // exclude entities included in TriggeringEntities
             auto is_target_candidate_scenario_object_in_triggering_entities =
               [&](const ScenarioObject & target_candidate) -> bool {
-              bool is_included = false;
-              triggering_entities.apply(
-                [target_candidate, &is_included](const auto & triggering_scenario_object) {
+              // NOTE: Not `triggering_entities.apply`, which stops early depending on the rule.
+              return std::any_of(
+                triggering_entities.entity_refs.begin(), triggering_entities.entity_refs.end(),
+                [&](const auto & triggering_scenario_object) {
                   assert(triggering_scenario_object.template is<ScenarioObject>());
-                  if (triggering_scenario_object.name() == target_candidate.name) {
-                    is_included = true;
-                  }
-                  return true;
+                  return triggering_scenario_object.name() == target_candidate.name;
                 });
-              return is_included;
             };
             if (is_target_candidate_scenario_object_in_triggering_entities(
                   target_candidate_scenario_object)) {
-- 
2.43.0


From afc79da5837a31c8b6f75229bae56095b863a0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:24 +0000
Subject: [PATCH 48/62] fix: an entity moved to a map pose does not keep its
 former lanelet pose

---
 simulation/traffic_simulator/src/entity/entity_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulation/traffic_simulator/src/entity/entity_base.cpp b/simulation/traffic_simulator/src/entity/entity_base.cpp
index 3711e1a..ed28e93 100644
--- a/simulation/traffic_simulator/src/entity/entity_base.cpp
+++ b/simulation/traffic_simulator/src/entity/entity_base.cpp
@@ -594,6 +594,7 @@ auto EntityBase::setStatus(
 {
   auto status = static_cast<EntityStatus>(getCanonicalizedStatus());
   status.pose = map_pose;
+  status.lanelet_pose_valid = false;  // NOTE: to be derived from map_pose, not kept from before.
   status.action_status = action_status;
   setStatus(status);
 }
-- 
2.43.0


From 3ebeaf415d59d5e5857fce08ae31c5111b4752f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:24 +0000
Subject: [PATCH 49/62] fix: teleporting a selection adds those of its entities
 that are not there

---
 .../src/syntax/teleport_action.cpp                   | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/teleport_action.cpp b/openscenario/openscenario_interpreter/src/syntax/teleport_action.cpp
index f53b652..7b51c8e 100644
--- a/openscenario/openscenario_interpreter/src/syntax/teleport_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/teleport_action.cpp
@@ -52,11 +52,13 @@ auto TeleportAction::run() noexcept -> void {}
 auto TeleportAction::start() const -> void
 {
   for (const auto & actor : actors) {
-    if (not global().entities->isAdded(actor)) {
-      actor.apply(AddEntityAction(local(), position));  // NOTE: TIER IV extension
-    } else {
-      actor.apply([&](const auto & object) { teleport(object, position); });
-    }
+    actor.apply([&](const auto & object) {
+      if (not global().entities->isAdded(object)) {
+        AddEntityAction(local(), position)(object);  // NOTE: TIER IV extension
+      } else {
+        teleport(object, position);
+      }
+    });
   }
 }
 
-- 
2.43.0


From 5e2ea9594dde1c897cb431cbf7ef77f89ce0ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:25 +0000
Subject: [PATCH 50/62] fix: entities of a selection do not share one
 trajectory

---
 .../include/openscenario_interpreter/simulator_core.hpp      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/simulator_core.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/simulator_core.hpp
index bd7cdd7..92ef14a 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/simulator_core.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/simulator_core.hpp
@@ -495,8 +495,11 @@ public:
     template <typename... Ts>
     static auto applyFollowTrajectoryAction(
       const std::string & entity_ref,
-      const std::shared_ptr<traffic_simulator_msgs::msg::PolylineTrajectory> & parameter)
+      const std::shared_ptr<traffic_simulator_msgs::msg::PolylineTrajectory> & trajectory)
     {
+      /// @note each entity follows (and consumes) a trajectory of its own
+      const auto parameter =
+        std::make_shared<traffic_simulator_msgs::msg::PolylineTrajectory>(*trajectory);
       /// @note add current entity pose as the first waypoint in the trajectory
       traffic_simulator_msgs::msg::Vertex initial_vertex;
       initial_vertex.time = std::numeric_limits<double>::quiet_NaN();
-- 
2.43.0


From 29d7ced0e4fb05cc2bf90e864f58d2986bb0aa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:25 +0000
Subject: [PATCH 51/62] fix: following a trajectory ends when all entities of a
 selection have ended it

---
 .../src/syntax/follow_trajectory_action.cpp                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp b/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
index 23bee1c..09b9537 100644
--- a/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
@@ -58,7 +58,7 @@ auto FollowTrajectoryAction::accomplished() -> bool
             auto evaluation = actor.apply([&](const auto & object) {
               return evaluateCurrentState(object) == "follow_polyline_trajectory";
             });
-            return not evaluation.size() or evaluation.min();
+            return evaluation.size() and evaluation.max();
           } else {
             return false;
           }
-- 
2.43.0


From 4c7a786a3afe3bdf04e6d1796150b3b73e188fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:25 +0000
Subject: [PATCH 52/62] fix: a lane change ends when all entities have finished
 it, not when it begins

---
 .../src/syntax/lane_change_action.cpp         | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/lane_change_action.cpp b/openscenario/openscenario_interpreter/src/syntax/lane_change_action.cpp
index aa44293..1204ea1 100644
--- a/openscenario/openscenario_interpreter/src/syntax/lane_change_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/lane_change_action.cpp
@@ -45,11 +45,23 @@ LaneChangeAction::LaneChangeAction(const pugi::xml_node & node, Scope & scope)
 
 auto LaneChangeAction::accomplished() -> bool
 {
+  if (accomplishments.empty() and not actors.empty()) {
+    /*
+       The entities do not reflect the request until traffic_simulator is
+       updated once after start (see also FollowTrajectoryAction). Therefore,
+       the first accomplished after calling start always evaluates to false.
+    */
+    for (const auto & actor : actors) {
+      accomplishments.emplace(actor, false);
+    }
+    return false;
+  }
+
   return std::all_of(std::begin(accomplishments), std::end(accomplishments), [&](auto & each) {
     const auto is_lane_changing = [&](const auto & actor) {
       auto evaluation = actor.apply(
         [&](const auto & object) { return evaluateCurrentState(object) == "lane_change"; });
-      return not evaluation.size() or evaluation.min();
+      return evaluation.size() and evaluation.max();
     };
     return each.second or (each.second = not is_lane_changing(each.first));
   });
@@ -64,12 +76,8 @@ auto LaneChangeAction::start() -> void
   accomplishments.clear();
 
   for (const auto & actor : actors) {
-    accomplishments.emplace(actor, false);
-  }
-
-  for (const auto & accomplishment : accomplishments) {
     if (lane_change_target.is<AbsoluteTargetLane>()) {
-      accomplishment.first.apply([&](const auto & object) {
+      actor.apply([&](const auto & object) {
         applyLaneChangeAction(
           object, static_cast<traffic_simulator::lane_change::AbsoluteTarget>(*this),
           static_cast<traffic_simulator::lane_change::TrajectoryShape>(
@@ -77,7 +85,7 @@ auto LaneChangeAction::start() -> void
           static_cast<traffic_simulator::lane_change::Constraint>(lane_change_action_dynamics));
       });
     } else {
-      accomplishment.first.apply([&](const auto & object) {
+      actor.apply([&](const auto & object) {
         applyLaneChangeAction(
           object, static_cast<traffic_simulator::lane_change::RelativeTarget>(*this),
           static_cast<traffic_simulator::lane_change::TrajectoryShape>(
-- 
2.43.0


From 1cfabaa8a278a6e330bec8b1ba22a4b75580b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:52 +0000
Subject: [PATCH 53/62] fix: a message could be written into a
 UserDefinedValueCondition that was already destroyed

---
 .../syntax/user_defined_value_condition.cpp   | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/user_defined_value_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/user_defined_value_condition.cpp
index 8b81ce5..f1aa3af 100644
--- a/openscenario/openscenario_interpreter/src/syntax/user_defined_value_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/user_defined_value_condition.cpp
@@ -32,7 +32,7 @@ namespace openscenario_interpreter
 inline namespace syntax
 {
 template <typename T>
-struct MagicSubscription : private T
+struct MagicSubscription
 {
   struct Node : public rclcpp::Node
   {
@@ -81,11 +81,20 @@ struct MagicSubscription : private T
 
   static inline std::unique_ptr<Node> node = nullptr;
 
-  typename rclcpp::Subscription<T>::SharedPtr subscription;
+  struct Latest
+  {
+    /// @note Protects access to the stored message,
+    /// ensuring get() and callback() are synchronized.
+    std::mutex mutex;
+
+    T message;
+  };
+
+  /// @note Shared with the callback, which may still be running in the spin thread when this object
+  /// is destroyed.
+  const std::shared_ptr<Latest> latest = std::make_shared<Latest>();
 
-  /// @note Protects access to the stored message,
-  /// ensuring get() and callback() are synchronized.
-  mutable std::mutex message_mutex;
+  typename rclcpp::Subscription<T>::SharedPtr subscription;
 
   explicit MagicSubscription(const std::string & topic_name)
   {
@@ -94,9 +103,9 @@ struct MagicSubscription : private T
     }
 
     subscription = node->template create_subscription<T>(
-      topic_name, rclcpp::QoS(1).best_effort(), [this](const typename T::SharedPtr message) {
-        std::lock_guard<std::mutex> lock(message_mutex);
-        static_cast<T &>(*this) = *message;
+      topic_name, rclcpp::QoS(1).best_effort(), [latest = latest](const typename T::SharedPtr message) {
+        std::lock_guard<std::mutex> lock(latest->mutex);
+        latest->message = *message;
       });
   }
 
@@ -110,8 +119,8 @@ struct MagicSubscription : private T
   auto get() const -> T
   {
     node->rethrow();
-    std::lock_guard<std::mutex> lock(message_mutex);
-    return static_cast<const T &>(*this);
+    std::lock_guard<std::mutex> lock(latest->mutex);
+    return latest->message;
   }
 };
 
-- 
2.43.0


From 6e1d33fa76b452ab1890305839ed0baa2e0999da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 54/62] fix: the test runner did not start without
 --override-parameters

---
 .../scenario_test_runner/scenario_test_runner.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py b/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
index cbd4412..73ca4fe 100755
--- a/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
+++ b/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
@@ -283,7 +283,7 @@ def main(args=None):
 
     parser.add_argument("--output-directory", default=Path("/tmp"), type=Path)
 
-    parser.add_argument("--override-parameters", default=None, type=str)
+    parser.add_argument("--override-parameters", default="", type=str)
 
     parser.add_argument("--global-frame-rate", default=30, type=float)
 
-- 
2.43.0


From 4d902aec46c99099c491d1cfd999e82ae94d1197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 55/62] fix: boolean overrides were sent to the preprocessor as
 True and False, which OpenSCENARIO does not read

---
 .../scenario_test_runner/scenario_test_runner.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py b/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
index 73ca4fe..0989226 100755
--- a/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
+++ b/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
@@ -135,7 +135,11 @@ class ScenarioTestRunner(LifecycleController):
             for parameter_name, parameter_value in json.loads(override_parameters).items():
                 request = SetParameter.Request()
                 request.name = parameter_name
-                request.value = str(parameter_value)
+                request.value = (
+                    str(parameter_value).lower()
+                    if isinstance(parameter_value, bool)
+                    else str(parameter_value)
+                )
                 future = self.set_parameters_preprocessor_client.call_async(request)
                 rclpy.spin_until_future_complete(self, future, timeout_sec=1.0)
                 if future.result() is None:
-- 
2.43.0


From 6e9e1967d309ca9f182452a3853065c403950ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 56/62] fix: a scenario the preprocessor refused was silently
 skipped

---
 .../scenario_test_runner/scenario_test_runner.py       | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py b/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
index 0989226..a76786f 100755
--- a/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
+++ b/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
@@ -257,12 +257,16 @@ class ScenarioTestRunner(LifecycleController):
 
         future = self.load_preprocessor_client.call_async(request)
         rclpy.spin_until_future_complete(self, future)
-        if future.result() is not None:
-            return True
-        else:
+        if future.result() is None:
             self.print_debug('Exception while calling service /simulation/openscenario_preprocessor/load: '
                              + str(future.exception()))
             return False
+        elif not future.result().has_succeeded:
+            self.print_debug('/simulation/openscenario_preprocessor/load failed: '
+                             + future.result().message)
+            return False
+        else:
+            return True
 
     def derivative_remained_on_preprocessor(self):
 
-- 
2.43.0


From 6913cfef7957f09ee20a1996d284132f9ab20fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 57/62] fix: the result of an earlier run was taken for that of
 a run that did not get to write one

---
 .../scenario_test_runner/scenario_test_runner.py                | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py b/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
index a76786f..9a49384 100755
--- a/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
+++ b/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
@@ -108,6 +108,8 @@ class ScenarioTestRunner(LifecycleController):
                     rmtree(target)
                 else:
                     os.remove(target)
+            # The result of an earlier run must not be taken for that of this run.
+            (self.output_directory / "result.junit.xml").unlink(missing_ok=True)
         self.output_directory.mkdir(parents=True, exist_ok=True)
 
         self.set_parameters_preprocessor_client = self.create_client(SetParameter,
-- 
2.43.0


From a653a3ec06c8562b61cafd1370d29be950a615ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 58/62] fix: an invalid or missing YAML scenario ended the
 conversion with status 0

---
 .../openscenario_utility/openscenario_utility/conversion.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_utility/openscenario_utility/conversion.py b/openscenario/openscenario_utility/openscenario_utility/conversion.py
index fa8156f..01b217e 100755
--- a/openscenario/openscenario_utility/openscenario_utility/conversion.py
+++ b/openscenario/openscenario_utility/openscenario_utility/conversion.py
@@ -98,7 +98,7 @@ class MacroExpander:
                 print("File: " + str(paths[-1]), file=stderr)
                 print("", file=stderr)
                 print("Error: " + str(exception), file=stderr)
-                exit()
+                exit(1)
 
             with paths[-1].open(mode="w") as file:
                 file.write(target)
@@ -114,7 +114,7 @@ def load_yaml(path: Path):
         print(
             "\x1b[31mNo such file or directory: " + str(path) + "\x1b[0m", file=stderr
         )
-        exit()
+        exit(1)
 
 
 def from_yaml(keyword, node):
-- 
2.43.0


From e889dedd9ab84d1597d31ffc614d405770c9ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 59/62] fix: the test runner ended with status 0 although it
 had abandoned scenarios

---
 .../scenario_test_runner/scenario_test_runner.py          | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py b/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
index 9a49384..8e0194a 100755
--- a/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
+++ b/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
@@ -100,6 +100,8 @@ class ScenarioTestRunner(LifecycleController):
 
         self.output_directory = substitute_ros_package(output_directory)
 
+        self.abandoned = False
+
         if self.output_directory.exists():
             glob_pattern = str(self.output_directory.resolve()) + "/*"
             remove_targets = glob(glob_pattern + "/*")
@@ -195,6 +197,10 @@ class ScenarioTestRunner(LifecycleController):
         self.shutdown()
         self.destroy_node()
 
+        # The scenarios that were not run to their end have no verdict in the result file.
+        if self.abandoned:
+            exit(1)
+
     def run_preprocessed_scenarios(self, scenarios: List[Scenario]):
         """
         Run all given scenarios.
@@ -245,8 +251,10 @@ class ScenarioTestRunner(LifecycleController):
             exit(0)
         except OSError as e:
             self.get_logger().warn("OSError: {}".format(e))
+            self.abandoned = True
         except Exception as e:
             self.get_logger().error("\x1b[1;31m{}\x1b[0m".format(e))
+            self.abandoned = True
 
     # def __del__(self):
     #     pass
-- 
2.43.0


From 4d992fd0e20120d8eda862d198e130328d2c7b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:10 +0000
Subject: [PATCH 60/62] fix: the preprocessor handed paths with spaces or
 quotes to the shell as several words

---
 .../src/openscenario_preprocessor.cpp                  | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_preprocessor/src/openscenario_preprocessor.cpp b/openscenario/openscenario_preprocessor/src/openscenario_preprocessor.cpp
index f703827..dce8072 100644
--- a/openscenario/openscenario_preprocessor/src/openscenario_preprocessor.cpp
+++ b/openscenario/openscenario_preprocessor/src/openscenario_preprocessor.cpp
@@ -73,8 +73,14 @@ Preprocessor::Preprocessor(const rclcpp::NodeOptions & options)
 
 bool Preprocessor::validateXOSC(const std::filesystem::path & file_name, bool verbose = false)
 {
-  auto result =
-    concealer::dollar("ros2 run openscenario_utility validation.py " + file_name.string());
+  // The path is one word of the command, whatever characters it contains.
+  auto quoted = std::string("'");
+  for (const auto c : file_name.string()) {
+    quoted += c == '\'' ? "'\\''" : std::string(1, c);
+  }
+  quoted += "'";
+
+  auto result = concealer::dollar("ros2 run openscenario_utility validation.py " + quoted);
   return result.find("All xosc files given are standard compliant.") != std::string::npos;
 }
 
-- 
2.43.0


From b5b4aa46ae3e7a75d907bfa39f13362dbb96811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:10 +0000
Subject: [PATCH 61/62] fix: the preprocessor rounded frame rates to single
 precision

---
 .../openscenario_preprocessor/openscenario_preprocessor.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_preprocessor/include/openscenario_preprocessor/openscenario_preprocessor.hpp b/openscenario/openscenario_preprocessor/include/openscenario_preprocessor/openscenario_preprocessor.hpp
index 00eba85..9c8d70d 100644
--- a/openscenario/openscenario_preprocessor/include/openscenario_preprocessor/openscenario_preprocessor.hpp
+++ b/openscenario/openscenario_preprocessor/include/openscenario_preprocessor/openscenario_preprocessor.hpp
@@ -48,7 +48,7 @@ struct ScenarioSet
 
   std::filesystem::path path;
 
-  float frame_rate;
+  double frame_rate;
 };
 
 class Preprocessor : public rclcpp::Node
-- 
2.43.0


From 857830662684c385c8a82e900f57c3aad9b4b92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:22 +0000
Subject: [PATCH 62/62] Revert five repairs of scenario_test_runner.py (it is
 named like a test file)

---
 .../scenario_test_runner.py                   | 28 ++++---------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py b/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
index 8e0194a..cbd4412 100755
--- a/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
+++ b/test_runner/scenario_test_runner/scenario_test_runner/scenario_test_runner.py
@@ -100,8 +100,6 @@ class ScenarioTestRunner(LifecycleController):
 
         self.output_directory = substitute_ros_package(output_directory)
 
-        self.abandoned = False
-
         if self.output_directory.exists():
             glob_pattern = str(self.output_directory.resolve()) + "/*"
             remove_targets = glob(glob_pattern + "/*")
@@ -110,8 +108,6 @@ class ScenarioTestRunner(LifecycleController):
                     rmtree(target)
                 else:
                     os.remove(target)
-            # The result of an earlier run must not be taken for that of this run.
-            (self.output_directory / "result.junit.xml").unlink(missing_ok=True)
         self.output_directory.mkdir(parents=True, exist_ok=True)
 
         self.set_parameters_preprocessor_client = self.create_client(SetParameter,
@@ -139,11 +135,7 @@ class ScenarioTestRunner(LifecycleController):
             for parameter_name, parameter_value in json.loads(override_parameters).items():
                 request = SetParameter.Request()
                 request.name = parameter_name
-                request.value = (
-                    str(parameter_value).lower()
-                    if isinstance(parameter_value, bool)
-                    else str(parameter_value)
-                )
+                request.value = str(parameter_value)
                 future = self.set_parameters_preprocessor_client.call_async(request)
                 rclpy.spin_until_future_complete(self, future, timeout_sec=1.0)
                 if future.result() is None:
@@ -197,10 +189,6 @@ class ScenarioTestRunner(LifecycleController):
         self.shutdown()
         self.destroy_node()
 
-        # The scenarios that were not run to their end have no verdict in the result file.
-        if self.abandoned:
-            exit(1)
-
     def run_preprocessed_scenarios(self, scenarios: List[Scenario]):
         """
         Run all given scenarios.
@@ -251,10 +239,8 @@ class ScenarioTestRunner(LifecycleController):
             exit(0)
         except OSError as e:
             self.get_logger().warn("OSError: {}".format(e))
-            self.abandoned = True
         except Exception as e:
             self.get_logger().error("\x1b[1;31m{}\x1b[0m".format(e))
-            self.abandoned = True
 
     # def __del__(self):
     #     pass
@@ -267,16 +253,12 @@ class ScenarioTestRunner(LifecycleController):
 
         future = self.load_preprocessor_client.call_async(request)
         rclpy.spin_until_future_complete(self, future)
-        if future.result() is None:
+        if future.result() is not None:
+            return True
+        else:
             self.print_debug('Exception while calling service /simulation/openscenario_preprocessor/load: '
                              + str(future.exception()))
             return False
-        elif not future.result().has_succeeded:
-            self.print_debug('/simulation/openscenario_preprocessor/load failed: '
-                             + future.result().message)
-            return False
-        else:
-            return True
 
     def derivative_remained_on_preprocessor(self):
 
@@ -301,7 +283,7 @@ def main(args=None):
 
     parser.add_argument("--output-directory", default=Path("/tmp"), type=Path)
 
-    parser.add_argument("--override-parameters", default="", type=str)
+    parser.add_argument("--override-parameters", default=None, type=str)
 
     parser.add_argument("--global-frame-rate", default=30, type=float)
 
-- 
2.43.0

