From aba3021308fcda3a3f6402c25812dccc1bb6f8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 01/60] fix: joint limiters let commands through unlimited
 while a measured value is NaN

---
 .../include/joint_limits/joint_limits_helpers.hpp  |  7 +++++++
 joint_limits/src/joint_limits_helpers.cpp          | 14 ++++++++++++++
 joint_limits/src/joint_range_limiter.cpp           |  4 +++-
 joint_limits/src/joint_soft_limiter.cpp            |  4 +++-
 4 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/joint_limits/include/joint_limits/joint_limits_helpers.hpp b/joint_limits/include/joint_limits/joint_limits_helpers.hpp
index 50ae765..1c64c6b 100644
--- a/joint_limits/include/joint_limits/joint_limits_helpers.hpp
+++ b/joint_limits/include/joint_limits/joint_limits_helpers.hpp
@@ -32,6 +32,13 @@ constexpr double POSITION_BOUNDS_TOLERANCE = 0.002;
 constexpr double OUT_OF_BOUNDS_EXCEPTION_TOLERANCE = 0.0087;
 }  // namespace internal
 
+/**
+ * @brief Drop the entries which hold no valid value, so that they are handled like missing ones.
+ * @param data The data to be filtered, e.g., the measured state of a joint.
+ * @return A copy of the data in which every NaN value is replaced by std::nullopt.
+ */
+JointControlInterfacesData discard_nan_values(const JointControlInterfacesData & data);
+
 /**
  * @brief Update the previous command with the desired command.
  * @param prev_command The previous command to update.
diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index 5f41cfa..3aa2331 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -72,6 +72,20 @@ void verify_actual_position_within_limits(
 }
 }  // namespace internal
 
+JointControlInterfacesData discard_nan_values(const JointControlInterfacesData & data)
+{
+  JointControlInterfacesData result = data;
+  for (auto * value :
+       {&result.position, &result.velocity, &result.effort, &result.acceleration, &result.jerk})
+  {
+    if (value->has_value() && std::isnan(value->value()))
+    {
+      value->reset();
+    }
+  }
+  return result;
+}
+
 void update_prev_command(
   const JointControlInterfacesData & desired, JointControlInterfacesData & prev_command)
 {
diff --git a/joint_limits/src/joint_range_limiter.cpp b/joint_limits/src/joint_range_limiter.cpp
index 5b94914..13757c0 100644
--- a/joint_limits/src/joint_range_limiter.cpp
+++ b/joint_limits/src/joint_range_limiter.cpp
@@ -43,7 +43,7 @@ bool JointSaturationLimiter<JointControlInterfacesData>::on_init()
 
 template <>
 bool JointSaturationLimiter<JointControlInterfacesData>::on_enforce(
-  const JointControlInterfacesData & actual, JointControlInterfacesData & desired,
+  const JointControlInterfacesData & current, JointControlInterfacesData & desired,
   const rclcpp::Duration & dt)
 {
   std::lock_guard<std::mutex> lock(mutex_);
@@ -58,6 +58,8 @@ bool JointSaturationLimiter<JointControlInterfacesData>::on_enforce(
 
   const auto joint_limits = joint_limits_[0];
   const std::string joint_name = joint_names_[0];
+  // A measurement which is not available yet must not disable the limits
+  const JointControlInterfacesData actual = discard_nan_values(current);
   // The following conditional filling is needed for cases of having certain information missing
   if (!prev_command_.has_data())
   {
diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 5fa3d92..3451dfb 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -23,7 +23,7 @@ namespace joint_limits
 {
 
 bool JointSoftLimiter::on_enforce(
-  const JointControlInterfacesData & actual, JointControlInterfacesData & desired,
+  const JointControlInterfacesData & current, JointControlInterfacesData & desired,
   const rclcpp::Duration & dt)
 {
   std::lock_guard<std::mutex> lock(mutex_);
@@ -44,6 +44,8 @@ bool JointSoftLimiter::on_enforce(
   }
 
   const std::string joint_name = joint_names_[0];
+  // A measurement which is not available yet must not disable the limits
+  const JointControlInterfacesData actual = discard_nan_values(current);
 
   if (!prev_command_.has_data())
   {
-- 
2.43.0


From 466c99d1daea4665ff0a0e0a866fda903b365a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 02/60] fix: disabled position and jerk limits still restricted
 commands

---
 joint_limits/src/joint_limits_helpers.cpp | 5 ++++-
 joint_limits/src/joint_range_limiter.cpp  | 3 ++-
 joint_limits/src/joint_soft_limiter.cpp   | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index 3aa2331..3f2411c 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -119,7 +119,10 @@ PositionLimits compute_position_limits(
   const std::optional<double> & act_vel, const std::optional<double> & act_pos,
   const std::optional<double> & prev_command_pos, double dt)
 {
-  PositionLimits pos_limits(limits.min_position, limits.max_position);
+  // When position limits are disabled only the velocity limits may restrict the position command
+  PositionLimits pos_limits(
+    limits.has_position_limits ? limits.min_position : -std::numeric_limits<double>::infinity(),
+    limits.has_position_limits ? limits.max_position : std::numeric_limits<double>::infinity());
   internal::verify_actual_position_within_limits(joint_name, act_pos, limits);
   if (limits.has_velocity_limits)
   {
diff --git a/joint_limits/src/joint_range_limiter.cpp b/joint_limits/src/joint_range_limiter.cpp
index 13757c0..bfd0da4 100644
--- a/joint_limits/src/joint_range_limiter.cpp
+++ b/joint_limits/src/joint_range_limiter.cpp
@@ -168,7 +168,8 @@ bool JointSaturationLimiter<JointControlInterfacesData>::on_enforce(
       std::clamp(desired.acceleration.value(), limits.lower_limit, limits.upper_limit);
   }
 
-  if (desired.has_jerk() && !std::isnan(desired.jerk.value()))
+  if (
+    joint_limits.has_jerk_limits && desired.has_jerk() && !std::isnan(desired.jerk.value()))
   {
     limits_enforced =
       is_limited(desired.jerk.value(), -joint_limits.max_jerk, joint_limits.max_jerk) ||
diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 3451dfb..3171a23 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -270,7 +270,8 @@ bool JointSoftLimiter::on_enforce(
       std::clamp(desired.acceleration.value(), limits.lower_limit, limits.upper_limit);
   }
 
-  if (desired.has_jerk() && !std::isnan(desired.jerk.value()))
+  if (
+    hard_limits.has_jerk_limits && desired.has_jerk() && !std::isnan(desired.jerk.value()))
   {
     limits_enforced =
       is_limited(desired.jerk.value(), -hard_limits.max_jerk, hard_limits.max_jerk) ||
-- 
2.43.0


From 502543f1bb34d07a740ffba4f16096c013bdbc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 03/60] fix: soft limiter clamped into an inverted range when
 the soft and hard windows do not meet

---
 joint_limits/src/joint_soft_limiter.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 3171a23..b5391c8 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -224,6 +224,13 @@ bool JointSoftLimiter::on_enforce(
 
     soft_min_vel = std::max(soft_min_vel, velocity_limits.lower_limit);
     soft_max_vel = std::min(soft_max_vel, velocity_limits.upper_limit);
+    // If the two ranges don't overlap, fall back to the hard limits so that std::clamp always gets
+    // a valid [lo, hi] pair (lo <= hi)
+    if (soft_min_vel > soft_max_vel)
+    {
+      soft_min_vel = velocity_limits.lower_limit;
+      soft_max_vel = velocity_limits.upper_limit;
+    }
 
     limits_enforced =
       is_limited(desired.velocity.value(), soft_min_vel, soft_max_vel) || limits_enforced;
@@ -252,6 +259,13 @@ bool JointSoftLimiter::on_enforce(
 
       soft_min_eff = std::max(soft_min_eff, effort_limits.lower_limit);
       soft_max_eff = std::min(soft_max_eff, effort_limits.upper_limit);
+      // If the two ranges don't overlap, fall back to the hard limits so that std::clamp always
+      // gets a valid [lo, hi] pair (lo <= hi)
+      if (soft_min_eff > soft_max_eff)
+      {
+        soft_min_eff = effort_limits.lower_limit;
+        soft_max_eff = effort_limits.upper_limit;
+      }
     }
 
     limits_enforced =
-- 
2.43.0


From e58aa3089075af491e9834e342e2669ee42b5cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 04/60] fix: joint limit updates were dropped depending on the
 order of the parameters in a batch

---
 .../joint_limits/joint_limits_rosparam.hpp    | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
index 6009cb9..3f4d11b 100644
--- a/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
+++ b/joint_limits/include/joint_limits/joint_limits_rosparam.hpp
@@ -452,37 +452,37 @@ inline bool check_for_limits_update(
     {
       if (param_name == param_base_name + ".min_position")
       {
-        changed = updated_limits.min_position != parameter.get_value<double>();
+        changed |= updated_limits.min_position != parameter.get_value<double>();
         updated_limits.min_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_position")
       {
-        changed = updated_limits.max_position != parameter.get_value<double>();
+        changed |= updated_limits.max_position != parameter.get_value<double>();
         updated_limits.max_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_velocity")
       {
-        changed = updated_limits.max_velocity != parameter.get_value<double>();
+        changed |= updated_limits.max_velocity != parameter.get_value<double>();
         updated_limits.max_velocity = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_acceleration")
       {
-        changed = updated_limits.max_acceleration != parameter.get_value<double>();
+        changed |= updated_limits.max_acceleration != parameter.get_value<double>();
         updated_limits.max_acceleration = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_deceleration")
       {
-        changed = updated_limits.max_deceleration != parameter.get_value<double>();
+        changed |= updated_limits.max_deceleration != parameter.get_value<double>();
         updated_limits.max_deceleration = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_jerk")
       {
-        changed = updated_limits.max_jerk != parameter.get_value<double>();
+        changed |= updated_limits.max_jerk != parameter.get_value<double>();
         updated_limits.max_jerk = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".max_effort")
       {
-        changed = updated_limits.max_effort != parameter.get_value<double>();
+        changed |= updated_limits.max_effort != parameter.get_value<double>();
         updated_limits.max_effort = parameter.get_value<double>();
       }
     }
@@ -525,6 +525,10 @@ inline bool check_for_limits_update(
             changed = true;
           }
         }
+        else
+        {
+          changed = true;
+        }
       }
       else if (param_name == param_base_name + ".has_velocity_limits")
       {
@@ -818,22 +822,22 @@ inline bool check_for_limits_update(
     {
       if (param_name == param_base_name + ".k_position")
       {
-        changed = updated_limits.k_position != parameter.get_value<double>();
+        changed |= updated_limits.k_position != parameter.get_value<double>();
         updated_limits.k_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".k_velocity")
       {
-        changed = updated_limits.k_velocity != parameter.get_value<double>();
+        changed |= updated_limits.k_velocity != parameter.get_value<double>();
         updated_limits.k_velocity = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".soft_lower_limit")
       {
-        changed = updated_limits.min_position != parameter.get_value<double>();
+        changed |= updated_limits.min_position != parameter.get_value<double>();
         updated_limits.min_position = parameter.get_value<double>();
       }
       else if (param_name == param_base_name + ".soft_upper_limit")
       {
-        changed = updated_limits.max_position != parameter.get_value<double>();
+        changed |= updated_limits.max_position != parameter.get_value<double>();
         updated_limits.max_position = parameter.get_value<double>();
       }
     }
-- 
2.43.0


From a723fcead123ccb05454ed4db1597ce22fe1e6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 05/60] fix: a joint limit update was lost when another one
 followed before the next enforcement

---
 joint_limits/include/joint_limits/joint_limiter_interface.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/joint_limits/include/joint_limits/joint_limiter_interface.hpp b/joint_limits/include/joint_limits/joint_limiter_interface.hpp
index 0d1245e..8c3a0a5 100644
--- a/joint_limits/include/joint_limits/joint_limiter_interface.hpp
+++ b/joint_limits/include/joint_limits/joint_limiter_interface.hpp
@@ -100,7 +100,9 @@ public:
         rcl_interfaces::msg::SetParametersResult set_parameters_result;
         set_parameters_result.successful = true;
 
-        std::vector<joint_limits::JointLimits> updated_joint_limits = joint_limits_;
+        // start from the latest limits, also if they were not used in the control loop yet
+        std::vector<joint_limits::JointLimits> updated_joint_limits =
+          *(updated_limits_.readFromNonRT());
         bool changed = false;
 
         for (size_t i = 0; i < number_of_joints_; ++i)
-- 
2.43.0


From ddb2750e40d4dad5a8274a2cdf45092f3bb3145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 06/60] fix: a failing hardware which was already finalized ran
 its error handler again and could leave the finalized state

---
 hardware_interface/src/hardware_component.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/hardware_component.cpp b/hardware_interface/src/hardware_component.cpp
index ac579ff..10b5d89 100644
--- a/hardware_interface/src/hardware_component.cpp
+++ b/hardware_interface/src/hardware_component.cpp
@@ -221,9 +221,11 @@ const rclcpp_lifecycle::State & HardwareComponent::error()
 {
   std::unique_lock<std::recursive_mutex> lock(component_mutex_);
   impl_->enable_introspection(false);
+  // A finalized hardware can not be recovered
   if (
     impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN &&
-    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
+    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED &&
+    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED)
   {
     impl_->pause_async_operations();
     switch (impl_->on_error(impl_->get_lifecycle_state()))
-- 
2.43.0


From 5ae1dfe6e9edfcc99e224355cedbdeb6aa4f394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 07/60] fix: interfaces stayed available when a failed
 transition left the hardware unconfigured or finalized

---
 hardware_interface/src/resource_manager.cpp | 29 +++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 6da74e5..6c0c189 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -442,6 +442,19 @@ public:
     }
   }
 
+  /// A failed transition can end in the unconfigured or finalized state (see `on_error`), in which
+  /// the hardware does not offer its interfaces any more.
+  template <class HardwareT>
+  void remove_interfaces_of_failed_hardware(HardwareT & hardware)
+  {
+    if (
+      hardware.get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED ||
+      hardware.get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED)
+    {
+      remove_all_hardware_interfaces_from_available_list(hardware.get_name());
+    }
+  }
+
   template <class HardwareT>
   bool cleanup_hardware(HardwareT & hardware)
   {
@@ -471,6 +484,10 @@ public:
     {
       remove_all_hardware_interfaces_from_available_list(hardware.get_name());
     }
+    else
+    {
+      remove_interfaces_of_failed_hardware(hardware);
+    }
     if (!hardware.get_group_name().empty())
     {
       hw_group_state_[hardware.get_group_name()] = return_type::OK;
@@ -515,6 +532,10 @@ public:
         hw_group_state_[hardware.get_group_name()] = return_type::OK;
       }
     }
+    else
+    {
+      remove_interfaces_of_failed_hardware(hardware);
+    }
     return result;
   }
 
@@ -542,6 +563,10 @@ public:
         hardware.get_name().c_str());
       handle_exception_ ? void() : throw;
     }
+    if (!result)
+    {
+      remove_interfaces_of_failed_hardware(hardware);
+    }
     return result;
   }
 
@@ -575,6 +600,10 @@ public:
       // TODO(destogl): make all command interfaces unavailable that should be present only
       // when active (currently are all available) also at inactive
     }
+    else
+    {
+      remove_interfaces_of_failed_hardware(hardware);
+    }
     return result;
   }
 
-- 
2.43.0


From bbd8e115987b1809db4a035a8f732c7d3ba05f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 08/60] fix: an exception thrown while reading or writing a
 hardware was not propagated to its group

---
 hardware_interface/src/resource_manager.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 6c0c189..b48388b 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1389,9 +1389,9 @@ public:
     // to the respective return type
     if (value != return_type::OK)
     {
-      hw_group_state_.at(group_name) = value;
+      hw_group_state_[group_name] = value;
     }
-    return hw_group_state_.at(group_name);
+    return hw_group_state_[group_name];
   }
 
   /// Gets the logger for the resource storage
@@ -2485,9 +2485,6 @@ HardwareReadWriteStatus ResourceManager::read(
           hardware_component_info.read_statistics->periodicity.update_statistics(
             read_statistics_collector.periodicity);
         }
-        const auto component_group = component.get_group_name();
-        ret_val =
-          resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       }
       catch (const std::exception & e)
       {
@@ -2505,6 +2502,8 @@ HardwareReadWriteStatus ResourceManager::read(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      ret_val = resource_storage_->update_hardware_component_group_state(
+        component.get_group_name(), ret_val);
       RCLCPP_WARN_EXPRESSION(
         get_logger(), ret_val == hardware_interface::return_type::DEACTIVATE,
         "DEACTIVATE returned from read cycle is treated the same as ERROR.");
@@ -2587,9 +2586,6 @@ HardwareReadWriteStatus ResourceManager::write(
           hardware_component_info.write_statistics->periodicity.update_statistics(
             write_statistics_collector.periodicity);
         }
-        const auto component_group = component.get_group_name();
-        ret_val =
-          resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       }
       catch (const std::exception & e)
       {
@@ -2607,6 +2603,8 @@ HardwareReadWriteStatus ResourceManager::write(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      ret_val = resource_storage_->update_hardware_component_group_state(
+        component.get_group_name(), ret_val);
       if (ret_val == return_type::ERROR)
       {
         component.error();
-- 
2.43.0


From 894ec6be8668d9f0a4039f53aae151676e1e14cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 09/60] fix: a hardware deactivating itself made its whole
 group fail, and the group could not be activated again

---
 hardware_interface/src/resource_manager.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index b48388b..1e3037a 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -567,6 +567,13 @@ public:
     {
       remove_interfaces_of_failed_hardware(hardware);
     }
+    else if (
+      !hardware.get_group_name().empty() &&
+      hw_group_state_[hardware.get_group_name()] == return_type::DEACTIVATE)
+    {
+      // The deactivation requested by a member of the group is over
+      hw_group_state_[hardware.get_group_name()] = return_type::OK;
+    }
     return result;
   }
 
@@ -2502,11 +2509,19 @@ HardwareReadWriteStatus ResourceManager::read(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      if (ret_val == return_type::DEACTIVATE)
+      {
+        RCLCPP_WARN(
+          get_logger(), "DEACTIVATE returned from read cycle is treated the same as ERROR.");
+        ret_val = return_type::ERROR;
+      }
       ret_val = resource_storage_->update_hardware_component_group_state(
         component.get_group_name(), ret_val);
-      RCLCPP_WARN_EXPRESSION(
-        get_logger(), ret_val == hardware_interface::return_type::DEACTIVATE,
-        "DEACTIVATE returned from read cycle is treated the same as ERROR.");
+      if (ret_val == return_type::DEACTIVATE)
+      {
+        // A member of the group deactivated itself in write(), the others follow in write()
+        ret_val = return_type::OK;
+      }
       if (ret_val != return_type::OK)
       {
         component.error();
-- 
2.43.0


From 8109ff03c126c214655465f8bf6fc869d2c15aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 10/60] fix: an exception thrown by the error handler of a
 hardware escaped the control loop

---
 hardware_interface/src/hardware_component.cpp | 15 +++++++++-
 hardware_interface/src/resource_manager.cpp   | 28 +++++++++++++++++--
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/hardware_interface/src/hardware_component.cpp b/hardware_interface/src/hardware_component.cpp
index 10b5d89..edc6cd3 100644
--- a/hardware_interface/src/hardware_component.cpp
+++ b/hardware_interface/src/hardware_component.cpp
@@ -228,7 +228,20 @@ const rclcpp_lifecycle::State & HardwareComponent::error()
     impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED)
   {
     impl_->pause_async_operations();
-    switch (impl_->on_error(impl_->get_lifecycle_state()))
+    CallbackReturn result = CallbackReturn::ERROR;
+    try
+    {
+      result = impl_->on_error(impl_->get_lifecycle_state());
+    }
+    catch (...)
+    {
+      // An error handler which throws did not recover the hardware
+      impl_->set_lifecycle_state(
+        rclcpp_lifecycle::State(
+          lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED, lifecycle_state_names::FINALIZED));
+      throw;
+    }
+    switch (result)
     {
       case CallbackReturn::SUCCESS:
         impl_->set_lifecycle_state(
diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 1e3037a..4ce2104 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1401,6 +1401,30 @@ public:
     return hw_group_state_[group_name];
   }
 
+  /// Runs the error handler of a hardware component which failed to read or write
+  template <class HardwareT>
+  void handle_hardware_error(HardwareT & hardware)
+  {
+    try
+    {
+      hardware.error();
+    }
+    catch (const std::exception & ex)
+    {
+      RCLCPP_ERROR(
+        get_logger(), "Exception of type : %s occurred while handling an error of hardware '%s': %s",
+        typeid(ex).name(), hardware.get_name().c_str(), ex.what());
+      handle_exception_ ? void() : throw;
+    }
+    catch (...)
+    {
+      RCLCPP_ERROR(
+        get_logger(), "Unknown exception occurred while handling an error of hardware '%s'",
+        hardware.get_name().c_str());
+      handle_exception_ ? void() : throw;
+    }
+  }
+
   /// Gets the logger for the resource storage
   /**
    * \return logger of the resource storage
@@ -2524,7 +2548,7 @@ HardwareReadWriteStatus ResourceManager::read(
       }
       if (ret_val != return_type::OK)
       {
-        component.error();
+        resource_storage_->handle_hardware_error(component);
         read_write_status.result = return_type::ERROR;
         read_write_status.failed_hardware_names.push_back(component_name);
         resource_storage_->remove_all_hardware_interfaces_from_available_list(component_name);
@@ -2622,7 +2646,7 @@ HardwareReadWriteStatus ResourceManager::write(
         component.get_group_name(), ret_val);
       if (ret_val == return_type::ERROR)
       {
-        component.error();
+        resource_storage_->handle_hardware_error(component);
         read_write_status.result = ret_val;
         read_write_status.failed_hardware_names.push_back(component_name);
         resource_storage_->remove_all_hardware_interfaces_from_available_list(component_name);
-- 
2.43.0


From dd49ac1d86db6ca743dea88910a3e5ae131a1a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 11/60] fix: refuse a switch whose new controllers need
 interfaces of a controller that is only restarted

---
 controller_manager/src/controller_manager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 32d3e5d..def64ee 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4337,6 +4337,11 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
       RCLCPP_ERROR(get_logger(), "%s", message.c_str());
       return controller_interface::return_type::ERROR;
     }
+    if (ros2_control::has_item(activation_list, controller_name))
+    {
+      // a controller that is restarted in this request keeps its command interfaces
+      continue;
+    }
     const auto cmd_itf_cfg = controller_it->c->command_interface_configuration();
     const auto controller_cmd_interfaces =
       (cmd_itf_cfg.type == controller_interface::interface_configuration_type::INDIVIDUAL)
-- 
2.43.0


From 52166499027d67141494696f67ac684b6f88700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 12/60] fix: derive chained modes of a switch from the
 controllers which will be active

The requests to enter and leave the chained mode were collected while the requests were still
being filtered. A controller lost or kept its chained mode although its reference interfaces
were (not) used after the switch: when its commanding controller is restarted, when one of
several commanding controllers stops, when only a reader of its states stops, or when a
BEST_EFFORT switch drops requests.
---
 .../controller_manager/controller_manager.hpp |  10 +-
 controller_manager/src/controller_manager.cpp | 141 +++++++-----------
 2 files changed, 60 insertions(+), 91 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 2174ea0..628b6b1 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -412,12 +412,14 @@ private:
     const std::string & rt_cycle_name);
 
   /**
-   * If a controller is deactivated all following controllers (if any exist) should be switched
-   * 'from' the chained mode.
+   * Decide which chainable controllers have to be switched 'to' or 'from' the chained mode, once it
+   * is known which controllers are going to be activated and deactivated.
+   * A controller is in the chained mode if, and only if, it is active and another active controller
+   * uses its reference interfaces.
    *
    * \param[in] controllers list with controllers.
    */
-  void propagate_deactivation_of_chained_mode(const std::vector<ControllerSpec> & controllers);
+  void update_chained_mode_requests(const std::vector<ControllerSpec> & controllers);
 
   /// Check if all the following controllers will be in active state and in the chained mode
   /// after controllers' switch.
@@ -426,8 +428,6 @@ private:
    * - are already active,
    * - will not be deactivated,
    * - or will be activated.
-   * The following controllers are added to the request to switch in the chained mode or removed
-   * from the request to switch from the chained mode.
    *
    * For each controller the whole chain of following controllers is checked.
    *
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index def64ee..4a99a70 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2038,10 +2038,6 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
 
   const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
 
-  // if a preceding controller is deactivated, all first-level controllers should be switched 'from'
-  // chained mode
-  propagate_deactivation_of_chained_mode(controllers);
-
   // check if controllers should be switched 'to' chained mode when controllers are activated
   for (auto ctrl_it = switch_params_.activate_request.begin();
        ctrl_it != switch_params_.activate_request.end(); ++ctrl_it)
@@ -2186,6 +2182,9 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   }
   message.clear();
 
+  // the requests are final, decide which controllers have to change their chained mode
+  update_chained_mode_requests(controllers);
+
   for (const auto & controller : controllers)
   {
     auto to_chained_mode_list_it = std::find(
@@ -3834,58 +3833,59 @@ void ControllerManager::perform_hardware_command_mode_change(
   }
 }
 
-void ControllerManager::propagate_deactivation_of_chained_mode(
+void ControllerManager::update_chained_mode_requests(
   const std::vector<ControllerSpec> & controllers)
 {
-  for (const auto & controller : controllers)
+  switch_params_.to_chained_mode_request.clear();
+  switch_params_.from_chained_mode_request.clear();
+
+  const auto will_be_active = [this](const ControllerSpec & controller)
   {
-    // get pointers to places in deactivate and activate lists ((de)activate lists have changed)
-    auto deactivate_list_it = std::find(
-      switch_params_.deactivate_request.begin(), switch_params_.deactivate_request.end(),
-      controller.info.name);
+    return ros2_control::has_item(switch_params_.activate_request, controller.info.name) ||
+           (is_controller_active(controller.c) &&
+            !ros2_control::has_item(switch_params_.deactivate_request, controller.info.name));
+  };
 
-    if (deactivate_list_it != switch_params_.deactivate_request.end())
+  // controllers whose reference interfaces are used once the switch is done
+  std::vector<std::string> commanded_controllers;
+  for (const auto & controller : controllers)
+  {
+    if (!will_be_active(controller))
     {
-      // if controller is not active then skip adding following-controllers to "from" chained mode
-      // request
-      if (!is_controller_active(controller.c))
+      continue;
+    }
+    for (const auto & cmd_itf : get_command_interfaces_names(controller.c, resource_manager_))
+    {
+      ControllersListIterator following_ctrl_it;
+      if (is_interface_a_chained_interface(cmd_itf, controllers, following_ctrl_it))
       {
-        RCLCPP_DEBUG(
-          get_logger(),
-          "Controller with name '%s' can not be deactivated since is not active. "
-          "The controller will be removed from the list later."
-          "Skipping adding following controllers to 'from' chained mode request.",
-          controller.info.name.c_str());
-        break;
+        ros2_control::add_item(commanded_controllers, following_ctrl_it->info.name);
       }
+    }
+  }
 
-      const auto ctrl_cmd_itf_names = get_command_interfaces_names(controller.c, resource_manager_);
-      const auto ctrl_state_itf_names = get_state_interfaces_names(controller.c, resource_manager_);
-      auto ctrl_itf_names = ctrl_cmd_itf_names;
-      ctrl_itf_names.insert(
-        ctrl_itf_names.end(), ctrl_state_itf_names.begin(), ctrl_state_itf_names.end());
-      for (const auto & ctrl_itf_name : ctrl_itf_names)
-      {
-        // controller that 'cmd_tf_name' belongs to
-        ControllersListIterator following_ctrl_it;
-        if (is_interface_a_chained_interface(ctrl_itf_name, controllers, following_ctrl_it))
-        {
-          // currently iterated "controller" is preceding controller --> add following controller
-          // with matching interface name to "from" chained mode list (if not already in it)
-          if (
-            std::find(
-              switch_params_.from_chained_mode_request.begin(),
-              switch_params_.from_chained_mode_request.end(),
-              following_ctrl_it->info.name) == switch_params_.from_chained_mode_request.end())
-          {
-            switch_params_.from_chained_mode_request.push_back(following_ctrl_it->info.name);
-            RCLCPP_DEBUG(
-              get_logger(), "Adding controller '%s' in 'from chained mode' request.",
-              following_ctrl_it->info.name.c_str());
-          }
-        }
-      }
+  for (const auto & controller : controllers)
+  {
+    if (!controller.c->is_chainable())
+    {
+      continue;
+    }
+    const bool is_commanded =
+      will_be_active(controller) &&
+      ros2_control::has_item(commanded_controllers, controller.info.name);
+    // a controller that is restarted leaves the chained mode when it is deactivated
+    const bool is_restarted =
+      ros2_control::has_item(switch_params_.deactivate_request, controller.info.name);
+    if (is_commanded == controller.c->is_in_chained_mode() && !(is_commanded && is_restarted))
+    {
+      continue;
     }
+    auto & request = is_commanded ? switch_params_.to_chained_mode_request
+                                  : switch_params_.from_chained_mode_request;
+    request.push_back(controller.info.name);
+    RCLCPP_DEBUG(
+      get_logger(), "Adding controller '%s' in '%s chained mode' request.",
+      controller.info.name.c_str(), is_commanded ? "to" : "from");
   }
 }
 
@@ -3985,8 +3985,7 @@ controller_interface::return_type ControllerManager::check_following_controllers
       return controller_interface::return_type::ERROR;
     }
 
-    // Trigger recursion to check all the following controllers only if they are OK, add this
-    // controller update chained mode requests
+    // Trigger recursion to check all the following controllers
     if (
       check_following_controllers_for_activate(
         controllers, strictness, following_ctrl_it, message) ==
@@ -4003,46 +4002,16 @@ controller_interface::return_type ControllerManager::check_following_controllers
     //   switch_params_.activate_request.insert(switch_params_.activate_request.begin(),
     //   following_ctrl_name);
     // }
-    if (!following_ctrl_it->c->is_in_chained_mode())
+    if (!is_controller_active(following_ctrl_it->c))
     {
-      auto found_it = std::find(
-        switch_params_.to_chained_mode_request.begin(),
-        switch_params_.to_chained_mode_request.end(), following_ctrl_it->info.name);
-      if (found_it == switch_params_.to_chained_mode_request.end())
+      // make the exported interfaces of the controller available on preactivation
+      // (This is needed when you activate a couple of chainable controller altogether)
+      resource_manager_->make_controller_exported_state_interfaces_available(
+        following_ctrl_it->info.name);
+      if (ros2_control::has_item(controller_cmd_interfaces, ctrl_itf_name))
       {
-        // if it is a chainable controller, make the reference interfaces available on preactivation
-        // (This is needed when you activate a couple of chainable controller altogether)
-        // make all the exported interfaces of the controller available
-        resource_manager_->make_controller_exported_state_interfaces_available(
+        resource_manager_->make_controller_reference_interfaces_available(
           following_ctrl_it->info.name);
-        if (
-          std::find(
-            controller_cmd_interfaces.begin(), controller_cmd_interfaces.end(), ctrl_itf_name) !=
-          controller_cmd_interfaces.end())
-        {
-          resource_manager_->make_controller_reference_interfaces_available(
-            following_ctrl_it->info.name);
-          switch_params_.to_chained_mode_request.push_back(following_ctrl_it->info.name);
-          RCLCPP_DEBUG(
-            get_logger(), "Adding controller '%s' in 'to chained mode' request.",
-            following_ctrl_it->info.name.c_str());
-        }
-      }
-    }
-    else
-    {
-      // Check if following controller is in 'from' chained mode list and remove it, if so
-      auto found_it = std::find(
-        switch_params_.from_chained_mode_request.begin(),
-        switch_params_.from_chained_mode_request.end(), following_ctrl_it->info.name);
-      if (found_it != switch_params_.from_chained_mode_request.end())
-      {
-        switch_params_.from_chained_mode_request.erase(found_it);
-        RCLCPP_DEBUG(
-          get_logger(),
-          "Removing controller '%s' in 'from chained mode' request because it "
-          "should stay in chained mode.",
-          following_ctrl_it->info.name.c_str());
       }
     }
   }
-- 
2.43.0


From 018146348c9c371b3d378f9ebb19fa02c990d943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 13/60] fix: do not stop a controller which a restarted
 controller depends on

---
 controller_manager/src/controller_manager.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 4a99a70..fa70953 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4062,6 +4062,19 @@ controller_interface::return_type ControllerManager::check_preceding_controllers
         RCLCPP_WARN(get_logger(), "%s", message.c_str());
         return controller_interface::return_type::ERROR;
       }
+      if (
+        is_controller_active(found_it->c) &&
+        ros2_control::has_item(switch_params_.activate_request, preceding_controller) &&
+        !ros2_control::has_item(switch_params_.activate_request, controller_it->info.name))
+      {
+        message = fmt::format(
+          FMT_COMPILE(
+            "Unable to deactivate controller with name '{}' because preceding controller with "
+            "name '{}' is going to be restarted."),
+          controller_it->info.name, preceding_controller);
+        RCLCPP_WARN(get_logger(), "%s", message.c_str());
+        return controller_interface::return_type::ERROR;
+      }
       if (
         is_controller_active(found_it->c) &&
         std::find(
-- 
2.43.0


From 4a72af6c5732298685c15ea9cb330a27008380e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 14/60] fix: re-check a BEST_EFFORT switch after dropping a
 controller from it

A controller that was checked before could depend on the dropped one: it was then activated on
top of an inactive controller, or deactivated below an active one.
---
 controller_manager/src/controller_manager.cpp | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index fa70953..041d66f 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2040,7 +2040,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
 
   // check if controllers should be switched 'to' chained mode when controllers are activated
   for (auto ctrl_it = switch_params_.activate_request.begin();
-       ctrl_it != switch_params_.activate_request.end(); ++ctrl_it)
+       ctrl_it != switch_params_.activate_request.end();)
   {
     auto controller_it = std::find_if(
       controllers.begin(), controllers.end(),
@@ -2106,11 +2106,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         // TODO(destogl): automatic manipulation of the chain:
         // || strictness ==
         //  controller_manager_msgs::srv::SwitchController::Request::MANIPULATE_CONTROLLERS_CHAIN);
-        // remove controller that can not be activated from the activation request and step-back
-        // iterator to correctly step to the next element in the list in the loop
+        // remove controller that can not be (de)activated from the request and start over, because
+        // the ones which are already checked can depend on it
         switch_params_.activate_request.erase(ctrl_it);
         message.clear();
-        --ctrl_it;
+        ctrl_it = switch_params_.activate_request.begin();
+        continue;
       }
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
       {
@@ -2120,11 +2121,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         return controller_interface::return_type::ERROR;
       }
     }
+    ++ctrl_it;
   }
 
   // check if controllers should be deactivated if used in chained mode
   for (auto ctrl_it = switch_params_.deactivate_request.begin();
-       ctrl_it != switch_params_.deactivate_request.end(); ++ctrl_it)
+       ctrl_it != switch_params_.deactivate_request.end();)
   {
     auto controller_it = std::find_if(
       controllers.begin(), controllers.end(),
@@ -2156,11 +2158,12 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         (*ctrl_it).c_str());
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::BEST_EFFORT)
       {
-        // remove controller that can not be activated from the activation request and step-back
-        // iterator to correctly step to the next element in the list in the loop
+        // remove controller that can not be (de)activated from the request and start over, because
+        // the ones which are already checked can depend on it
         switch_params_.deactivate_request.erase(ctrl_it);
         message.clear();
-        --ctrl_it;
+        ctrl_it = switch_params_.deactivate_request.begin();
+        continue;
       }
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
       {
@@ -2170,6 +2173,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         return controller_interface::return_type::ERROR;
       }
     }
+    ++ctrl_it;
   }
 
   // Check after the check if the activate and deactivate list is empty or not
-- 
2.43.0


From c129f50446445f4b6a07016d8c61a759b775adda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 15/60] fix: interfaces exported by controllers which are not
 activated do not stay available after a switch

---
 .../controller_manager/controller_manager.hpp |  2 +-
 controller_manager/src/controller_manager.cpp | 39 +++++++++++--------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 628b6b1..0a493b3 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -393,7 +393,7 @@ private:
    * Clear request lists used when switching controllers. The lists are shared between "callback"
    * and "control loop" threads.
    */
-  void clear_requests();
+  void clear_requests(const std::vector<ControllerSpec> & controllers);
 
   /**
    * Perform hardware command mode change for the given list of controllers to activate and
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 041d66f..e2aef23 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1834,7 +1834,7 @@ controller_interface::return_type ControllerManager::configure_controller(
   return controller_interface::return_type::OK;
 }
 
-void ControllerManager::clear_requests()
+void ControllerManager::clear_requests(const std::vector<ControllerSpec> & controllers)
 {
   switch_params_.do_switch = false;
   switch_params_.ready_to_switch = false;
@@ -1845,6 +1845,18 @@ void ControllerManager::clear_requests()
   switch_params_.from_chained_mode_request.clear();
   switch_params_.activate_command_interface_request.clear();
   switch_params_.deactivate_command_interface_request.clear();
+
+  // the exported interfaces of controllers which were not activated in the end, are made available
+  // while checking the request
+  for (const auto & controller : controllers)
+  {
+    if (controller.c->is_chainable() && is_controller_inactive(controller.c))
+    {
+      resource_manager_->make_controller_exported_state_interfaces_unavailable(
+        controller.info.name);
+      resource_manager_->make_controller_reference_interfaces_unavailable(controller.info.name);
+    }
+  }
 }
 
 controller_interface::return_type ControllerManager::switch_controller(
@@ -2117,7 +2129,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
       {
         RCLCPP_ERROR(get_logger(), "Aborting, no controller is switched! (::STRICT switch)");
         // reset all lists
-        clear_requests();
+        clear_requests(controllers);
         return controller_interface::return_type::ERROR;
       }
     }
@@ -2169,7 +2181,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
       {
         RCLCPP_ERROR(get_logger(), "Aborting, no controller is switched! (::STRICT switch)");
         // reset all lists
-        clear_requests();
+        clear_requests(controllers);
         return controller_interface::return_type::ERROR;
       }
     }
@@ -2181,7 +2193,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   {
     message = "After checking the controllers, no controllers need to be activated or deactivated.";
     RCLCPP_INFO(get_logger(), "%s", message.c_str());
-    clear_requests();
+    clear_requests(controllers);
     return controller_interface::return_type::OK;
   }
   message.clear();
@@ -2238,12 +2250,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
       {
         message = msg;
         RCLCPP_ERROR(get_logger(), "%s", msg.c_str());
-        switch_params_.deactivate_request.clear();
-        switch_params_.deactivate_command_interface_request.clear();
-        switch_params_.activate_request.clear();
-        switch_params_.activate_command_interface_request.clear();
-        switch_params_.to_chained_mode_request.clear();
-        switch_params_.from_chained_mode_request.clear();
+        clear_requests(controllers);
         return controller_interface::return_type::ERROR;
       }
       RCLCPP_WARN(get_logger(), "%s", msg.c_str());
@@ -2324,7 +2331,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   {
     message = "After checking the controllers, no controllers need to be activated or deactivated.";
     RCLCPP_INFO(get_logger(), "Empty activate and deactivate list, not requesting switch");
-    clear_requests();
+    clear_requests(controllers);
     return controller_interface::return_type::OK;
   }
 
@@ -2333,7 +2340,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
       controllers, switch_params_.activate_request, switch_params_.deactivate_request, message) !=
     controller_interface::return_type::OK)
   {
-    clear_requests();
+    clear_requests(controllers);
     return controller_interface::return_type::ERROR;
   }
 
@@ -2370,7 +2377,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     {
       message = "Could not switch controllers since prepare command mode switch was rejected.";
       RCLCPP_ERROR(get_logger(), "%s", message.c_str());
-      clear_requests();
+      clear_requests(controllers);
       return controller_interface::return_type::ERROR;
     }
   }
@@ -2402,7 +2409,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         FMT_COMPILE("Switch controller timed out after {} seconds!"),
         static_cast<double>(switch_params_.timeout.count()) / 1e9);
       RCLCPP_ERROR(get_logger(), "%s", message.c_str());
-      clear_requests();
+      clear_requests(controllers);
       return controller_interface::return_type::ERROR;
     }
   }
@@ -2417,7 +2424,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
           FMT_COMPILE("Switch controller timed out after {} seconds!"),
           static_cast<double>(switch_params_.timeout.count()) / 1e9);
         RCLCPP_ERROR(get_logger(), "%s", message.c_str());
-        clear_requests();
+        clear_requests(controllers);
         return controller_interface::return_type::ERROR;
       }
       // wait for the realtime loop to be ready for switching controllers
@@ -2442,7 +2449,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   // clear unused list
   rt_controllers_wrapper_.get_unused_list(guard).clear();
 
-  clear_requests();
+  clear_requests(rt_controllers_wrapper_.get_updated_list(guard));
 
   return switch_result;
 }
-- 
2.43.0


From db918966fd3ff81383f92833519124f6f1359fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 16/60] fix: a controller that refuses to be cleaned up keeps
 its exported interfaces

---
 controller_manager/src/controller_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index e2aef23..f6f2fee 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1486,8 +1486,12 @@ controller_interface::return_type ControllerManager::cleanup_controller(
 {
   try
   {
-    cleanup_controller_exported_interfaces(controller);
     const auto new_state = controller.c->get_node()->cleanup();
+    if (new_state.id() != lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE)
+    {
+      // a controller that refused to be cleaned-up can still be activated and needs its interfaces
+      cleanup_controller_exported_interfaces(controller);
+    }
     if (new_state.id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
     {
       RCLCPP_ERROR(
-- 
2.43.0


From 8e2adb90df18016e433e5e848fff699a9e741655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 17/60] fix: a controller which refused to be deactivated lost
 its interfaces although it is still updated

---
 controller_manager/src/controller_manager.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index f6f2fee..771f47e 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2569,6 +2569,14 @@ void ControllerManager::deactivate_controllers(
       try
       {
         const auto new_state = controller->get_node()->deactivate();
+        if (new_state.id() == lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE)
+        {
+          // it is still updated, hence it has to keep its interfaces
+          RCLCPP_ERROR(
+            get_logger(), "Controller '%s' refused to be deactivated and is still active",
+            controller_name.c_str());
+          continue;
+        }
         controller->release_interfaces();
 
         // if it is a chainable controller, make the reference interfaces unavailable on
@@ -2692,6 +2700,11 @@ void ControllerManager::activate_controllers(
       continue;
     }
     auto controller = found_it->c;
+    if (is_controller_active(controller))
+    {
+      // a controller that should be restarted and refused to be deactivated
+      continue;
+    }
     // reset the last update cycle time for newly activated controllers
     *found_it->last_update_cycle_time =
       rclcpp::Time(0, 0, this->get_trigger_clock()->get_clock_type());
-- 
2.43.0


From 28225c55b5573bd7cb65b3f0855722b21748f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 18/60] fix: refuse to activate a controller on top of an
 unconfigured one

---
 controller_manager/src/controller_manager.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 771f47e..33f7829 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3998,6 +3998,15 @@ controller_interface::return_type ControllerManager::check_following_controllers
         return controller_interface::return_type::ERROR;
       }
     }
+    // the following controller has to be configured, its interfaces do not exist otherwise
+    else if (!is_controller_inactive(following_ctrl_it->c))
+    {
+      message = fmt::format(
+        FMT_COMPILE("The following controller with name '{}' can not be activated in state '{}'."),
+        following_ctrl_it->info.name, following_ctrl_it->c->get_lifecycle_state().label());
+      RCLCPP_WARN(get_logger(), "%s", message.c_str());
+      return controller_interface::return_type::ERROR;
+    }
     // check if following controller will not be activated
     else if (
       std::find(
-- 
2.43.0


From b9dab32b232dd053ae9b5fa4cac9c4cf0b8542f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 19/60] fix: a controller which could not be activated stays in
 chained mode or keeps its interfaces available

---
 controller_manager/src/controller_manager.cpp | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 33f7829..f88d18d 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2709,6 +2709,18 @@ void ControllerManager::activate_controllers(
     *found_it->last_update_cycle_time =
       rclcpp::Time(0, 0, this->get_trigger_clock()->get_clock_type());
 
+    const auto activation_failed = [&]()
+    {
+      is_successful = false;
+      if (controller->is_chainable())
+      {
+        // nobody can use the interfaces of a controller which is not active
+        controller->set_chained_mode(false);
+        resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
+        resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
+      }
+    };
+
     bool assignment_successful = true;
     const auto command_interface_names =
       get_command_interfaces_names(controller, resource_manager_);
@@ -2746,7 +2758,7 @@ void ControllerManager::activate_controllers(
     // something went wrong during command interfaces, go skip the controller
     if (!assignment_successful)
     {
-      is_successful = false;
+      activation_failed();
       continue;
     }
 
@@ -2774,7 +2786,7 @@ void ControllerManager::activate_controllers(
     // something went wrong during state interfaces, go skip the controller
     if (!assignment_successful)
     {
-      is_successful = false;
+      activation_failed();
       continue;
     }
     controller->assign_interfaces(std::move(command_loans), std::move(state_loans));
@@ -2809,15 +2821,9 @@ void ControllerManager::activate_controllers(
         controller->get_node()->get_name(), new_state.label().c_str(), new_state.id(),
         hardware_interface::lifecycle_state_names::ACTIVE,
         lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE);
-      is_successful = false;
       controller->release_interfaces();
       ros2_control::add_items(failed_controllers_command_interfaces, command_interface_names);
-      if (controller->is_chainable())
-      {
-        // make all the exported interfaces of the controller unavailable
-        resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
-        resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
-      }
+      activation_failed();
       continue;
     }
 
-- 
2.43.0


From 21d3ef0e8fda3e76808c5aab8e9997e496334585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:23 +0000
Subject: [PATCH 20/60] fix: a restart of controllers was reported as
 successful although the hardware failed to switch

---
 .../include/controller_manager/controller_manager.hpp  |  2 ++
 controller_manager/src/controller_manager.cpp          | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 0a493b3..702a23b 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -736,6 +736,8 @@ private:
 
     std::atomic_bool do_switch{false};
     std::atomic_bool ready_to_switch{false};
+    // the hardware failed to perform the mode switch, nothing has been switched
+    std::atomic_bool perform_mode_switch_failed{false};
 
     // Switch options
     int strictness;
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index f88d18d..dc65cd3 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2398,6 +2398,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   {
     switch_params_.timeout = timeout.to_chrono<std::chrono::nanoseconds>();
   }
+  switch_params_.perform_mode_switch_failed = false;
   switch_params_.ready_to_switch.store(false, std::memory_order_release);
   switch_params_.do_switch = true;
   // wait until switch is finished
@@ -2447,6 +2448,14 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   auto switch_result = evaluate_switch_result(
     resource_manager_, switch_params_.activate_request, switch_params_.deactivate_request,
     strictness, get_logger(), to, message);
+  if (
+    switch_result == controller_interface::return_type::OK &&
+    switch_params_.perform_mode_switch_failed)
+  {
+    message = "Could not switch controllers since perform command mode switch failed.";
+    RCLCPP_ERROR(get_logger(), "%s", message.c_str());
+    switch_result = controller_interface::return_type::ERROR;
+  }
 
   // switch lists
   rt_controllers_wrapper_.switch_updated_list(guard);
@@ -3365,6 +3374,7 @@ void ControllerManager::manage_switch()
         switch_params_.deactivate_command_interface_request))
   {
     RCLCPP_ERROR(get_logger(), "Error while performing mode switch.");
+    switch_params_.perform_mode_switch_failed = true;
     // If the hardware switching fails, there is no point in continuing to switch controllers
     switch_params_.do_switch = false;
     switch_params_.cv.notify_all();
-- 
2.43.0


From f21c0889faab98211f869c49b8c1d43e1b228f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 21/60] fix: a BEST_EFFORT switch that does not stop a
 controller must not activate it again

---
 controller_manager/src/controller_manager.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index dc65cd3..90e114d 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -16,6 +16,7 @@
 
 #include <fmt/compile.h>
 
+#include <algorithm>
 #include <memory>
 #include <set>
 #include <string>
@@ -2175,7 +2176,15 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::BEST_EFFORT)
       {
         // remove controller that can not be (de)activated from the request and start over, because
-        // the ones which are already checked can depend on it
+        // the ones which are already checked can depend on it. An active controller which is not
+        // deactivated is not activated again either
+        if (is_controller_active(controller_it->c))
+        {
+          auto & activate_request = switch_params_.activate_request;
+          activate_request.erase(
+            std::remove(activate_request.begin(), activate_request.end(), controller_it->info.name),
+            activate_request.end());
+        }
         switch_params_.deactivate_request.erase(ctrl_it);
         message.clear();
         ctrl_it = switch_params_.deactivate_request.begin();
-- 
2.43.0


From ad25da20f0d0ccc52ec4383d3070052707666f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 22/60] fix: a controller named twice in a switch request was
 activated twice when its activation fails

---
 controller_manager/src/controller_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 90e114d..7797fb1 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2018,7 +2018,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         RCLCPP_DEBUG(
           get_logger(), "Found controller '%s' that needs to be %sed in list of controllers",
           controller.c_str(), action.c_str());
-        request_list.push_back(controller);
+        ros2_control::add_item(request_list, controller);
       }
     }
     RCLCPP_DEBUG(
-- 
2.43.0


From 9caa2ccbd25292b089540d447aaf76eebd31cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 23/60] fix: the control loop waited for the services when a
 hardware deactivates itself

---
 controller_manager/src/controller_manager.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 7797fb1..1db4aa7 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3691,7 +3691,8 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
   else if (result == hardware_interface::return_type::DEACTIVATE)
   {
     rt_buffer_.deactivate_controllers_list.clear();
-    auto loaded_controllers = get_loaded_controllers();
+    std::vector<ControllerSpec> & rt_controller_list =
+      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     // Only stop controllers with active command interfaces to the failed_hardware_names
     for (const auto & hardware_name : failed_hardware_names)
     {
@@ -3699,10 +3700,10 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       for (const auto & controller : controllers)
       {
         auto controller_spec = std::find_if(
-          loaded_controllers.begin(), loaded_controllers.end(),
+          rt_controller_list.begin(), rt_controller_list.end(),
           [&](const controller_manager::ControllerSpec & spec)
           { return spec.c->get_name() == controller; });
-        if (controller_spec == loaded_controllers.end())
+        if (controller_spec == rt_controller_list.end())
         {
           RCLCPP_WARN(
             get_logger(),
@@ -3726,9 +3727,6 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       "Deactivating controllers [%s] as their command interfaces are tied to DEACTIVATEing "
       "hardware components",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
-    std::vector<ControllerSpec> & rt_controller_list =
-      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
-
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
-- 
2.43.0


From b1a60eacb489ccbf0102a71166bd713f71f2de95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 24/60] fix: controllers stayed active although a failing
 hardware stopped controllers of their chain

---
 controller_manager/src/controller_manager.cpp | 46 +++++++++++++++++--
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 1db4aa7..cd1130f 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -480,6 +480,40 @@ void get_full_chain_spec(
   }
 }
 
+/// Keep the active controllers of a list and add the active controllers which are in a chain with
+/// them.
+void extend_to_active_chains(
+  const std::vector<controller_manager::ControllerSpec> & controllers,
+  std::vector<std::string> & controllers_list)
+{
+  const auto is_active = [&controllers](const std::string & name)
+  {
+    const auto it = std::find_if(
+      controllers.begin(), controllers.end(),
+      std::bind(controller_name_compare, std::placeholders::_1, name));
+    return it != controllers.end() && is_controller_active(it->c);
+  };
+  std::vector<std::string> active_controllers;
+  for (const auto & controller : controllers)
+  {
+    if (
+      !ros2_control::has_item(controllers_list, controller.info.name) ||
+      !is_controller_active(controller.c))
+    {
+      continue;
+    }
+    ros2_control::add_item(active_controllers, controller.info.name);
+    for (const auto & chained_controller : controller.controllers_chain_group)
+    {
+      if (is_active(chained_controller))
+      {
+        ros2_control::add_item(active_controllers, chained_controller);
+      }
+    }
+  }
+  controllers_list = active_controllers;
+}
+
 void build_controller_full_chain_map_cache(
   const std::unordered_map<std::string, controller_manager::ControllerChainSpec> &
     controller_chain_spec,
@@ -3347,6 +3381,9 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
       rt_buffer_.deactivate_controllers_list.insert(
         rt_buffer_.deactivate_controllers_list.end(), controllers.begin(), controllers.end());
     }
+    std::vector<ControllerSpec> & rt_controller_list =
+      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
+    extend_to_active_chains(rt_controller_list, rt_buffer_.deactivate_controllers_list);
     RCLCPP_ERROR(
       get_logger(),
       "Deactivating following hardware components as their read cycle resulted in an error: [ %s]",
@@ -3356,8 +3393,6 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
       "Deactivating following controllers as their hardware components read cycle resulted in an "
       "error: [ %s]",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
-    std::vector<ControllerSpec> & rt_controller_list =
-      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "read");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
@@ -3670,6 +3705,9 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       rt_buffer_.deactivate_controllers_list.insert(
         rt_buffer_.deactivate_controllers_list.end(), controllers.begin(), controllers.end());
     }
+    std::vector<ControllerSpec> & rt_controller_list =
+      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
+    extend_to_active_chains(rt_controller_list, rt_buffer_.deactivate_controllers_list);
     RCLCPP_ERROR(
       get_logger(),
       "Deactivating following hardware components as their write cycle resulted in an error: [ "
@@ -3680,9 +3718,6 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
       "Deactivating following controllers as their hardware components write cycle resulted in an "
       "error: [ %s]",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
-    std::vector<ControllerSpec> & rt_controller_list =
-      rt_controllers_wrapper_.update_and_get_used_by_rt_list();
-
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
@@ -3722,6 +3757,7 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
         }
       }
     }
+    extend_to_active_chains(rt_controller_list, rt_buffer_.deactivate_controllers_list);
     RCLCPP_ERROR_EXPRESSION(
       get_logger(), !rt_buffer_.deactivate_controllers_list.empty(),
       "Deactivating controllers [%s] as their command interfaces are tied to DEACTIVATEing "
-- 
2.43.0


From 8290b1080bf8757b2577f1dfda86dd57e7a35c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 25/60] fix: fallback controllers were not stopped when their
 hardware failed

---
 controller_manager/src/controller_manager.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index cd1130f..32c0613 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2371,6 +2371,23 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         interface_names.end(), state_interfaces.begin(), state_interfaces.end());
 
       resource_manager_->cache_controller_to_hardware(controller.info.name, interface_names);
+
+      // the fallback controllers are activated by the control loop, without any further request
+      for (const auto & fallback_controller : controller.info.fallback_controllers_names)
+      {
+        const auto fallback_it = std::find_if(
+          controllers.begin(), controllers.end(),
+          std::bind(controller_name_compare, std::placeholders::_1, fallback_controller));
+        if (fallback_it == controllers.end())
+        {
+          continue;
+        }
+        auto fallback_interfaces =
+          get_command_interfaces_names(fallback_it->c, resource_manager_);
+        ros2_control::add_items(
+          fallback_interfaces, get_state_interfaces_names(fallback_it->c, resource_manager_));
+        resource_manager_->cache_controller_to_hardware(fallback_controller, fallback_interfaces);
+      }
     }
   }
 
-- 
2.43.0


From 11755645f374849cced41cf5b52c0e0e2841b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 26/60] fix: fallback controllers of inactive members of a
 failing chain were activated

---
 controller_manager/src/controller_manager.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 32c0613..4c6fa4a 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3620,10 +3620,8 @@ controller_interface::return_type ControllerManager::update(
             get_logger(), controller_chain.size() > 1,
             "Controller '%s' is part of a chain of %lu controllers that will be deactivated.",
             loaded_controller.info.name.c_str(), controller_chain.size());
-          for (const auto & chained_controller : controller_chain)
-          {
-            ros2_control::add_item(rt_buffer_.deactivate_controllers_list, chained_controller);
-          }
+          ros2_control::add_item(
+            rt_buffer_.deactivate_controllers_list, loaded_controller.info.name);
           ret = controller_ret;
         }
       }
@@ -3633,6 +3631,7 @@ controller_interface::return_type ControllerManager::update(
   {
     rt_buffer_.fallback_controllers_list.clear();
     rt_buffer_.activate_controllers_using_interfaces_list.clear();
+    extend_to_active_chains(rt_controller_list, rt_buffer_.deactivate_controllers_list);
 
     for (const auto & failed_ctrl : rt_buffer_.deactivate_controllers_list)
     {
-- 
2.43.0


From 0e103e71cb930a0a4c4e89655fa113c379dfa1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:33 +0000
Subject: [PATCH 27/60] fix: chains which are activated or taken over by
 fallback controllers were left inconsistent

---
 controller_manager/src/controller_manager.cpp | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 4c6fa4a..ee97fec 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3650,6 +3650,9 @@ controller_interface::return_type ControllerManager::update(
       }
     }
 
+    extend_to_active_chains(
+      rt_controller_list, rt_buffer_.activate_controllers_using_interfaces_list);
+
     RCLCPP_ERROR(
       get_logger(), "Deactivating controllers : [ %s] as their update resulted in an error!",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
@@ -3675,6 +3678,32 @@ controller_interface::return_type ControllerManager::update(
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
     if (!rt_buffer_.fallback_controllers_list.empty())
     {
+      // fallback controllers which are commanded by other ones
+      std::vector<std::string> chained_fallback_controllers;
+      for (const auto & fallback_controller : rt_buffer_.fallback_controllers_list)
+      {
+        const auto fallback_it = std::find_if(
+          rt_controller_list.begin(), rt_controller_list.end(),
+          std::bind(controller_name_compare, std::placeholders::_1, fallback_controller));
+        if (fallback_it == rt_controller_list.end())
+        {
+          continue;
+        }
+        for (const auto & interface :
+             get_command_interfaces_names(fallback_it->c, resource_manager_))
+        {
+          ControllersListIterator following_it;
+          if (
+            is_interface_a_chained_interface(interface, rt_controller_list, following_it) &&
+            ros2_control::has_item(
+              rt_buffer_.fallback_controllers_list, following_it->info.name) &&
+            is_controller_inactive(following_it->c))
+          {
+            ros2_control::add_item(chained_fallback_controllers, following_it->info.name);
+          }
+        }
+      }
+      switch_chained_mode(chained_fallback_controllers, true);
       activate_controllers(
         rt_controller_list, rt_buffer_.fallback_controllers_list,
         controller_manager_msgs::srv::SwitchController::Request::STRICT);
-- 
2.43.0


From 0f59d93484f6086baae91fc88eb92ac4554b4e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 28/60] fix: hardware was not switched back when some of the
 interfaces to stop are not available any more

---
 controller_manager/src/controller_manager.cpp | 46 +++++++++++++------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index ee97fec..23cd6a9 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -480,6 +480,19 @@ void get_full_chain_spec(
   }
 }
 
+/// Remove the interfaces of a list which are not available, e.g., the ones of controllers which have
+/// just been deactivated.
+void remove_unavailable_command_interfaces(
+  const std::unique_ptr<hardware_interface::ResourceManager> & resource_manager,
+  std::vector<std::string> & interfaces)
+{
+  interfaces.erase(
+    std::remove_if(
+      interfaces.begin(), interfaces.end(), [&resource_manager](const std::string & interface)
+      { return !resource_manager->command_interface_is_available(interface); }),
+    interfaces.end());
+}
+
 /// Keep the active controllers of a list and add the active controllers which are in a chain with
 /// them.
 void extend_to_active_chains(
@@ -2734,6 +2747,7 @@ void ControllerManager::activate_controllers(
   const std::vector<std::string> & controllers_to_activate, int strictness)
 {
   std::vector<std::string> failed_controllers_command_interfaces;
+  std::vector<std::string> started_command_interfaces;
   bool is_successful = true;
   // Make all chainable interfaces available before activating controllers
   for (const auto & controller_name : controllers_to_activate)
@@ -2769,6 +2783,9 @@ void ControllerManager::activate_controllers(
       continue;
     }
     auto controller = found_it->c;
+    const auto command_interface_names =
+      get_command_interfaces_names(controller, resource_manager_);
+    ros2_control::add_items(started_command_interfaces, command_interface_names);
     if (is_controller_active(controller))
     {
       // a controller that should be restarted and refused to be deactivated
@@ -2791,8 +2808,6 @@ void ControllerManager::activate_controllers(
     };
 
     bool assignment_successful = true;
-    const auto command_interface_names =
-      get_command_interfaces_names(controller, resource_manager_);
     std::vector<hardware_interface::LoanedCommandInterface> command_loans;
     command_loans.reserve(command_interface_names.size());
     for (const auto & command_interface : command_interface_names)
@@ -2913,11 +2928,10 @@ void ControllerManager::activate_controllers(
       "activated controllers because the switch strictness is set to STRICT.");
     // deactivate all controllers that were activated in this switch
     deactivate_controllers(rt_controller_list, controllers_to_activate);
+    remove_unavailable_command_interfaces(resource_manager_, started_command_interfaces);
     if (
-      !resource_manager_->prepare_command_mode_switch(
-        {}, switch_params_.activate_command_interface_request) ||
-      !resource_manager_->perform_command_mode_switch(
-        {}, switch_params_.activate_command_interface_request))
+      !resource_manager_->prepare_command_mode_switch({}, started_command_interfaces) ||
+      !resource_manager_->perform_command_mode_switch({}, started_command_interfaces))
     {
       RCLCPP_ERROR(
         get_logger(),
@@ -2927,15 +2941,18 @@ void ControllerManager::activate_controllers(
   }
   // Now prepare and perform the stop interface switching as this is needed for exclusive
   // interfaces
-  else if (
-    !failed_controllers_command_interfaces.empty() &&
-    (!resource_manager_->prepare_command_mode_switch({}, failed_controllers_command_interfaces) ||
-     !resource_manager_->perform_command_mode_switch({}, failed_controllers_command_interfaces)))
+  else if (!failed_controllers_command_interfaces.empty())
   {
-    RCLCPP_ERROR(
-      get_logger(),
-      "Error switching back the interfaces in the hardware when the controller activation "
-      "failed.");
+    remove_unavailable_command_interfaces(resource_manager_, failed_controllers_command_interfaces);
+    if (
+      !resource_manager_->prepare_command_mode_switch({}, failed_controllers_command_interfaces) ||
+      !resource_manager_->perform_command_mode_switch({}, failed_controllers_command_interfaces))
+    {
+      RCLCPP_ERROR(
+        get_logger(),
+        "Error switching back the interfaces in the hardware when the controller activation "
+        "failed.");
+    }
   }
 }
 
@@ -3947,6 +3964,7 @@ void ControllerManager::perform_hardware_command_mode_change(
   get_controller_list_command_interfaces(
     deactivate_controllers_list, rt_controller_list, resource_manager_,
     rt_buffer_.interfaces_to_stop);
+  remove_unavailable_command_interfaces(resource_manager_, rt_buffer_.interfaces_to_stop);
   get_controller_list_command_interfaces(
     activate_controllers_list, rt_controller_list, resource_manager_,
     rt_buffer_.interfaces_to_start);
-- 
2.43.0


From dac5c255b3e1bd1d9aa7d670a99d53bd0bec37a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:48 +0000
Subject: [PATCH 29/60] fix: hardware was not switched to the interfaces of
 chained fallback controllers

---
 controller_manager/src/controller_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 23cd6a9..66636f6 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3968,6 +3968,8 @@ void ControllerManager::perform_hardware_command_mode_change(
   get_controller_list_command_interfaces(
     activate_controllers_list, rt_controller_list, resource_manager_,
     rt_buffer_.interfaces_to_start);
+  // the references of chained fallback controllers become available upon their activation
+  remove_unavailable_command_interfaces(resource_manager_, rt_buffer_.interfaces_to_start);
   if (!rt_buffer_.interfaces_to_stop.empty() || !rt_buffer_.interfaces_to_start.empty())
   {
     if (!(resource_manager_->prepare_command_mode_switch(
-- 
2.43.0


From d356cbf74202995a5e036dcc7dbbbd63131d9a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 30/60] fix: controllers of chains that fork and join were
 updated before their preceding controllers

---
 controller_manager/src/controller_manager.cpp | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 66636f6..64a8599 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1843,6 +1843,31 @@ controller_interface::return_type ControllerManager::configure_controller(
     }
   }
 
+  // Inserting chain by chain can leave a controller ahead of one of its preceding controllers, when
+  // the chains fork and join. Only the controllers for which this is the case are moved back.
+  std::vector<std::string> names_to_place = std::move(ordered_controllers_names_);
+  ordered_controllers_names_.clear();
+  while (!names_to_place.empty())
+  {
+    auto next_it = std::find_if(
+      names_to_place.begin(), names_to_place.end(),
+      [&](const std::string & name)
+      {
+        const auto & preceding = controller_chain_spec_[name].preceding_controllers;
+        return std::none_of(
+          preceding.begin(), preceding.end(),
+          [&](const std::string & preceding_name)
+          { return ros2_control::has_item(names_to_place, preceding_name); });
+      });
+    if (next_it == names_to_place.end())
+    {
+      // there is a circle in the chains
+      next_it = names_to_place.begin();
+    }
+    ordered_controllers_names_.push_back(*next_it);
+    names_to_place.erase(next_it);
+  }
+
   std::vector<ControllerSpec> new_list;
   for (const auto & ctrl : ordered_controllers_names_)
   {
-- 
2.43.0


From 38f98c13be742833ba2b13f7664a2aefe42d48ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 31/60] fix: controllers were destroyed although active
 controllers use their exported interfaces

When a controller refuses to be deactivated, or reads whatever is available, it
kept references to the interfaces of controllers that were cleaned up or unloaded.
---
 .../controller_manager/controller_manager.hpp |  9 ++++
 controller_manager/src/controller_manager.cpp | 30 ++++++++++++++
 .../hardware_interface/resource_manager.hpp   | 11 +++++
 hardware_interface/src/resource_manager.cpp   | 41 ++++++++++++++++++-
 4 files changed, 90 insertions(+), 1 deletion(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 702a23b..cdab07e 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -559,6 +559,15 @@ private:
    */
   void cleanup_controller_exported_interfaces(const ControllerSpec & controller);
 
+  /**
+   * @brief are_exported_interfaces_in_use - Checks if other controllers hold loans of the interfaces
+   * exported by a controller, i.e., if the controller has to stay as it is until they are
+   * deactivated
+   * @param controller - controller info
+   * @return true if at least one exported interface of the controller is in use
+   */
+  bool are_exported_interfaces_in_use(const ControllerSpec & controller) const;
+
   std::shared_ptr<controller_manager::ParamListener> cm_param_listener_;
   std::shared_ptr<controller_manager::Params> params_;
   diagnostic_updater::Updater diagnostics_updater_;
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 64a8599..8f14bbc 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1497,6 +1497,12 @@ controller_interface::return_type ControllerManager::unload_controller(
     return controller_interface::return_type::ERROR;
   }
 
+  if (are_exported_interfaces_in_use(controller))
+  {
+    to.clear();
+    return controller_interface::return_type::ERROR;
+  }
+
   // call cleanup transition, if it is inactive
   if (cleanup_controller(controller_name) != controller_interface::return_type::OK)
   {
@@ -1532,6 +1538,10 @@ controller_interface::return_type ControllerManager::unload_controller(
 controller_interface::return_type ControllerManager::cleanup_controller(
   const controller_manager::ControllerSpec & controller)
 {
+  if (are_exported_interfaces_in_use(controller))
+  {
+    return controller_interface::return_type::ERROR;
+  }
   try
   {
     const auto new_state = controller.c->get_node()->cleanup();
@@ -1686,6 +1696,10 @@ controller_interface::return_type ControllerManager::configure_controller(
       return controller_interface::return_type::ERROR;
     }
   }
+  if (are_exported_interfaces_in_use(*found_it))
+  {
+    return controller_interface::return_type::ERROR;
+  }
   // For cases, when the controller ends up in the unconfigured state from any other state
   cleanup_controller_exported_interfaces(*found_it);
 
@@ -5200,4 +5214,20 @@ void ControllerManager::cleanup_controller_exported_interfaces(const ControllerS
   }
 }
 
+bool ControllerManager::are_exported_interfaces_in_use(const ControllerSpec & controller) const
+{
+  if (
+    !controller.c->is_chainable() ||
+    !resource_manager_->controller_exported_interfaces_in_use(controller.info.name))
+  {
+    return false;
+  }
+  RCLCPP_ERROR(
+    get_logger(),
+    "Controller '%s' can not be cleaned-up, configured or unloaded because its exported interfaces "
+    "are used by active controllers. Deactivate them first.",
+    controller.info.name.c_str());
+  return true;
+}
+
 }  // namespace controller_manager
diff --git a/hardware_interface/include/hardware_interface/resource_manager.hpp b/hardware_interface/include/hardware_interface/resource_manager.hpp
index beeab9c..4488d12 100644
--- a/hardware_interface/include/hardware_interface/resource_manager.hpp
+++ b/hardware_interface/include/hardware_interface/resource_manager.hpp
@@ -295,6 +295,15 @@ public:
    */
   void remove_controller_reference_interfaces(const std::string & controller_name);
 
+  /// Checks whether the interfaces exported by a controller are loaned to other controllers.
+  /**
+   * As long as they are, neither these interfaces nor the controller may be removed.
+   *
+   * \param[in] controller_name name of the controller which interfaces are checked.
+   * \return true if at least one state or reference interface of the controller is loaned.
+   */
+  bool controller_exported_interfaces_in_use(const std::string & controller_name) const;
+
   /// Cache mapping between hardware and controllers using it
   /**
    * Find mapping between controller and hardware based on interfaces controller with
@@ -582,6 +591,8 @@ private:
 
   void release_command_interface(const std::string & key);
 
+  void release_state_interface(const std::string & key);
+
   // Note this was added in #2323 and is a temporary addition to be backwards compatible with the
   // original constructors. This is planned to be removed in a future PR along with the
   // aforementioned constructors.
diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 4ce2104..65b3218 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1474,6 +1474,9 @@ public:
   /// List of all claimed command interfaces
   std::unordered_map<std::string, bool> claimed_command_interface_map_;
 
+  /// Number of loans of each state interface
+  std::unordered_map<std::string, size_t> state_interface_loans_;
+
   std::unordered_map<std::string, joint_limits::JointInterfacesCommandLimiterData> limiters_data_;
 
   std::unordered_map<
@@ -1703,7 +1706,17 @@ LoanedStateInterface ResourceManager::claim_state_interface(const std::string &
   }
 
   std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
-  return LoanedStateInterface(resource_storage_->state_interface_map_.at(key));
+  const auto & state_interface = resource_storage_->state_interface_map_.at(key);
+  ++resource_storage_->state_interface_loans_[key];
+  return LoanedStateInterface(
+    state_interface, std::bind(&ResourceManager::release_state_interface, this, key));
+}
+
+// CM API: Called in "update"-thread
+void ResourceManager::release_state_interface(const std::string & key)
+{
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
+  --resource_storage_->state_interface_loans_[key];
 }
 
 // CM API: Called in "callback/slow"-thread
@@ -1879,6 +1892,32 @@ void ResourceManager::remove_controller_reference_interfaces(const std::string &
   resource_storage_->remove_command_interfaces(interface_names);
 }
 
+// CM API: Called in "callback/slow"-thread
+bool ResourceManager::controller_exported_interfaces_in_use(
+  const std::string & controller_name) const
+{
+  std::scoped_lock guard(resource_interfaces_lock_, claimed_command_interfaces_lock_);
+  const auto has_loan =
+    [&controller_name](const auto & exported_interfaces_map, const auto & loans_map)
+  {
+    const auto exported_it = exported_interfaces_map.find(controller_name);
+    return exported_it != exported_interfaces_map.end() &&
+           std::any_of(
+             exported_it->second.begin(), exported_it->second.end(),
+             [&loans_map](const auto & interface)
+             {
+               const auto loan_it = loans_map.find(interface);
+               return loan_it != loans_map.end() && loan_it->second;
+             });
+  };
+  return has_loan(
+           resource_storage_->controllers_exported_state_interfaces_map_,
+           resource_storage_->state_interface_loans_) ||
+         has_loan(
+           resource_storage_->controllers_reference_interfaces_map_,
+           resource_storage_->claimed_command_interface_map_);
+}
+
 // CM API: Called in "callback/slow"-thread
 void ResourceManager::cache_controller_to_hardware(
   const std::string & controller_name, const std::vector<std::string> & interfaces)
-- 
2.43.0


From 4719a04e2703068e48e7c0f5120af8b2a7a53186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 32/60] fix: activation of a controller without exports whose
 cleanup was refused terminated the process

---
 controller_manager/src/controller_manager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 8f14bbc..fde2023 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1762,6 +1762,11 @@ controller_interface::return_type ControllerManager::configure_controller(
       controller_name.c_str());
     std::vector<hardware_interface::StateInterface::ConstSharedPtr> state_interfaces;
     std::vector<hardware_interface::CommandInterface::SharedPtr> ref_interfaces;
+    // make the controller known even if nothing is exported, because it stays inactive if its
+    // cleanup below is refused
+    resource_manager_->import_controller_reference_interfaces(controller_name, ref_interfaces);
+    resource_manager_->import_controller_exported_state_interfaces(
+      controller_name, state_interfaces);
     try
     {
       state_interfaces = controller->export_state_interfaces();
-- 
2.43.0


From acdc49147567f57bb8da216b1a8aca217ddada43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 33/60] fix: exported interfaces stayed behind when a
 controller is unloaded after an error

---
 controller_manager/src/controller_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index fde2023..27bce5b 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1517,6 +1517,8 @@ controller_interface::return_type ControllerManager::unload_controller(
       get_logger(), "Controller '%s' is shutdown before unloading!", controller_name.c_str());
     shutdown_controller(controller);
   }
+  // For cases, when the controller ended up in the unconfigured state because of an error
+  cleanup_controller_exported_interfaces(controller);
   unregister_controller_manager_statistics(controller_name + ".stats/execution_time");
   unregister_controller_manager_statistics(controller_name + ".stats/periodicity");
   executor_->remove_node(controller.c->get_node()->get_node_base_interface());
-- 
2.43.0


From 9db95df47109b62d08094b9cb53f8e75b437c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 34/60] fix: list_controllers reported the claims of the last
 switch instead of the current ones

---
 controller_manager/src/controller_manager.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 27bce5b..c6bd15e 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3033,7 +3033,13 @@ void ControllerManager::list_controllers_srv_cb(
     controller_state.type = controllers[i].info.type;
     controller_state.is_async = controllers[i].c->is_async();
     controller_state.update_rate = static_cast<uint16_t>(controllers[i].c->get_update_rate());
-    controller_state.claimed_interfaces = controllers[i].info.claimed_interfaces;
+    // the claims stored with the controller are those of the last switch and miss what happened
+    // since, e.g., because of failures
+    if (is_controller_active(controllers[i].c))
+    {
+      controller_state.claimed_interfaces =
+        get_command_interfaces_names(controllers[i].c, resource_manager_);
+    }
     controller_state.state = controllers[i].c->get_lifecycle_state().label();
     controller_state.is_chainable = controllers[i].c->is_chainable();
     controller_state.is_chained = controllers[i].c->is_in_chained_mode();
-- 
2.43.0


From 911567ad6c2e60277dfcc57824fc9f7899c8a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 35/60] fix: list_controllers attributed interfaces to the
 wrong chained controller

---
 controller_manager/src/controller_manager.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index c6bd15e..ed0b705 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3016,7 +3016,8 @@ void ControllerManager::list_controllers_srv_cb(
     rt_controllers_wrapper_.controllers_lock_);
   const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
   // create helper containers to create chained controller connections
-  std::unordered_map<std::string, std::vector<std::string>> controller_chain_interface_map;
+  std::unordered_map<std::string, std::map<std::string, std::vector<std::string>>>
+    controller_chain_interface_map;
   std::unordered_map<std::string, std::set<std::string>> controller_chain_map;
   std::vector<size_t> chained_controller_indices;
   for (size_t i = 0; i < controllers.size(); ++i)
@@ -3061,7 +3062,7 @@ void ControllerManager::list_controllers_srv_cb(
         if (controller_chain_map.find(prefix) != controller_chain_map.end())
         {
           controller_chain_map[controller_state.name].insert(prefix);
-          controller_chain_interface_map[controller_state.name].push_back(interface_type);
+          controller_chain_interface_map[controller_state.name][prefix].push_back(interface_type);
         }
       }
       // check reference interfaces only if controller is inactive or active
@@ -3107,7 +3108,8 @@ void ControllerManager::list_controllers_srv_cb(
     {
       controller_manager_msgs::msg::ChainConnection connection;
       connection.name = chained_name;
-      connection.reference_interfaces = controller_chain_interface_map[controller_state.name];
+      connection.reference_interfaces =
+        controller_chain_interface_map[controller_state.name][chained_name];
       controller_state.chain_connections.push_back(connection);
     }
   }
-- 
2.43.0


From edd297461262609df2bff8a27d200035e412941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:03 +0000
Subject: [PATCH 36/60] fix: a moved handle referred to the value stored in the
 handle it was moved from

---
 .../include/hardware_interface/handle.hpp           | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/handle.hpp b/hardware_interface/include/hardware_interface/handle.hpp
index aef84b1..86df3f4 100644
--- a/hardware_interface/include/hardware_interface/handle.hpp
+++ b/hardware_interface/include/hardware_interface/handle.hpp
@@ -278,7 +278,10 @@ public:
 
   Handle & operator=(Handle && other)
   {
-    swap(*this, other);
+    if (this != &other)
+    {
+      swap(*this, other);
+    }
     return *this;
   }
 
@@ -616,6 +619,14 @@ private:
     std::swap(first.value_, second.value_);
     std::swap(first.data_type_, second.data_type_);
     std::swap(first.value_ptr_, second.value_ptr_);
+    // a handle that stores its value must not refer to the storage of the other one
+    for (Handle * handle : {&first, &second})
+    {
+      if (double * own_value = std::get_if<double>(&handle->value_))
+      {
+        handle->value_ptr_ = own_value;
+      }
+    }
   }
 
 protected:
-- 
2.43.0


From 10fc53b7733c1d101586f0095212af107d441d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:44 +0000
Subject: [PATCH 37/60] fix: setting a command with zero tries waited as long
 as the interface is locked

---
 .../include/hardware_interface/loaned_command_interface.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/loaned_command_interface.hpp b/hardware_interface/include/hardware_interface/loaned_command_interface.hpp
index 3decdb6..5ecc5e4 100644
--- a/hardware_interface/include/hardware_interface/loaned_command_interface.hpp
+++ b/hardware_interface/include/hardware_interface/loaned_command_interface.hpp
@@ -106,7 +106,7 @@ public:
     {
       ++set_value_statistics_.failed_counter;
       ++nr_tries;
-      if (nr_tries == max_tries)
+      if (nr_tries >= max_tries)
       {
         ++set_value_statistics_.timeout_counter;
         return false;
-- 
2.43.0


From 2c6041170d7472132e3137b73210317353b7a48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:48 +0000
Subject: [PATCH 38/60] fix: parsing a malformed array took exponential time, a
 long one overflowed the stack, and out of range elements were accepted

---
 .../hardware_interface/lexical_casts.hpp      | 63 ++++++++++---------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/lexical_casts.hpp b/hardware_interface/include/hardware_interface/lexical_casts.hpp
index 9826f19..fbb909b 100644
--- a/hardware_interface/include/hardware_interface/lexical_casts.hpp
+++ b/hardware_interface/include/hardware_interface/lexical_casts.hpp
@@ -15,9 +15,9 @@
 #ifndef HARDWARE_INTERFACE__LEXICAL_CASTS_HPP_
 #define HARDWARE_INTERFACE__LEXICAL_CASTS_HPP_
 
+#include <algorithm>
 #include <cstdint>
 #include <limits>
-#include <regex>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -114,45 +114,40 @@ bool parse_bool(const std::string & bool_string);
 template <typename T>
 std::vector<T> parse_array(const std::string & array_string)
 {
-  // Use regex to check for a flat array: starts with [, ends with ], no nested brackets
-  const std::regex array_regex(R"(^\[\s*([^\[\]]*\s*(,\s*[^\[\]]+\s*)*)?\]$)");
-  if (!std::regex_match(array_string, array_regex))
+  // The conversion has to be linear in the length of the string, backtracking regular expressions
+  // take exponential time (and stack) with long arrays
+  if (
+    array_string.size() < 2 || array_string.front() != '[' || array_string.back() != ']' ||
+    array_string.find_first_of("[]", 1) != array_string.size() - 1)
   {
     throw std::invalid_argument(
       "String must be a flat array: starts with '[' and ends with ']', no nested arrays");
   }
 
-  // Use regex for the expression that either empty or contains only spaces
-  const std::regex empty_or_spaces_regex(R"(^\[\s*\]$)");
-  if (std::regex_match(array_string, empty_or_spaces_regex))
+  const std::string spaces = " \t\n\v\f\r";
+  const std::string content = array_string.substr(1, array_string.size() - 2);
+  if (content.find_first_not_of(spaces) == std::string::npos)
   {
     return {};  // Return empty array if input is "[]"
   }
 
-  // Use regex to find cases of comma-separated but only whitespaces or no spaces between them like
-  // "[,]" "[a,b,,c]"
-  const std::regex comma_separated_regex(R"(^\[\s*([^,\s]+(\s*,\s*[^,\s]+)*)?\s*\]$)");
-  if (!std::regex_match(array_string, comma_separated_regex))
-  {
-    throw std::invalid_argument(
-      "String must be a flat array with comma-separated values and no spaces between them");
-  }
-
   std::vector<T> result = {};
-  if (array_string == "[]")
-  {
-    return result;  // Return empty array if input is "[]"
-  }
-
-  // regex for comma separated values and no spaces between them or just content like "[a,b,c]" or
-  // "[a]" or "[a, b, c]"
-  const std::regex value_regex(R"([^\s,\[\]]+)");
-  auto begin = std::sregex_iterator(array_string.begin(), array_string.end(), value_regex);
-  auto end = std::sregex_iterator();
-
-  for (auto it = begin; it != end; ++it)
+  for (std::size_t start = 0; start <= content.size();)
   {
-    const std::string value_str = it->str();  // Get the first capturing group
+    const std::size_t stop = std::min(content.find(',', start), content.size());
+    const std::string element = content.substr(start, stop - start);
+    start = stop + 1;
+
+    const std::size_t first = element.find_first_not_of(spaces);
+    const std::size_t last = element.find_last_not_of(spaces);
+    // find cases of comma-separated but only whitespaces or no spaces between them like
+    // "[,]" "[a,b,,c]"
+    if (first == std::string::npos || element.find_first_of(spaces, first) < last)
+    {
+      throw std::invalid_argument(
+        "String must be a flat array with comma-separated values and no spaces between them");
+    }
+    const std::string value_str = element.substr(first, last - first + 1);
     if constexpr (std::is_same_v<T, std::string>)
     {
       result.push_back(value_str);
@@ -165,8 +160,14 @@ std::vector<T> parse_array(const std::string & array_string)
     {
       try
       {
-        const T value = static_cast<T>(hardware_interface::stod(value_str));
-        result.push_back(value);
+        const double value = hardware_interface::stod(value_str);
+        if (
+          value < static_cast<double>(std::numeric_limits<T>::lowest()) ||
+          value > static_cast<double>(std::numeric_limits<T>::max()))
+        {
+          throw std::out_of_range("value not in range of target type");
+        }
+        result.push_back(static_cast<T>(value));
       }
       catch (const std::exception &)
       {
-- 
2.43.0


From b7bafcb92e9d90514d7e572f9976bd9bb2867295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:48 +0000
Subject: [PATCH 39/60] fix: large negative numbers were accepted as unsigned
 numbers

---
 .../include/hardware_interface/lexical_casts.hpp               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/lexical_casts.hpp b/hardware_interface/include/hardware_interface/lexical_casts.hpp
index fbb909b..dbb443c 100644
--- a/hardware_interface/include/hardware_interface/lexical_casts.hpp
+++ b/hardware_interface/include/hardware_interface/lexical_casts.hpp
@@ -83,7 +83,8 @@ T stoui_generic(const std::string & s)
   {
     throw std::invalid_argument("Invalid characters in string");
   }
-  if (v > std::numeric_limits<T>::max())
+  // stoul wraps negative numbers around
+  if (v > std::numeric_limits<T>::max() || (v != 0 && s.find('-') != std::string::npos))
   {
     throw std::out_of_range("value not in range of target type");
   }
-- 
2.43.0


From e25eff30432be44715b57bec10b28658a88e2c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:19 +0000
Subject: [PATCH 40/60] fix: numbers with two signs were accepted

---
 hardware_interface/src/lexical_casts.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hardware_interface/src/lexical_casts.cpp b/hardware_interface/src/lexical_casts.cpp
index 5afd197..8430d4a 100644
--- a/hardware_interface/src/lexical_casts.cpp
+++ b/hardware_interface/src/lexical_casts.cpp
@@ -44,7 +44,7 @@ std::optional<FloatingPointType> parse_floating_point_with_from_chars(const std:
   if (*begin == '+')
   {
     ++begin;
-    if (begin == end)
+    if (begin == end || *begin == '-')
     {
       return std::nullopt;
     }
-- 
2.43.0


From ee3329013fdb4e3c5cba7d1d00039f73b3332a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:19 +0000
Subject: [PATCH 41/60] fix: the prefix '~' in an empty namespace accessed an
 empty string

---
 controller_interface/include/controller_interface/tf_prefix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_interface/include/controller_interface/tf_prefix.hpp b/controller_interface/include/controller_interface/tf_prefix.hpp
index 3f769b1..8ddd71d 100644
--- a/controller_interface/include/controller_interface/tf_prefix.hpp
+++ b/controller_interface/include/controller_interface/tf_prefix.hpp
@@ -40,7 +40,7 @@ inline std::string resolve_tf_prefix(const std::string & prefix, const std::stri
   }
 
   // ensure trailing '/'
-  if (nprefix.back() != '/')
+  if (nprefix.empty() || nprefix.back() != '/')
   {
     nprefix.push_back('/');
   }
-- 
2.43.0


From 3c5e63e1f8fe8feff3bc08d7b08db153fffdb70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:21 +0000
Subject: [PATCH 42/60] fix: the update rate of an earlier configuration
 limited later ones

---
 controller_interface/src/controller_interface_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 43ee52e..7261852 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -204,6 +204,8 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::configure()
       RCLCPP_ERROR(get_node()->get_logger(), "Update rate cannot be a negative value!");
       return get_lifecycle_state();
     }
+    // the update rate of an earlier configuration must not limit this one
+    params.update_rate = params.controller_manager_update_rate;
     if (params.update_rate != 0u && update_rate > params.update_rate)
     {
       RCLCPP_WARN(
-- 
2.43.0


From ac4ff18d6408027e719c4379b1e32f9b91e9e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:36 +0000
Subject: [PATCH 43/60] fix: the orientation of a pose sensor that cannot be
 read started as a half turn

---
 .../include/semantic_components/pose_sensor.hpp                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_interface/include/semantic_components/pose_sensor.hpp b/controller_interface/include/semantic_components/pose_sensor.hpp
index 24adacd..c1faf9d 100644
--- a/controller_interface/include/semantic_components/pose_sensor.hpp
+++ b/controller_interface/include/semantic_components/pose_sensor.hpp
@@ -117,7 +117,7 @@ private:
   /**
    * @brief Array to store the data of the pose sensor
    */
-  mutable std::array<double, 7> data_{{0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0}};
+  mutable std::array<double, 7> data_{{0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0}};
 };
 
 }  // namespace semantic_components
-- 
2.43.0


From aea3e65f2c3233ddae0e99f18742eec45f323534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:36 +0000
Subject: [PATCH 44/60] fix: reading all values of a semantic component threw
 an exception while one of them is written

---
 .../semantic_components/semantic_component_interface.hpp   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/controller_interface/include/semantic_components/semantic_component_interface.hpp b/controller_interface/include/semantic_components/semantic_component_interface.hpp
index c502a41..53c9f4d 100644
--- a/controller_interface/include/semantic_components/semantic_component_interface.hpp
+++ b/controller_interface/include/semantic_components/semantic_component_interface.hpp
@@ -98,7 +98,12 @@ public:
     // insert all the values
     for (auto i = 0u; i < state_interfaces_.size(); ++i)
     {
-      values.emplace_back(state_interfaces_[i].get().get_optional().value());
+      const auto data = state_interfaces_[i].get().get_optional();
+      if (!data.has_value())
+      {
+        return false;
+      }
+      values.emplace_back(data.value());
     }
     return true;
   }
-- 
2.43.0


From 0a82cd26eaf8ceebfb12f99966d0f9c564c82481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:36 +0000
Subject: [PATCH 45/60] fix: NaN was accepted as a color

---
 .../include/semantic_components/led_rgb_device.hpp           | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_interface/include/semantic_components/led_rgb_device.hpp b/controller_interface/include/semantic_components/led_rgb_device.hpp
index 60c72dc..ec8bea2 100644
--- a/controller_interface/include/semantic_components/led_rgb_device.hpp
+++ b/controller_interface/include/semantic_components/led_rgb_device.hpp
@@ -59,9 +59,10 @@ public:
    */
   bool set_values_from_message(const std_msgs::msg::ColorRGBA & message) override
   {
+    // NaN is not in the range either
     if (
-      message.r < 0 || message.r > 1 || message.g < 0 || message.g > 1 || message.b < 0 ||
-      message.b > 1)
+      !(message.r >= 0 && message.r <= 1) || !(message.g >= 0 && message.g <= 1) ||
+      !(message.b >= 0 && message.b <= 1))
     {
       return false;
     }
-- 
2.43.0


From c2d1acd1efae21930dfd9b9fccb9e68a0cee67b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 46/60] fix: concurrent reads of an interface value wrote an
 unprotected flag

---
 hardware_interface/include/hardware_interface/handle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/handle.hpp b/hardware_interface/include/hardware_interface/handle.hpp
index 86df3f4..d9b8067 100644
--- a/hardware_interface/include/hardware_interface/handle.hpp
+++ b/hardware_interface/include/hardware_interface/handle.hpp
@@ -646,7 +646,7 @@ private:
   // TODO(christophfroehlich): remove once
   // https://github.com/ros2/rclcpp/issues/2587
   // is fixed
-  mutable bool notified_ = false;
+  mutable std::atomic<bool> notified_{false};
 };
 
 class StateInterface : public Handle
-- 
2.43.0


From 26a9274e7988ef5fdfc64a991aab8be069b1dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 47/60] fix: the control loop could use a list of controllers
 while another thread modifies it

---
 .../include/controller_manager/controller_manager.hpp |  5 +++--
 controller_manager/src/controller_manager.cpp         | 11 +++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index cdab07e..7ca46c8 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -18,6 +18,7 @@
 #include <map>
 #include <memory>
 #include <string>
+#include <thread>
 #include <unordered_map>
 #include <utility>
 #include <vector>
@@ -666,9 +667,9 @@ private:
 
     std::vector<ControllerSpec> controllers_lists_[2];
     /// The index of the controller list with the most updated information
-    int updated_controllers_index_ = 0;
+    std::atomic<int> updated_controllers_index_{0};
     /// The index of the controllers list being used in the real-time thread.
-    int used_by_realtime_controllers_index_ = -1;
+    std::atomic<int> used_by_realtime_controllers_index_{-1};
     /// The callback to be called when the list is switched
     std::function<void()> on_switch_callback_ = nullptr;
   };
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index ed0b705..37f95e2 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3922,8 +3922,15 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
 std::vector<ControllerSpec> &
 ControllerManager::RTControllerListWrapper::update_and_get_used_by_rt_list()
 {
-  used_by_realtime_controllers_index_ = updated_controllers_index_;
-  return controllers_lists_[used_by_realtime_controllers_index_];
+  // The list is only safe to use once it is announced to be used: if it got switched in between, the
+  // other threads may already be modifying it
+  int index;
+  do
+  {
+    index = updated_controllers_index_;
+    used_by_realtime_controllers_index_ = index;
+  } while (index != updated_controllers_index_);
+  return controllers_lists_[index];
 }
 
 std::vector<ControllerSpec> & ControllerManager::RTControllerListWrapper::get_unused_list(
-- 
2.43.0


From b792140b42e73568d2403a0436f392eec53eb12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 48/60] fix: a switch outside of the control loop wrote the
 execution times of the loop

---
 controller_manager/src/controller_manager.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 37f95e2..9ab89b4 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3500,6 +3500,10 @@ void ControllerManager::manage_switch()
     return;
   }
   const auto start_time = std::chrono::steady_clock::now();
+  // The execution times belong to the control loop, a switch in another thread must not write them
+  ControllerManagerExecutionTime unused_execution_time;
+  ControllerManagerExecutionTime & execution_time =
+    switch_params_.activate_asap ? execution_time_ : unused_execution_time;
   // Ask hardware interfaces to change mode
   if (!resource_manager_->perform_command_mode_switch(
         switch_params_.activate_command_interface_request,
@@ -3512,7 +3516,7 @@ void ControllerManager::manage_switch()
     switch_params_.cv.notify_all();
     return;
   }
-  execution_time_.switch_perform_mode_time =
+  execution_time.switch_perform_mode_time =
     std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - start_time)
       .count();
 
@@ -3521,7 +3525,7 @@ void ControllerManager::manage_switch()
 
   const auto deact_start_time = std::chrono::steady_clock::now();
   deactivate_controllers(rt_controller_list, switch_params_.deactivate_request);
-  execution_time_.deactivation_time =
+  execution_time.deactivation_time =
     std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - deact_start_time)
       .count();
 
@@ -3532,7 +3536,7 @@ void ControllerManager::manage_switch()
     get_logger(),
     "Switching  %lu controllers to chained mode and %lu controllers from chained mode",
     switch_params_.to_chained_mode_request.size(), switch_params_.from_chained_mode_request.size());
-  execution_time_.switch_chained_mode_time =
+  execution_time.switch_chained_mode_time =
     std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - chain_start_time)
       .count();
 
@@ -3540,14 +3544,14 @@ void ControllerManager::manage_switch()
   const auto act_start_time = std::chrono::steady_clock::now();
   activate_controllers(
     rt_controller_list, switch_params_.activate_request, switch_params_.strictness);
-  execution_time_.activation_time =
+  execution_time.activation_time =
     std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - act_start_time)
       .count();
 
   // All controllers switched --> switching done
   switch_params_.do_switch = false;
   switch_params_.cv.notify_all();
-  execution_time_.switch_time =
+  execution_time.switch_time =
     std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - start_time)
       .count();
 }
-- 
2.43.0


From 819adaea6f91a28a5bbbd7f7573488e582863723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 49/60] fix: the control loop waited for a lock whose owner
 waits for the loop when a controller or hardware failed

---
 .../controller_manager/controller_manager.hpp | 22 +++++++
 controller_manager/src/controller_manager.cpp | 62 ++++++++++++++-----
 2 files changed, 67 insertions(+), 17 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 7ca46c8..fd98e6b 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -538,6 +538,25 @@ private:
    */
   void publish_activity();
 
+  /**
+   * @brief Method to complete the given status with the list of hardware components and publish it.
+   * @param status_msg The status with the list of controllers.
+   */
+  void publish_activity(controller_manager_msgs::msg::ControllerManagerActivity status_msg);
+
+  /**
+   * @brief Method to get the status with the list of the given controllers.
+   * @param controllers The list of controllers.
+   * @return The status, without the hardware components.
+   */
+  controller_manager_msgs::msg::ControllerManagerActivity get_controllers_activity(
+    const std::vector<ControllerSpec> & controllers) const;
+
+  /**
+   * @brief Method to be called whenever the state of a hardware component is switched.
+   */
+  void on_component_state_switch();
+
   void controller_activity_diagnostic_callback(diagnostic_updater::DiagnosticStatusWrapper & stat);
 
   void hardware_components_diagnostic_callback(diagnostic_updater::DiagnosticStatusWrapper & stat);
@@ -717,6 +736,9 @@ private:
 
   bool activate_all_hw_components_ = false;
 
+  /// The thread which calls write()
+  std::atomic<std::thread::id> write_thread_id_{};
+
   struct ControllerManagerExecutionTime
   {
     double read_time = 0.0;
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 9ab89b4..f9f3b4b 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -704,12 +704,11 @@ void ControllerManager::init_controller_manager()
   controller_manager_activity_publisher_ =
     create_publisher<controller_manager_msgs::msg::ControllerManagerActivity>(
       "~/activity", rclcpp::QoS(1).reliable().transient_local());
-  rt_controllers_wrapper_.set_on_switch_callback(
-    std::bind(&ControllerManager::publish_activity, this));
+  rt_controllers_wrapper_.set_on_switch_callback([this]() { publish_activity(); });
   if (resource_manager_)
   {
     resource_manager_->set_on_component_state_switch_callback(
-      std::bind(&ControllerManager::publish_activity, this));
+      [this]() { on_component_state_switch(); });
   }
 
   // Setup diagnostics
@@ -874,7 +873,7 @@ void ControllerManager::init_resource_manager(const std::string & robot_descript
   }
 
   resource_manager_->set_on_component_state_switch_callback(
-    std::bind(&ControllerManager::publish_activity, this));
+    [this]() { on_component_state_switch(); });
 
   if (robot_description.empty())
   {
@@ -3783,8 +3782,9 @@ controller_interface::return_type ControllerManager::update(
         rt_controller_list, rt_buffer_.fallback_controllers_list,
         controller_manager_msgs::srv::SwitchController::Request::STRICT);
     }
-    // To publish the activity of the failing controllers and the fallback controllers
-    publish_activity();
+    // To publish the activity of the failing controllers and the fallback controllers. The controllers
+    // lock is not to be taken here: its owner may be waiting for this thread
+    publish_activity(get_controllers_activity(rt_controller_list));
   }
   resource_manager_->enforce_command_limits(period);
 
@@ -3813,6 +3813,7 @@ controller_interface::return_type ControllerManager::update(
 void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration & period)
 {
   const auto start_time = std::chrono::steady_clock::now();
+  write_thread_id_ = std::this_thread::get_id();
   auto [result, failed_hardware_names] = resource_manager_->write(time, period);
 
   if (result == hardware_interface::return_type::ERROR)
@@ -4493,25 +4494,52 @@ ControllerManager::check_fallback_controllers_state_pre_activation(
   return controller_interface::return_type::OK;
 }
 
+void ControllerManager::on_component_state_switch()
+{
+  if (write_thread_id_ == std::this_thread::get_id())
+  {
+    // A hardware component deactivated itself in the write cycle. The controllers lock is not to be
+    // taken here: its owner may be waiting for this thread
+    publish_activity(
+      get_controllers_activity(rt_controllers_wrapper_.update_and_get_used_by_rt_list()));
+  }
+  else
+  {
+    publish_activity();
+  }
+}
+
 void ControllerManager::publish_activity()
 {
   controller_manager_msgs::msg::ControllerManagerActivity status_msg;
-  status_msg.header.stamp = get_clock()->now();
   {
     // lock controllers
     std::lock_guard<RTControllerListWrapper::controllers_lock_type> guard(
       rt_controllers_wrapper_.controllers_lock_);
-    const std::vector<ControllerSpec> & controllers =
-      rt_controllers_wrapper_.get_updated_list(guard);
-    for (const auto & controller : controllers)
-    {
-      controller_manager_msgs::msg::NamedLifecycleState lifecycle_info;
-      lifecycle_info.name = controller.info.name;
-      lifecycle_info.state.id = controller.c->get_lifecycle_state().id();
-      lifecycle_info.state.label = controller.c->get_lifecycle_state().label();
-      status_msg.controllers.push_back(lifecycle_info);
-    }
+    status_msg = get_controllers_activity(rt_controllers_wrapper_.get_updated_list(guard));
   }
+  publish_activity(std::move(status_msg));
+}
+
+controller_manager_msgs::msg::ControllerManagerActivity ControllerManager::get_controllers_activity(
+  const std::vector<ControllerSpec> & controllers) const
+{
+  controller_manager_msgs::msg::ControllerManagerActivity status_msg;
+  for (const auto & controller : controllers)
+  {
+    controller_manager_msgs::msg::NamedLifecycleState lifecycle_info;
+    lifecycle_info.name = controller.info.name;
+    lifecycle_info.state.id = controller.c->get_lifecycle_state().id();
+    lifecycle_info.state.label = controller.c->get_lifecycle_state().label();
+    status_msg.controllers.push_back(lifecycle_info);
+  }
+  return status_msg;
+}
+
+void ControllerManager::publish_activity(
+  controller_manager_msgs::msg::ControllerManagerActivity status_msg)
+{
+  status_msg.header.stamp = get_clock()->now();
   {
     const auto hw_components_info = resource_manager_->get_components_status();
     for (const auto & [component_name, component_info] : hw_components_info)
-- 
2.43.0


From f0cc0d2f37545e52b852c85cc6f0e95526159f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 50/60] fix: lists of the resource manager were modified in the
 control loop without protection

---
 hardware_interface/src/resource_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 65b3218..f98feea 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1922,6 +1922,7 @@ bool ResourceManager::controller_exported_interfaces_in_use(
 void ResourceManager::cache_controller_to_hardware(
   const std::string & controller_name, const std::vector<std::string> & interfaces)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   for (const auto & interface : interfaces)
   {
     bool found = false;
@@ -1962,6 +1963,7 @@ void ResourceManager::cache_controller_to_hardware(
 std::vector<std::string> ResourceManager::get_cached_controllers_to_hardware(
   const std::string & hardware_name)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   return resource_storage_->hardware_used_by_controllers_[hardware_name];
 }
 
@@ -2590,6 +2592,7 @@ HardwareReadWriteStatus ResourceManager::read(
         resource_storage_->handle_hardware_error(component);
         read_write_status.result = return_type::ERROR;
         read_write_status.failed_hardware_names.push_back(component_name);
+        std::lock_guard<std::recursive_mutex> interfaces_guard(resource_interfaces_lock_);
         resource_storage_->remove_all_hardware_interfaces_from_available_list(component_name);
       }
     }
@@ -2688,6 +2691,7 @@ HardwareReadWriteStatus ResourceManager::write(
         resource_storage_->handle_hardware_error(component);
         read_write_status.result = ret_val;
         read_write_status.failed_hardware_names.push_back(component_name);
+        std::lock_guard<std::recursive_mutex> interfaces_guard(resource_interfaces_lock_);
         resource_storage_->remove_all_hardware_interfaces_from_available_list(component_name);
       }
       else if (ret_val == return_type::DEACTIVATE)
-- 
2.43.0


From 94e584117f171a56ab4299a176ecf28208437f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 51/60] fix: the mode of a hardware component was switched
 while it is being read or written

---
 hardware_interface/src/hardware_component.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hardware_interface/src/hardware_component.cpp b/hardware_interface/src/hardware_component.cpp
index edc6cd3..a548200 100644
--- a/hardware_interface/src/hardware_component.cpp
+++ b/hardware_interface/src/hardware_component.cpp
@@ -332,6 +332,8 @@ return_type HardwareComponent::perform_command_mode_switch(
   const std::vector<std::string> & start_interfaces,
   const std::vector<std::string> & stop_interfaces)
 {
+  // not while read or write is running, as it is called by another thread if not activated asap
+  std::unique_lock<std::recursive_mutex> lock(component_mutex_);
   return impl_->perform_command_mode_switch(start_interfaces, stop_interfaces);
 }
 
-- 
2.43.0


From 5b77daae8c83365e344c78ecbe99a509750362b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 52/60] fix: commands could be written to the hardware without
 their limits being enforced

---
 .../include/hardware_interface/resource_manager.hpp    |  3 +++
 hardware_interface/src/resource_manager.cpp            | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/resource_manager.hpp b/hardware_interface/include/hardware_interface/resource_manager.hpp
index 4488d12..8f3dc4b 100644
--- a/hardware_interface/include/hardware_interface/resource_manager.hpp
+++ b/hardware_interface/include/hardware_interface/resource_manager.hpp
@@ -586,6 +586,9 @@ protected:
   mutable std::recursive_mutex resources_lock_;
   mutable std::recursive_mutex joint_limiters_lock_;
 
+  /// If true, the limits of the current commands could not be enforced. Only used by the update thread.
+  bool command_limits_skipped_ = false;
+
 private:
   bool validate_storage(const std::vector<hardware_interface::HardwareInfo> & hardware_info) const;
 
diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index f98feea..ff5155b 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2479,10 +2479,12 @@ return_type ResourceManager::set_component_state(
 bool ResourceManager::enforce_command_limits(const rclcpp::Duration & period)
 {
   std::unique_lock<std::recursive_mutex> limiters_guard(joint_limiters_lock_, std::try_to_lock);
-  if (!limiters_guard.owns_lock())
+  command_limits_skipped_ = !limiters_guard.owns_lock();
+  if (command_limits_skipped_)
   {
     return false;
   }
+  std::scoped_lock guard(resource_interfaces_lock_, claimed_command_interfaces_lock_);
 
   bool enforce_result = false;
   // Joint Limiters operations
@@ -2612,6 +2614,12 @@ HardwareReadWriteStatus ResourceManager::write(
   read_write_status.result = return_type::OK;
   read_write_status.failed_hardware_names.clear();
 
+  // The commands are not limited as the limiters are in use by another thread, and must not be written
+  if (command_limits_skipped_)
+  {
+    return read_write_status;
+  }
+
   // This is needed while we load and initialize the components
   std::unique_lock<std::recursive_mutex> resource_guard(resources_lock_, std::try_to_lock);
   if (!resource_guard.owns_lock())
-- 
2.43.0


From cc6fd4c0ccc0c2d66122e514fd77899a080cb744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:20 +0000
Subject: [PATCH 53/60] fix: switches that are prepared and performed at the
 same time used one buffer

---
 hardware_interface/src/resource_manager.cpp | 24 +++++++++------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index ff5155b..426903d 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -793,8 +793,6 @@ public:
       auto interfaces = hardware.export_command_interfaces();
       hardware_info_map_[hardware.get_name()].command_interfaces =
         add_command_interfaces(interfaces);
-      start_interfaces_buffer_.reserve(start_interfaces_buffer_.capacity() + interfaces.size());
-      stop_interfaces_buffer_.reserve(stop_interfaces_buffer_.capacity() + interfaces.size());
       // TODO(Manuel) END: for backward compatibility
     }
     catch (const std::exception & ex)
@@ -1494,10 +1492,6 @@ public:
   /// The callback to be called when a component state is switched
   std::function<void()> on_component_state_switch_callback_ = nullptr;
 
-  // To be used with the prepare and perform command switch for the hardware components
-  std::vector<std::string> start_interfaces_buffer_;
-  std::vector<std::string> stop_interfaces_buffer_;
-
   // Update rate of the controller manager, and the clock interface of its node
   // Used by async components.
   unsigned int cm_update_rate_ = 100;
@@ -2259,12 +2253,13 @@ bool ResourceManager::prepare_command_mode_switch(
     return ret;
   };
 
+  // Not shared, as different threads can be preparing and performing a switch at the same time
+  std::vector<std::string> start_interfaces_buffer;
+  std::vector<std::string> stop_interfaces_buffer;
   const bool actuators_result = call_prepare_mode_switch(
-    resource_storage_->actuators_, resource_storage_->start_interfaces_buffer_,
-    resource_storage_->stop_interfaces_buffer_);
+    resource_storage_->actuators_, start_interfaces_buffer, stop_interfaces_buffer);
   const bool systems_result = call_prepare_mode_switch(
-    resource_storage_->systems_, resource_storage_->start_interfaces_buffer_,
-    resource_storage_->stop_interfaces_buffer_);
+    resource_storage_->systems_, start_interfaces_buffer, stop_interfaces_buffer);
 
   return actuators_result && systems_result;
 }
@@ -2365,12 +2360,13 @@ bool ResourceManager::perform_command_mode_switch(
     return ret;
   };
 
+  // Not shared, as different threads can be preparing and performing a switch at the same time
+  std::vector<std::string> start_interfaces_buffer;
+  std::vector<std::string> stop_interfaces_buffer;
   const bool actuators_result = call_perform_mode_switch(
-    resource_storage_->actuators_, resource_storage_->start_interfaces_buffer_,
-    resource_storage_->stop_interfaces_buffer_);
+    resource_storage_->actuators_, start_interfaces_buffer, stop_interfaces_buffer);
   const bool systems_result = call_perform_mode_switch(
-    resource_storage_->systems_, resource_storage_->start_interfaces_buffer_,
-    resource_storage_->stop_interfaces_buffer_);
+    resource_storage_->systems_, start_interfaces_buffer, stop_interfaces_buffer);
 
   if (actuators_result && systems_result)
   {
-- 
2.43.0


From 7291cf298f88b39a281346195493766ef0909a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:45 +0000
Subject: [PATCH 54/60] fix: a switch of one joint made the limiters of the
 others forget their last command

---
 hardware_interface/src/resource_manager.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 426903d..f19d302 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2370,11 +2370,24 @@ bool ResourceManager::perform_command_mode_switch(
 
   if (actuators_result && systems_result)
   {
-    // Reset the internals of the joint limiters
+    // Reset the internals of the limiters of the switched joints. The others are still in use and need
+    // their last command
+    const auto is_switched = [&start_interfaces, &stop_interfaces](const std::string & joint_name)
+    {
+      const std::string prefix = joint_name + "/";
+      const auto has_prefix = [&prefix](const std::string & interface)
+      { return interface.compare(0, prefix.size(), prefix) == 0; };
+      return std::any_of(start_interfaces.begin(), start_interfaces.end(), has_prefix) ||
+             std::any_of(stop_interfaces.begin(), stop_interfaces.end(), has_prefix);
+    };
     for (auto & [hw_name, limiters] : resource_storage_->joint_limiters_interface_)
     {
       for (const auto & [joint_name, limiter] : limiters)
       {
+        if (!is_switched(joint_name))
+        {
+          continue;
+        }
         limiter->reset_internals();
         RCLCPP_DEBUG(
           get_logger(), "Resetting internals of joint limiter for joint '%s' in hardware '%s'",
-- 
2.43.0


From 52c06911b7e07797fd32b37599a35d3f6ce41157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:45 +0000
Subject: [PATCH 55/60] fix: transmissions assigned reductions and offsets to
 joints in alphabetical order

The reductions and offsets are given in the order of the joints and
actuators of the description, but the handles were ordered by name. Names
that are not in alphabetical order had their reductions and offsets swapped.
---
 .../include/transmission_interface/accessor.hpp  | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/transmission_interface/include/transmission_interface/accessor.hpp b/transmission_interface/include/transmission_interface/accessor.hpp
index a72b0f3..7e208c0 100644
--- a/transmission_interface/include/transmission_interface/accessor.hpp
+++ b/transmission_interface/include/transmission_interface/accessor.hpp
@@ -16,7 +16,6 @@
 #define TRANSMISSION_INTERFACE__ACCESSOR_HPP_
 
 #include <algorithm>
-#include <set>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -41,14 +40,19 @@ std::string to_string(const std::vector<T> & list)
   return ss.str();
 }
 
+/// Unique names of the handles, in the order of their first appearance.
 template <class T>
 std::vector<std::string> get_names(const std::vector<T> & handles)
 {
-  std::set<std::string> names;
-  std::transform(
-    handles.cbegin(), handles.cend(), std::inserter(names, names.end()),
-    [](const auto & handle) { return handle.get_prefix_name(); });
-  return std::vector<std::string>(names.begin(), names.end());
+  std::vector<std::string> names;
+  for (const auto & handle : handles)
+  {
+    if (std::find(names.cbegin(), names.cend(), handle.get_prefix_name()) == names.cend())
+    {
+      names.push_back(handle.get_prefix_name());
+    }
+  }
+  return names;
 }
 
 template <typename T>
-- 
2.43.0


From 29bc299ad9f9315307bfa569f88308af988dc456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:07 +0000
Subject: [PATCH 56/60] fix: the launch helpers changed the list of controllers
 of their caller

---
 controller_manager/controller_manager/launch_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/controller_manager/launch_utils.py b/controller_manager/controller_manager/launch_utils.py
index 5811640..5cf49f5 100644
--- a/controller_manager/controller_manager/launch_utils.py
+++ b/controller_manager/controller_manager/launch_utils.py
@@ -54,7 +54,7 @@ def generate_controllers_spawner_launch_description(
         description="Wait until the node is interrupted and then unload controller",
     )
 
-    spawner_arguments = controller_names
+    spawner_arguments = list(controller_names)
     spawner_arguments.extend(
         [
             "--controller-manager",
-- 
2.43.0


From a1bfb12cc8566ca6a29291efe0e4c8880402123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:07 +0000
Subject: [PATCH 57/60] fix: the verb switch_controllers failed with every
 --switch-timeout

---
 ros2controlcli/ros2controlcli/verb/switch_controllers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros2controlcli/ros2controlcli/verb/switch_controllers.py b/ros2controlcli/ros2controlcli/verb/switch_controllers.py
index 0e90925..0e6aeb8 100644
--- a/ros2controlcli/ros2controlcli/verb/switch_controllers.py
+++ b/ros2controlcli/ros2controlcli/verb/switch_controllers.py
@@ -55,6 +55,7 @@ class SwitchControllersVerb(VerbExtension):
         parser.add_argument("--activate-asap", action="store_true", help="Start asap controllers")
         parser.add_argument(
             "--switch-timeout",
+            type=float,
             default=5.0,
             required=False,
             help="Timeout for switching controllers",
-- 
2.43.0


From 57c6db45c77c7c5a09fcbdcfba40bc2e4d7981c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:07 +0000
Subject: [PATCH 58/60] fix: the spawner loaded controllers although their
 parameter files were refused

---
 .../controller_manager/controller_manager_services.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_manager/controller_manager/controller_manager_services.py b/controller_manager/controller_manager/controller_manager_services.py
index 4e64ffa..6031daf 100644
--- a/controller_manager/controller_manager/controller_manager_services.py
+++ b/controller_manager/controller_manager/controller_manager_services.py
@@ -486,13 +486,14 @@ def set_controller_parameters_from_param_files(
         node, controller_name, spawner_namespace, parameter_files
     )
     if controller_parameter_files:
-        set_controller_parameters(
+        if not set_controller_parameters(
             node,
             controller_manager_name,
             controller_name,
             "params_file",
             controller_parameter_files,
-        )
+        ):
+            return False
 
         controller_type = get_parameter_from_param_files(
             node, controller_name, spawner_namespace, controller_parameter_files, "type"
-- 
2.43.0


From 639106276e330f175f611f18cf54ba7b2d42ef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:07 +0000
Subject: [PATCH 59/60] fix: type and fallback controllers were taken from the
 first of several parameter files

---
 .../controller_manager/controller_manager_services.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/controller_manager/controller_manager/controller_manager_services.py b/controller_manager/controller_manager/controller_manager_services.py
index 6031daf..5c878a4 100644
--- a/controller_manager/controller_manager/controller_manager_services.py
+++ b/controller_manager/controller_manager/controller_manager_services.py
@@ -379,7 +379,8 @@ def get_params_files_with_controller_parameters(
 def get_parameter_from_param_files(
     node, controller_name: str, namespace: str, parameter_files: list, parameter_name: str
 ):
-    for parameter_file in parameter_files:
+    # later files override the earlier ones
+    for parameter_file in reversed(parameter_files):
         with open(parameter_file) as f:
             namespaced_controller = (
                 f"/{controller_name}" if namespace == "/" else f"{namespace}/{controller_name}"
-- 
2.43.0


From c7338506eecfed407a9a59fa2fd2e74eedad553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:07 +0000
Subject: [PATCH 60/60] fix: --unload-on-kill left controllers behind if one of
 them was not active

---
 .../controller_manager/spawner.py             | 64 +++++++++++++------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/controller_manager/controller_manager/spawner.py b/controller_manager/controller_manager/spawner.py
index 28c11c6..950bf41 100644
--- a/controller_manager/controller_manager/spawner.py
+++ b/controller_manager/controller_manager/spawner.py
@@ -591,29 +591,53 @@ def main(args=None):
         if unload_on_kill:
             logger.info("KeyboardInterrupt successfully captured!")
 
-            # Determine which controllers to deactivate
-            controllers_to_deactivate = [c["name"] for c in controllers if not c["inactive"]]
-
-            if controllers_to_deactivate:
+            # Determine which controllers to unload, and which of them have to be deactivated first
+            controllers_to_unload = []
+            controllers_to_deactivate = []
+            if node is not None:
+                loaded_controllers = {
+                    c.name: c.state
+                    for c in list_controllers(
+                        node,
+                        controller_manager_name,
+                        controller_manager_timeout,
+                        service_call_timeout,
+                    ).controller
+                }
+                controllers_to_unload = [
+                    c["name"]
+                    for c in controllers
+                    if not c["inactive"] and c["name"] in loaded_controllers
+                ]
+                controllers_to_deactivate = [
+                    name for name in controllers_to_unload if loaded_controllers[name] == "active"
+                ]
+
+            if controllers_to_unload:
                 logger.info("Deactivating and unloading controllers...")
-                ret = switch_controllers(
-                    node,
-                    controller_manager_name,
-                    controllers_to_deactivate,
-                    [],
-                    strictness,
-                    switch_asap,
-                    switch_timeout,
-                    service_call_timeout,
-                )
-                if not ret.ok:
-                    logger.error(bcolors.FAIL + "Failed to deactivate controller" + bcolors.ENDC)
-                    return 1
+                if controllers_to_deactivate:
+                    ret = switch_controllers(
+                        node,
+                        controller_manager_name,
+                        controllers_to_deactivate,
+                        [],
+                        strictness,
+                        switch_asap,
+                        switch_timeout,
+                        service_call_timeout,
+                    )
+                    if not ret.ok:
+                        logger.error(
+                            bcolors.FAIL + "Failed to deactivate controller" + bcolors.ENDC
+                        )
+                        return 1
 
-                logger.info(f"Successfully deactivated controllers : {controllers_to_deactivate}")
+                    logger.info(
+                        f"Successfully deactivated controllers : {controllers_to_deactivate}"
+                    )
 
                 unload_status = True
-                for controller_name in controllers_to_deactivate:
+                for controller_name in controllers_to_unload:
                     ret = unload_controller(
                         node,
                         controller_manager_name,
@@ -630,7 +654,7 @@ def main(args=None):
                         )
 
                 if unload_status:
-                    logger.info(f"Successfully unloaded controllers : {controllers_to_deactivate}")
+                    logger.info(f"Successfully unloaded controllers : {controllers_to_unload}")
                 else:
                     return 1
             else:
-- 
2.43.0

