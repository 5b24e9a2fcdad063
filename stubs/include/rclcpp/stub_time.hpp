#pragma once
// Stand-in for rclcpp time types (semantics of rclcpp: mixed clock sources throw, overflows throw).
#include <chrono>
#include <cstdint>
#include <functional>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include "builtin_interfaces/msg/duration.hpp"
#include "builtin_interfaces/msg/time.hpp"

typedef enum rcl_clock_type_e { RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME } rcl_clock_type_t;
typedef int64_t rcl_time_point_value_t;
typedef int64_t rcl_duration_value_t;
typedef int rcl_ret_t;
#define RCL_RET_OK 0
#define RCUTILS_RET_OK 0
#define RCL_S_TO_NS(seconds) ((seconds) * (1000LL * 1000LL * 1000LL))
#define RCL_MS_TO_NS(ms) ((ms) * (1000LL * 1000LL))
#define RCL_NS_TO_S(ns) ((ns) / (1000LL * 1000LL * 1000LL))

namespace stub
{
// Virtual time. When enabled every rclcpp::Clock reads virtual_now (ns) instead of the system clocks.
bool virtual_time_enabled();
int64_t virtual_now();
void set_virtual_time(int64_t ns);   // also enables
void disable_virtual_time();
int64_t real_now(rcl_clock_type_t t);
// called when a Clock sleeps under virtual time; default: jump forward
void virtual_sleep_until(int64_t ns);
}  // namespace stub

namespace rclcpp
{
class Duration
{
public:
  Duration() = delete;
  Duration(int32_t seconds, uint32_t nanoseconds) : ns_(int64_t(seconds) * 1000000000LL + nanoseconds) {}
  explicit Duration(std::chrono::nanoseconds n) : ns_(n.count()) {}
  template <class R, class P>
  Duration(const std::chrono::duration<R, P> & d) : ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}  // NOLINT
  Duration(const builtin_interfaces::msg::Duration & m) : ns_(int64_t(m.sec) * 1000000000LL + m.nanosec) {}  // NOLINT
  Duration(const Duration &) = default;
  virtual ~Duration() = default;
  operator builtin_interfaces::msg::Duration() const
  {
    builtin_interfaces::msg::Duration m;
    int64_t s = ns_ / 1000000000LL, r = ns_ % 1000000000LL;
    if (r < 0) { s -= 1; r += 1000000000LL; }
    m.sec = static_cast<int32_t>(s); m.nanosec = static_cast<uint32_t>(r);
    return m;
  }
  Duration & operator=(const Duration &) = default;
  Duration & operator=(const builtin_interfaces::msg::Duration & m) { return *this = Duration(m); }
  bool operator==(const Duration & o) const { return ns_ == o.ns_; }
  bool operator!=(const Duration & o) const { return ns_ != o.ns_; }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; }
  bool operator<=(const Duration & o) const { return ns_ <= o.ns_; }
  bool operator>(const Duration & o) const { return ns_ > o.ns_; }
  bool operator>=(const Duration & o) const { return ns_ >= o.ns_; }
  Duration operator-() const { return from_nanoseconds(-ns_); }
  Duration operator+(const Duration & o) const
  {
    int64_t r;
    if (__builtin_add_overflow(ns_, o.ns_, &r)) throw std::overflow_error("addition leads to int64_t overflow");
    return from_nanoseconds(r);
  }
  Duration operator-(const Duration & o) const
  {
    int64_t r;
    if (__builtin_sub_overflow(ns_, o.ns_, &r)) throw std::overflow_error("duration subtraction leads to int64_t overflow");
    return from_nanoseconds(r);
  }
  Duration & operator+=(const Duration & o) { return *this = *this + o; }
  Duration & operator-=(const Duration & o) { return *this = *this - o; }
  Duration operator*(double s) const
  {
    return from_nanoseconds(static_cast<int64_t>(static_cast<long double>(ns_) * static_cast<long double>(s)));
  }
  Duration & operator*=(double s) { return *this = *this * s; }
  static Duration max() { return from_nanoseconds(std::numeric_limits<int64_t>::max()); }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  static Duration from_seconds(double s) { return from_nanoseconds(static_cast<int64_t>(s * 1e9)); }
  static Duration from_nanoseconds(int64_t ns) { return Duration(std::chrono::nanoseconds(ns)); }
  template <class D>
  D to_chrono() const { return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_)); }

private:
  int64_t ns_;
};

class Clock;
class Time
{
public:
  Time(int32_t s, uint32_t ns, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(int64_t(s) * 1000000000LL + ns), t_(t)
  {
    if (s < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time");
  }
  explicit Time(int64_t ns = 0, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(ns), t_(t) {}
  Time(const Time &) = default;
  Time(const builtin_interfaces::msg::Time & m, rcl_clock_type_t t = RCL_ROS_TIME)  // NOLINT
  : Time(m.sec, m.nanosec, t) {}
  virtual ~Time() = default;
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time m;
    m.sec = static_cast<int32_t>(ns_ / 1000000000LL); m.nanosec = static_cast<uint32_t>(ns_ % 1000000000LL);
    return m;
  }
  Time & operator=(const Time &) = default;
  Time & operator=(const builtin_interfaces::msg::Time & m) { return *this = Time(m); }
  bool operator==(const Time & o) const { chk(o, "can't compare times with different time sources"); return ns_ == o.ns_; }
  bool operator!=(const Time & o) const { return !(*this == o); }
  bool operator<(const Time & o) const { chk(o, "can't compare times with different time sources"); return ns_ < o.ns_; }
  bool operator<=(const Time & o) const { chk(o, "can't compare times with different time sources"); return ns_ <= o.ns_; }
  bool operator>(const Time & o) const { chk(o, "can't compare times with different time sources"); return ns_ > o.ns_; }
  bool operator>=(const Time & o) const { chk(o, "can't compare times with different time sources"); return ns_ >= o.ns_; }
  Time operator+(const Duration & d) const
  {
    int64_t r;
    if (__builtin_add_overflow(ns_, d.nanoseconds(), &r)) throw std::overflow_error("addition leads to int64_t overflow");
    return Time(r, t_);
  }
  Duration operator-(const Time & o) const
  {
    if (t_ != o.t_)
      throw std::runtime_error("can't subtract times with different time sources [" + std::to_string(t_) + " != " + std::to_string(o.t_) + "]");
    int64_t r;
    if (__builtin_sub_overflow(ns_, o.ns_, &r)) throw std::overflow_error("time subtraction leads to int64_t overflow");
    return Duration::from_nanoseconds(r);
  }
  Time operator-(const Duration & d) const
  {
    int64_t r;
    if (__builtin_sub_overflow(ns_, d.nanoseconds(), &r)) throw std::overflow_error("time subtraction leads to int64_t overflow");
    return Time(r, t_);
  }
  Time & operator+=(const Duration & d) { return *this = *this + d; }
  Time & operator-=(const Duration & d) { return *this = *this - d; }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  static Time max(rcl_clock_type_t t = RCL_SYSTEM_TIME) { return Time(std::numeric_limits<int64_t>::max(), t); }
  rcl_clock_type_t get_clock_type() const { return t_; }

private:
  void chk(const Time & o, const char * m) const { if (t_ != o.t_) throw std::runtime_error(m); }
  int64_t ns_;
  rcl_clock_type_t t_;
};
inline Time operator+(const Duration & d, const Time & t) { return t + d; }

class Context;
class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>;
  using ConstSharedPtr = std::shared_ptr<const Clock>;
  using WeakPtr = std::weak_ptr<Clock>;
  explicit Clock(rcl_clock_type_t t = RCL_SYSTEM_TIME) : t_(t) {}
  virtual ~Clock() = default;
  Time now() const { return Time(stub::virtual_time_enabled() ? stub::virtual_now() : stub::real_now(t_), t_); }
  bool sleep_until(Time until);
  bool sleep_for(Duration d) { return sleep_until(now() + d); }
  bool started() { return now().nanoseconds() != 0; }
  bool wait_until_started() { return true; }
  template <class... A> bool wait_until_started(A &&...) { return true; }
  bool ros_time_is_active() { return ros_active_; }
  void stub_set_ros_time_active(bool a) { ros_active_ = a; }
  rcl_clock_type_t get_clock_type() const noexcept { return t_; }

private:
  rcl_clock_type_t t_;
  bool ros_active_ = false;
};
}  // namespace rclcpp
