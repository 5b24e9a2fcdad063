#pragma once
// Re-implementation of realtime_tools::AsyncFunctionHandler's observable protocol (one worker thread, trigger / wait / pause / stop).
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#include "rclcpp/rclcpp.hpp"
#include "realtime_tools/realtime_helpers.hpp"
namespace realtime_tools
{
class AsyncSchedulingPolicy
{
public:
  enum Value : int8_t { UNKNOWN = -1, SYNCHRONIZED, DETACHED };
  AsyncSchedulingPolicy() = default;
  constexpr AsyncSchedulingPolicy(Value v) : v_(v) {}  // NOLINT
  explicit AsyncSchedulingPolicy(const std::string & s) : v_(s == "synchronized" ? SYNCHRONIZED : s == "detached" ? DETACHED : UNKNOWN) {}
  operator Value() const { return v_; }
  explicit operator bool() const = delete;
  constexpr bool operator==(AsyncSchedulingPolicy o) const { return v_ == o.v_; }
  constexpr bool operator==(Value o) const { return v_ == o; }
  std::string to_string() const { return v_ == SYNCHRONIZED ? "synchronized" : v_ == DETACHED ? "detached" : "unknown"; }
  AsyncSchedulingPolicy from_string(const std::string & s) { return AsyncSchedulingPolicy(s); }
private: Value v_ = UNKNOWN;
};
struct AsyncFunctionHandlerParams
{
  bool validate() const
  {
    if (thread_priority < 0 || thread_priority > 99) return false;
    if (scheduling_policy == AsyncSchedulingPolicy::UNKNOWN) return false;
    if (scheduling_policy == AsyncSchedulingPolicy::DETACHED && (!clock || exec_rate == 0)) return false;
    return trigger_predicate != nullptr || scheduling_policy == AsyncSchedulingPolicy::DETACHED;
  }
  template <class NodeT> void initialize(NodeT & node, const std::string & prefix)
  {
    auto dec = [&](const std::string & n, auto def) { using T = decltype(def); if (!node->has_parameter(prefix + n)) return T(node->template declare_parameter<T>(prefix + n, def)); return T(node->get_parameter(prefix + n).template get_value<T>()); };
    thread_priority = static_cast<int>(dec("thread_priority", int64_t(thread_priority)));
    auto c = dec("cpu_affinity", std::vector<int64_t>{}); cpu_affinity_cores.assign(c.begin(), c.end());
    auto p = dec("scheduling_policy", std::string("synchronized")); scheduling_policy = AsyncSchedulingPolicy(p);
    if (scheduling_policy == AsyncSchedulingPolicy::DETACHED) { exec_rate = static_cast<unsigned>(dec("execution_rate", int64_t(exec_rate))); wait_until_initial_trigger = dec("wait_until_initial_trigger", wait_until_initial_trigger); }
    print_warnings = dec("print_warnings", print_warnings);
  }
  int thread_priority = 50;
  std::vector<int> cpu_affinity_cores = {};
  AsyncSchedulingPolicy scheduling_policy = AsyncSchedulingPolicy::SYNCHRONIZED;
  unsigned int exec_rate = 0u;
  rclcpp::Clock::SharedPtr clock = nullptr;
  rclcpp::Logger logger = rclcpp::get_logger("AsyncFunctionHandler");
  std::function<bool()> trigger_predicate = []() { return true; };
  bool wait_until_initial_trigger = true;
  bool print_warnings = true;
};
template <class T>
class AsyncFunctionHandler
{
public:
  AsyncFunctionHandler() = default;
  ~AsyncFunctionHandler() { stop_thread(); }
  using Callback = std::function<T(const rclcpp::Time &, const rclcpp::Duration &)>;
  void init(Callback cb, int prio = 50) { AsyncFunctionHandlerParams p; p.thread_priority = prio; init(cb, p); }
  void init(Callback cb, std::function<bool()> pred, int prio = 50) { AsyncFunctionHandlerParams p; p.thread_priority = prio; p.trigger_predicate = pred; init(cb, p); }
  void init(Callback cb, const AsyncFunctionHandlerParams & p)
  {
    if (!cb) throw std::runtime_error("AsyncFunctionHandler: parsed function to call asynchronously is not valid!");
    if (thread_.joinable()) throw std::runtime_error("AsyncFunctionHandler: Cannot reinitialize while the thread is running. Please stop the async callback first!");
    if (!p.validate()) throw std::runtime_error("AsyncFunctionHandler: The parameters used to initialize are not valid!");
    params_ = p; fn_ = cb;
    pause_ = p.wait_until_initial_trigger;
    if (p.scheduling_policy == AsyncSchedulingPolicy::DETACHED) params_.trigger_predicate = [] { return true; };
  }
  std::pair<bool, T> trigger_async_callback(const rclcpp::Time & time, const rclcpp::Duration & period)
  {
    if (!is_initialized()) throw std::runtime_error("AsyncFunctionHandler: need to be initialized first!");
    if (exc_)
    {
      // upstream: rethrow the exception caught in the worker
      auto e = exc_; exc_ = nullptr; std::rethrow_exception(e);
    }
    if (!is_running()) throw std::runtime_error("AsyncFunctionHandler: need to start the async callback thread first before triggering!");
    std::unique_lock<std::mutex> lock(m_, std::try_to_lock);
    bool triggered = false;
    if (lock.owns_lock() && !trig_ && params_.trigger_predicate())
    {
      pause_ = false;
      time_ = time; period_ = period; trig_ = true; triggered = true;
      lock.unlock();
      cv_.notify_one();
      return {triggered, ret_.load()};
    }
    return {triggered, ret_.load()};
  }
  T get_last_return_value() const { return ret_.load(); }
  const rclcpp::Time & get_current_callback_time() const { return time_; }
  const rclcpp::Duration & get_current_callback_period() const { return period_; }
  void reset_variables()
  {
    std::unique_lock<std::mutex> l(m_);
    stop_ = false; trig_ = false; time_ = rclcpp::Time(0, 0, RCL_CLOCK_UNINITIALIZED); period_ = rclcpp::Duration(0, 0);
    ret_ = T(); exec_time_ = std::chrono::nanoseconds(0);
  }
  void wait_for_trigger_cycle_to_finish()
  {
    if (is_running()) { std::unique_lock<std::mutex> l(m_); cycle_cv_.wait(l, [this] { return !trig_; }); }
  }
  bool is_initialized() const { return fn_ && params_.trigger_predicate; }
  void join_async_callback_thread() { if (is_running()) thread_.join(); }
  bool is_running() const { return thread_.joinable(); }
  bool is_stopped() const { return stop_; }
  bool is_paused() const { return pause_; }
  bool is_trigger_cycle_in_progress() const { return trig_; }
  std::thread & get_thread() { return thread_; }
  const AsyncFunctionHandlerParams & get_params() const { return params_; }
  std::mutex & get_async_mutex() { return m_; }
  std::chrono::nanoseconds get_last_execution_time() const { return exec_time_.load(); }
  bool pause_execution()
  {
    bool was = false;
    { std::unique_lock<std::mutex> l(m_); was = pause_; pause_ = true; if (!was && is_running()) cycle_cv_.wait(l, [this] { return !trig_; }); }
    return !was;
  }
  void stop_thread()
  {
    if (is_running())
    {
      { std::unique_lock<std::mutex> l(m_); stop_ = true; }
      cv_.notify_one();
      thread_.join();
    }
  }
  void start_thread()
  {
    if (!is_initialized()) throw std::runtime_error("AsyncFunctionHandler: need to be initialized first!");
    if (thread_.joinable()) return;
    reset_variables();
    thread_ = std::thread([this] {
      if (params_.scheduling_policy == AsyncSchedulingPolicy::SYNCHRONIZED) run_sync(); else run_detached();
    });
  }

private:
  void run_sync()
  {
    while (!stop_.load(std::memory_order_relaxed))
    {
      {
        std::unique_lock<std::mutex> l(m_);
        cv_.wait(l, [this] { return trig_ || stop_; });
        if (!stop_)
        {
          const auto s = std::chrono::steady_clock::now();
          try { ret_ = fn_(time_, period_); } catch (...) { exc_ = std::current_exception(); }
          exec_time_ = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - s);
        }
        trig_ = false;
      }
      cycle_cv_.notify_all();
    }
  }
  void run_detached()
  {
    if (params_.wait_until_initial_trigger) { std::unique_lock<std::mutex> l(m_); cv_.wait(l, [this] { return trig_ || stop_; }); }
    auto prev = params_.clock->now();
    const auto per = rclcpp::Duration::from_nanoseconds(1000000000LL / params_.exec_rate);
    while (!stop_)
    {
      if (!pause_)
      {
        { std::unique_lock<std::mutex> l(m_);
          auto now = params_.clock->now(); time_ = now; period_ = now - prev; prev = now;
          try { ret_ = fn_(time_, period_); } catch (...) { exc_ = std::current_exception(); }
          trig_ = false; }
        cycle_cv_.notify_all();
      }
      else { { std::unique_lock<std::mutex> l(m_); trig_ = false; } cycle_cv_.notify_all(); }
      std::this_thread::sleep_for(std::chrono::nanoseconds(per.nanoseconds()));
    }
  }
  rclcpp::Time time_{0, 0, RCL_CLOCK_UNINITIALIZED};
  rclcpp::Duration period_{0, 0};
  std::thread thread_;
  AsyncFunctionHandlerParams params_;
  Callback fn_;
  std::condition_variable cv_, cycle_cv_;
  std::mutex m_;
  std::atomic<bool> trig_{false}, stop_{false}, pause_{false};
  std::atomic<T> ret_{};
  std::atomic<std::chrono::nanoseconds> exec_time_{};
  std::exception_ptr exc_;
};
}  // namespace realtime_tools
