#pragma once
// Stand-in for rclcpp_lifecycle: State (with upstream's internal locking) and a LifecycleNode with the rcl default state machine.
#include <mutex>
#include <string>
#include "lifecycle_msgs/msg/state.hpp"
#include "lifecycle_msgs/msg/transition.hpp"
#include "rclcpp/rclcpp.hpp"

namespace rclcpp_lifecycle
{
class State
{
public:
  State() : State(lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN, "unknown") {}
  State(uint8_t id, const std::string & label) : id_(id), label_(label)
  {
    if (label.empty()) throw std::runtime_error("Lifecycle State cannot have an empty label.");
  }
  State(const State & o) { std::lock_guard<std::recursive_mutex> l(o.m_); id_ = o.id_; label_ = o.label_; }
  State & operator=(const State & o)
  {
    if (this == &o) return *this;
    uint8_t i; std::string s;
    { std::lock_guard<std::recursive_mutex> l(o.m_); i = o.id_; s = o.label_; }
    std::lock_guard<std::recursive_mutex> l(m_); id_ = i; label_ = s;
    return *this;
  }
  virtual ~State() = default;
  uint8_t id() const { std::lock_guard<std::recursive_mutex> l(m_); return id_; }
  std::string label() const { std::lock_guard<std::recursive_mutex> l(m_); return label_; }
protected:
  mutable std::recursive_mutex m_; uint8_t id_; std::string label_;
};
class Transition
{
public:
  Transition() = delete;
  explicit Transition(uint8_t id, const std::string & label = "") : id_(id), label_(label) {}
  uint8_t id() const { return id_; }
  std::string label() const { return label_; }
private: uint8_t id_; std::string label_;
};
namespace node_interfaces
{
class LifecycleNodeInterface
{
public:
  enum class CallbackReturn : uint8_t { SUCCESS = 97, FAILURE = 98, ERROR = 99 };
  virtual ~LifecycleNodeInterface() = default;
  virtual CallbackReturn on_configure(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_cleanup(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_shutdown(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_activate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_deactivate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_error(const State &) { return CallbackReturn::SUCCESS; }
};
}  // namespace node_interfaces
template <class M, class A = std::allocator<void>> class LifecyclePublisher : public rclcpp::Publisher<M>
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(LifecyclePublisher)
  void on_activate() { active_ = true; } void on_deactivate() { active_ = false; } bool is_activated() { return active_; }
  void publish(const M & m) override { if (active_) rclcpp::Publisher<M>::publish(m); }
  void publish(std::unique_ptr<M> m) override { publish(*m); }
private: bool active_ = false;
};
class LifecycleNode : public node_interfaces::LifecycleNodeInterface, public rclcpp::NodeCommon<LifecycleNode>
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(LifecycleNode)
  using CallbackReturn = node_interfaces::LifecycleNodeInterface::CallbackReturn;
  explicit LifecycleNode(const std::string & n, const rclcpp::NodeOptions & o = rclcpp::NodeOptions(), bool enable_com = true) : LifecycleNode(n, "", o, enable_com) {}
  LifecycleNode(const std::string & n, const std::string & ns, const rclcpp::NodeOptions & o = rclcpp::NodeOptions(), bool = true);
  virtual ~LifecycleNode();
  const State & get_current_state() const { return state_; }
  std::vector<State> get_available_states() const { return {}; }
#define STUB_TR(N, ID) const State & N() { CallbackReturn r; return change(ID, r); } const State & N(CallbackReturn & r) { return change(ID, r); }
  STUB_TR(configure, lifecycle_msgs::msg::Transition::TRANSITION_CONFIGURE)
  STUB_TR(cleanup, lifecycle_msgs::msg::Transition::TRANSITION_CLEANUP)
  STUB_TR(activate, lifecycle_msgs::msg::Transition::TRANSITION_ACTIVATE)
  STUB_TR(deactivate, lifecycle_msgs::msg::Transition::TRANSITION_DEACTIVATE)
#undef STUB_TR
  const State & shutdown() { CallbackReturn r; return shutdown(r); }
  const State & shutdown(CallbackReturn & r);
  const State & trigger_transition(const Transition & t) { return trigger_transition(t.id()); }
  const State & trigger_transition(uint8_t id) { CallbackReturn r; return change(id, r); }
  const State & trigger_transition(uint8_t id, CallbackReturn & r) { return change(id, r); }
#define STUB_REG(N) bool register_##N(std::function<CallbackReturn(const State &)> f) { N##_cb_ = f; return true; }
  STUB_REG(on_configure) STUB_REG(on_cleanup) STUB_REG(on_shutdown) STUB_REG(on_activate) STUB_REG(on_deactivate) STUB_REG(on_error)
#undef STUB_REG
private:
  const State & change(uint8_t id, CallbackReturn & r);
  CallbackReturn run(const std::function<CallbackReturn(const State &)> & f, const State & prev);
  void set(uint8_t id);
  State state_; std::recursive_mutex m_;
  std::function<CallbackReturn(const State &)> on_configure_cb_, on_cleanup_cb_, on_shutdown_cb_, on_activate_cb_, on_deactivate_cb_, on_error_cb_;
};
}  // namespace rclcpp_lifecycle
