#include "rclcpp_lifecycle/lifecycle_node.hpp"
namespace rclcpp_lifecycle
{
using S = lifecycle_msgs::msg::State;
using T = lifecycle_msgs::msg::Transition;
static const char * label(uint8_t id)
{
  switch (id)
  {
    case S::PRIMARY_STATE_UNCONFIGURED: return "unconfigured"; case S::PRIMARY_STATE_INACTIVE: return "inactive";
    case S::PRIMARY_STATE_ACTIVE: return "active"; case S::PRIMARY_STATE_FINALIZED: return "finalized";
    case S::TRANSITION_STATE_CONFIGURING: return "configuring"; case S::TRANSITION_STATE_CLEANINGUP: return "cleaningup";
    case S::TRANSITION_STATE_SHUTTINGDOWN: return "shuttingdown"; case S::TRANSITION_STATE_ACTIVATING: return "activating";
    case S::TRANSITION_STATE_DEACTIVATING: return "deactivating"; case S::TRANSITION_STATE_ERRORPROCESSING: return "errorprocessing";
  }
  return "unknown";
}
LifecycleNode::LifecycleNode(const std::string & n, const std::string & ns, const rclcpp::NodeOptions & o, bool) : rclcpp::NodeCommon<LifecycleNode>(n, ns, o), state_(S::PRIMARY_STATE_UNCONFIGURED, "unconfigured")
{
  on_configure_cb_ = [this](const State & s) { return on_configure(s); }; on_cleanup_cb_ = [this](const State & s) { return on_cleanup(s); };
  on_shutdown_cb_ = [this](const State & s) { return on_shutdown(s); }; on_activate_cb_ = [this](const State & s) { return on_activate(s); };
  on_deactivate_cb_ = [this](const State & s) { return on_deactivate(s); }; on_error_cb_ = [this](const State & s) { return on_error(s); };
}
LifecycleNode::~LifecycleNode() {}
void LifecycleNode::set(uint8_t id) { state_ = State(id, label(id)); }
LifecycleNode::CallbackReturn LifecycleNode::run(const std::function<CallbackReturn(const State &)> & f, const State & prev)
{
  try { return f(prev); } catch (const std::exception &) { return CallbackReturn::ERROR; }
}
const State & LifecycleNode::shutdown(CallbackReturn & r)
{
  switch (state_.id())
  {
    case S::PRIMARY_STATE_UNCONFIGURED: return change(T::TRANSITION_UNCONFIGURED_SHUTDOWN, r);
    case S::PRIMARY_STATE_INACTIVE: return change(T::TRANSITION_INACTIVE_SHUTDOWN, r);
    case S::PRIMARY_STATE_ACTIVE: return change(T::TRANSITION_ACTIVE_SHUTDOWN, r);
  }
  r = CallbackReturn::ERROR;
  return state_;
}
const State & LifecycleNode::change(uint8_t id, CallbackReturn & r)
{
  // like rclcpp_lifecycle: not locked while the callbacks run
  std::unique_lock<std::recursive_mutex> l(m_);
  uint8_t from = state_.id(), mid = 0, ok = 0, fail = 0;
  const std::function<CallbackReturn(const State &)> * f = nullptr;
  if (from == S::PRIMARY_STATE_UNCONFIGURED && id == T::TRANSITION_CONFIGURE) mid = S::TRANSITION_STATE_CONFIGURING, ok = S::PRIMARY_STATE_INACTIVE, fail = from, f = &on_configure_cb_;
  else if (from == S::PRIMARY_STATE_INACTIVE && id == T::TRANSITION_CLEANUP) mid = S::TRANSITION_STATE_CLEANINGUP, ok = S::PRIMARY_STATE_UNCONFIGURED, fail = from, f = &on_cleanup_cb_;
  else if (from == S::PRIMARY_STATE_INACTIVE && id == T::TRANSITION_ACTIVATE) mid = S::TRANSITION_STATE_ACTIVATING, ok = S::PRIMARY_STATE_ACTIVE, fail = from, f = &on_activate_cb_;
  else if (from == S::PRIMARY_STATE_ACTIVE && id == T::TRANSITION_DEACTIVATE) mid = S::TRANSITION_STATE_DEACTIVATING, ok = S::PRIMARY_STATE_INACTIVE, fail = from, f = &on_deactivate_cb_;
  else if ((from == S::PRIMARY_STATE_UNCONFIGURED && id == T::TRANSITION_UNCONFIGURED_SHUTDOWN) || (from == S::PRIMARY_STATE_INACTIVE && id == T::TRANSITION_INACTIVE_SHUTDOWN) || (from == S::PRIMARY_STATE_ACTIVE && id == T::TRANSITION_ACTIVE_SHUTDOWN))
    mid = S::TRANSITION_STATE_SHUTTINGDOWN, ok = fail = S::PRIMARY_STATE_FINALIZED, f = &on_shutdown_cb_;
  if (!f) { r = CallbackReturn::ERROR; return state_; }
  State prev(state_);
  set(mid);
  l.unlock();
  r = run(*f, prev);
  l.lock();
  if (r == CallbackReturn::SUCCESS) set(ok);
  else if (r == CallbackReturn::FAILURE) set(fail);
  else
  {
    set(S::TRANSITION_STATE_ERRORPROCESSING);
    l.unlock();
    auto e = run(on_error_cb_, prev);
    l.lock();
    set(e == CallbackReturn::SUCCESS ? S::PRIMARY_STATE_UNCONFIGURED : S::PRIMARY_STATE_FINALIZED);
  }
  return state_;
}
}  // namespace rclcpp_lifecycle
