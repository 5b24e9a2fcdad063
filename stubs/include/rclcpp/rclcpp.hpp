#pragma once
// Stand-in for rclcpp: an in-process graph (topics, services, timers, parameters, executors) with the semantics
// the ros2_control sources rely on.  Everything is explicit and deterministic; no background threads are created.
#include <algorithm>
#include <any>
#include <array>
#include <cassert>
#include <cmath>
#include <cstring>
#include <iostream>
#include <iterator>
#include <limits>
#include <numeric>
#include <regex>
#include <sstream>
#include <stdexcept>
#include <string_view>
#include <tuple>
#include <unordered_set>
#include <utility>
#include <variant>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <cxxabi.h>
#include <functional>
#include <future>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <typeindex>
#include <unordered_map>
#include <vector>
#include "rclcpp/stub_logging.hpp"
#include "rclcpp/stub_param.hpp"
#include "rclcpp/stub_time.hpp"
#include "rclcpp/version.h"

#define RMW_QOS_POLICY_HISTORY_KEEP_ALL 2
#define RMW_QOS_POLICY_HISTORY_KEEP_LAST 1
typedef struct rmw_request_id_s { int8_t writer_guid[16]; int64_t sequence_number; } rmw_request_id_t;
struct rmw_qos_profile_t { int history = 1; size_t depth = 10; int reliability = 1; int durability = 2; };
static const rmw_qos_profile_t rmw_qos_profile_services_default;
static const rmw_qos_profile_t rmw_qos_profile_default;

#define RCLCPP_SMART_PTR_DEFINITIONS(C) \
  using SharedPtr = std::shared_ptr<C>; using ConstSharedPtr = std::shared_ptr<const C>; using WeakPtr = std::weak_ptr<C>; using UniquePtr = std::unique_ptr<C>; \
  template <class... StubA> static std::shared_ptr<C> make_shared(StubA &&... a) { return std::make_shared<C>(std::forward<StubA>(a)...); }
#define RCLCPP_SHARED_PTR_DEFINITIONS(C) RCLCPP_SMART_PTR_DEFINITIONS(C)
#define RCLCPP_PUBLIC

namespace rclcpp
{
using namespace std::chrono_literals;  // NOLINT
enum class FutureReturnCode { SUCCESS, INTERRUPTED, TIMEOUT };
std::string to_string(const FutureReturnCode & c);
enum class SignalHandlerOptions { All, SigInt, SigTerm, None };
enum class CallbackGroupType { MutuallyExclusive, Reentrant };

class QoSInitialization { public: QoSInitialization(int h = 1, size_t d = 10) : history(h), depth(d) {} int history; size_t depth; };
class KeepLast : public QoSInitialization { public: explicit KeepLast(size_t d) : QoSInitialization(1, d) {} };
class KeepAll : public QoSInitialization { public: KeepAll() : QoSInitialization(2, 0) {} };
class QoS
{
public:
  QoS(const QoSInitialization & i, const rmw_qos_profile_t & = rmw_qos_profile_default) : depth_(i.depth) {}  // NOLINT
  QoS(size_t d) : depth_(d) {}  // NOLINT
  QoS & reliable() { return *this; } QoS & best_effort() { return *this; } QoS & durability_volatile() { tl_ = false; return *this; }
  QoS & transient_local() { tl_ = true; return *this; } QoS & keep_last(size_t d) { depth_ = d; return *this; } QoS & keep_all() { return *this; }
  QoS & durability(int) { return *this; } QoS & reliability(int) { return *this; } QoS & history(int) { return *this; }
  bool stub_transient_local() const { return tl_; }
  size_t depth() const { return depth_; }
private:
  size_t depth_; bool tl_ = false;
};
class SystemDefaultsQoS : public QoS { public: SystemDefaultsQoS() : QoS(10) {} };
class ServicesQoS : public QoS { public: ServicesQoS() : QoS(10) {} };
class SensorDataQoS : public QoS { public: SensorDataQoS() : QoS(5) {} };
class ParametersQoS : public QoS { public: ParametersQoS() : QoS(1000) {} };

class CallbackGroup
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(CallbackGroup)
  explicit CallbackGroup(CallbackGroupType t, bool auto_add = true) : type_(t), auto_(auto_add) {}
  CallbackGroupType type() const { return type_; }
  bool automatically_add_to_executor_with_node() const { return auto_; }
  int stub_busy = 0;
private:
  CallbackGroupType type_; bool auto_;
};

struct PreShutdownCallbackHandle { int id = 0; };
struct OnShutdownCallbackHandle { int id = 0; };
class Context
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(Context)
  void init(int, char const * const *) { valid_ = true; }
  bool is_valid() const { return valid_; }
  bool shutdown(const std::string & reason = "");
  PreShutdownCallbackHandle add_pre_shutdown_callback(std::function<void()> cb) { pre_[++n_] = cb; return PreShutdownCallbackHandle{n_}; }
  bool remove_pre_shutdown_callback(const PreShutdownCallbackHandle & h) { return pre_.erase(h.id) > 0; }
  OnShutdownCallbackHandle add_on_shutdown_callback(std::function<void()> cb) { on_[++n_] = cb; return OnShutdownCallbackHandle{n_}; }
  bool remove_on_shutdown_callback(const OnShutdownCallbackHandle & h) { return on_.erase(h.id) > 0; }
  std::atomic<bool> valid_{false};
  std::vector<std::string> args_;
private:
  std::map<int, std::function<void()>> pre_, on_; int n_ = 0;
};
namespace contexts { Context::SharedPtr get_global_default_context(); using DefaultContext = Context; }
void init(int argc, char const * const * argv);
template <class... A> void init(int argc, char const * const * argv, A &&...) { init(argc, argv); }
bool ok(Context::SharedPtr c = nullptr);
bool shutdown(Context::SharedPtr c = nullptr, const std::string & reason = "user called rclcpp::shutdown()");
std::vector<std::string> init_and_remove_ros_arguments(int argc, char const * const * argv);
std::vector<std::string> remove_ros_arguments(int argc, char const * const * argv);
bool sleep_for(const std::chrono::nanoseconds & ns, Context::SharedPtr c = nullptr);

}  // namespace rclcpp

// ------------------------------------------------------------------------------------------------- graph core
namespace stub
{
struct Work { std::function<void()> fn; rclcpp::CallbackGroup::SharedPtr group; };
struct Endpoint;
struct NodeCore;
extern std::mutex graph_mutex;  // guards everything in the graph
extern std::condition_variable graph_cv;
void graph_enqueue(const std::shared_ptr<NodeCore> & n, Work w);
struct SubEntry { std::weak_ptr<NodeCore> node; rclcpp::CallbackGroup::SharedPtr group; std::type_index type = typeid(void); std::function<void(std::shared_ptr<const void>)> deliver; bool transient = false; };
struct SrvEntry { std::weak_ptr<NodeCore> node; rclcpp::CallbackGroup::SharedPtr group; std::function<void(std::shared_ptr<void> req, std::shared_ptr<void> resp)> call; };
struct Graph
{
  std::map<std::string, std::list<std::shared_ptr<SubEntry>>> subs;
  std::map<std::string, std::list<std::shared_ptr<SrvEntry>>> srvs;
  std::map<std::string, int> pubs;
  std::map<std::string, std::shared_ptr<const void>> latched;
};
Graph & graph();
std::string expand_name(const std::string & name, const std::string & node, const std::string & ns);
}  // namespace stub

namespace rclcpp
{
class Node;
class Executor;

class TimerBase
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(TimerBase)
  TimerBase(std::chrono::nanoseconds p, std::function<void()> cb, CallbackGroup::SharedPtr g);
  virtual ~TimerBase() = default;
  void cancel() { cancelled_ = true; }
  bool is_canceled() { return cancelled_; }
  void reset();
  bool is_ready();
  void execute_callback() { cb_(); }
  std::chrono::nanoseconds time_until_trigger();
  CallbackGroup::SharedPtr stub_group;
  void stub_advance();
private:
  std::chrono::nanoseconds period_; std::function<void()> cb_; std::atomic<bool> cancelled_{false}; int64_t next_;
};
template <class F> using GenericTimer = TimerBase;
template <class F> using WallTimer = TimerBase;

class NodeOptions
{
public:
  NodeOptions() = default;
#define STUB_OPT(T, N, D) NodeOptions & N(T v) { N##_ = v; return *this; } T N() const { return N##_; } T N##_ = D;
  STUB_OPT(bool, allow_undeclared_parameters, false)
  STUB_OPT(bool, automatically_declare_parameters_from_overrides, false)
  STUB_OPT(bool, use_global_arguments, true)
  STUB_OPT(bool, enable_rosout, true)
  STUB_OPT(bool, use_intra_process_comms, false)
  STUB_OPT(bool, start_parameter_services, true)
  STUB_OPT(bool, start_parameter_event_publisher, true)
  STUB_OPT(bool, use_clock_thread, true)
  STUB_OPT(bool, enable_logger_service, false)
  STUB_OPT(bool, enable_topic_statistics, false)
#undef STUB_OPT
  NodeOptions & arguments(const std::vector<std::string> & a) { args_ = a; return *this; }
  const std::vector<std::string> & arguments() const { return args_; }
  NodeOptions & parameter_overrides(const std::vector<Parameter> & p) { ov_ = p; return *this; }
  const std::vector<Parameter> & parameter_overrides() const { return ov_; }
  std::vector<Parameter> & parameter_overrides() { return ov_; }
  template <class T> NodeOptions & append_parameter_override(const std::string & n, const T & v) { ov_.emplace_back(n, ParameterValue(v)); return *this; }
  NodeOptions & context(Context::SharedPtr c) { ctx_ = c; return *this; }
  Context::SharedPtr context() const { return ctx_; }
  NodeOptions & clock_type(rcl_clock_type_t t) { ct_ = t; return *this; }
  rcl_clock_type_t clock_type() const { return ct_; }
private:
  std::vector<std::string> args_; std::vector<Parameter> ov_; Context::SharedPtr ctx_; rcl_clock_type_t ct_ = RCL_ROS_TIME;
};

namespace node_interfaces
{
class OnSetParametersCallbackHandle
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(OnSetParametersCallbackHandle)
  using OnParametersSetCallbackType = std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<Parameter> &)>;
  using OnSetParametersCallbackType = OnParametersSetCallbackType;
  OnParametersSetCallbackType callback;
};
class PostSetParametersCallbackHandle { public: RCLCPP_SMART_PTR_DEFINITIONS(PostSetParametersCallbackHandle) std::function<void(const std::vector<Parameter> &)> callback; };
class NodeBaseInterface;
class NodeParametersInterface;
class NodeLoggingInterface;
class NodeClockInterface;
class NodeTopicsInterface;
class NodeServicesInterface;
class NodeTimersInterface;
class NodeGraphInterface;
class NodeWaitablesInterface;
class NodeTypeDescriptionsInterface;
class NodeTimeSourceInterface;
}  // namespace node_interfaces
}  // namespace rclcpp

namespace stub
{
struct ParamInfo { rclcpp::ParameterValue value; rcl_interfaces::msg::ParameterDescriptor desc; };
struct NodeCore : public std::enable_shared_from_this<NodeCore>
{
  std::string name, ns, fqn;
  rclcpp::NodeOptions options;
  rclcpp::Context::SharedPtr ctx;
  rclcpp::Logger logger;
  rclcpp::Clock::SharedPtr clock;
  std::recursive_mutex pm;
  std::map<std::string, ParamInfo> params;
  std::map<std::string, rclcpp::ParameterValue> overrides;
  std::list<std::weak_ptr<rclcpp::node_interfaces::OnSetParametersCallbackHandle>> on_set;
  std::list<std::weak_ptr<rclcpp::node_interfaces::PostSetParametersCallbackHandle>> post_set;
  std::deque<Work> queue;  // guarded by graph_mutex
  std::list<std::weak_ptr<rclcpp::TimerBase>> timers;
  std::list<std::weak_ptr<rclcpp::CallbackGroup>> groups;
  std::list<std::shared_ptr<void>> keep;
  rclcpp::CallbackGroup::SharedPtr default_group;
  std::atomic_bool in_executor{false};
  std::shared_ptr<rclcpp::node_interfaces::NodeBaseInterface> base_i;
  std::shared_ptr<rclcpp::node_interfaces::NodeParametersInterface> params_i;
  std::shared_ptr<rclcpp::node_interfaces::NodeLoggingInterface> logging_i;
  std::shared_ptr<rclcpp::node_interfaces::NodeClockInterface> clock_i;
  std::shared_ptr<rclcpp::node_interfaces::NodeTopicsInterface> topics_i;
  static std::shared_ptr<NodeCore> create(const std::string & name, const std::string & ns, const rclcpp::NodeOptions & o);
  const rclcpp::ParameterValue & declare(const std::string & n, const rclcpp::ParameterValue & d, const rcl_interfaces::msg::ParameterDescriptor & desc, bool ignore_override, rclcpp::ParameterType type, bool typed_only);
  rcl_interfaces::msg::SetParametersResult set_atomically(const std::vector<rclcpp::Parameter> & p);
  bool has(const std::string & n);
  bool get(const std::string & n, rclcpp::Parameter & p);
  rcl_interfaces::msg::ListParametersResult list(const std::vector<std::string> & prefixes, uint64_t depth);
};
// YAML-ish scalar / flow list parsing for -p name:=value
rclcpp::ParameterValue parse_value(const std::string & s);
}  // namespace stub

namespace rclcpp
{
namespace node_interfaces
{
struct CoreHolder { std::shared_ptr<stub::NodeCore> core_sp() const { return w.lock(); } std::weak_ptr<stub::NodeCore> w; stub::NodeCore * c; };
class NodeBaseInterface : public CoreHolder
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(NodeBaseInterface)
  const char * get_name() const { return c->name.c_str(); }
  const char * get_namespace() const { return c->ns.c_str(); }
  const char * get_fully_qualified_name() const { return c->fqn.c_str(); }
  Context::SharedPtr get_context() { return c->ctx; }
  std::atomic_bool & get_associated_with_executor_atomic() { return c->in_executor; }
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType t, bool a = true) { auto g = std::make_shared<CallbackGroup>(t, a); c->groups.push_back(g); return g; }
  CallbackGroup::SharedPtr get_default_callback_group() { return c->default_group; }
};
class NodeParametersInterface : public CoreHolder
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(NodeParametersInterface)
  const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & d, const rcl_interfaces::msg::ParameterDescriptor & desc = {}, bool io = false) { return c->declare(n, d, desc, io, d.get_type(), false); }
  const ParameterValue & declare_parameter(const std::string & n, ParameterType t, const rcl_interfaces::msg::ParameterDescriptor & desc = {}, bool io = false) { return c->declare(n, ParameterValue(), desc, io, t, true); }
  void undeclare_parameter(const std::string & n) { std::lock_guard<std::recursive_mutex> l(c->pm); c->params.erase(n); }
  bool has_parameter(const std::string & n) const { return c->has(n); }
  bool get_parameter(const std::string & n, Parameter & p) const { return c->get(n, p); }
  Parameter get_parameter(const std::string & n) const { Parameter p; if (!c->get(n, p)) throw exceptions::ParameterNotDeclaredException(n); return p; }
  std::vector<rcl_interfaces::msg::SetParametersResult> set_parameters(const std::vector<Parameter> & p) { std::vector<rcl_interfaces::msg::SetParametersResult> r; for (auto & x : p) r.push_back(c->set_atomically({x})); return r; }
  rcl_interfaces::msg::SetParametersResult set_parameters_atomically(const std::vector<Parameter> & p) { return c->set_atomically(p); }
  rcl_interfaces::msg::ListParametersResult list_parameters(const std::vector<std::string> & p, uint64_t d) const { return c->list(p, d); }
  OnSetParametersCallbackHandle::SharedPtr add_on_set_parameters_callback(OnSetParametersCallbackHandle::OnSetParametersCallbackType cb) { auto h = std::make_shared<OnSetParametersCallbackHandle>(); h->callback = cb; c->on_set.push_front(h); return h; }
  std::map<std::string, ParameterValue> get_parameter_overrides() const { return c->overrides; }
};
class NodeLoggingInterface : public CoreHolder
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(NodeLoggingInterface)
  Logger get_logger() const { return c->logger; }
  const char * get_logger_name() const { return c->logger.get_name(); }
};
class NodeClockInterface : public CoreHolder
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(NodeClockInterface)
  Clock::SharedPtr get_clock() { return c->clock; }
  Clock::ConstSharedPtr get_clock() const { return c->clock; }
};
class NodeTopicsInterface : public CoreHolder { public: RCLCPP_SMART_PTR_DEFINITIONS(NodeTopicsInterface) };
}  // namespace node_interfaces

// ------------------------------------------------------------------------------------------------ pub/sub/srv
class PublisherBase
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(PublisherBase)
  virtual ~PublisherBase() = default;
  const char * get_topic_name() const { return topic.c_str(); }
  size_t get_subscription_count() const { std::lock_guard<std::mutex> l(stub::graph_mutex); auto it = stub::graph().subs.find(topic); return it == stub::graph().subs.end() ? 0 : it->second.size(); }
  std::string topic; bool latched = false;
};
template <class M, class A = std::allocator<void>>
class Publisher : public PublisherBase
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(Publisher)
  using MessageT = M; using ROSMessageType = M; using MessageUniquePtr = std::unique_ptr<M>;
  virtual void publish(const M & m)
  {
    auto sp = std::make_shared<const M>(m);
    std::vector<std::pair<std::shared_ptr<stub::NodeCore>, stub::Work>> w;
    {
      std::lock_guard<std::mutex> l(stub::graph_mutex);
      if (latched) stub::graph().latched[topic] = sp;
      for (auto & s : stub::graph().subs[topic])
        if (auto n = s->node.lock()) w.push_back({n, stub::Work{[s, sp]() { s->deliver(sp); }, s->group}});
    }
    for (auto & [n, x] : w) stub::graph_enqueue(n, x);
  }
  virtual void publish(std::unique_ptr<M> m) { publish(*m); }
};
template <class A = std::allocator<void>> struct PublisherOptionsWithAllocator { CallbackGroup::SharedPtr callback_group; };
using PublisherOptions = PublisherOptionsWithAllocator<>;
template <class A = std::allocator<void>> struct SubscriptionOptionsWithAllocator { CallbackGroup::SharedPtr callback_group; bool ignore_local_publications = false; };
using SubscriptionOptions = SubscriptionOptionsWithAllocator<>;
class MessageInfo {};
class SubscriptionBase
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(SubscriptionBase)
  virtual ~SubscriptionBase() { std::lock_guard<std::mutex> l(stub::graph_mutex); stub::graph().subs[topic].remove(e); }
  const char * get_topic_name() const { return topic.c_str(); }
  size_t get_publisher_count() const { std::lock_guard<std::mutex> l(stub::graph_mutex); return stub::graph().pubs[topic]; }
  std::string topic; std::shared_ptr<stub::SubEntry> e;
};
template <class M> class Subscription : public SubscriptionBase { public: RCLCPP_SMART_PTR_DEFINITIONS(Subscription) };

class ServiceBase
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(ServiceBase)
  virtual ~ServiceBase() { std::lock_guard<std::mutex> l(stub::graph_mutex); stub::graph().srvs[name].remove(e); }
  const char * get_service_name() { return name.c_str(); }
  std::string name; std::shared_ptr<stub::SrvEntry> e;
};
template <class S> class Service : public ServiceBase { public: RCLCPP_SMART_PTR_DEFINITIONS(Service) };

class ClientBase { public: RCLCPP_SMART_PTR_DEFINITIONS(ClientBase) virtual ~ClientBase() = default; std::string name; std::shared_ptr<stub::NodeCore> core;
  const char * get_service_name() const { return name.c_str(); }
  bool service_is_ready() const { std::lock_guard<std::mutex> l(stub::graph_mutex); auto it = stub::graph().srvs.find(name); return it != stub::graph().srvs.end() && !it->second.empty(); }
  template <class R = int64_t, class P = std::milli>
  bool wait_for_service(std::chrono::duration<R, P> t = std::chrono::duration<R, P>(-1))
  {
    auto e = std::chrono::steady_clock::now() + t;
    while (!service_is_ready()) { if (t.count() >= 0 && std::chrono::steady_clock::now() >= e) return false; std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
    return true;
  }
};
template <class S>
class Client : public ClientBase
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(Client)
  using Request = typename S::Request; using Response = typename S::Response;
  using SharedRequest = std::shared_ptr<Request>; using SharedResponse = std::shared_ptr<Response>;
  using Future = std::future<SharedResponse>; using SharedFuture = std::shared_future<SharedResponse>;
  struct FutureAndRequestId
  {
    Future future; int64_t request_id = 0;
    template <class R, class P> std::future_status wait_for(const std::chrono::duration<R, P> & d) const { return future.wait_for(d); }
    SharedResponse get() { return future.get(); }
    void wait() const { future.wait(); }
    bool valid() const { return future.valid(); }
    SharedFuture share() { return future.share(); }
  };
  FutureAndRequestId async_send_request(SharedRequest r)
  {
    auto p = std::make_shared<std::promise<SharedResponse>>();
    FutureAndRequestId f{p->get_future(), 0};
    std::shared_ptr<stub::SrvEntry> e;
    { std::lock_guard<std::mutex> l(stub::graph_mutex); auto & v = stub::graph().srvs[this->name]; if (!v.empty()) e = v.front(); }
    if (e) if (auto n = e->node.lock())
      stub::graph_enqueue(n, stub::Work{[e, p, r]() { auto resp = std::make_shared<Response>(); e->call(r, resp); p->set_value(resp); { std::lock_guard<std::mutex> l(stub::graph_mutex); } stub::graph_cv.notify_all(); }, e->group});
    return f;
  }
  template <class F> SharedFuture async_send_request(SharedRequest r, F cb) { auto f = async_send_request(r).share(); (void)cb; return f; }
};

// --------------------------------------------------------------------------------------------------- NodeCommon
template <class Derived>
class NodeCommon : public std::enable_shared_from_this<Derived>
{
public:
  NodeCommon(const std::string & n, const std::string & ns, const NodeOptions & o) : core_(stub::NodeCore::create(n, ns, o)) {}
  virtual ~NodeCommon() = default;
  const char * get_name() const { return core_->name.c_str(); }
  const char * get_namespace() const { return core_->ns.c_str(); }
  const char * get_fully_qualified_name() const { return core_->fqn.c_str(); }
  std::string get_effective_namespace() const { return core_->ns; }
  Logger get_logger() const { return core_->logger; }
  Clock::SharedPtr get_clock() { return core_->clock; }
  Clock::ConstSharedPtr get_clock() const { return core_->clock; }
  Time now() const { return core_->clock->now(); }
  const NodeOptions & get_node_options() const { return core_->options; }
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType t, bool a = true) { return core_->base_i->create_callback_group(t, a); }
  template <class F> void for_each_callback_group(const F & f) { for (auto & w : core_->groups) if (auto g = w.lock()) f(g); }
  std::shared_ptr<node_interfaces::NodeBaseInterface> get_node_base_interface() { return core_->base_i; }
  std::shared_ptr<node_interfaces::NodeParametersInterface> get_node_parameters_interface() { return core_->params_i; }
  std::shared_ptr<node_interfaces::NodeLoggingInterface> get_node_logging_interface() { return core_->logging_i; }
  std::shared_ptr<node_interfaces::NodeClockInterface> get_node_clock_interface() { return core_->clock_i; }
  std::shared_ptr<node_interfaces::NodeTopicsInterface> get_node_topics_interface() { return core_->topics_i; }
  std::vector<std::string> get_node_names() const { return {}; }
  size_t count_publishers(const std::string & t) const { std::lock_guard<std::mutex> l(stub::graph_mutex); return stub::graph().pubs[stub::expand_name(t, core_->name, core_->ns)]; }
  size_t count_subscribers(const std::string & t) const { std::lock_guard<std::mutex> l(stub::graph_mutex); return stub::graph().subs[stub::expand_name(t, core_->name, core_->ns)].size(); }

  template <class T>
  auto declare_parameter(const std::string & n, const T & d, const rcl_interfaces::msg::ParameterDescriptor & desc = {}, bool io = false)
  {
    if constexpr (std::is_same_v<T, ParameterValue>) return ParameterValue(core_->declare(n, d, desc, io, d.get_type(), false));
    else if constexpr (std::is_same_v<T, ParameterType>) return ParameterValue(core_->declare(n, ParameterValue(), desc, io, d, true));
    else {
      ParameterValue pv(d);
      try { return static_cast<std::conditional_t<std::is_array_v<T> || std::is_convertible_v<T, std::string>, std::string, T>>(core_->declare(n, pv, desc, io, pv.get_type(), false).template get<std::conditional_t<std::is_array_v<T>, std::string, T>>()); }
      catch (const ParameterTypeException & e) { throw exceptions::InvalidParameterTypeException(n, e.what()); }
    }
  }
  template <class T> auto declare_parameter(const std::string & n, const rcl_interfaces::msg::ParameterDescriptor & desc = {}, bool io = false)
  {
    ParameterValue proto{T{}};
    const auto & v = core_->declare(n, ParameterValue(), desc, io, proto.get_type(), true);
    if (v.get_type() == PARAMETER_NOT_SET) throw exceptions::ParameterUninitializedException(n);
    return T(v.template get<T>());
  }
  void undeclare_parameter(const std::string & n) { core_->params_i->undeclare_parameter(n); }
  bool has_parameter(const std::string & n) const { return core_->has(n); }
  rcl_interfaces::msg::SetParametersResult set_parameter(const Parameter & p) { return core_->set_atomically({p}); }
  std::vector<rcl_interfaces::msg::SetParametersResult> set_parameters(const std::vector<Parameter> & p) { return core_->params_i->set_parameters(p); }
  rcl_interfaces::msg::SetParametersResult set_parameters_atomically(const std::vector<Parameter> & p) { return core_->set_atomically(p); }
  Parameter get_parameter(const std::string & n) const
  {
    Parameter p;
    if (core_->get(n, p)) { if (p.get_type() == PARAMETER_NOT_SET && !core_->options.allow_undeclared_parameters() && core_->has(n) && !core_->params[n].desc.dynamic_typing && core_->params[n].desc.type != PARAMETER_NOT_SET) throw exceptions::ParameterUninitializedException(n); return p; }
    if (core_->options.allow_undeclared_parameters()) return Parameter(n);
    throw exceptions::ParameterNotDeclaredException(n);
  }
  bool get_parameter(const std::string & n, Parameter & p) const { return core_->get(n, p); }
  template <class T> bool get_parameter(const std::string & n, T & v) const
  {
    Parameter p(n);
    bool r = core_->get(n, p) && p.get_type() != PARAMETER_NOT_SET;
    if (r) v = static_cast<T>(p.get_value<T>());
    return r;
  }
  template <class T> bool get_parameter_or(const std::string & n, T & v, const T & alt) const { bool r = get_parameter(n, v); if (!r) v = alt; return r; }
  std::vector<Parameter> get_parameters(const std::vector<std::string> & ns) const { std::vector<Parameter> r; for (auto & n : ns) r.push_back(get_parameter(n)); return r; }
  template <class T> bool get_parameters(const std::string & prefix, std::map<std::string, T> & values) const
  {
    bool r = false; std::string p = prefix.empty() ? prefix : prefix + ".";
    std::lock_guard<std::recursive_mutex> l(core_->pm);
    for (auto & [k, v] : core_->params) if (k.rfind(p, 0) == 0) { values[k.substr(p.size())] = v.value.template get<T>(); r = true; }
    return r;
  }
  rcl_interfaces::msg::ParameterDescriptor describe_parameter(const std::string & n) const { return core_->params.at(n).desc; }
  rcl_interfaces::msg::ListParametersResult list_parameters(const std::vector<std::string> & p, uint64_t d) const { return core_->list(p, d); }
  node_interfaces::OnSetParametersCallbackHandle::SharedPtr add_on_set_parameters_callback(node_interfaces::OnSetParametersCallbackHandle::OnSetParametersCallbackType cb) { return core_->params_i->add_on_set_parameters_callback(cb); }
  node_interfaces::PostSetParametersCallbackHandle::SharedPtr add_post_set_parameters_callback(std::function<void(const std::vector<Parameter> &)> cb) { auto h = std::make_shared<node_interfaces::PostSetParametersCallbackHandle>(); h->callback = cb; core_->post_set.push_back(h); return h; }
  void remove_on_set_parameters_callback(const node_interfaces::OnSetParametersCallbackHandle * h) { core_->on_set.remove_if([&](auto & w) { auto s = w.lock(); return !s || s.get() == h; }); }

  template <class M, class... R> std::shared_ptr<Publisher<M>> create_publisher(const std::string & t, const QoS & q, R &&...)
  {
    std::lock_guard<std::mutex> l(stub::graph_mutex);
    auto p = std::shared_ptr<Publisher<M>>(new Publisher<M>(), [](Publisher<M> * x) { { std::lock_guard<std::mutex> l2(stub::graph_mutex); stub::graph().pubs[x->topic]--; } delete x; });
    p->topic = stub::expand_name(t, core_->name, core_->ns); p->latched = q.stub_transient_local();
    stub::graph().pubs[p->topic]++;
    return p;
  }
  template <class M, class F> std::shared_ptr<Subscription<M>> create_subscription(const std::string & t, const QoS & q, F cb, const SubscriptionOptions & o = {})
  {
    auto s = std::make_shared<Subscription<M>>();
    s->topic = stub::expand_name(t, core_->name, core_->ns);
    auto e = std::make_shared<stub::SubEntry>();
    e->node = core_; e->group = o.callback_group ? o.callback_group : core_->default_group; e->type = typeid(M); e->transient = q.stub_transient_local();
    e->deliver = [cb](std::shared_ptr<const void> v) mutable {
      auto m = std::static_pointer_cast<const M>(v);
      if constexpr (std::is_invocable_v<F, std::shared_ptr<M>> && !std::is_invocable_v<F, const M &>) cb(std::make_shared<M>(*m));
      else if constexpr (std::is_invocable_v<F, std::shared_ptr<const M>> && !std::is_invocable_v<F, const M &>) cb(m);
      else if constexpr (std::is_invocable_v<F, const M &>) cb(*m);
      else if constexpr (std::is_invocable_v<F, std::unique_ptr<M>>) cb(std::make_unique<M>(*m));
      else cb(m, MessageInfo{});
    };
    s->e = e;
    std::shared_ptr<const void> latched;
    { std::lock_guard<std::mutex> l(stub::graph_mutex); stub::graph().subs[s->topic].push_back(e); auto it = stub::graph().latched.find(s->topic); if (e->transient && it != stub::graph().latched.end()) latched = it->second; }
    if (latched) stub::graph_enqueue(core_, stub::Work{[e, latched]() { e->deliver(latched); }, e->group});
    return s;
  }
  template <class S, class F> std::shared_ptr<Service<S>> create_service(const std::string & n, F && cb, const QoS & = QoS(10), CallbackGroup::SharedPtr g = nullptr)
  {
    auto s = std::make_shared<Service<S>>();
    s->name = stub::expand_name(n, core_->name, core_->ns);
    auto e = std::make_shared<stub::SrvEntry>();
    e->node = core_; e->group = g ? g : core_->default_group;
    std::decay_t<F> f = cb;
    e->call = [f](std::shared_ptr<void> rq, std::shared_ptr<void> rs) mutable {
      auto a = std::static_pointer_cast<typename S::Request>(rq); auto b = std::static_pointer_cast<typename S::Response>(rs);
      if constexpr (std::is_invocable_v<std::decay_t<F>, std::shared_ptr<typename S::Request>, std::shared_ptr<typename S::Response>>) f(a, b);
      else f(std::make_shared<rmw_request_id_t>(), a, b);
    };
    s->e = e;
    std::lock_guard<std::mutex> l(stub::graph_mutex);
    stub::graph().srvs[s->name].push_back(e);
    return s;
  }
  template <class S, class... R> std::shared_ptr<Client<S>> create_client(const std::string & n, R &&...)
  {
    auto c = std::make_shared<Client<S>>(); c->name = stub::expand_name(n, core_->name, core_->ns); c->core = core_; return c;
  }
  template <class R, class P, class F> TimerBase::SharedPtr create_wall_timer(std::chrono::duration<R, P> p, F cb, CallbackGroup::SharedPtr g = nullptr, bool autostart = true)
  {
    auto t = std::make_shared<TimerBase>(std::chrono::duration_cast<std::chrono::nanoseconds>(p), std::function<void()>(cb), g ? g : core_->default_group);
    if (!autostart) t->cancel();
    std::lock_guard<std::mutex> l(stub::graph_mutex); core_->timers.push_back(t); return t;
  }
  template <class R, class P, class F> TimerBase::SharedPtr create_timer(std::chrono::duration<R, P> p, F cb, CallbackGroup::SharedPtr g = nullptr, bool autostart = true) { return create_wall_timer(p, cb, g, autostart); }
  std::shared_ptr<stub::NodeCore> stub_core() const { return core_; }

protected:
  std::shared_ptr<stub::NodeCore> core_;
};

class Node : public NodeCommon<Node>
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(Node)
  explicit Node(const std::string & n, const NodeOptions & o = NodeOptions()) : NodeCommon<Node>(n, "", o) {}
  explicit Node(const std::string & n, const std::string & ns, const NodeOptions & o = NodeOptions()) : NodeCommon<Node>(n, ns, o) {}
};

// ---------------------------------------------------------------------------------------------------- executors
struct ExecutorOptions { Context::SharedPtr context; size_t max_conditions = 0; };
class Executor
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(Executor)
  explicit Executor(const ExecutorOptions & = ExecutorOptions()) {}
  virtual ~Executor();
  virtual void spin() = 0;
  virtual void add_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool notify = true);
  template <class N> std::enable_if_t<!std::is_base_of_v<node_interfaces::NodeBaseInterface, N>> add_node(std::shared_ptr<N> n, bool notify = true) { add_node(n->get_node_base_interface(), notify); }
  virtual void remove_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool notify = true);
  template <class N> std::enable_if_t<!std::is_base_of_v<node_interfaces::NodeBaseInterface, N>> remove_node(std::shared_ptr<N> n, bool notify = true) { remove_node(n->get_node_base_interface(), notify); }
  void add_callback_group(CallbackGroup::SharedPtr, node_interfaces::NodeBaseInterface::SharedPtr, bool = true) {}
  virtual void spin_some(std::chrono::nanoseconds max = std::chrono::nanoseconds(0));
  virtual void spin_all(std::chrono::nanoseconds) { while (step(std::chrono::nanoseconds(0))) {} }
  virtual void spin_once(std::chrono::nanoseconds timeout = std::chrono::nanoseconds(-1)) { step(timeout); }
  void spin_node_some(node_interfaces::NodeBaseInterface::SharedPtr n) { add_node(n); spin_some(); remove_node(n); }
  template <class N> void spin_node_some(std::shared_ptr<N> n) { spin_node_some(n->get_node_base_interface()); }
  void cancel();
  bool is_spinning() { return spinning_; }
  template <class F, class R = int64_t, class P = std::milli>
  FutureReturnCode spin_until_future_complete(const F & f, std::chrono::duration<R, P> t = std::chrono::duration<R, P>(-1))
  {
    auto e = std::chrono::steady_clock::now() + t;
    while (ok())
    {
      if (f.wait_for(std::chrono::seconds(0)) == std::future_status::ready) return FutureReturnCode::SUCCESS;
      if (t.count() >= 0 && std::chrono::steady_clock::now() >= e) return FutureReturnCode::TIMEOUT;
      step(std::chrono::milliseconds(2));
    }
    return FutureReturnCode::INTERRUPTED;
  }
  std::vector<std::weak_ptr<stub::NodeCore>> stub_nodes() { std::lock_guard<std::mutex> l(stub::graph_mutex); return nodes_; }

protected:
  bool step(std::chrono::nanoseconds timeout);  // run one ready callback; returns whether one was run
  void loop();
  std::vector<std::weak_ptr<stub::NodeCore>> nodes_;
  std::atomic<bool> spinning_{false}, cancel_{false};
};
namespace executors
{
class SingleThreadedExecutor : public Executor
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(SingleThreadedExecutor)
  using Executor::Executor;
  void spin() override;
};
class MultiThreadedExecutor : public Executor
{
public:
  RCLCPP_SMART_PTR_DEFINITIONS(MultiThreadedExecutor)
  explicit MultiThreadedExecutor(const ExecutorOptions & o = ExecutorOptions(), size_t n = 0, bool = false, std::chrono::nanoseconds = std::chrono::nanoseconds(-1)) : Executor(o), n_(n ? n : 4) {}
  void spin() override;
  size_t get_number_of_threads() { return n_; }
private:
  size_t n_;
};
using EventsExecutor = SingleThreadedExecutor;
template <class N, class F, class R = int64_t, class P = std::milli>
FutureReturnCode spin_node_until_future_complete(Executor & e, std::shared_ptr<N> n, const F & f, std::chrono::duration<R, P> t = std::chrono::duration<R, P>(-1)) { e.add_node(n); auto r = e.spin_until_future_complete(f, t); e.remove_node(n); return r; }
}  // namespace executors
template <class N> void spin(std::shared_ptr<N> n) { executors::SingleThreadedExecutor e; e.add_node(n); e.spin(); e.remove_node(n); }
template <class N> void spin_some(std::shared_ptr<N> n) { executors::SingleThreadedExecutor e; e.add_node(n); e.spin_some(); e.remove_node(n); }
template <class N, class F, class R = int64_t, class P = std::milli>
FutureReturnCode spin_until_future_complete(std::shared_ptr<N> n, const F & f, std::chrono::duration<R, P> t = std::chrono::duration<R, P>(-1)) { executors::SingleThreadedExecutor e; return executors::spin_node_until_future_complete(e, n, f, t); }

class RateBase { public: virtual ~RateBase() = default; };
class Rate : public RateBase
{
public:
  explicit Rate(double hz, Clock::SharedPtr c = std::make_shared<Clock>(RCL_SYSTEM_TIME)) : p_(Duration::from_seconds(1.0 / hz)), c_(c) {}
  explicit Rate(const Duration & d, Clock::SharedPtr c = std::make_shared<Clock>(RCL_SYSTEM_TIME)) : p_(d), c_(c) {}
  bool sleep() { c_->sleep_for(p_); return true; }
private:
  Duration p_; Clock::SharedPtr c_;
};
using WallRate = Rate;

template <class... I> class WaitSetStub {};
class AsyncParametersClient;
}  // namespace rclcpp
