#include "rclcpp/rclcpp.hpp"
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <iostream>

namespace stub
{
int log_level = [] { const char * e = getenv("STUB_LOG"); return e ? atoi(e) : 60; }();
int eval_level = 20;
void log_emit(int level, const char * name, const char * fmt, ...)
{
  if (level < log_level) return;
  va_list ap; va_start(ap, fmt); char b[8192]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  fprintf(stderr, "[%d] [%s] %s\n", level, name, b);
}
static std::atomic<bool> vt_on{false};
static std::atomic<int64_t> vt{0};
bool virtual_time_enabled() { return vt_on.load(std::memory_order_relaxed); }
int64_t virtual_now() { return vt.load(std::memory_order_relaxed); }
void set_virtual_time(int64_t ns) { vt = ns; vt_on = true; }
void disable_virtual_time() { vt_on = false; }
void virtual_sleep_until(int64_t ns) { if (ns > vt) vt = ns; }
int64_t real_now(rcl_clock_type_t t)
{
  timespec ts; clock_gettime(t == RCL_STEADY_TIME ? CLOCK_MONOTONIC : CLOCK_REALTIME, &ts);
  return int64_t(ts.tv_sec) * 1000000000LL + ts.tv_nsec;
}
std::mutex graph_mutex;
std::condition_variable graph_cv;
Graph & graph() { static Graph * g = new Graph; return *g; }
void graph_enqueue(const std::shared_ptr<NodeCore> & n, Work w)
{
  { std::lock_guard<std::mutex> l(graph_mutex); n->queue.push_back(std::move(w)); }
  graph_cv.notify_all();
}
std::string expand_name(const std::string & name, const std::string & node, const std::string & ns)
{
  std::string p = ns == "/" ? "" : ns;
  if (name.empty()) return name;
  if (name[0] == '/') return name;
  if (name[0] == '~') return p + "/" + node + (name.size() > 1 ? name.substr(1) : "");
  return p + "/" + name;
}
static std::string trim(std::string s)
{
  auto a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
rclcpp::ParameterValue parse_value(const std::string & s0)
{
  std::string s = trim(s0);
  using PV = rclcpp::ParameterValue;
  if (s.size() >= 2 && s.front() == '[' && s.back() == ']')
  {
    std::vector<PV> vs; std::string in = s.substr(1, s.size() - 2); size_t p = 0;
    while (p <= in.size()) { auto q = in.find(',', p); if (q == std::string::npos) q = in.size(); auto t = trim(in.substr(p, q - p)); if (!t.empty()) vs.push_back(parse_value(t)); p = q + 1; }
    if (vs.empty()) return PV(std::vector<std::string>{});
    auto ty = vs[0].get_type();
    bool dbl = false, all_num = true, same = true;
    for (auto & v : vs) { dbl |= v.get_type() == rclcpp::PARAMETER_DOUBLE; all_num &= v.get_type() == rclcpp::PARAMETER_DOUBLE || v.get_type() == rclcpp::PARAMETER_INTEGER; same &= v.get_type() == ty; }
    if (all_num && dbl) { std::vector<double> r; for (auto & v : vs) r.push_back(v.get_type() == rclcpp::PARAMETER_DOUBLE ? v.get<double>() : double(v.get<int64_t>())); return PV(r); }
    if (!same) throw rclcpp::exceptions::RCLInvalidArgument("bad list " + s);
    if (ty == rclcpp::PARAMETER_INTEGER) { std::vector<int64_t> r; for (auto & v : vs) r.push_back(v.get<int64_t>()); return PV(r); }
    if (ty == rclcpp::PARAMETER_BOOL) { std::vector<bool> r; for (auto & v : vs) r.push_back(v.get<bool>()); return PV(r); }
    std::vector<std::string> r; for (auto & v : vs) r.push_back(v.get<std::string>()); return PV(r);
  }
  if (s.size() >= 2 && ((s.front() == '"' && s.back() == '"') || (s.front() == '\'' && s.back() == '\''))) return PV(s.substr(1, s.size() - 2));
  if (s == "true" || s == "True" || s == "TRUE") return PV(true);
  if (s == "false" || s == "False" || s == "FALSE") return PV(false);
  char * e = nullptr;
  if (!s.empty()) { errno = 0; long long v = strtoll(s.c_str(), &e, 0); if (*e == 0 && !errno) return PV(int64_t(v)); double d = strtod(s.c_str(), &e); if (*e == 0) return PV(d); }
  return PV(s);
}
static void parse_params_file(const std::string & f, const NodeCore & n, std::map<std::string, rclcpp::ParameterValue> & out);
std::shared_ptr<NodeCore> NodeCore::create(const std::string & name, const std::string & ns, const rclcpp::NodeOptions & o)
{
  auto c = std::make_shared<NodeCore>();
  if (name.empty() || name.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") != std::string::npos)
    throw rclcpp::exceptions::InvalidNodeNameError("Invalid node name: " + name);
  c->name = name; c->ns = ns.empty() ? "/" : (ns[0] == '/' ? ns : "/" + ns);
  c->options = o;
  c->ctx = o.context() ? o.context() : rclcpp::contexts::get_global_default_context();
  std::vector<std::pair<std::string, std::string>> ps; std::vector<std::string> files;
  auto scan = [&](const std::vector<std::string> & a, bool need_flag) {
    bool ros = !need_flag;
    for (size_t i = 0; i < a.size(); i++)
    {
      if (a[i] == "--ros-args") { ros = true; continue; }
      if (a[i] == "--") { ros = false; continue; }
      if (!ros || i + 1 >= a.size()) continue;
      if (a[i] == "-r" || a[i] == "--remap")
      {
        auto p = a[++i].find(":="); if (p == std::string::npos) throw rclcpp::exceptions::RCLInvalidArgument(a[i]);
        auto k = a[i].substr(0, p), v = a[i].substr(p + 2);
        auto colon = k.find(':');
        if (colon != std::string::npos) { if (k.substr(0, colon) != name) continue; k = k.substr(colon + 1); }
        if (k == "__node" || k == "__name") c->name = v;
        if (k == "__ns") c->ns = v;
      }
      else if (a[i] == "-p" || a[i] == "--param")
      {
        auto p = a[++i].find(":="); if (p == std::string::npos) throw rclcpp::exceptions::RCLInvalidArgument(a[i]);
        ps.push_back({a[i].substr(0, p), a[i].substr(p + 2)});
      }
      else if (a[i] == "--params-file") files.push_back(a[++i]);
    }
  };
  if (o.use_global_arguments() && c->ctx) scan(c->ctx->args_, true);
  scan(o.arguments(), true);
  c->fqn = (c->ns == "/" ? "" : c->ns) + "/" + c->name;
  c->logger = rclcpp::get_logger(c->ns == "/" ? c->name : c->ns.substr(1) + "." + c->name);
  c->clock = std::make_shared<rclcpp::Clock>(o.clock_type());
  c->default_group = std::make_shared<rclcpp::CallbackGroup>(rclcpp::CallbackGroupType::MutuallyExclusive);
  for (auto & f : files) parse_params_file(f, *c, c->overrides);
  for (auto & [k, v] : ps)
  {
    auto key = k; auto colon = k.find(':');
    if (colon != std::string::npos) { if (k.substr(0, colon) != c->name) continue; key = k.substr(colon + 1); }
    c->overrides[key] = parse_value(v);
  }
  for (auto & p : o.parameter_overrides()) c->overrides[p.get_name()] = p.get_parameter_value();
  auto mk = [&](auto & sp) { using T = typename std::decay_t<decltype(sp)>::element_type; sp = std::make_shared<T>(); sp->w = c; sp->c = c.get(); };
  mk(c->base_i); mk(c->params_i); mk(c->logging_i); mk(c->clock_i); mk(c->topics_i);
  c->declare("use_sim_time", rclcpp::ParameterValue(false), {}, false, rclcpp::PARAMETER_BOOL, false);
  if (c->params["use_sim_time"].value.get<bool>()) c->clock->stub_set_ros_time_active(true);
  if (o.automatically_declare_parameters_from_overrides())
    for (auto & [k, v] : c->overrides)
      if (!c->has(k)) { rcl_interfaces::msg::ParameterDescriptor d; d.dynamic_typing = true; c->declare(k, v, d, true, v.get_type(), false); }
  return c;
}
const rclcpp::ParameterValue & NodeCore::declare(const std::string & n, const rclcpp::ParameterValue & d, const rcl_interfaces::msg::ParameterDescriptor & desc, bool io, rclcpp::ParameterType type, bool typed_only)
{
  std::lock_guard<std::recursive_mutex> l(pm);
  if (n.empty()) throw rclcpp::exceptions::InvalidParametersException("parameter name must not be empty");
  if (params.count(n)) throw rclcpp::exceptions::ParameterAlreadyDeclaredException("parameter '" + n + "' has already been declared");
  if (typed_only && type == rclcpp::PARAMETER_NOT_SET) throw std::invalid_argument("declare_parameter(): the provided parameter type cannot be rclcpp::PARAMETER_NOT_SET");
  rclcpp::ParameterValue v = d;
  auto it = overrides.find(n);
  if (it != overrides.end() && !io)
  {
    v = it->second;
    if (!desc.dynamic_typing && type != rclcpp::PARAMETER_NOT_SET && v.get_type() != type)
    {
      // an empty list in YAML is typed by the declaration
      throw rclcpp::exceptions::InvalidParameterTypeException(n, "parameter '" + n + "' has invalid type: Wrong parameter type, parameter {" + n + "} is of type {" + to_string(type) + "}, setting it to {" + to_string(v.get_type()) + "} is not allowed.");
    }
  }
  ParamInfo pi{v, desc}; pi.desc.name = n; pi.desc.type = type;
  std::vector<rclcpp::Parameter> ch{rclcpp::Parameter(n, v)};
  for (auto & w : std::list<std::weak_ptr<rclcpp::node_interfaces::OnSetParametersCallbackHandle>>(on_set))
    if (auto h = w.lock()) { auto r = h->callback(ch); if (!r.successful) throw rclcpp::exceptions::InvalidParameterValueException("parameter '" + n + "' could not be set: " + r.reason); }
  params[n] = pi;
  return params[n].value;
}
bool NodeCore::has(const std::string & n) { std::lock_guard<std::recursive_mutex> l(pm); return params.count(n) > 0; }
bool NodeCore::get(const std::string & n, rclcpp::Parameter & p)
{
  std::lock_guard<std::recursive_mutex> l(pm);
  auto it = params.find(n);
  if (it != params.end() && (it->second.value.get_type() != rclcpp::PARAMETER_NOT_SET || it->second.desc.dynamic_typing || true))
  {
    if (it->second.value.get_type() == rclcpp::PARAMETER_NOT_SET && !it->second.desc.dynamic_typing) { p = rclcpp::Parameter(n); return !options.allow_undeclared_parameters() ? true : false; }
    p = rclcpp::Parameter(n, it->second.value); return true;
  }
  return false;
}
rcl_interfaces::msg::SetParametersResult NodeCore::set_atomically(const std::vector<rclcpp::Parameter> & ps)
{
  std::lock_guard<std::recursive_mutex> l(pm);
  rcl_interfaces::msg::SetParametersResult r; r.successful = true;
  for (auto & p : ps)
  {
    auto it = params.find(p.get_name());
    if (it == params.end())
    {
      if (!options.allow_undeclared_parameters()) throw rclcpp::exceptions::ParameterNotDeclaredException("parameter '" + p.get_name() + "' cannot be set because it was not declared");
      rcl_interfaces::msg::ParameterDescriptor d; d.dynamic_typing = true; d.name = p.get_name();
      params[p.get_name()] = ParamInfo{p.get_parameter_value(), d};
      continue;
    }
    if (it->second.desc.read_only) { r.successful = false; r.reason = "parameter '" + p.get_name() + "' cannot be set because it is read-only"; return r; }
    if (!it->second.desc.dynamic_typing && it->second.desc.type != rclcpp::PARAMETER_NOT_SET && p.get_type() != it->second.desc.type)
    { r.successful = false; r.reason = "Wrong parameter type, parameter {" + p.get_name() + "}"; return r; }
  }
  for (auto & w : std::list<std::weak_ptr<rclcpp::node_interfaces::OnSetParametersCallbackHandle>>(on_set))
    if (auto h = w.lock()) { auto q = h->callback(ps); if (!q.successful) return q; }
  for (auto & p : ps) params[p.get_name()].value = p.get_parameter_value();
  for (auto & w : std::list<std::weak_ptr<rclcpp::node_interfaces::PostSetParametersCallbackHandle>>(post_set)) if (auto h = w.lock()) h->callback(ps);
  return r;
}
rcl_interfaces::msg::ListParametersResult NodeCore::list(const std::vector<std::string> & prefixes, uint64_t)
{
  std::lock_guard<std::recursive_mutex> l(pm);
  rcl_interfaces::msg::ListParametersResult r;
  for (auto & [k, v] : params)
  {
    bool m = prefixes.empty();
    for (auto & p : prefixes) m |= k == p || k.rfind(p + ".", 0) == 0;
    if (m) r.names.push_back(k);
  }
  return r;
}
// Minimal block-YAML reader: nested maps by indentation, scalars, flow lists, block lists of scalars.
static void parse_params_file(const std::string & f, const NodeCore & n, std::map<std::string, rclcpp::ParameterValue> & out)
{
  FILE * fp = fopen(f.c_str(), "r");
  if (!fp) throw rclcpp::exceptions::RCLInvalidArgument("Couldn't parse params file: '--params-file " + f + "'");
  char b[4096]; std::vector<std::pair<int, std::string>> st; std::map<std::string, std::vector<std::string>> lists; std::vector<std::pair<std::string, rclcpp::ParameterValue>> kv; std::vector<std::string> order;
  while (fgets(b, sizeof b, fp))
  {
    std::string s(b); auto h = s.find(" #"); if (h != std::string::npos) s = s.substr(0, h);
    auto t = trim(s); if (t.empty() || t[0] == '#') continue;
    int ind = int(s.find_first_not_of(" \t"));
    auto path = [&] { std::string r; for (auto & x : st) r += (r.empty() ? "" : "\x01") + x.second; return r; };
    if (t[0] == '-' && (t.size() == 1 || t[1] == ' ')) { while (!st.empty() && st.back().first > ind) st.pop_back(); auto p = path(); lists[p].push_back(trim(t.substr(1))); continue; }
    while (!st.empty() && st.back().first >= ind) st.pop_back();
    auto c = t.find(':'); size_t from = 0;
    while (c != std::string::npos && c + 1 < t.size() && t[c + 1] != ' ') { from = c + 1; c = t.find(':', from); }
    if (c == std::string::npos) continue;
    std::string k = trim(t.substr(0, c)), v = trim(t.substr(c + 1));
    if (k.size() > 1 && (k[0] == '"' || k[0] == '\'')) k = k.substr(1, k.size() - 2);
    st.push_back({ind, k});
    if (!v.empty()) kv.push_back({path(), parse_value(v)});
  }
  fclose(fp);
  for (auto & [p, vs] : lists) { std::string j = "["; for (auto & v : vs) j += (j.size() > 1 ? "," : "") + v; kv.push_back({p, parse_value(j + "]")}); }
  auto wild = [](const std::string & pat, const std::string & s) {
    std::function<bool(size_t, size_t)> m = [&](size_t i, size_t j) -> bool {
      if (i == pat.size()) return j == s.size();
      if (pat.compare(i, 3, "/**") == 0) { for (size_t k = j; k <= s.size(); k++) if ((k == s.size() || s[k] == '/') && m(i + 3, k)) return true; return false; }
      if (pat.compare(i, 2, "**") == 0) { for (size_t k = j; k <= s.size(); k++) if (m(i + 2, k)) return true; return false; }
      if (pat[i] == '*') { for (size_t k = j; k <= s.size(); k++) { if (m(i + 1, k)) return true; if (k < s.size() && s[k] == '/') break; } return false; }
      return j < s.size() && pat[i] == s[j] && m(i + 1, j + 1);
    };
    return m(0, 0);
  };
  std::string fqn = (n.ns == "/" ? "" : n.ns) + "/" + n.name;
  for (auto & [p, v] : kv)
  {
    auto i = p.find("\x01ros__parameters\x01"); if (i == std::string::npos) continue;
    std::string node = p.substr(0, i), key = p.substr(i + 17);
    for (auto & ch : node) if (ch == 1) ch = '/';
    for (auto & ch : key) if (ch == 1) ch = '.';
    if (node[0] != '/') node = "/" + node;
    if (wild(node, fqn)) out[key] = v;
  }
}
}  // namespace stub

namespace rclcpp
{
std::string to_string(ParameterType t)
{
  static const char * n[] = {"not set", "bool", "integer", "double", "string", "byte_array", "bool_array", "integer_array", "double_array", "string_array"};
  return n[t];
}
std::string to_string(const ParameterValue & v)
{
  switch (v.get_type())
  {
    case PARAMETER_BOOL: return v.get<bool>() ? "true" : "false";
    case PARAMETER_INTEGER: return std::to_string(v.get<int64_t>());
    case PARAMETER_DOUBLE: return std::to_string(v.get<double>());
    case PARAMETER_STRING: return v.get<std::string>();
    default: return to_string(v.get_type());
  }
}
std::string to_string(const FutureReturnCode & c) { return c == FutureReturnCode::SUCCESS ? "SUCCESS (0)" : c == FutureReturnCode::INTERRUPTED ? "INTERRUPTED (1)" : "TIMEOUT (2)"; }
bool Clock::sleep_until(Time until)
{
  if (until.get_clock_type() != t_) throw std::runtime_error("until's clock type does not match this clock's type");
  if (stub::virtual_time_enabled()) { stub::virtual_sleep_until(until.nanoseconds()); return true; }
  while (now() < until) std::this_thread::sleep_for(std::chrono::nanoseconds(std::min<int64_t>(until.nanoseconds() - now().nanoseconds(), 1000000)));
  return true;
}
bool Context::shutdown(const std::string &)
{
  auto pre = pre_;
  for (auto & [i, cb] : pre) cb();
  valid_ = false;
  auto on = on_;
  for (auto & [i, cb] : on) cb();
  stub::graph_cv.notify_all();
  return true;
}
namespace contexts { Context::SharedPtr get_global_default_context() { static auto c = std::make_shared<Context>(); return c; } }
void init(int argc, char const * const * argv)
{
  auto c = contexts::get_global_default_context();
  c->args_.clear(); for (int i = 1; i < argc; i++) c->args_.push_back(argv[i]);
  c->init(argc, argv);
}
bool ok(Context::SharedPtr c) { if (!c) c = contexts::get_global_default_context(); return c->is_valid(); }
bool shutdown(Context::SharedPtr c, const std::string & r) { if (!c) c = contexts::get_global_default_context(); if (!c->is_valid()) return false; return c->shutdown(r); }
std::vector<std::string> remove_ros_arguments(int argc, char const * const * argv)
{
  std::vector<std::string> r; bool ros = false;
  for (int i = 0; i < argc; i++) { std::string a = argv[i]; if (a == "--ros-args") { ros = true; continue; } if (ros && a == "--") { ros = false; continue; } if (!ros) r.push_back(a); }
  return r;
}
std::vector<std::string> init_and_remove_ros_arguments(int argc, char const * const * argv) { init(argc, argv); return remove_ros_arguments(argc, argv); }
bool sleep_for(const std::chrono::nanoseconds & ns, Context::SharedPtr) { if (stub::virtual_time_enabled()) stub::virtual_sleep_until(stub::virtual_now() + ns.count()); else std::this_thread::sleep_for(ns); return true; }

static int64_t tnow() { return stub::virtual_time_enabled() ? stub::virtual_now() : stub::real_now(RCL_STEADY_TIME); }
TimerBase::TimerBase(std::chrono::nanoseconds p, std::function<void()> cb, CallbackGroup::SharedPtr g) : stub_group(g), period_(p), cb_(cb), next_(tnow() + p.count()) {}
void TimerBase::reset() { cancelled_ = false; next_ = tnow() + period_.count(); }
bool TimerBase::is_ready() { return !cancelled_ && tnow() >= next_; }
std::chrono::nanoseconds TimerBase::time_until_trigger() { return cancelled_ ? std::chrono::nanoseconds::max() : std::chrono::nanoseconds(next_ - tnow()); }
void TimerBase::stub_advance() { next_ += period_.count(); if (next_ < tnow()) next_ = tnow() + period_.count(); }

Executor::~Executor() { for (auto & w : nodes_) if (auto n = w.lock()) n->in_executor = false; }
void Executor::add_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool)
{
  if (n->get_associated_with_executor_atomic().exchange(true)) throw std::runtime_error(std::string("Node '") + n->get_fully_qualified_name() + "' has already been added to an executor.");
  { std::lock_guard<std::mutex> l(stub::graph_mutex); nodes_.push_back(n->core_sp()); }
  stub::graph_cv.notify_all();
}
void Executor::remove_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool)
{
  if (!n->get_associated_with_executor_atomic().load()) throw std::runtime_error("Node '" + std::string(n->get_fully_qualified_name()) + "' needs to be associated with an executor.");
  std::lock_guard<std::mutex> l(stub::graph_mutex);
  auto c = n->core_sp();
  for (auto it = nodes_.begin(); it != nodes_.end(); ++it)
    if (it->lock() == c) { nodes_.erase(it); n->get_associated_with_executor_atomic() = false; return; }
  throw std::runtime_error("Node needs to be associated with this executor.");
}
bool Executor::step(std::chrono::nanoseconds timeout)
{
  auto deadline = std::chrono::steady_clock::now() + (timeout.count() < 0 ? std::chrono::hours(1) : timeout);
  std::unique_lock<std::mutex> l(stub::graph_mutex);
  for (;;)
  {
    if (cancel_ && spinning_) return false;
    std::vector<std::shared_ptr<stub::NodeCore>> ns;
    for (auto & w : nodes_) if (auto n = w.lock()) ns.push_back(n);
    for (auto & n : ns)
    {
      for (auto it = n->timers.begin(); it != n->timers.end();)
      {
        auto t = it->lock();
        if (!t) { it = n->timers.erase(it); continue; }
        auto g = t->stub_group;
        if (t->is_ready() && !(g && g->type() == CallbackGroupType::MutuallyExclusive && g->stub_busy))
        {
          t->stub_advance(); if (g) g->stub_busy++; l.unlock(); t->execute_callback(); l.lock(); if (g) g->stub_busy--; stub::graph_cv.notify_all(); return true;
        }
        ++it;
      }
      for (auto it = n->queue.begin(); it != n->queue.end(); ++it)
      {
        auto g = it->group;
        if (g && g->type() == CallbackGroupType::MutuallyExclusive && g->stub_busy) continue;
        stub::Work w = std::move(*it); n->queue.erase(it);
        if (g) g->stub_busy++;
        l.unlock(); w.fn(); w.fn = nullptr; l.lock();
        if (g) g->stub_busy--;
        stub::graph_cv.notify_all();
        return true;
      }
    }
    auto now = std::chrono::steady_clock::now();
    if (now >= deadline || !contexts::get_global_default_context()->is_valid()) return false;
    ns.clear();
    stub::graph_cv.wait_for(l, std::min<std::chrono::nanoseconds>(deadline - now, std::chrono::milliseconds(2)));
  }
}
void Executor::spin_some(std::chrono::nanoseconds)
{
  // run what is queued now
  size_t n = 0;
  { std::lock_guard<std::mutex> l(stub::graph_mutex); for (auto & w : nodes_) if (auto c = w.lock()) n += c->queue.size() + c->timers.size(); }
  for (size_t i = 0; i < n + 1; i++) if (!step(std::chrono::nanoseconds(0))) break;
}
void Executor::cancel() { cancel_ = true; stub::graph_cv.notify_all(); }
void Executor::loop() { while (ok() && !cancel_) step(std::chrono::milliseconds(5)); }
namespace executors
{
void SingleThreadedExecutor::spin() { cancel_ = false; spinning_ = true; loop(); spinning_ = false; cancel_ = false; }
void MultiThreadedExecutor::spin()
{
  cancel_ = false; spinning_ = true;
  std::vector<std::thread> t; for (size_t i = 1; i < n_; i++) t.emplace_back([this] { loop(); });
  loop(); for (auto & x : t) x.join();
  spinning_ = false; cancel_ = false;
}
}  // namespace executors
}  // namespace rclcpp
