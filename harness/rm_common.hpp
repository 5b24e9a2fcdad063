// Programmable hardware and a reference model of the resource manager.
//
// Every callback of a hardware component asks the exploration for its answer (within a budget of non-default
// answers per execution) and is recorded.  The reference model replays each operation: it consumes the recorded
// callbacks of each component in order, so that missing, additional and reordered callbacks are found, and
// predicts states, availability, ownership and results.
#pragma once
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "hardware_interface/actuator_interface.hpp"
#include "hardware_interface/resource_manager.hpp"
#include "hardware_interface/sensor_interface.hpp"
#include "hardware_interface/system_interface.hpp"
#include "lifecycle_msgs/msg/state.hpp"
#include "mc.hpp"
#ifdef VERIF_MC
#include "mcrt.hpp"
#define RMH_QUIET mcrt::Quiet quiet_
#else
#define RMH_QUIET
#endif
#include "pluginlib/class_loader.hpp"
#include "rclcpp/rclcpp.hpp"
namespace rmh
{
namespace hi = hardware_interface;
using LS = lifecycle_msgs::msg::State;
using CR = hi::CallbackReturn;
using RT = hi::return_type;
enum Ans { OK = 0, FAIL = 1, ERR = 2, THROW = 3, DEACT = 4, THROW_INT = 5 };
inline const char * an(int a) { static const char * n[] = {"ok", "failure", "error", "exception", "deactivate", "odd-exception"}; return n[a]; }
struct Ev { std::string comp, cb, arg; int ans; double period; };
struct World
{
  mc::Ctx * c = nullptr;
  int budget = 0;                       // remaining non-default answers
  std::map<std::string, std::deque<Ev>> q;  // callbacks per component since the last drain
  std::vector<Ev> all;                  // in global order
  std::vector<int> life{OK, FAIL, ERR, THROW}, rw{OK, ERR, DEACT, THROW}, sw{OK, ERR, THROW}, err{OK, FAIL, ERR, THROW};
  std::set<std::string> always;         // callbacks with free answers although the budget is used up
  std::set<std::string> mute;           // callbacks which always succeed
  int limit = 0;                        // if not 0: only that many calls of a callback may deviate
  std::map<std::string, int> asked;
  std::function<void(const Ev &)> on_event;
  std::function<void(const std::string &, const std::string &)> on_overlap;   // callbacks of one component on two threads
  std::map<std::string, std::pair<int, std::string>> busy;                    // component -> thread, callback
  int ask(const std::string & comp, const std::string & cb, const std::vector<int> & menu, const std::string & arg = "", double period = 0)
  {
    RMH_QUIET;
#ifdef VERIF_MC
    // another thread may go on while the callback runs
    if (mcrt::exploring() && cb != "prepare") {
      auto it = busy.find(comp);
      if (it != busy.end()) { if (it->second.first != mcrt::self() && on_overlap) on_overlap(comp, cb + " is called while " + it->second.second); }
      else {
        busy[comp] = {mcrt::self(), cb};
        mcrt::point((comp + "." + cb).c_str());
        busy.erase(comp);
      }
    }
#endif
    int a = OK;
    if (c && menu.size() > 1 && !mute.count(cb) && !mute.count(comp + "." + cb) && (budget > 0) && (!limit || asked[comp + "." + cb]++ < limit)) {
      a = menu[c->choose_cb(static_cast<int>(menu.size()))];
      if (a != OK) --budget;
    }
    if (c && (a != OK || c->replay)) c->note("    " + comp + "." + cb + arg + " -> " + an(a));
    Ev e{comp, cb, arg, a, period};
    q[comp].push_back(e);
    all.push_back(e);
    if (on_event) on_event(e);
    return a;
  }
  void drop() { q.clear(); all.clear(); }
};
inline World & W() { static World w; return w; }
inline void boom(int a) { if (a == THROW) throw std::runtime_error("hardware exception"); if (a == THROW_INT) throw 42; }
inline CR cr(int a) { boom(a); return a == FAIL ? CR::FAILURE : a == ERR ? CR::ERROR : CR::SUCCESS; }
inline RT rt(int a) { boom(a); return a == ERR ? RT::ERROR : a == DEACT ? RT::DEACTIVATE : RT::OK; }
inline std::string list(std::vector<std::string> v) { std::sort(v.begin(), v.end()); std::string s = "["; for (auto & x : v) s += x + " "; return s + "]"; }

template <class Base>
class HW : public Base
{
public:
  std::string n() const { return this->info_.name; }
  CR on_init(const hi::HardwareComponentInterfaceParams & p) override
  {
    if (Base::on_init(p) != CR::SUCCESS) return CR::ERROR;
    return cr(W().ask(n(), "init", {OK, FAIL, ERR, THROW}));
  }
  CR on_configure(const rclcpp_lifecycle::State &) override { return cr(W().ask(n(), "configure", W().life)); }
  CR on_cleanup(const rclcpp_lifecycle::State &) override { return cr(W().ask(n(), "cleanup", W().life)); }
  CR on_activate(const rclcpp_lifecycle::State &) override { return cr(W().ask(n(), "activate", W().life)); }
  CR on_deactivate(const rclcpp_lifecycle::State &) override { return cr(W().ask(n(), "deactivate", W().life)); }
  CR on_shutdown(const rclcpp_lifecycle::State &) override { return cr(W().ask(n(), "shutdown", W().life)); }
  CR on_error(const rclcpp_lifecycle::State &) override { return cr(W().ask(n(), "on_error", W().err)); }
  RT read(const rclcpp::Time & t, const rclcpp::Duration & p) override { last_time = t.nanoseconds(); return rt(W().ask(n(), "read", W().rw, "", p.seconds())); }
  RT prepare_command_mode_switch(const std::vector<std::string> & a, const std::vector<std::string> & b) override { return rt(W().ask(n(), "prepare", W().sw, list(a) + list(b))); }
  RT perform_command_mode_switch(const std::vector<std::string> & a, const std::vector<std::string> & b) override { return rt(W().ask(n(), "perform", W().sw, list(a) + list(b))); }
  int64_t last_time = 0;
};
template <class Base>
class HWW : public HW<Base>
{
public:
  RT write(const rclcpp::Time &, const rclcpp::Duration & p) override { return rt(W().ask(this->n(), "write", W().rw, "", p.seconds())); }
};
using Act = HWW<hi::ActuatorInterface>;
using Sys = HWW<hi::SystemInterface>;
using Sen = HW<hi::SensorInterface>;
inline void register_plugins()
{
  stub::register_plugin<hi::ActuatorInterface>("verif/Actuator", [] { return new Act(); });
  stub::register_plugin<hi::SystemInterface>("verif/System", [] { return new Sys(); });
  stub::register_plugin<hi::SensorInterface>("verif/Sensor", [] { return new Sen(); });
}
struct Comp
{
  std::string name, type, group;
  int rw_rate = 0;
  std::vector<std::pair<std::string, std::vector<std::string>>> joints;  // joint -> command interfaces (state: position always)
  bool async = false;
  std::string limits;  // extra xml for command interfaces
};
inline std::string urdf(const std::vector<Comp> & cs, const std::string & limit_xml = "<limit lower=\"-1\" upper=\"1\" velocity=\"1\" effort=\"10\"/>")
{
  std::string s = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"world\"/>";
  for (auto & c : cs) for (auto & [j, _] : c.joints) {
    s += "<link name=\"l_" + j + "\"/><joint name=\"" + j + "\" type=\"revolute\"><parent link=\"world\"/><child link=\"l_" + j + "\"/><axis xyz=\"0 0 1\"/>" + limit_xml + "</joint>";
  }
  for (auto & c : cs) {
    s += "<ros2_control name=\"" + c.name + "\" type=\"" + c.type + "\"";
    if (c.rw_rate) s += mc::fmt(" rw_rate=\"%d\"", c.rw_rate);
    if (c.async) s += " is_async=\"true\"";
    s += "><hardware><plugin>verif/" + std::string(c.type == "system" ? "System" : c.type == "sensor" ? "Sensor" : "Actuator") + "</plugin>";
    if (!c.group.empty()) s += "<group>" + c.group + "</group>";
    s += "</hardware>";
    if (c.type == "sensor") {
      for (auto & [j, cmds] : c.joints) { (void)cmds; s += "<sensor name=\"" + j + "\"><state_interface name=\"position\"/></sensor>"; }
    } else {
      for (auto & [j, cmds] : c.joints) {
        s += "<joint name=\"" + j + "\">";
        for (auto & i : cmds) s += "<command_interface name=\"" + i + "\">" + c.limits + "</command_interface>";
        s += "<state_interface name=\"position\"/><state_interface name=\"velocity\"/></joint>";
      }
    }
    s += "</ros2_control>";
  }
  return s + "</robot>";
}
inline const char * sn(int s) { return s == LS::PRIMARY_STATE_UNCONFIGURED ? "unconfigured" : s == LS::PRIMARY_STATE_INACTIVE ? "inactive" : s == LS::PRIMARY_STATE_ACTIVE ? "active" : s == LS::PRIMARY_STATE_FINALIZED ? "finalized" : "unknown"; }

// ---------------------------------------------------------------- reference model
struct Mismatch { std::string key, msg; };
struct MComp
{
  Comp d;
  int state = LS::PRIMARY_STATE_UNCONFIGURED;
  std::vector<std::string> cmds, states;
  int rate = 0;                        // 0: every cycle
  bool has_r = false, has_w = false;   // last read/write time known
  double last_r = 0, last_w = 0;
};
struct Model
{
  std::vector<MComp> cs;    // in processing order: actuators, sensors, systems
  std::map<std::string, int> group;     // OK / ERR / DEACT
  std::set<std::string> avail_c, avail_s;
  std::map<std::string, bool> claimed;
  bool allow_inactive = false, report_deact = true, handle_exc = true;
  int cm_rate = 100;
  double now = 0;
  MComp & comp(const std::string & n) { for (auto & c : cs) if (c.d.name == n) return c; throw std::logic_error("comp"); }
  void init(const std::vector<Comp> & d, int cm)
  {
    cm_rate = cm;
    for (const char * t : {"actuator", "sensor", "system"})
      for (auto & x : d) if (x.type == t) {
        MComp m;
        m.d = x;
        for (auto & [j, cmds] : x.joints) {
          if (x.type != "sensor") for (auto & i : cmds) { m.cmds.push_back(j + "/" + i); claimed[j + "/" + i] = false; }
          m.states.push_back(j + "/position");
          if (x.type != "sensor") m.states.push_back(j + "/velocity");
        }
        m.rate = x.rw_rate == 0 || x.rw_rate >= cm ? 0 : x.rw_rate;
        if (!x.group.empty()) group[x.group] = OK;
        cs.push_back(m);
      }
  }
  static std::string kind(const std::string & cb) { return cb == "read" || cb == "write" ? "io-callback" : "callback"; }
  // the next recorded callback of the component must be this one
  int use(MComp & c, const std::string & cb, const std::string & arg = "", double period = -1)
  {
    auto & q = W().q[c.d.name];
    if (q.empty()) throw Mismatch{kind(cb), c.d.name + ": expected callback " + cb + arg + ", none was made"};
    Ev e = q.front();
    if (e.cb != cb || (!arg.empty() && e.arg != arg)) throw Mismatch{kind(kind(cb) == "callback" ? e.cb : cb), c.d.name + ": expected callback " + cb + arg + ", got " + e.cb + e.arg};
    if (period >= 0 && std::fabs(e.period - period) > 1e-7) throw Mismatch{"period", c.d.name + ": " + cb + mc::fmt(" got period %g instead of %g", e.period, period)};
    q.pop_front();
    return e.ans;
  }
  void drained()
  {
    for (auto & [n, q] : W().q) if (!q.empty()) throw Mismatch{kind(q.front().cb), n + ": unexpected callback " + q.front().cb + q.front().arg};
  }
  static bool bad(int a) { return a == THROW || a == THROW_INT; }
  void set_avail(MComp & c)
  {
    bool on = c.state == LS::PRIMARY_STATE_INACTIVE || c.state == LS::PRIMARY_STATE_ACTIVE;
    for (auto & i : c.cmds) if (on) avail_c.insert(i); else avail_c.erase(i);
    for (auto & i : c.states) if (on) avail_s.insert(i); else avail_s.erase(i);
  }
  bool on_error(MComp & c)  // false: the handler threw
  {
    if (c.state == LS::PRIMARY_STATE_UNCONFIGURED || c.state == LS::PRIMARY_STATE_FINALIZED) return true;
    int a = use(c, "on_error");
    c.state = a == OK ? LS::PRIMARY_STATE_UNCONFIGURED : LS::PRIMARY_STATE_FINALIZED;
    return !bad(a);
  }
  // one transition; true if it reached its target
  bool go(MComp & c, const char * cb, int target, int back)
  {
    if (std::string(cb) == "activate") c.has_r = c.has_w = false;
    int a = use(c, cb);
    if (bad(a)) return false;
    if (a == OK) c.state = target;
    else if (a == FAIL && back) c.state = back;
    else if (!on_error(c)) return false;
    return c.state == target;
  }
  void regroup(MComp & c) { if (!c.d.group.empty()) group[c.d.group] = OK; }
  bool configure(MComp & c) { bool r = go(c, "configure", LS::PRIMARY_STATE_INACTIVE, LS::PRIMARY_STATE_UNCONFIGURED); regroup(c); return r; }
  bool activate(MComp & c)
  {
    bool r = go(c, "activate", LS::PRIMARY_STATE_ACTIVE, LS::PRIMARY_STATE_INACTIVE);
    if (r && !c.d.group.empty() && group[c.d.group] == DEACT) group[c.d.group] = OK;
    return r;
  }
  bool deactivate(MComp & c) { return go(c, "deactivate", LS::PRIMARY_STATE_INACTIVE, LS::PRIMARY_STATE_ACTIVE); }
  bool cleanup(MComp & c) { bool r = go(c, "cleanup", LS::PRIMARY_STATE_UNCONFIGURED, 0); regroup(c); return r; }
  bool shutdown(MComp & c) { bool r = go(c, "shutdown", LS::PRIMARY_STATE_FINALIZED, 0); if (r) regroup(c); return r; }
  bool set_state(MComp & c, int target)
  {
    bool r = c.state == target;
    if (c.state == LS::PRIMARY_STATE_FINALIZED || r) return r;
    const int s = c.state;
    switch (target) {
      case LS::PRIMARY_STATE_UNCONFIGURED: r = (s == LS::PRIMARY_STATE_INACTIVE || deactivate(c)) && cleanup(c); break;
      case LS::PRIMARY_STATE_INACTIVE: r = s == LS::PRIMARY_STATE_ACTIVE ? deactivate(c) : configure(c); break;
      case LS::PRIMARY_STATE_ACTIVE: r = (s == LS::PRIMARY_STATE_INACTIVE || configure(c)) && activate(c); break;
      case LS::PRIMARY_STATE_FINALIZED: r = (s != LS::PRIMARY_STATE_ACTIVE || deactivate(c)) && shutdown(c); break;
      default: return false;
    }
    set_avail(c);
    return r;
  }
  struct Cycle { int result = OK; std::vector<std::string> failed; };
  int spread(MComp & c, int v, bool is_read)
  {
    if (c.d.group.empty()) return v;
    if (v != OK) { group[c.d.group] = v; return v; }
    int g = group[c.d.group];
    return is_read && g == DEACT ? OK : g;
  }
  bool due(bool known, double last, double now, int rate, double period, double & actual)
  {
    if (rate == 0) { actual = period; return true; }
    actual = known ? now - last : 1.0 / rate;
    const double e0 = std::fabs(actual * rate - 1.0), e1 = std::fabs((actual + 1.0 / cm_rate) * rate - 1.0);
    return e0 <= e1 + 1e-9;
  }
  Cycle read(double now, double period)
  {
    Cycle r;
    for (auto & c : cs) {
      int v = OK;
      double actual;
      const bool live = c.state == LS::PRIMARY_STATE_INACTIVE || c.state == LS::PRIMARY_STATE_ACTIVE;
      if (due(c.has_r, c.last_r, now, c.rate, period, actual)) {
        if (live) {
          v = use(c, "read", "", actual);
          if (bad(v)) v = ERR; else { c.has_r = true; c.last_r = now; }
        } else { c.has_r = true; c.last_r = now; }
      }
      v = spread(c, v == DEACT ? ERR : v, true);
      if (v != OK) { on_error(c); r.result = ERR; r.failed.push_back(c.d.name); set_avail(c); }
    }
    return r;
  }
  Cycle write(double now, double period)
  {
    Cycle r;
    for (auto & c : cs) {
      if (c.d.type == "sensor") continue;
      int v = OK;
      double actual;
      if (due(c.has_w, c.last_w, now, c.rate, period, actual)) {
        if (c.state == LS::PRIMARY_STATE_ACTIVE) {
          v = use(c, "write", "", actual);
          if (bad(v)) v = ERR; else { c.has_w = true; c.last_w = now; }
        } else if (c.state != LS::PRIMARY_STATE_INACTIVE) { c.has_w = true; c.last_w = now; }
      }
      v = spread(c, v, false);
      if (v == ERR) { on_error(c); r.result = ERR; r.failed.push_back(c.d.name); set_avail(c); }
      else if (v == DEACT) {
        if (c.state != LS::PRIMARY_STATE_FINALIZED) set_state(c, LS::PRIMARY_STATE_INACTIVE);
        r.result = DEACT;
        if (report_deact) r.failed.push_back(c.d.name);
      }
    }
    return r;
  }
  bool mode_switch(const std::string & cb, const std::vector<std::string> & start, const std::vector<std::string> & stop)
  {
    if (start.empty() && stop.empty()) return true;
    if (cb == "prepare")
      for (auto * l : {&start, &stop}) for (auto & i : *l) if (!avail_c.count(i)) return false;
    bool all = true;
    for (const char * t : {"actuator", "system"}) {
      for (auto & c : cs) {
        if (c.d.type != t) continue;
        auto mine = [&](const std::vector<std::string> & l) { std::vector<std::string> r; for (auto & i : l) if (std::count(c.cmds.begin(), c.cmds.end(), i)) r.push_back(i); return r; };
        auto a = mine(start), b = mine(stop);
        if (a.empty() && b.empty()) continue;
        if (!a.empty() && c.state == LS::PRIMARY_STATE_INACTIVE && !allow_inactive) { all = false; break; }
        if (c.state == LS::PRIMARY_STATE_INACTIVE || c.state == LS::PRIMARY_STATE_ACTIVE) {
          if (use(c, cb, list(a) + list(b)) != OK) all = false;
        } else all = false;
      }
    }
    return all;
  }
  std::string str() const
  {
    std::string s;
    for (auto & c : cs) s += c.d.name + "=" + sn(c.state) + (c.rate ? mc::fmt(" r%d:%.6f w%d:%.6f ", c.has_r, c.has_r ? now - c.last_r : 0, c.has_w, c.has_w ? now - c.last_w : 0) : std::string(" "));
    for (auto & [g, v] : group) s += "group " + g + "=" + an(v) + " ";
    for (auto & [i, v] : claimed) if (v) s += "claimed " + i + " ";
    return s;
  }
};

// the real resource manager beside the model
struct Pair
{
  mc::Ctx & c;
  std::unique_ptr<hi::ResourceManager> rm;
  Model m;
  double now = 100.0;
  std::string op = "load";   // kind of the current operation: prefix of the finding keys
  [[noreturn]] void fail(const std::string & kind, const std::string & msg) { c.fail(op + ":" + kind, msg); }
  std::map<std::string, hi::LoanedCommandInterface> loans;
  rclcpp::Clock::SharedPtr clock;
  hi::ResourceManagerParams params;
  Pair(mc::Ctx & ctx, const std::vector<Comp> & d, int cm_rate = 100) : c(ctx)
  {
    stub::set_virtual_time(static_cast<int64_t>(now * 1e9));
    W().c = nullptr;
    W().budget = 0;
    W().drop();
    clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
    params.clock = clock;
    params.robot_description = urdf(d);
    params.update_rate = cm_rate;
    m.init(d, cm_rate);
    m.now = now;
  }
  void load(bool allow_inactive = false, bool report = true, bool handle = true)
  {
    params.allow_controller_activation_with_inactive_hardware = allow_inactive;
    params.return_failed_hardware_names_on_return_deactivate_write_cycle_ = report;
    params.handle_exceptions = handle;
    m.allow_inactive = allow_inactive;
    m.report_deact = report;
    m.handle_exc = handle;
    rm = std::make_unique<hi::ResourceManager>(params, true);
    if (!rm->are_components_initialized()) fail("load", "a valid description was refused");
    W().drop();
    W().c = &c;
  }
  ~Pair() { W().c = nullptr; }
  template <class F>
  auto model(const std::string & what, F f) -> decltype(f())
  {
    try {
      auto r = f();
      m.drained();
      W().drop();
      return r;
    } catch (Mismatch & x) {
      W().drop();
      fail(x.key, what + ": " + x.msg + " (" + m.str() + ")");
    }
  }
  void set_state(const std::string & n, int target, bool by_label = false)
  {
    op = "set";
    c.note("set " + n + " " + sn(target) + (by_label ? " by label" : ""));
    c.step();
    rclcpp_lifecycle::State s(by_label ? 0 : target, sn(target));
    RT r = rm->set_component_state(n, s);
    bool want = model("set_state " + n, [&] { return m.set_state(m.comp(n), target); });
    if ((r == RT::OK) != want) fail("set-result", "set_component_state(" + n + "," + sn(target) + ") returned " + (r == RT::OK ? "ok" : "error") + "; " + m.str());
    verify();
  }
  void cycle_check(const char * what, const hi::HardwareReadWriteStatus & r, const Model::Cycle & w)
  {
    auto f = r.failed_hardware_names;
    if (f != w.failed) fail("failed-names", std::string(what) + " reported failed hardware " + list(f) + " instead of " + list(w.failed) + "; " + m.str());
    if (r.result != (w.result == OK ? RT::OK : w.result == ERR ? RT::ERROR : RT::DEACTIVATE)) fail("cycle-result", std::string(what) + mc::fmt(" returned %d", static_cast<int>(r.result)) + " instead of " + an(w.result));
  }
  void read(double period)
  {
    op = "cycle";
    c.note("read");
    c.step();
    auto r = rm->read(rclcpp::Time(static_cast<int64_t>(now * 1e9), RCL_STEADY_TIME), rclcpp::Duration::from_nanoseconds(std::llround(period * 1e9)));
    auto w = model("read", [&] { return m.read(now, period); });
    cycle_check("read", r, w);
    verify();
  }
  void write(double period)
  {
    op = "cycle";
    c.note("write");
    c.step();
    auto r = rm->write(rclcpp::Time(static_cast<int64_t>(now * 1e9), RCL_STEADY_TIME), rclcpp::Duration::from_nanoseconds(std::llround(period * 1e9)));
    auto w = model("write", [&] { return m.write(now, period); });
    cycle_check("write", r, w);
    verify();
  }
  void advance(double dt) { now += dt; m.now = now; stub::set_virtual_time(std::llround(now * 1e9)); }
  bool claim(const std::string & i)
  {
    op = "claim";
    c.note("claim " + i);
    c.step();
    const bool want = m.avail_c.count(i) && !m.claimed[i];
    bool got = true;
    try { loans.emplace(i, rm->claim_command_interface(i)); } catch (const std::exception &) { got = false; }
    if (got != want) fail("claim", std::string("claim of ") + i + (got ? " granted" : " refused") + "; " + m.str());
    if (got) m.claimed[i] = true;
    verify();
    return got;
  }
  void release(const std::string & i)
  {
    op = "claim";
    c.note("release " + i);
    c.step();
    loans.erase(i);
    m.claimed[i] = false;
    verify();
  }
  void mode(const std::string & cb, const std::vector<std::string> & start, const std::vector<std::string> & stop)
  {
    op = "mode";
    c.note(cb + " start" + list(start) + " stop" + list(stop));
    c.step();
    const bool r = cb == "prepare" ? rm->prepare_command_mode_switch(start, stop) : rm->perform_command_mode_switch(start, stop);
    const bool w = model(cb, [&] { return m.mode_switch(cb, start, stop); });
    if (r != w) fail("switch-result", cb + " returned " + (r ? "true" : "false") + "; " + m.str());
    verify();
  }
  // everything observable agrees
  void verify()
  {
    auto & st = rm->get_components_status();
    for (auto & x : m.cs) {
      int s = st.at(x.d.name).state.id();
      if (s != x.state) fail("state", x.d.name + " is " + sn(s) + ", must be " + sn(x.state) + "; " + m.str());
      if (st.at(x.d.name).state.label() != sn(s)) fail("state", x.d.name + ": label " + st.at(x.d.name).state.label());
    }
    auto cmp = [&](const char * what, const std::vector<std::string> & got, const std::set<std::string> & want) {
      std::set<std::string> g(got.begin(), got.end());
      if (g != want || g.size() != got.size()) fail("availability", std::string("available ") + what + " interfaces are " + list(got) + ", must be " + list({want.begin(), want.end()}) + "; " + m.str());
    };
    cmp("command", rm->available_command_interfaces(), m.avail_c);
    cmp("state", rm->available_state_interfaces(), m.avail_s);
    for (auto & [i, v] : m.claimed) {
      if (rm->command_interface_is_available(i) != (m.avail_c.count(i) > 0)) fail("availability", i + " availability query");
      if (!rm->command_interface_exists(i)) fail("exists", i + " does not exist any more");
      if (m.avail_c.count(i) && rm->command_interface_is_claimed(i) != v) fail("claimed", i + (v ? " is not claimed" : " is claimed") + "; " + m.str());
    }
  }
};
}  // namespace rmh
