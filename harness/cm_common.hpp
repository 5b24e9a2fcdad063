// Programmable controllers, a driver for the real controller manager and its reference model.
//
// One thread plays both sides: whenever a service of the controller manager waits for the control loop
// (condition variable, yield or sleep), the driver runs one cycle of the control loop in its place.
#pragma once
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <algorithm>
#include <cerrno>
#include <regex>
#include "controller_interface/chainable_controller_interface.hpp"
#include "controller_interface/controller_interface.hpp"
#include "controller_manager/controller_manager.hpp"
#include "rm_common.hpp"
namespace cmh
{
using namespace rmh;  // NOLINT
namespace ci = controller_interface;
using IT = ci::interface_configuration_type;
using controller_manager_msgs::srv::SwitchController;
constexpr int STRICT = SwitchController::Request::STRICT, BEST = SwitchController::Request::BEST_EFFORT;
using Names = std::vector<std::string>;
struct Cfg
{
  IT type = IT::NONE;
  Names names;
  Cfg() = default;
  Cfg(std::initializer_list<std::string> n) : type(n.size() ? IT::INDIVIDUAL : IT::NONE), names(n) {}
  Cfg(IT t, Names n = {}) : type(t), names(n) {}
};
struct Ctrl
{
  std::string name;
  bool chain = false;
  Cfg cmd, st;
  Names refs, outs, fallback;   // refs and outs without the controller's name
  int rate = 0;                 // parameter update_rate; 0: not set
  bool async = false;
};
inline bool has(const Names & v, const std::string & s) { return std::find(v.begin(), v.end(), s) != v.end(); }
struct Probe;
inline std::map<std::string, Ctrl> & defs() { static std::map<std::string, Ctrl> d; return d; }
inline std::map<std::string, Probe *> & live() { static std::map<std::string, Probe *> d; return d; }
struct Menus { std::vector<int> life{OK, FAIL, ERR, THROW}, update{OK, ERR, THROW}, err{OK, FAIL}, init{OK}; };
inline Menus & menus() { static Menus m; return m; }
struct Probe
{
  Ctrl d;
  ci::ControllerInterfaceBase * base = nullptr;
  virtual ~Probe() { auto it = live().find(d.name); if (it != live().end() && it->second == this) live().erase(it); }
  virtual Names commands() const = 0;
  virtual Names states() const = 0;
  int state() const { return base->get_lifecycle_state().id(); }
};
template <class Base>
class Common : public Base, public Probe
{
public:
  ci::InterfaceConfiguration command_interface_configuration() const override { return {d.cmd.type, d.cmd.names}; }
  ci::InterfaceConfiguration state_interface_configuration() const override { return {d.st.type, d.st.names}; }
  ci::CallbackReturn on_init() override
  {
    d = defs().at(this->get_node()->get_name());
    base = this;
    live()[d.name] = this;
    return cr(W().ask(d.name, "init", menus().init));
  }
  ci::CallbackReturn life(const char * cb) { return cr(W().ask(d.name, cb, menus().life)); }
  ci::CallbackReturn on_configure(const rclcpp_lifecycle::State &) override { return life("configure"); }
  ci::CallbackReturn on_activate(const rclcpp_lifecycle::State &) override { return life("activate"); }
  ci::CallbackReturn on_deactivate(const rclcpp_lifecycle::State &) override { return life("deactivate"); }
  ci::CallbackReturn on_cleanup(const rclcpp_lifecycle::State &) override { return life("cleanup"); }
  ci::CallbackReturn on_shutdown(const rclcpp_lifecycle::State &) override { return life("shutdown"); }
  ci::CallbackReturn on_error(const rclcpp_lifecycle::State &) override { return cr(W().ask(d.name, "on_error", menus().err)); }
  Names commands() const override { Names r; for (auto & l : this->command_interfaces_) r.push_back(l.get_name()); return r; }
  Names states() const override { Names r; for (auto & l : this->state_interfaces_) r.push_back(l.get_name()); return r; }
  ci::return_type up(const rclcpp::Duration & p)
  {
    int a = W().ask(d.name, "update", menus().update, "", p.seconds());
    boom(a);
    return a == OK ? ci::return_type::OK : ci::return_type::ERROR;
  }
};
class Plain : public Common<ci::ControllerInterface>
{
public:
  ci::return_type update(const rclcpp::Time &, const rclcpp::Duration & p) override { return up(p); }
};
class Chain : public Common<ci::ChainableControllerInterface>
{
public:
  int from_subscribers = 0;
  ci::return_type update_reference_from_subscribers(const rclcpp::Time &, const rclcpp::Duration &) override { ++from_subscribers; return ci::return_type::OK; }
  ci::return_type update_and_write_commands(const rclcpp::Time &, const rclcpp::Duration & p) override { return up(p); }
  std::vector<hi::CommandInterface::SharedPtr> on_export_reference_interfaces_list() override
  {
    std::vector<hi::CommandInterface::SharedPtr> r;
    for (auto & i : d.refs) r.push_back(std::make_shared<hi::CommandInterface>(hi::InterfaceDescription(d.name, hi::InterfaceInfo(i, "double"))));
    return r;
  }
  std::vector<hi::StateInterface::SharedPtr> on_export_state_interfaces_list() override
  {
    std::vector<hi::StateInterface::SharedPtr> r;
    for (auto & i : d.outs) r.push_back(std::make_shared<hi::StateInterface>(hi::InterfaceDescription(d.name, hi::InterfaceInfo(i, "double"))));
    return r;
  }
  bool on_set_chained_mode(bool) override { return true; }
};
inline void register_controllers()
{
  stub::register_plugin<ci::ControllerInterface>("verif/Plain", [] { return new Plain(); });
  stub::register_plugin<ci::ChainableControllerInterface>("verif/Chain", [] { return new Chain(); });
  register_plugins();
  if (!rclcpp::ok()) rclcpp::init(0, nullptr);
}

// ---------------------------------------------------------------- the control loop runs where a service waits
struct Hook
{
  std::function<bool()> run;   // false: the control loop does not run
  bool in = false;
  pthread_t owner = pthread_self();
  std::exception_ptr pending;   // what the cycle found, where it cannot be thrown
  bool fire(bool may_throw = true)
  {
    if (!run || in || pending || !pthread_equal(pthread_self(), owner)) return false;
    in = true;
    bool r = false;
    try { r = run(); } catch (...) { in = false; if (may_throw) throw; pending = std::current_exception(); return false; }
    in = false;
    return r;
  }
  void check() { if (pending) std::rethrow_exception(std::exchange(pending, nullptr)); }
};
inline Hook & hook() { static Hook h; return h; }

class CM : public controller_manager::ControllerManager
{
public:
  using controller_manager::ControllerManager::ControllerManager;
  using controller_manager::ControllerManager::cleanup_controller_service_cb;
  using controller_manager::ControllerManager::configure_controller_service_cb;
  using controller_manager::ControllerManager::list_controller_types_srv_cb;
  using controller_manager::ControllerManager::list_controllers_srv_cb;
  using controller_manager::ControllerManager::list_hardware_components_srv_cb;
  using controller_manager::ControllerManager::list_hardware_interfaces_srv_cb;
  using controller_manager::ControllerManager::load_controller_service_cb;
  using controller_manager::ControllerManager::reload_controller_libraries_service_cb;
  using controller_manager::ControllerManager::set_hardware_component_state_srv_cb;
  using controller_manager::ControllerManager::switch_controller_service_cb;
  using controller_manager::ControllerManager::unload_controller_service_cb;
  using controller_manager::ControllerManager::resource_manager_;
};

// ---------------------------------------------------------------- reference model
struct MCtrl
{
  Ctrl d;
  bool loaded = false;
  int state = 0;
  bool chained = false, imported = false;
  std::set<std::string> hold, hold_s;
  bool active() const { return loaded && state == LS::PRIMARY_STATE_ACTIVE; }
  bool inactive() const { return loaded && state == LS::PRIMARY_STATE_INACTIVE; }
  bool configured() const { return active() || inactive(); }
};
struct CModel
{
  rmh::Model hw;
  std::map<std::string, MCtrl> cs;
  Names order;  // names in the order of definition
  MCtrl & at(const std::string & n) { return cs.at(n); }
  const MCtrl * owner_of(const std::string & itf) const  // the loaded controller an interface belongs to
  {
    auto it = cs.find(itf.substr(0, itf.find('/')));
    return it != cs.end() && it->second.loaded ? &it->second : nullptr;
  }
  static Names resolve(const Cfg & f, const std::set<std::string> & avail)
  {
    Names r;
    switch (f.type) {
      case IT::NONE: break;
      case IT::INDIVIDUAL: return f.names;
      case IT::ALL: r.assign(avail.begin(), avail.end()); break;
      case IT::INDIVIDUAL_BEST_EFFORT: for (auto & n : f.names) if (avail.count(n)) r.push_back(n); break;
      case IT::REGEX: for (auto & p : f.names) for (auto & n : avail) if (std::regex_match(n, std::regex(p))) r.push_back(n); break;
    }
    return r;
  }
  Names needs(const MCtrl & c) const { return resolve(c.d.cmd, hw.avail_c); }
  Names needs_s(const MCtrl & c) const { return resolve(c.d.st, hw.avail_s); }
  Names refs(const MCtrl & c) const { Names r; for (auto & i : c.d.refs) r.push_back(c.d.name + "/" + i); return r; }
  Names outs(const MCtrl & c) const { Names r; for (auto & i : c.d.outs) r.push_back(c.d.name + "/" + i); return r; }
  // what a controller exports is loaned: it has to stay
  bool in_use(const MCtrl & c) const
  {
    if (!c.imported) return false;
    for (auto & [n, x] : cs) {
      for (auto & i : refs(c)) if (x.hold.count(i)) return true;
      for (auto & i : outs(c)) if (x.hold_s.count(i)) return true;
    }
    return false;
  }
  // controllers whose exported interfaces c depends on by name
  std::set<std::string> following(const MCtrl & c, bool cmd, bool st) const
  {
    std::set<std::string> r;
    auto add = [&](const Cfg & f) { if (f.type == IT::INDIVIDUAL) for (auto & i : f.names) if (auto * o = owner_of(i)) r.insert(o->d.name); };
    if (cmd) add(c.d.cmd);
    if (st) add(c.d.st);
    return r;
  }
  std::set<std::string> preceding(const MCtrl & f) const
  {
    std::set<std::string> r;
    for (auto & [n, c] : cs) if (c.configured() && following(c, true, true).count(f.d.name)) r.insert(n);
    return r;
  }
  std::set<std::string> group(const std::string & n) const  // connected by exported interfaces
  {
    std::set<std::string> r{n};
    for (bool more = true; more;) {
      more = false;
      for (auto & x : Names(r.begin(), r.end())) {
        auto add = [&](const std::set<std::string> & s) { for (auto & y : s) if (cs.at(y).configured() && r.insert(y).second) more = true; };
        add(following(cs.at(x), true, true));
        add(preceding(cs.at(x)));
      }
    }
    return r;
  }
  void export_avail(MCtrl & c, bool on)
  {
    if (!c.imported) return;
    for (auto & i : refs(c)) if (on) hw.avail_c.insert(i); else hw.avail_c.erase(i);
    for (auto & i : outs(c)) if (on) hw.avail_s.insert(i); else hw.avail_s.erase(i);
  }
  void import(MCtrl & c, bool on)
  {
    if (!c.d.chain) return;
    export_avail(c, false);
    c.imported = on;
    for (auto & i : refs(c)) if (on) hw.claimed[i] = false; else hw.claimed.erase(i);
  }
  void release(MCtrl & c)
  {
    for (auto & i : c.hold) if (hw.claimed.count(i)) hw.claimed[i] = false;
    c.hold.clear();
    c.hold_s.clear();
  }
  int use(MCtrl & c, const std::string & cb)
  {
    auto & q = W().q[c.d.name];
    if (q.empty()) throw Mismatch{"callback", c.d.name + ": expected callback " + cb + ", none was made"};
    Ev e = q.front();
    if (e.cb != cb) throw Mismatch{"callback", c.d.name + ": expected callback " + cb + ", got " + e.cb};
    q.pop_front();
    return e.ans;
  }
  void on_error(MCtrl & c)
  {
    int a = use(c, "on_error");
    c.state = a == OK ? LS::PRIMARY_STATE_UNCONFIGURED : LS::PRIMARY_STATE_FINALIZED;
    release(c);
  }
  bool go(MCtrl & c, const char * cb, int target, int back)
  {
    int a = use(c, cb);
    if (a == OK) c.state = target;
    else if (a == FAIL && back) c.state = back;
    else on_error(c);
    return c.state == target;
  }
  std::set<std::string> refused;  // controllers which refused to be deactivated and are active since
  bool failed = false;            // a controller of the current operation could not be activated or a hardware failed
  void deactivate(MCtrl & c)
  {
    if (!c.active()) return;
    go(c, "deactivate", LS::PRIMARY_STATE_INACTIVE, LS::PRIMARY_STATE_ACTIVE);
    if (c.active()) { refused.insert(c.d.name); return; }
    refused.erase(c.d.name);
    release(c);
    c.chained = false;
    export_avail(c, false);
  }
  bool activate(MCtrl & c, bool * called)
  {
    *called = false;
    auto n = needs(c), s = needs_s(c);
    for (auto & i : n) if (!hw.avail_c.count(i) || hw.claimed[i]) return false;
    for (auto & i : s) if (!hw.avail_s.count(i)) return false;
    *called = true;
    for (auto & i : n) { hw.claimed[i] = true; c.hold.insert(i); }
    c.hold_s.insert(s.begin(), s.end());
    // the deactivation of a restarted controller may have left it unconfigured or finalized
    bool ok = c.inactive() && go(c, "activate", LS::PRIMARY_STATE_ACTIVE, LS::PRIMARY_STATE_INACTIVE);
    if (!ok) release(c);
    return ok;
  }
  // the activation half of a switch; false if a controller could not be activated
  bool activate_all(const Names & A, bool strict)
  {
    bool all = true;
    Names lost, started;
    for (auto & n : A) if (at(n).d.chain) export_avail(at(n), true);
    for (auto & n : A) {
      bool called;
      Names need = needs(at(n));
      started.insert(started.end(), need.begin(), need.end());
      if (at(n).active()) continue;
      if (!activate(at(n), &called)) {
        all = false;
        failed = true;
        if (called) lost.insert(lost.end(), need.begin(), need.end());
        at(n).chained = false;
        export_avail(at(n), false);
      }
    }
    if (!all && strict) {
      for (auto & n : A) if (at(n).active()) deactivate(at(n));
      switch_hw({}, started);
    } else if (!lost.empty()) switch_hw({}, lost);
    return all;
  }
  // tell the hardware what it has to start and to stop; what does not exist any more needs no stop
  void switch_hw(Names start, Names stop)
  {
    start.erase(std::remove_if(start.begin(), start.end(), [&](const std::string & i) { return !hw.avail_c.count(i); }), start.end());
    stop.erase(std::remove_if(stop.begin(), stop.end(), [&](const std::string & i) { return !hw.avail_c.count(i); }), stop.end());
    if (hw.mode_switch("prepare", start, stop)) hw.mode_switch("perform", start, stop);
  }
  bool names_chained(const std::string & f, const std::set<std::string> & active) const
  {
    for (auto & n : active) if (following(cs.at(n), true, false).count(f)) return true;
    return false;
  }
  // chained mode is a consequence of who is active
  bool must_be_chained(const MCtrl & f) const
  {
    for (auto & [n, c] : cs) if (c.active()) for (auto & i : refs(f)) if (c.hold.count(i)) return true;
    return false;
  }
  struct Plan { bool error = false, noop = false; Names A, D, restart; std::map<std::string, bool> chained; std::string why, cat; };
  bool fallback_ok(const MCtrl & c)
  {
    for (auto & n : c.d.fallback) {
      auto it = cs.find(n);
      if (it == cs.end() || !it->second.configured()) return false;
      auto check = [&](const Names & l, const std::set<std::string> & avail, auto exported) {
        for (auto & i : l) {
          if (avail.count(i)) continue;
          auto * o = owner_of(i);
          if (!o) return false;
          if (o->inactive()) {
            if (!has(c.d.fallback, o->d.name)) return false;
            if (!has(exported(*o), i)) return false;
          }
        }
        return true;
      };
      if (!check(needs(it->second), hw.avail_c, [&](const MCtrl & o) { return refs(o); })) return false;
      if (!check(needs_s(it->second), hw.avail_s, [&](const MCtrl & o) { return outs(o); })) return false;
    }
    return true;
  }
  Plan plan(const Names & A0, const Names & D0, bool strict)
  {
    Plan p;
    auto reject = [&](const std::string & w, const char * cat) { p.error = true; p.why = w; p.cat = cat; p.A.clear(); p.D.clear(); return p; };
    for (auto * l : {&D0, &A0}) {
      Names known;
      for (auto & n : *l) if (cs.count(n) && cs.at(n).loaded) { if (!has(known, n)) known.push_back(n); } else if (strict) return reject("unknown controller " + n, "unknown");
      if (known.empty() && !l->empty()) return reject("only unknown controllers", "unknown");
      (l == &D0 ? p.D : p.A) = known;
    }
    std::function<bool(const MCtrl &, int)> following_ok = [&](const MCtrl & c, int depth) {
      // one which takes whatever is available depends on nothing, but what it would use has to be consistent
      std::set<std::string> used;
      for (auto * l : {&c.d.cmd, &c.d.st}) if (l->type == IT::ALL)
        for (auto & i : resolve(*l, l == &c.d.cmd ? hw.avail_c : hw.avail_s)) if (auto * o = owner_of(i)) if (o->active() && !has(p.D, o->d.name)) used.insert(o->d.name);
      for (auto & f : used) if (depth > 8 || !following_ok(at(f), depth + 1)) return false;
      for (auto & f : following(c, true, true)) {
        auto & x = at(f);
        if (!x.d.chain) return false;
        if (x.active()) { if (has(p.D, f)) return false; }
        else if (!x.inactive() || !has(p.A, f)) return false;
        if (depth > 8 || !following_ok(x, depth + 1)) return false;
      }
      return true;
    };
    for (bool again = true; again;) {
      again = false;
      for (auto & n : Names(p.A)) {
        auto & x = at(n);
        bool ok = x.active() ? has(p.D, n) : x.inactive();
        if (!ok && strict) return reject(n + " is " + sn(x.state), "state");
        if (ok && !x.active()) ok = following_ok(x, 0);
        if (ok) ok = fallback_ok(x);
        if (!ok) {
          if (strict) return reject("cannot activate " + n, "chain");
          p.A.erase(std::find(p.A.begin(), p.A.end(), n));
          again = true;
        }
      }
      for (auto & n : Names(p.D)) {
        auto & x = at(n);
        bool ok = x.active();
        if (!ok && strict) return reject(n + " is " + sn(x.state), "state");
        if (ok && x.d.chain) for (auto & q : preceding(x)) {
          if (at(q).inactive() && has(p.A, q)) ok = false;
          if (at(q).active() && !has(p.D, q)) ok = false;
          if (at(q).active() && has(p.A, q) && !has(p.A, n)) ok = false;  // q is restarted
        }
        if (!ok) {
          if (strict) return reject("cannot deactivate " + n, "chain");
          p.D.erase(std::find(p.D.begin(), p.D.end(), n));
          again = true;
        }
      }
    }
    if (p.A.empty() && p.D.empty()) { p.noop = true; return p; }
    std::set<std::string> after;
    for (auto & [n, c] : cs) if ((c.active() && !has(p.D, n)) || has(p.A, n)) after.insert(n);
    for (auto & n : after) if (at(n).d.chain) {
      p.chained[n] = names_chained(n, after);
      if (at(n).active() && !has(p.D, n) && at(n).chained != p.chained[n]) p.restart.push_back(n);
    }
    // interfaces
    std::set<std::string> avail = hw.avail_c, avs = hw.avail_s, freed, taken;
    for (auto & n : p.A) { for (auto & i : refs(at(n))) if (at(n).imported) avail.insert(i); for (auto & i : outs(at(n))) if (at(n).imported) avs.insert(i); }
    for (auto & n : p.D) if (!has(p.A, n)) freed.insert(at(n).hold.begin(), at(n).hold.end());
    for (auto & n : p.A) if (has(p.D, n)) taken.insert(at(n).hold.begin(), at(n).hold.end());
    for (auto & n : p.restart) taken.insert(at(n).hold.begin(), at(n).hold.end());
    for (auto & n : p.A) {
      if (has(p.D, n)) continue;
      for (auto & i : resolve(at(n).d.cmd, avail)) {
        if (!avail.count(i)) return reject(i + " is not available", "unavailable");
        if (taken.count(i) || (hw.claimed[i] && !freed.count(i))) return reject(i + " is used by another controller", "conflict");
        taken.insert(i);
      }
      for (auto & i : resolve(at(n).d.st, avs)) if (!avs.count(i)) return reject(i + " is not available", "unavailable");
    }
    return p;
  }
  bool apply(Plan & p, bool strict, bool loop_runs)
  {
    Names A = p.A, D = p.D, start, stop;
    for (auto & n : p.restart) { A.push_back(n); D.push_back(n); }
    std::set<std::string> before = hw.avail_c;
    for (auto & n : p.A) for (auto & i : refs(at(n))) if (at(n).imported) hw.avail_c.insert(i);
    // in the order of the list of controllers, which the list comparison does not see
    for (auto & n : A) for (auto & i : needs(at(n))) start.push_back(i);
    for (auto & n : D) for (auto & i : needs(at(n))) stop.push_back(i);
    bool ok = hw.mode_switch("prepare", start, stop) && loop_runs && hw.mode_switch("perform", start, stop);
    hw.avail_c = before;
    if (!ok) return false;
    for (auto & n : D) deactivate(at(n));
    for (auto & n : A) if (p.chained.count(n) && !at(n).active()) at(n).chained = p.chained[n];
    activate_all(A, strict);
    for (auto & n : A) if (!at(n).active()) return false;
    for (auto & n : D) if (!has(A, n) && at(n).active()) return false;
    return true;
  }
  // the active ones of some controllers and of the chains they belong to
  std::set<std::string> chains(const std::set<std::string> & who)
  {
    std::set<std::string> r;
    for (auto & n : who) if (at(n).active()) for (auto & x : group(n)) if (at(x).active()) r.insert(x);
    return r;
  }
  void stop_all(const std::set<std::string> & who, const Names & start_of = {})
  {
    Names start, stop;
    for (auto & n : who) for (auto & i : needs(at(n))) stop.push_back(i);
    for (auto & n : start_of) if (at(n).configured()) for (auto & i : needs(at(n))) start.push_back(i);
    switch_hw(start, stop);
    for (auto & n : who) deactivate(at(n));
  }
  // a controller's update failed
  void update_failed(const Names & failing)
  {
    failed = true;
    auto stop = chains({failing.begin(), failing.end()});
    Names fb;
    for (auto & n : order) if (stop.count(n)) for (auto & f : at(n).d.fallback) if (!has(fb, f)) fb.push_back(f);
    std::set<std::string> users;
    for (auto & f : fb) for (auto & i : needs(at(f))) for (auto & [n, c] : cs) if (c.active() && has(needs(c), i)) users.insert(n);
    for (auto & n : chains(users)) stop.insert(n);
    stop_all(stop, fb);
    for (auto & f : fb) for (auto & g : following(at(f), true, false)) if (has(fb, g) && at(g).inactive()) at(g).chained = true;
    if (!fb.empty()) activate_all(fb, true);
  }
  // hardware failed or deactivated itself
  void hw_failed(const Names & hws, bool deactivated)
  {
    if (hws.empty()) return;
    failed = true;
    std::set<std::string> users;
    for (auto & h : hws) {
      auto & x = hw.comp(h);
      for (auto & [n, c] : cs) {
        if (!c.active()) continue;
        bool uses = false;
        for (auto & i : c.hold) if (has(x.cmds, i)) uses = true;
        for (auto & i : c.hold_s) if (has(x.states, i)) uses = true;
        // one which only reads can go on while the hardware is inactive
        if (uses && (!deactivated || !c.hold.empty())) users.insert(n);
      }
    }
    auto stop = chains(users);
    if (!stop.empty()) stop_all(stop);
  }
  std::string str() const
  {
    std::string s;
    for (auto & n : order) {
      auto & c = cs.at(n);
      s += n + "=" + (c.loaded ? sn(c.state) : "-") + (c.chained ? "/chained " : " ") + (refused.count(n) ? "! " : "");
      if (c.imported && !c.active()) s += "x ";
    }
    return s + hw.str();
  }
};

// ---------------------------------------------------------------- the real controller manager beside the model
struct Setup
{
  std::vector<Comp> hw;
  std::vector<Ctrl> ctrls;
  int rate = 100;
  std::vector<rclcpp::Parameter> params;
  Names load_order;       // default: order of definition
  bool load = true, configure = true;
  Names skip_load, skip_configure;
};
struct Rig
{
  mc::Ctx & c;
  Setup s;
  std::shared_ptr<rclcpp::Executor> ex;
  std::shared_ptr<CM> cm;
  CModel m;
  double now = 100.0, dt = 0.01;
  std::string op = "setup";
  bool loop_runs = true;
  ci::return_type last_update = ci::return_type::OK;
  int cycles = 0;
  std::set<std::string> switching;   // controllers named by the non-immediate switch which is going on
  bool free_switching = false;
  struct Timing { bool first = true; double last = 0; };
  std::map<std::string, Timing> timing;
  std::set<std::pair<std::string, std::string>> edges;  // must be updated before
  [[noreturn]] void fail(const std::string & kind, const std::string & msg) { hook().run = nullptr; c.fail(op + ":" + kind, msg + "; expected: " + m.str()); }

  Rig(mc::Ctx & ctx, const Setup & setup) : c(ctx), s(setup)
  {
    W().c = nullptr;
    W().budget = 0;
    W().drop();
    W().mute.clear();
    W().on_event = [this](const Ev & e) { note_event(e); };
    hook().run = nullptr;
    hook().pending = nullptr;
    hook().in = false;
    hook().owner = pthread_self();
    stub::set_virtual_time(std::llround(now * 1e9));
    defs().clear();
    live().clear();
    for (auto & d : s.ctrls) { defs()[d.name] = d; m.order.push_back(d.name); m.cs[d.name].d = d; }
    m.hw.init(s.hw, s.rate);
    m.hw.now = now;
    ex = std::make_shared<rclcpp::executors::SingleThreadedExecutor>();
    auto opt = controller_manager::get_cm_node_options();
    std::vector<rclcpp::Parameter> ps = s.params;
    ps.emplace_back("update_rate", s.rate);
    for (auto & d : s.ctrls) {
      ps.emplace_back(d.name + ".type", std::string(d.chain ? "verif/Chain" : "verif/Plain"));
      if (!d.fallback.empty()) ps.emplace_back(d.name + ".fallback_controllers", d.fallback);
      Names args;
      if (d.rate) { args.push_back("-p"); args.push_back("update_rate:=" + std::to_string(d.rate)); }
      if (d.async) { args.push_back("-p"); args.push_back("is_async:=true"); }
      if (!args.empty()) ps.emplace_back(d.name + ".node_options_args", args);
    }
    opt.parameter_overrides(ps);
    cm = std::make_shared<CM>(ex, s.hw.empty() ? std::string() : urdf(s.hw), false, "controller_manager", "", opt);
    if (!s.hw.empty()) for (auto & x : m.hw.cs) { x.state = LS::PRIMARY_STATE_ACTIVE; m.hw.set_avail(x); }
    W().drop();
    hook().run = [this] { if (!loop_runs) return false; cycle_raw(); return true; };
    if (s.load) for (auto & n : s.load_order.empty() ? m.order : s.load_order) if (!has(s.skip_load, n)) load(n);
    if (s.configure) for (auto & n : s.load_order.empty() ? m.order : s.load_order) if (!has(s.skip_load, n) && !has(s.skip_configure, n)) configure(n);
    W().drop();
    W().c = &c;
    find_edges();
  }
  ~Rig()
  {
    W().c = nullptr;
    W().budget = 0;
    W().on_event = nullptr;
    cm.reset();
    hook().run = nullptr;
  }
  void find_edges()
  {
    edges.clear();
    auto add = [&](const std::string & a, const std::string & b) { edges.insert({a, b}); };
    for (auto & [n, x] : m.cs) {
      if (!x.configured()) continue;
      for (auto & f : m.following(x, true, false)) add(n, f);
      for (auto & f : m.following(x, false, true)) add(f, n);
    }
    // drop everything when the dependencies are circular
    std::map<std::string, std::set<std::string>> reach;
    for (auto & [a, b] : edges) reach[a].insert(b);
    for (size_t i = 0; i < m.cs.size(); ++i) for (auto & [a, r] : reach) for (auto & b : Names(r.begin(), r.end())) if (reach.count(b)) r.insert(reach[b].begin(), reach[b].end());
    for (auto & [a, r] : reach) if (r.count(a)) { edges.clear(); return; }
  }
  // one cycle of the control loop; what every cycle must do is checked here
  void cycle_raw()
  {
    now += dt;
    m.hw.now = now;
    stub::set_virtual_time(std::llround(now * 1e9));
    const rclcpp::Time t(std::llround(now * 1e9), cm->get_trigger_clock()->get_clock_type());
    const auto p = rclcpp::Duration::from_nanoseconds(std::llround(dt * 1e9));
    std::map<std::string, bool> on;
    ++cycles;
    cm->read(t, p);
    for (auto & [n, x] : live()) on[n] = x->state() == LS::PRIMARY_STATE_ACTIVE;
    const size_t mark = W().all.size();
    last_update = cm->update(t, p);
    const size_t mark2 = W().all.size();
    cm->write(t, p);
    std::map<std::string, int> seen;
    Names sequence;
    for (size_t i = mark; i < mark2; ++i) {
      auto & e = W().all[i];
      if (e.cb != "update") continue;
      if (!on.count(e.comp) || !on[e.comp]) fail("update", e.comp + " was updated although it is not active");
      if (seen[e.comp]++) fail("update", e.comp + " was updated twice in one cycle");
      for (auto & before : sequence) if (edges.count({e.comp, before})) fail("order", before + " was updated before " + e.comp);
      sequence.push_back(e.comp);
      double want;
      if (!due(e.comp, want)) fail("rate", e.comp + mc::fmt(" was updated %g s after its last update", now - timing[e.comp].last));
      if (std::fabs(e.period - want) > 1e-6) fail("period", e.comp + mc::fmt(" was updated with period %g instead of %g", e.period, want));
      timing[e.comp] = {false, now};
    }
    for (auto & [n, a] : on) {
      if (!a || seen.count(n) || free_switching || switching.count(n)) continue;
      double want;
      if (due(n, want)) fail("update", n + " is active and was not updated");
    }
    for (size_t i = mark2; i < W().all.size(); ++i) { if (W().all[i].cb == "update") fail("update", "update called from write"); }
    // updates are checked above
    for (auto & [n, q] : W().q) q.erase(std::remove_if(q.begin(), q.end(), [](const Ev & e) { return e.cb == "update" && e.ans == OK; }), q.end());
    if (std::count(W().mute.begin(), W().mute.end(), "read")) for (auto & [n, q] : W().q) q.erase(std::remove_if(q.begin(), q.end(), [](const Ev & e) { return e.cb == "read" || e.cb == "write"; }), q.end());
  }
  void note_event(const Ev & e) { if (e.cb == "activate") timing[e.comp] = {true, 0}; }
  bool due(const std::string & n, double & period)
  {
    const int r = m.cs.count(n) ? m.at(n).d.rate : 0;
    auto & t = timing[n];
    double ach = s.rate;
    if (r > 0 && r < s.rate) ach = s.rate % r == 0 ? r : std::floor(static_cast<double>(s.rate) / std::round(static_cast<double>(s.rate) / r));
    if (ach >= s.rate) { period = t.first ? dt : now - t.last; return true; }
    period = t.first ? 1.0 / ach : now - t.last;
    const double e0 = std::fabs(period * ach - 1.0), e1 = std::fabs((period + 1.0 / s.rate) * ach - 1.0);
    return t.first || e0 <= e1 + 1e-9;
  }
  template <class F>
  auto model(const std::string & what, F f) -> decltype(f())
  {
    hook().check();
    try {
      auto r = f();
      m.hw.drained();
      W().drop();
      return r;
    } catch (Mismatch & x) {
      W().drop();
      fail(x.key, what + ": " + x.msg);
    }
  }
  void load(const std::string & n)
  {
    auto r = cm->load_controller(n);
    if (!r) fail("load", "could not load " + n);
    auto & x = m.at(n);
    x.loaded = true;
    x.state = LS::PRIMARY_STATE_UNCONFIGURED;
  }
  void configure(const std::string & n)
  {
    if (cm->configure_controller(n) != ci::return_type::OK) fail("configure", "could not configure " + n);
    auto & x = m.at(n);
    x.state = LS::PRIMARY_STATE_INACTIVE;
    m.import(x, true);
    find_edges();
  }
  static std::string lists(const Names & A, const Names & D, bool strict, bool asap)
  {
    std::string t = "switch start[";
    for (auto & n : A) t += n + " ";
    t += "] stop[";
    for (auto & n : D) t += n + " ";
    return t + (strict ? "] strict" : "] best effort") + (asap ? " asap" : "");
  }
  int service = 0;   // how to ask: 0 function, 1 service, 2 service with an unspecified strictness, 3 with AUTO, 4 with FORCE_AUTO
  bool sw(const Names & A, const Names & D, bool strict, bool asap = true, bool runs = true)
  {
    op = "switch";
    const std::string what = lists(A, D, strict, asap);
    c.note(what + (runs ? "" : " (control loop stopped)"));
    c.step();
    auto p = m.plan(A, D, strict);
    loop_runs = runs;
    m.failed = false;
    auto mute = W().mute;
    W().mute.insert("read"); W().mute.insert("write"); W().mute.insert("update");
    free_switching = !asap;
    ci::return_type r;
    if (service) {
      auto q = std::make_shared<SwitchController::Request>();
      auto a = std::make_shared<SwitchController::Response>();
      a->ok = p.error;
      q->activate_controllers = A;
      q->deactivate_controllers = D;
      q->strictness = service == 1 ? (strict ? STRICT : BEST) : service == 2 ? 0 : service == 3 ? SwitchController::Request::AUTO : SwitchController::Request::FORCE_AUTO;
      q->activate_asap = asap;
      if (!runs) q->timeout.nanosec = 1000000;
      cm->switch_controller_service_cb(q, a);
      r = a->ok ? ci::return_type::OK : ci::return_type::ERROR;
    } else r = cm->switch_controller(A, D, strict ? STRICT : BEST, asap, runs ? rclcpp::Duration(0, 0) : rclcpp::Duration(0, 1000000));
    free_switching = false;
    loop_runs = true;
    W().mute = mute;
    hook().check();
    bool want = true;
    if (p.error) want = false;
    else if (!p.noop) want = model(what, [&] { return m.apply(p, strict, runs); });
    if (p.error || p.noop) {
      for (auto & e : W().all) if (e.cb != "update" && e.cb != "read" && e.cb != "write") fail("rejected-acts", what + " must do nothing (" + (p.error ? p.why : "nothing to do") + "), but called " + e.comp + "." + e.cb);
      W().drop();
    }
    if ((r == ci::return_type::OK) != want) fail(want ? "refused" : "accepted" + (p.cat.empty() ? "" : "-" + p.cat), what + (want ? " was refused" : " was accepted") + (p.why.empty() ? "" : ", " + p.why));
    verify(what);
    return want;
  }
  // a cycle in which callbacks of controllers and of the hardware may fail
  void cycle()
  {
    op = "cycle";
    c.note("cycle");
    c.step();
    m.failed = false;
    const size_t mark = W().all.size();
    cycle_raw();
    Names failing;
    for (size_t i = mark; i < W().all.size(); ++i) { auto & e = W().all[i]; if (e.cb == "update" && e.ans != OK) failing.push_back(e.comp); }
    for (auto & [n, q] : W().q) q.erase(std::remove_if(q.begin(), q.end(), [](const Ev & e) { return e.cb == "update"; }), q.end());
    const bool io = !W().mute.count("read");
    model("cycle", [&] {
      if (io) { auto r = m.hw.read(now, dt); if (r.result != OK) m.hw_failed(r.failed, false); }
      if (!failing.empty()) m.update_failed(failing);
      if (io) { auto r = m.hw.write(now, dt); if (r.result != OK) m.hw_failed(r.failed, r.result == DEACT); }
      return 0;
    });
    if ((last_update == ci::return_type::OK) != failing.empty()) fail("update-result", "update returned success although a controller failed, or an error although none did");
    verify("cycle");
  }
  void verify(const std::string & what)
  {
    // a controller which refuses to be deactivated: its interfaces are taken away all the same
    for (auto & n : m.order) {
      auto & x = m.at(n);
      auto it = live().find(n);
      if (x.loaded != (it != live().end())) fail("loaded", what + ": " + n + (x.loaded ? " is not loaded" : " is still loaded"));
      if (!x.loaded) continue;
      auto * q = it->second;
      if (q->state() != x.state) fail("state", what + ": " + n + " is " + sn(q->state()) + ", must be " + sn(x.state));
      if (q->base->get_lifecycle_id() != x.state) fail("state", what + ": " + n + " reports state id " + sn(q->base->get_lifecycle_id()));
      Names cl = q->commands(), sl = q->states();
      if (x.active() && x.d.cmd.type == IT::INDIVIDUAL ? cl != x.d.cmd.names : std::set<std::string>(cl.begin(), cl.end()) != x.hold || cl.size() != x.hold.size()) fail("loans", what + ": " + n + " holds command interfaces " + list(cl) + " instead of " + list({x.hold.begin(), x.hold.end()}));
      else if (std::set<std::string>(sl.begin(), sl.end()) != x.hold_s || sl.size() != x.hold_s.size()) fail("loans", what + ": " + n + " holds state interfaces " + list(sl) + " instead of " + list({x.hold_s.begin(), x.hold_s.end()}));
      if (x.d.chain) {
        const bool must = m.must_be_chained(x);
        // one which refuses to be restarted cannot change its mode
        bool stuck = m.refused.count(n);
        for (auto & o : m.refused) for (auto & i : m.refs(x)) if (m.at(o).hold.count(i)) stuck = true;
        if (stuck) x.chained = q->base->is_in_chained_mode();
        else if (q->base->is_in_chained_mode() != must) fail(m.failed ? "failure-chained" : must ? "not-chained" : "chained", what + ": " + n + (must ? " is not in chained mode although its references are used" : " is in chained mode although nobody uses its references"));
        else x.chained = must;
      }
      if (x.active() && !m.refused.count(n)) for (auto & f : m.following(x, true, true)) if (!m.at(f).active()) fail(m.failed ? "failure-broken-chain" : "broken-chain", what + ": " + n + " is active, " + f + " which it depends on is not");
    }
    auto cmp = [&](const char * w, const Names & got, const std::set<std::string> & want) {
      std::set<std::string> g(got.begin(), got.end());
      if (g != want) {
        std::string d;
        for (auto & i : g) if (!want.count(i)) d += " +" + i;
        for (auto & i : want) if (!g.count(i)) d += " -" + i;
        fail("availability", what + ": available " + w + " interfaces differ:" + d);
      }
    };
    cmp("command", cm->resource_manager_->available_command_interfaces(), m.hw.avail_c);
    cmp("state", cm->resource_manager_->available_state_interfaces(), m.hw.avail_s);
    for (auto & [i, v] : m.hw.claimed) if (m.hw.avail_c.count(i) && cm->resource_manager_->command_interface_is_claimed(i) != v) fail("claimed", what + ": " + i + (v ? " is not claimed" : " is claimed"));
  }
};
}  // namespace cmh
// interposed in the executable: where the code under test waits, the control loop runs
#if !defined(CMH_NO_HOOKS) && !defined(VERIF_MC)
extern "C" inline int cmh_real(const char * n, void ** f) { if (!*f) *f = dlsym(RTLD_NEXT, n); return 0; }
extern "C" int pthread_cond_clockwait(pthread_cond_t * cv, pthread_mutex_t * mu, clockid_t cl, const struct timespec * ts)
{
  if (cmh::hook().run && !cmh::hook().in && pthread_equal(pthread_self(), cmh::hook().owner)) {
    pthread_mutex_unlock(mu);
    const bool r = cmh::hook().fire();
    pthread_mutex_lock(mu);
    if (r) return 0;
  }
  static void * f = nullptr;
  cmh_real("pthread_cond_clockwait", &f);
  return reinterpret_cast<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>(f)(cv, mu, cl, ts);
}
extern "C" int sched_yield() noexcept { cmh::hook().fire(false); return 0; }
extern "C" int nanosleep(const struct timespec * t, struct timespec * rem)
{
  if (cmh::hook().fire(false)) return 0;
  return clock_nanosleep(CLOCK_REALTIME, 0, t, rem) == 0 ? 0 : -1;
}
#endif
