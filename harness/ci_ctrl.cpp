// I01 I02: the base classes of controllers, driven directly.
#include <cmath>
#include "controller_interface/chainable_controller_interface.hpp"
#include "controller_interface/controller_interface.hpp"
#include "controller_interface/helpers.hpp"
#include "controller_interface/tf_prefix.hpp"
#include "rm_common.hpp"
using namespace rmh;  // NOLINT
namespace ci = controller_interface;
namespace
{
using Names = std::vector<std::string>;
const char * label(int s)
{
  switch (s) {
    case LS::PRIMARY_STATE_UNCONFIGURED: return "unconfigured";
    case LS::PRIMARY_STATE_INACTIVE: return "inactive";
    case LS::PRIMARY_STATE_ACTIVE: return "active";
    case LS::PRIMARY_STATE_FINALIZED: return "finalized";
  }
  return "?";
}
mc::Check::Opt opt(mc::Check & k, const char * what, int split, bool caching = false)
{
  mc::Check::Opt o;
  o.split = split;
  o.caching = caching;
  o.cap_s = k.q(150, 1200);
  o.what = what;
  return o;
}
// what callbacks see of the published state
std::string seen_state;
template <class Base>
class Common : public Base
{
public:
  using Base::command_interfaces_;
  using Base::state_interfaces_;
  ci::InterfaceConfiguration command_interface_configuration() const override { return {}; }
  ci::InterfaceConfiguration state_interface_configuration() const override { return {}; }
  ci::CallbackReturn on_init() override { return cr(W().ask("c", "init", {OK, FAIL, ERR})); }
  ci::CallbackReturn life(const char * cb)
  {
    if (this->get_lifecycle_id() != this->get_lifecycle_state().id()) seen_state = mc::fmt("in the callback %s the published state is %d instead of %d", cb, this->get_lifecycle_id(), this->get_lifecycle_state().id());
    return cr(W().ask("c", cb, std::string(cb) == "on_error" ? std::vector<int>{OK, FAIL, ERR} : std::vector<int>{OK, FAIL, ERR, THROW}));
  }
  ci::CallbackReturn on_configure(const rclcpp_lifecycle::State &) override { return life("configure"); }
  ci::CallbackReturn on_activate(const rclcpp_lifecycle::State &) override { return life("activate"); }
  ci::CallbackReturn on_deactivate(const rclcpp_lifecycle::State &) override { return life("deactivate"); }
  ci::CallbackReturn on_cleanup(const rclcpp_lifecycle::State &) override { return life("cleanup"); }
  ci::CallbackReturn on_shutdown(const rclcpp_lifecycle::State &) override { return life("shutdown"); }
  ci::CallbackReturn on_error(const rclcpp_lifecycle::State &) override { return life("on_error"); }
};
class Plain : public Common<ci::ControllerInterface>
{
public:
  ci::return_type update(const rclcpp::Time & t, const rclcpp::Duration & p) override
  {
    time = t.nanoseconds();
    period = p.nanoseconds();
    int a = W().ask("c", "update", {OK, ERR, THROW});
    boom(a);
    return a == OK ? ci::return_type::OK : ci::return_type::ERROR;
  }
  int64_t time = 0, period = 0;
};

// ---- I01
void rates(mc::Check & k)
{
  k.explore("rates", [&](mc::Ctx & c) {
    static const std::vector<int> rate = {-1, 0, 1, 2, 3, 7, 10, 30, 33, 49, 50, 51, 60, 66, 67, 75, 99, 100, 101, 150, 400, 999, 1000, 1001, 2147483647};
    static const std::vector<unsigned> loop = {1, 3, 50, 100, 999, 1000};
    const unsigned cm = c.pick(loop);
    const bool twice = c.choose(2);   // both rates of the parameters are set, or the controller's only
    ci::ControllerInterfaceParams p;
    p.controller_name = "c";
    p.update_rate = cm;
    p.controller_manager_update_rate = twice ? cm : 0;
    const int first = c.choose(static_cast<int>(rate.size()) + 1) - 1;   // -1: not set
    if (first >= 0) p.node_options.parameter_overrides({rclcpp::Parameter("update_rate", rate[first])});
    Plain x;
    W().drop();
    if (x.init(p) != ci::return_type::OK) c.fail("init", "init failed");
    unsigned want = cm;
    auto check = [&](int r, const char * when) {
      const bool ok = x.configure().id() == LS::PRIMARY_STATE_INACTIVE;
      if (ok != (r >= 0)) c.fail("negative", mc::fmt("%s: configure with rate %d %s", when, r, ok ? "succeeded" : "failed"));
      if (r >= 0) want = r == 0 || r > static_cast<int64_t>(cm) ? cm : static_cast<unsigned>(std::floor(cm / std::round(static_cast<double>(cm) / r)));
      if (x.get_update_rate() != want) c.fail("rate", mc::fmt("%s: rate %u instead of %u for parameter %d in a loop of %u Hz", when, x.get_update_rate(), want, r, cm));
    };
    c.note(mc::fmt("loop %u Hz, parameter %d", cm, first < 0 ? -2 : rate[first]));
    check(first < 0 ? static_cast<int>(cm) : rate[first], "first configuration");
    for (int i = 0; i < k.q(1, 2); ++i) {
      const int r = c.pick(rate);
      const bool clean = c.choose(2);
      c.note(mc::fmt("parameter %d %s", r, clean ? "cleanup, configure" : ""));
      const bool was = x.get_lifecycle_state().id() == LS::PRIMARY_STATE_INACTIVE;
      if (was && clean) x.get_node()->cleanup();
      x.get_node()->set_parameter(rclcpp::Parameter("update_rate", r));
      if (x.get_update_rate() != want) c.fail("rate", "the rate changed without a new configuration");
      if (was && !clean) {   // a parameter change needs a new configuration
        x.configure();
        if (x.get_update_rate() != want) c.fail("rate", "the rate changed while the controller is inactive");
        continue;
      }
      check(r, "further configuration");
    }
    c.outcome(mc::fmt("%u %u", cm, want));
  }, opt(k, "every combination of 25 rate parameters with 6 loop rates over 2 (thorough: 3) configurations", 2));
}
void life(mc::Check & k)
{
  const int depth = k.q(9, 12), budget = k.q(3, 4);
  k.explore("life", [=](mc::Ctx & c) {
    W().drop();
    W().c = &c;
    W().budget = budget;
    ci::ControllerInterfaceParams p;
    p.controller_name = "c";
    p.update_rate = p.controller_manager_update_rate = 100;
    double cmd = 0, st = 0;
    auto hc = std::make_shared<hi::CommandInterface>("j", "position", &cmd);
    auto hs = std::make_shared<const hi::StateInterface>("j", "position", &st);
    int loans = 0;
    auto x = std::make_unique<Plain>();
    seen_state.clear();
    int state = LS::PRIMARY_STATE_UNCONFIGURED;
    auto use = [&](const char * cb) {
      auto & q = W().q["c"];
      if (q.empty() || q.front().cb != cb) c.fail("callback", std::string("expected callback ") + cb + ", got " + (q.empty() ? "none" : q.front().cb));
      int a = q.front().ans;
      q.pop_front();
      return a;
    };
    auto on_error = [&] { state = use("on_error") == OK ? LS::PRIMARY_STATE_UNCONFIGURED : LS::PRIMARY_STATE_FINALIZED; loans = 0; };
    auto go = [&](const char * cb, int to, int back) {
      int a = use(cb);
      if (a == OK) state = to; else if (a == FAIL) state = back; else on_error();
    };
    auto shut = [&] {
      int a = use("shutdown");
      if (a != THROW) loans = 0;
      if (a == OK || a == FAIL) state = LS::PRIMARY_STATE_FINALIZED;
      else on_error();
    };
    const bool ok = x->init(p) == ci::return_type::OK;
    const int ia = use("init");
    if (ok != (ia == OK)) c.fail("init", "the result of init");
    if (ia != OK) shut();
    auto verify = [&](const char * what) {
      if (!W().q["c"].empty()) c.fail("callback", std::string(what) + ": unexpected callback " + W().q["c"].front().cb);
      if (x->get_lifecycle_state().id() != state) c.fail("state", std::string(what) + ": state " + label(x->get_lifecycle_state().id()) + " instead of " + label(state));
      if (x->get_lifecycle_id() != state) c.fail("published", std::string(what) + mc::fmt(": published state %d instead of %d", x->get_lifecycle_id(), state));
      if (!seen_state.empty()) c.fail("published", seen_state);
      if (static_cast<int>(x->command_interfaces_.size()) != loans || static_cast<int>(x->state_interfaces_.size()) != loans) c.fail("loans", std::string(what) + mc::fmt(": holds %zu interfaces instead of %d", x->command_interfaces_.size(), loans));
      if (hc.use_count() < 1) c.fail("loans", "released twice");
    };
    verify("init");
    int64_t now = 1000000000;
    for (int d = 0; d < depth && ok; ++d) {
      static const std::vector<std::string> ops = {"configure", "cleanup", "activate", "deactivate", "shutdown", "update", "assign", "release"};
      const std::string o = c.pick(ops);
      c.note(o);
      c.step();
      const int was = state;
      auto node = x->get_node();
      if (o == "configure") { x->configure(); if (was == LS::PRIMARY_STATE_UNCONFIGURED) go("configure", LS::PRIMARY_STATE_INACTIVE, was); }
      if (o == "cleanup") { node->cleanup(); if (was == LS::PRIMARY_STATE_INACTIVE) go("cleanup", LS::PRIMARY_STATE_UNCONFIGURED, was); }
      if (o == "activate") { node->activate(); if (was == LS::PRIMARY_STATE_INACTIVE) go("activate", LS::PRIMARY_STATE_ACTIVE, was); }
      if (o == "deactivate") { node->deactivate(); if (was == LS::PRIMARY_STATE_ACTIVE) go("deactivate", LS::PRIMARY_STATE_INACTIVE, was); }
      if (o == "shutdown") { node->shutdown(); if (was != LS::PRIMARY_STATE_FINALIZED) shut(); }
      if (o == "assign") {
        std::vector<hi::LoanedCommandInterface> cs;
        std::vector<hi::LoanedStateInterface> ss;
        cs.emplace_back(hc);
        ss.emplace_back(hs);
        x->assign_interfaces(std::move(cs), std::move(ss));
        loans = 1;
        if (x->command_interfaces_[0].get_name() != "j/position") c.fail("loans", "name of the loan");
        if (!x->command_interfaces_[0].set_value(2.5 + d) || cmd != 2.5 + d) c.fail("loans", "value of the loan");
      }
      if (o == "release") { x->release_interfaces(); loans = 0; }
      if (o == "update") {
        bool threw = false;
        ci::ControllerUpdateStatus s;
        now += 10000000 + d;
        try { s = x->trigger_update(rclcpp::Time(now, RCL_STEADY_TIME), rclcpp::Duration::from_nanoseconds(10000000 + d)); } catch (const std::runtime_error &) { threw = true; }
        int a = use("update");
        if (threw != (a == THROW)) c.fail("update", "an exception of the update must reach the caller");
        if (!threw) {
          if (!s.successful || s.result != (a == OK ? ci::return_type::OK : ci::return_type::ERROR)) c.fail("update", "result of the update");
          if (!s.period || s.period->nanoseconds() != 10000000 + d || !s.execution_time) c.fail("update", "reported period or execution time");
        }
        if (x->time != now || x->period != 10000000 + d) c.fail("update", "time or period of the update");
      }
      verify(o.c_str());
      c.state(mc::fmt("%d %d %d", state, loans, W().budget), depth - d);
    }
    c.outcome(mc::fmt("%d %d", state, loans));
    W().c = nullptr;
    const bool fin = state == LS::PRIMARY_STATE_FINALIZED;
    x.reset();
    int shutdowns = 0;
    for (auto & e : W().q["c"]) if (e.cb == "shutdown") ++shutdowns;
    // the destructor of the derived class is over, so its callback cannot run; nothing else may have happened
    if (shutdowns || (fin && !W().q["c"].empty())) c.fail("destruction", "callbacks after destruction");
    if (hc.use_count() != 1 || hs.use_count() != 1) c.fail("loans", "the interfaces are still held after the destruction");
  }, opt(k, "every sequence of 9 (12) transitions, updates, loans with 3 (4) failing callbacks", 4, true));
}
void small(mc::Check & k)
{
  k.explore("ordering", [&](mc::Ctx & c) {
    // every list of up to 3 (4) names against every list of 3 (4) interfaces
    static double v[6];
    static std::vector<std::vector<hi::CommandInterface::SharedPtr>> keep;
    static const std::vector<std::pair<std::string, std::string>> itf = {{"a", "position"}, {"a", "velocity"}, {"b", "position"}, {"a/b", "position"}, {"a", "b/position"}};
    std::vector<hi::LoanedCommandInterface> have;
    std::vector<hi::CommandInterface::SharedPtr> hs;
    Names full;
    std::set<std::string> dup;
    const int n = c.choose(4);
    for (int i = 0; i < n; ++i) {
      auto & f = itf[c.choose(itf.size())];
      if (!dup.insert(f.first + "/" + f.second).second) return;
      hs.push_back(std::make_shared<hi::CommandInterface>(f.first, f.second, &v[i]));
      have.emplace_back(hs.back());
      full.push_back(f.first + "/" + f.second);
    }
    const std::string type = c.choose(2) ? "position" : "";
    static const Names by_joint = {"a", "b", "a/b", "c"}, by_name = {"a/position", "a/velocity", "b/position", "a/b/position", "c/position"};
    Names want;
    const int m = c.choose(k.q(4, 5));
    for (int i = 0; i < m; ++i) { auto & x = c.pick(type.empty() ? by_name : by_joint); if (std::find(want.begin(), want.end(), x) != want.end()) return; want.push_back(x); }
    std::vector<std::reference_wrapper<hi::LoanedCommandInterface>> out;
    const int cap = c.choose(2);
    out.reserve(cap ? m : (m ? m - 1 : 0));
    bool threw = false, r = false;
    try { r = ci::get_ordered_interfaces(have, want, type, out); } catch (const std::range_error &) { threw = true; }
    if (threw != (!cap && m > 0)) c.fail("ordering", "exception for the capacity");
    if (threw) return;
    // "a/b" + position and "a" + "b/position" have the same full name
    std::vector<int> exp;
    bool all = true;
    for (auto & w : want) {
      int hits = 0;
      for (int i = 0; i < n; ++i) if (full[i] == (type.empty() ? w : w + "/" + type)) { exp.push_back(i); ++hits; }
      if (!hits) all = false;
    }
    if (r != (exp.size() == want.size() && all)) c.fail("ordering", "result");
    if (out.size() != exp.size()) c.fail("ordering", mc::fmt("%zu interfaces instead of %zu", out.size(), exp.size()));
    for (size_t i = 0; i < exp.size(); ++i) if (&out[i].get() != &have[exp[i]]) c.fail("ordering", mc::fmt("position %zu", i));
    c.outcome(mc::fmt("%d %d %zu", n, m, exp.size()));
  }, opt(k, "interfaces ordered by every list of names", 3));
  k.explore("prefix", [&](mc::Ctx & c) {
    // strings over an alphabet
    const std::string abc = "/~a";
    auto str = [&](int n) { std::string s; const int l = c.choose(n + 1); for (int i = 0; i < l; ++i) s += abc[c.choose(3)]; return s; };
    const std::string p = str(k.q(5, 7)), ns = str(3);
    if (ns.find('~') != std::string::npos) return;
    const std::string r = ci::resolve_tf_prefix(p, ns);
    if (p.empty()) { if (!r.empty()) c.fail("prefix", "an empty prefix became " + r); return; }
    // reference: substitute the first ~, end with one more / if there is none, drop one leading /
    std::string e;
    bool done = false;
    for (char ch : p) if (ch == '~' && !done) { e += ns; done = true; } else e += ch;
    if (e.empty() || e[e.size() - 1] != '/') e += '/';
    if (e[0] == '/') e = e.substr(1);
    if (r != e) c.fail("prefix", "'" + p + "' in '" + ns + "' became '" + r + "' instead of '" + e + "'");
    c.outcome(r);
  }, opt(k, "every prefix of up to 5 (7) and namespace of up to 3 characters out of / ~ a", 4));
}

// ---- I02
struct Exp { std::string prefix, name; };
class Chain : public Common<ci::ChainableControllerInterface>
{
public:
  using ci::ChainableControllerInterface::exported_reference_interfaces_;
  using ci::ChainableControllerInterface::exported_state_interfaces_;
  using ci::ChainableControllerInterface::ordered_exported_reference_interfaces_;
  using ci::ChainableControllerInterface::ordered_exported_state_interfaces_;
  using ci::ChainableControllerInterface::reference_interfaces_;
  using ci::ChainableControllerInterface::state_interfaces_values_;
  std::vector<Exp> old_refs, new_refs, old_states, new_states;
  int size = 0;                // deviation of the size of the reference storage
  std::vector<hi::CommandInterface::SharedPtr> made_refs;
  std::vector<hi::StateInterface::SharedPtr> made_states;
  bool accept = true;
  std::vector<std::string> calls;
  ci::return_type r1 = ci::return_type::OK, r2 = ci::return_type::OK;
  std::vector<hi::CommandInterface> on_export_reference_interfaces() override
  {
    reference_interfaces_.assign(old_refs.size() + size, 0.0);
    std::vector<hi::CommandInterface> r;
    for (size_t i = 0; i < old_refs.size(); ++i) r.emplace_back(old_refs[i].prefix, old_refs[i].name, reference_interfaces_.data() + i);
    return r;
  }
  std::vector<hi::CommandInterface::SharedPtr> on_export_reference_interfaces_list() override
  {
    made_refs.clear();
    for (auto & e : new_refs) made_refs.push_back(std::make_shared<hi::CommandInterface>(hi::InterfaceDescription(e.prefix, hi::InterfaceInfo(e.name, "double"))));
    return made_refs;
  }
  std::vector<hi::StateInterface> on_export_state_interfaces() override
  {
    state_interfaces_values_.assign(old_states.size(), 0.0);
    std::vector<hi::StateInterface> r;
    for (size_t i = 0; i < old_states.size(); ++i) r.emplace_back(old_states[i].prefix, old_states[i].name, &state_interfaces_values_[i]);
    return r;
  }
  std::vector<hi::StateInterface::SharedPtr> on_export_state_interfaces_list() override
  {
    made_states.clear();
    for (auto & e : new_states) made_states.push_back(std::make_shared<hi::StateInterface>(hi::InterfaceDescription(e.prefix, hi::InterfaceInfo(e.name, "double"))));
    return made_states;
  }
  bool on_set_chained_mode(bool m) override { calls.push_back(m ? "mode on" : "mode off"); return accept; }
  ci::return_type update_reference_from_subscribers(const rclcpp::Time & t, const rclcpp::Duration & p) override { calls.push_back(mc::fmt("subscribers %g %g", t.seconds(), p.seconds())); return r1; }
  ci::return_type update_and_write_commands(const rclcpp::Time & t, const rclcpp::Duration & p) override { calls.push_back(mc::fmt("commands %g %g", t.seconds(), p.seconds())); return r2; }
};
std::unique_ptr<Chain> chain()
{
  auto x = std::make_unique<Chain>();
  ci::ControllerInterfaceParams p;
  p.controller_name = "ctl";
  p.update_rate = p.controller_manager_update_rate = 100;
  if (x->init(p) != ci::return_type::OK) return nullptr;
  return x;
}
void exports(mc::Check & k)
{
  k.explore("exports", [&](mc::Ctx & c) {
    auto x = chain();
    W().c = nullptr;
    const bool refs = c.choose(2);
    const int rounds = k.q(2, 3);
    for (int round = 0; round < rounds; ++round) {
      static const std::vector<Exp> menu = {{"ctl", "a"}, {"ctl", "b"}, {"ctl/x", "a"}, {"ct", "a"}, {"xctl", "a"}};
      std::vector<Exp> o, n;
      const int most = round == 0 ? 2 : k.q(1, 2);
      const int no = c.choose(most + 1);
      for (int i = 0; i < no; ++i) o.push_back(c.pick(menu));
      const int nn = c.choose(most + 1);
      for (int i = 0; i < nn; ++i) n.push_back(c.pick(menu));
      x->size = refs && round == 0 ? c.choose(3) - 1 : 0;
      if (static_cast<int>(o.size()) + x->size < 0) return;
      std::vector<Exp> l = o;
      l.insert(l.end(), n.begin(), n.end());
      std::set<std::string> names;
      bool good = x->size == 0;
      std::string text;
      for (auto & e : l) { if (e.prefix.rfind("ctl", 0) != 0) good = false; names.insert(e.prefix + "/" + e.name); text += e.prefix + "/" + e.name + " "; }
      if (names.size() != l.size()) good = false;
      c.note(std::string(refs ? "references " : "states ") + text + mc::fmt("(%zu by the old way)", o.size()) + (x->size ? mc::fmt(" storage %+d", x->size) : ""));
      c.step();
      if (refs) { x->old_refs = o; x->new_refs = n; } else { x->old_states = o; x->new_states = n; }
      bool threw = false;
      std::vector<hi::CommandInterface::SharedPtr> rs;
      std::vector<hi::StateInterface::ConstSharedPtr> ss;
      try { if (refs) rs = x->export_reference_interfaces(); else ss = x->export_state_interfaces(); } catch (const std::runtime_error &) { threw = true; }
      if (threw == good) c.fail("accepted", text + (threw ? " was rejected" : " was accepted"));
      if (threw) { c.outcome("rejected"); continue; }
      const size_t count = refs ? rs.size() : ss.size();
      if (count != l.size()) c.fail("exported", mc::fmt("%zu interfaces were exported instead of %zu", count, l.size()));
      for (size_t i = 0; i < l.size(); ++i) {
        const std::string full = l[i].prefix + "/" + l[i].name, got = refs ? rs[i]->get_name() : ss[i]->get_name();
        if (got != full) c.fail("exported", got + " instead of " + full);
        const double value = 1.5 + i + 10 * round;
        if (refs) {
          if (!rs[i]->set_value(value)) c.fail("value", "cannot set " + full);
          const double * in = i < o.size() ? &x->reference_interfaces_[i] : nullptr;
          if (in && *in != value) c.fail("value", "the controller does not see the reference " + full);
          if (!in && x->made_refs[i - o.size()] != rs[i]) c.fail("exported", full + " is not the exported one");
          if (x->ordered_exported_reference_interfaces_.size() != l.size() || x->ordered_exported_reference_interfaces_[i] != rs[i] || x->exported_reference_interfaces_.size() != l.size() || x->exported_reference_interfaces_[full] != rs[i])
            c.fail("stored", full + " is not stored for the controller");
        } else {
          if (i < o.size()) x->state_interfaces_values_[i] = value;
          else if (!x->made_states[i - o.size()]->set_value(value)) c.fail("value", "cannot set " + full);
          auto v = ss[i]->get_optional();
          if (!v || *v != value) c.fail("value", "others do not see the state " + full);
          if (x->ordered_exported_state_interfaces_.size() != l.size() || x->ordered_exported_state_interfaces_[i] != ss[i] || x->exported_state_interfaces_.size() != l.size() || x->exported_state_interfaces_[full] != ss[i])
            c.fail("stored", full + " is not stored for the controller");
        }
      }
      c.outcome(text);
    }
  }, opt(k, "every two (three) exports of up to 2+2 interfaces out of 5 names by the old and new ways, storage too small or large", 4));
}
void chained(mc::Check & k)
{
  const int depth = k.q(5, 7);
  k.explore("chained mode", [=](mc::Ctx & c) {
    auto x = chain();
    W().c = nullptr;
    bool mode = false;
    int state = LS::PRIMARY_STATE_UNCONFIGURED;
    for (int d = 0; d < depth; ++d) {
      x->calls.clear();
      c.step();
      const int o = c.choose(7);
      Names want;
      if (o < 4) {
        const bool m = o & 1;
        x->accept = o & 2;
        c.note(mc::fmt("chained mode %d %s", m, x->accept ? "accepted" : "refused"));
        const bool r = x->set_chained_mode(m);
        const bool can = state != LS::PRIMARY_STATE_ACTIVE;
        if (can) want.push_back(m ? "mode on" : "mode off");
        if (can && x->accept) mode = m;
        if (r != (can && x->accept)) c.fail("mode", mc::fmt("the result is %d", r));
      } else if (o == 4) {
        c.note("next state");
        if (state == LS::PRIMARY_STATE_UNCONFIGURED) state = x->configure().id();
        else if (state == LS::PRIMARY_STATE_INACTIVE) state = x->get_node()->activate().id();
        else state = x->get_node()->deactivate().id();
      } else if (o == 5) {
        c.note("back");
        if (state == LS::PRIMARY_STATE_INACTIVE) state = x->get_node()->cleanup().id();
      } else {
        x->r1 = c.choose(2) ? ci::return_type::ERROR : ci::return_type::OK;
        x->r2 = c.choose(2) ? ci::return_type::ERROR : ci::return_type::OK;
        c.note("update");
        auto r = x->trigger_update(rclcpp::Time(3, 0, RCL_STEADY_TIME), rclcpp::Duration::from_seconds(0.25));
        auto e = ci::return_type::OK;
        if (!mode) { want.push_back("subscribers 3 0.25"); e = x->r1; }
        if (e == ci::return_type::OK) { want.push_back("commands 3 0.25"); e = x->r2; }
        if (r.result != e) c.fail("update", "result of the update");
      }
      if (x->calls != want) c.fail("update", "the controller was called with " + list(x->calls) + " instead of " + list(want));
      if (x->is_in_chained_mode() != mode) c.fail("mode", mode ? "not in chained mode" : "in chained mode");
      if (!x->is_chainable()) c.fail("mode", "not chainable");
      c.state(mc::fmt("%d%d", state, mode), depth - d);
    }
    c.outcome(mc::fmt("%d%d", state, mode));
  }, opt(k, "every sequence of 5 (7) changes of the chained mode, states and updates", 2));
}
}  // namespace
int main(int argc, char ** argv)
{
  const std::string id = argc > 1 && argv[1][0] == 'I' ? argv[1] : "I01";
  if (!rclcpp::ok()) rclcpp::init(0, nullptr);
  mc::Check k(argc, argv, id);
  if (id == "I01") {
    k.rule = "an execution is one sequence of operations on a controller and of its answers; outcomes are distinct final states or results";
    rates(k);
    life(k);
    small(k);
  } else {
    k.rule = "an execution is one sequence of exports or of mode changes and updates; outcomes are distinct results";
    exports(k);
    chained(k);
  }
  return k.finish();
}
