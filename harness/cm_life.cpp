// C06 C09 C10: life of controllers, start of the hardware, what the manager reports.
#include "cm_common.hpp"
using namespace cmh;  // NOLINT
namespace srv = controller_manager_msgs::srv;
namespace
{
std::vector<Comp> hw2() { return {{"s1", "system", "", 50, {{"ja", {"position", "velocity"}}}}, {"a1", "actuator", "", 0, {{"jb", {"position"}}}}, {"n1", "sensor", "", 0, {{"jc", {}}}}}; }
template <class S, class F>
std::shared_ptr<typename S::Response> call(F f, std::function<void(typename S::Request &)> fill = nullptr)
{
  auto q = std::make_shared<typename S::Request>();
  auto a = std::make_shared<typename S::Response>();
  if (fill) fill(*q);
  f(q, a);
  return a;
}
#define SRV(R, S, CB, ...) call<srv::S>([&](auto q, auto a) { (R).cm->CB(q, a); }, ##__VA_ARGS__)
Names sorted(Names v) { std::sort(v.begin(), v.end()); return v; }

// every list the manager offers agrees with the model
void lists(Rig & r, const std::string & after)
{
  r.op = "list";
  auto bad = [&](const std::string & kind, const std::string & what) { r.fail(kind, "after " + after + ": " + what); };
  auto L = SRV(r, ListControllers, list_controllers_srv_cb);
  std::map<std::string, const controller_manager_msgs::msg::ControllerState *> by;
  for (auto & x : L->controller) if (!by.emplace(x.name, &x).second) bad("controllers", x.name + " is listed twice");
  for (auto & [n, x] : by) if (!r.m.cs.count(n) || !r.m.at(n).loaded) bad("controllers", n + " is listed but not loaded");
  for (auto & [n, c] : r.m.cs) {
    if (!c.loaded) continue;
    if (!by.count(n)) bad("controllers", n + " is not listed");
    auto & x = *by[n];
    auto eq = [&](const char * what, Names got, Names want, bool ordered = false) {
      if (!ordered) { got = sorted(got); want = sorted(want); }
      if (got != want) bad("controllers", n + ": " + what + " " + list(got) + " instead of " + list(want));
    };
    eq("type", {x.type}, {c.d.chain ? "verif/Chain" : "verif/Plain"});
    eq("state", {x.state}, {sn(c.state)});
    eq("is_chainable, is_async", {mc::fmt("%d%d", x.is_chainable, x.is_async)}, {mc::fmt("%d0", c.d.chain)});
    if (x.is_chained != live().at(n)->base->is_in_chained_mode()) bad("controllers", n + ": is_chained");
    if (x.update_rate != live().at(n)->base->get_update_rate()) bad("controllers", n + mc::fmt(": update_rate %d", x.update_rate));
    const bool on = c.configured();
    if (c.d.cmd.type == IT::INDIVIDUAL) eq("claimed interfaces", x.claimed_interfaces, {c.hold.begin(), c.hold.end()});
    eq("required command interfaces", x.required_command_interfaces, on ? r.m.needs(c) : Names());
    eq("required state interfaces", x.required_state_interfaces, on ? r.m.needs_s(c) : Names());
    eq("reference interfaces", x.reference_interfaces, on && c.imported ? c.d.refs : Names());
    eq("exported state interfaces", x.exported_state_interfaces, on && c.imported ? c.d.outs : Names());
    std::map<std::string, Names> want, got;
    if (on) for (auto & i : r.m.needs(c)) if (auto * o = r.m.owner_of(i)) want[o->d.name].push_back(i.substr(i.find('/') + 1));
    for (auto & x : x.chain_connections) { if (got.count(x.name)) bad("controllers", n + ": two connections to " + x.name); got[x.name] = x.reference_interfaces; }
    if (got != want) {
      std::string t;
      for (auto & [f, l] : got) t += f + list(l) + " ";
      t += "instead of ";
      for (auto & [f, l] : want) t += f + list(l) + " ";
      bad("connections", n + ": chain connections " + t);
    }
  }
  auto I = SRV(r, ListHardwareInterfaces, list_hardware_interfaces_srv_cb);
  std::set<std::string> keys, skeys;
  for (auto & [i, v] : r.m.hw.claimed) keys.insert(i);
  for (auto & c : r.m.hw.cs) skeys.insert(c.states.begin(), c.states.end());
  for (auto & [n, c] : r.m.cs) if (c.imported) for (auto & i : r.m.outs(c)) skeys.insert(i);
  std::set<std::string> k1, k2;
  auto itf = [&](const controller_manager_msgs::msg::HardwareInterface & x, bool cmd) {
    if (x.is_available != ((cmd ? r.m.hw.avail_c : r.m.hw.avail_s).count(x.name) > 0)) bad("hardware", x.name + (x.is_available ? " is listed as available" : " is listed as not available"));
    if (x.is_claimed != (cmd && x.is_available && r.m.hw.claimed[x.name])) bad("hardware", x.name + (x.is_claimed ? " is listed as claimed" : " is not listed as claimed"));
    if (x.data_type != "double") bad("hardware", x.name + " has data type " + x.data_type);
  };
  for (auto & x : I->command_interfaces) { k1.insert(x.name); itf(x, true); }
  for (auto & x : I->state_interfaces) { k2.insert(x.name); itf(x, false); }
  if (k1 != keys || I->command_interfaces.size() != keys.size()) bad("hardware", "command interfaces " + list({k1.begin(), k1.end()}) + " instead of " + list({keys.begin(), keys.end()}));
  if (k2 != skeys || I->state_interfaces.size() != skeys.size()) bad("hardware", "state interfaces " + list({k2.begin(), k2.end()}) + " instead of " + list({skeys.begin(), skeys.end()}));
  auto H = SRV(r, ListHardwareComponents, list_hardware_components_srv_cb);
  if (H->component.size() != r.m.hw.cs.size()) bad("hardware", "number of components");
  for (auto & x : H->component) {
    auto & c = r.m.hw.comp(x.name);
    if (x.type != c.d.type || x.is_async || x.state.id != c.state || x.state.label != sn(c.state)) bad("hardware", x.name + " is listed as " + x.type + " " + x.state.label);
    if (x.rw_rate != (c.rate ? c.rate : c.d.rw_rate ? r.m.hw.cm_rate : r.m.hw.cm_rate)) bad("hardware", x.name + mc::fmt(" has rate %d", x.rw_rate));
    Names a, b;
    for (auto & i : x.command_interfaces) { a.push_back(i.name); itf(i, true); }
    for (auto & i : x.state_interfaces) { b.push_back(i.name); itf(i, false); }
    if (sorted(a) != sorted(c.cmds) || sorted(b) != sorted(c.states)) bad("hardware", x.name + " has interfaces " + list(a) + list(b));
  }
  auto T = SRV(r, ListControllerTypes, list_controller_types_srv_cb);
  if (T->types.size() != T->base_classes.size() || !has(T->types, "verif/Plain") || !has(T->types, "verif/Chain")) bad("types", "controller types " + list(T->types));
}

// ---- life of controllers
struct Life
{
  Rig & r;
  bool result(const std::string & what, bool got, std::function<bool()> model)
  {
    const bool want = r.model(what, model);
    r.find_edges();
    if (got != want) r.fail(want ? "refused" : "accepted", what + (want ? " failed" : " succeeded"));
    r.verify(what);
    return want;
  }
  void begin(const std::string & what) { r.op = "life"; r.c.note(what); r.c.step(); }
  bool cleanup(MCtrl & x)
  {
    if (r.m.in_use(x)) return false;
    r.m.go(x, "cleanup", LS::PRIMARY_STATE_UNCONFIGURED, LS::PRIMARY_STATE_INACTIVE);
    if (!x.inactive()) r.m.import(x, false);
    return x.state == LS::PRIMARY_STATE_UNCONFIGURED;
  }
  bool load(const std::string & n)
  {
    begin("load " + n);
    const bool got = SRV(r, LoadController, load_controller_service_cb, [&](auto & q) { q.name = n; })->ok;
    return result("load " + n, got, [&] {
      auto it = r.m.cs.find(n);
      if (it == r.m.cs.end() || it->second.loaded || has(it->second.d.fallback, n)) return false;
      auto & x = it->second;
      const int a = r.m.use(x, "init");
      if (a != OK) { auto & q = W().q[n]; while (!q.empty() && (q.front().cb == "shutdown" || q.front().cb == "on_error")) q.pop_front(); return false; }
      x.loaded = true;
      x.state = LS::PRIMARY_STATE_UNCONFIGURED;
      return true;
    });
  }
  bool configure(const std::string & n)
  {
    begin("configure " + n);
    const bool got = SRV(r, ConfigureController, configure_controller_service_cb, [&](auto & q) { q.name = n; })->ok;
    return result("configure " + n, got, [&] {
      auto it = r.m.cs.find(n);
      if (it == r.m.cs.end() || !it->second.loaded) return false;
      auto & x = it->second;
      if (x.active() || x.state == LS::PRIMARY_STATE_FINALIZED) return false;
      if (x.inactive() && !cleanup(x)) return false;
      if (r.m.in_use(x)) return false;
      r.m.import(x, false);
      if (!r.m.go(x, "configure", LS::PRIMARY_STATE_INACTIVE, LS::PRIMARY_STATE_UNCONFIGURED)) return false;
      std::set<std::string> s(x.d.cmd.names.begin(), x.d.cmd.names.end());
      if (x.d.chain && x.d.refs.empty() && x.d.outs.empty()) { cleanup(x); return false; }
      r.m.import(x, true);
      if (s.size() != x.d.cmd.names.size()) { cleanup(x); return false; }
      return true;
    });
  }
  bool clean(const std::string & n)
  {
    begin("cleanup " + n);
    const bool got = SRV(r, CleanupController, cleanup_controller_service_cb, [&](auto & q) { q.name = n; })->ok;
    return result("cleanup " + n, got, [&] {
      auto it = r.m.cs.find(n);
      if (it == r.m.cs.end() || !it->second.loaded) return false;
      auto & x = it->second;
      if (x.state == LS::PRIMARY_STATE_UNCONFIGURED) return true;
      return x.inactive() && cleanup(x);
    });
  }
  bool unloads(const std::string & n)
  {
    auto it = r.m.cs.find(n);
    if (it == r.m.cs.end() || !it->second.loaded) return false;
    auto & x = it->second;
    if (x.active() || x.state == LS::PRIMARY_STATE_FINALIZED) return false;
    if (x.inactive() && !cleanup(x)) return false;
    if (r.m.in_use(x)) return false;
    r.m.use(x, "shutdown");
    auto & q = W().q[n];
    while (!q.empty() && (q.front().cb == "shutdown" || q.front().cb == "on_error")) q.pop_front();
    r.m.import(x, false);
    x.loaded = false;
    x.state = 0;
    x.chained = false;
    return true;
  }
  bool unload(const std::string & n)
  {
    begin("unload " + n);
    const bool got = SRV(r, UnloadController, unload_controller_service_cb, [&](auto & q) { q.name = n; })->ok;
    return result("unload " + n, got, [&] { return unloads(n); });
  }
  bool reload(bool force)
  {
    begin(force ? "reload libraries, killing" : "reload libraries");
    Names order;
    for (auto & s : r.cm->get_loaded_controllers()) order.push_back(s.info.name);
    auto mute = W().mute;
    W().mute.insert("read"); W().mute.insert("write"); W().mute.insert("update");
    r.free_switching = true;
    const bool got = SRV(r, ReloadControllerLibraries, reload_controller_libraries_service_cb, [&](auto & q) { q.force_kill = force; })->ok;
    W().mute = mute;
    r.free_switching = false;
    return result("reload", got, [&] {
      Names on;
      for (auto & n : order) if (r.m.at(n).active()) on.push_back(n);
      if (!on.empty() && !force) return false;
      if (!on.empty()) {
        auto p = r.m.plan({}, on, false);
        if (p.error || (!p.noop && !r.m.apply(p, false, true))) return false;
      }
      for (auto & n : order) if (!unloads(n)) return false;
      return true;
    });
  }
};
Setup abc()
{
  Setup s;
  s.hw = hw2();
  s.ctrls = {{"q", false, {"low/r", "ja/velocity"}, {}, {}, {}, {}}, {"low", true, {"ja/position"}, {"ja/position"}, {"r"}, {"v"}, {}}, {"obs", false, {"jb/position"}, {"low/v"}, {}, {}, {}}};
  return s;
}
Setup all()   // one which reads whatever there is
{
  Setup s;
  s.hw = hw2();
  s.ctrls = {{"low", true, {"ja/position"}, {"ja/position"}, {"r"}, {"v"}, {}}, {"obs", false, {}, Cfg{IT::ALL, {}}, {}, {}, {}}};
  return s;
}
Setup odd()
{
  Setup s;
  s.hw = hw2();
  s.ctrls = {{"dup", false, {"ja/position", "ja/position"}, {}, {}, {}, {}}, {"bare", true, {"jb/position"}, {}, {}, {}, {}}, {"ok", false, {"ja/velocity"}, {}, {}, {}, {}}, {"self", false, {"ja/velocity"}, {}, {}, {}, {"self"}}};
  return s;
}
Setup forks()   // a controller which commands two others
{
  Setup s;
  s.hw = hw2();
  s.ctrls = {{"q", false, {"l1/a", "l2/c", "l1/b", "ja/velocity"}, {}, {}, {}, {}}, {"l1", true, {"ja/position"}, {}, {"a", "b"}, {}, {}}, {"l2", true, {"jb/position"}, {"l1/position"}, {"c"}, {"v"}, {}}};
  s.ctrls[2].st = Cfg();
  return s;
}
mc::Check::Opt opt(mc::Check & k, const char * what, int split, bool caching = true)
{
  mc::Check::Opt o;
  o.split = split;
  o.caching = caching;
  o.cap_s = k.q(150, 1500);
  o.what = what;
  return o;
}
void life(mc::Check & k, const char * name, const char * what, Setup (*make)(), int starts, int depth, int budget, bool check_lists, bool caching = true)
{
  k.explore(name, [=](mc::Ctx & c) {
    Setup s = make();
    Names who;
    for (auto & d : s.ctrls) who.push_back(d.name);
    const int from = c.choose(starts);   // all loaded, all configured, all active, nothing
    s.load = s.configure = false;
    menus().init = {OK, FAIL, ERR, THROW};
    Rig r(c, s);
    Life l{r};
    W().mute = {"read", "write", "update"};
    if (from < 3) for (auto & n : who) l.load(n);
    if (from == 1 || from == 2) for (auto & n : who) l.configure(n);
    if (from == 2) r.sw(who, {}, true);
    W().budget = budget;
    if (check_lists) lists(r, "start");
    for (int d = 0; d < depth; ++d) {
      const int o = c.choose(6 * who.size() + 4);
      const std::string n = o < static_cast<int>(6 * who.size()) ? who[o / 6] : "nope";
      if (n == "nope") {
        const int x = o - 6 * who.size();
        if (x == 0) { l.load(n); l.configure(n); l.clean(n); l.unload(n); }
        if (x == 1) l.reload(false);
        if (x == 2) l.reload(true);
        if (x == 3) r.sw(who, {}, false);
      } else switch (o % 6) {
        case 0: l.load(n); break;
        case 1: l.configure(n); break;
        case 2: l.clean(n); break;
        case 3: l.unload(n); break;
        case 4: r.sw({n}, {}, true); break;
        case 5: r.sw({}, {n}, true); break;
      }
      r.op = "cycle";
      r.cycle_raw();
      r.model("cycle", [] { return 0; });
      if (check_lists) lists(r, "it");
      c.state(r.m.str() + mc::fmt("b%d", W().budget), depth - d);
    }
    c.outcome(r.m.str());
  }, opt(k, what, 4, caching));
}
// what is reported while controllers and hardware fail
void failing(mc::Check & k, const char * name, Setup (*make)(), int cycles, int budget)
{
  k.explore(name, [=](mc::Ctx & c) {
    Setup s = make();
    Names who;
    for (auto & d : s.ctrls) who.push_back(d.name);
    Rig r(c, s);
    W().mute = {"activate", "prepare", "perform"};
    r.sw(who, {}, true);
    lists(r, "start");
    W().budget = budget;
    for (int i = 0; i < cycles; ++i) {
      if (c.flip("set the hardware")) {
        const Names hws = {"s1", "a1", "n1"};
        const std::string h = hws[c.choose(3)];
        const int t = c.choose(4) + 1;
        const auto b = W().budget;
        W().budget = 0;
        r.op = "set";
        c.note("set " + h + " " + sn(t));
        SRV(r, SetHardwareComponentState, set_hardware_component_state_srv_cb, [&](auto & q) { q.name = h; q.target_state.id = t; });
        r.model("set", [&] { return r.m.hw.set_state(r.m.hw.comp(h), t); });
        W().budget = b;
      } else r.cycle();
      lists(r, "it");
      c.state(r.m.str() + mc::fmt("b%d", W().budget), cycles - i);
    }
    c.outcome(r.m.str());
  }, opt(k, "reads, writes, updates and deactivations fail, the hardware is set to other states; every list after every step", 3));
}
// ---- C09
void initial(mc::Check & k)
{
  const int variants = 5;
  k.explore("initial states", [&](mc::Ctx & c) {
    static const char * g[variants][4] = {{"", "", "", ""}, {"g", "g", "g", ""}, {"g", "", "h", "h"}, {"g", "g", "g", "g"}, {"g", "h", "g", "h"}};
    const int v = c.choose(variants);
    Setup s;
    s.load = s.configure = false;
    s.hw = {{"a1", "actuator", g[v][0], 0, {{"ja", {"position"}}}}, {"a2", "actuator", g[v][1], 0, {{"jb", {"position"}}}}, {"s1", "system", g[v][2], 0, {{"jc", {"position"}}}}, {"n1", "sensor", g[v][3], 0, {{"jd", {}}}}};
    const Names who = {"a1", "a2", "s1", "n1"};
    Names un, in;
    for (auto & n : who) { if (n == "n1" && v == 0) continue; int x = c.choose(n == "a2" ? 4 : 3); if (x == 1 || x == 3) un.push_back(n); if (x == 2 || x == 3) in.push_back(n); }
    if (v == 0 && c.choose(2)) { un.push_back("nope"); un.push_back(""); }
    const bool strict = c.choose(2);
    if (!un.empty()) s.params.emplace_back("hardware_components_initial_state.unconfigured", un);
    if (!in.empty()) s.params.emplace_back("hardware_components_initial_state.inactive", in);
    s.params.emplace_back("hardware_components_initial_state.shutdown_on_initial_state_failure", strict);
    std::string gs;
    for (auto & x : s.hw) gs += x.name + ":" + x.group + " ";
    c.note("groups " + gs + "unconfigured" + list(un) + "inactive" + list(in) + (strict ? " shut down on failure" : ""));
    // the manager starts without a description and receives one
    auto hw = s.hw;
    s.hw.clear();
    Rig r(c, s);
    W().mute.insert("init");
    r.m.hw.init(hw, s.rate);
    W().drop();
    W().c = &c;
    W().budget = k.q(1, 2);
    r.op = "start";
    bool threw = false;
    std_msgs::msg::String d;
    d.data = urdf(hw);
    try { r.cm->robot_description_callback(d); } catch (const std::runtime_error &) { threw = true; }
    for (auto & n : who) { auto & q = W().q[n]; while (!q.empty() && q.front().cb == "init") q.pop_front(); }
    // the order of the components is free: the one of the callbacks
    Names seen;
    for (auto & e : W().all) if (e.cb != "init" && has(who, e.comp) && !has(seen, e.comp)) seen.push_back(e.comp);
    for (auto & n : who) if (!has(seen, n)) seen.push_back(n);
    const bool want_throw = r.model("start", [&] {
      Names rest = who;
      auto done = [&](const std::string & n) { rest.erase(std::find(rest.begin(), rest.end(), n)); };
      for (auto & n : un) if (has(rest, n)) done(n);     // loaded only
      for (auto & n : in) if (has(rest, n)) { const bool ok = r.m.hw.set_state(r.m.hw.comp(n), LS::PRIMARY_STATE_INACTIVE); done(n); if (!ok && strict) return true; }
      std::map<std::string, Names> groups;
      for (auto & n : seen) if (has(rest, n) && !r.m.hw.comp(n).d.group.empty()) groups[r.m.hw.comp(n).d.group].push_back(n);
      Names order;
      for (auto & n : seen) if (has(rest, n)) { auto & g = r.m.hw.comp(n).d.group; if (!g.empty() && !has(order, g)) order.push_back(g); }
      for (auto & g : order) {
        bool ok = true;
        for (auto & n : groups[g]) if (!r.m.hw.set_state(r.m.hw.comp(n), LS::PRIMARY_STATE_INACTIVE)) { ok = false; break; }
        if (!ok) { if (strict) return true; continue; }
        Names on;
        // activation follows the order of the activations
        Names act;
        for (auto & e : W().all) if (e.cb == "activate" && has(groups[g], e.comp)) act.push_back(e.comp);
        for (auto & n : groups[g]) if (!has(act, n)) act.push_back(n);
        for (auto & n : act) { if (!r.m.hw.set_state(r.m.hw.comp(n), LS::PRIMARY_STATE_ACTIVE)) { ok = false; break; } on.push_back(n); }
        if (!ok && strict) return true;
        if (!ok) for (auto & n : on) r.m.hw.set_state(r.m.hw.comp(n), LS::PRIMARY_STATE_INACTIVE);
      }
      for (auto & n : seen) if (has(rest, n) && r.m.hw.comp(n).d.group.empty()) if (!r.m.hw.set_state(r.m.hw.comp(n), LS::PRIMARY_STATE_ACTIVE) && strict) return true;
      return false;
    });
    if (threw != want_throw) r.fail("result", want_throw ? "the failure to set an initial state is not reported" : "an exception was thrown");
    r.verify("start");
    if (threw) return;
    // the service for the states
    c.state(r.m.str() + mc::fmt("%d", v), 1);
    W().budget = 1;
    r.op = "set";
    const Names hws = {"a1", "s1", "n1", "nope"};
    const std::string h = hws[c.choose(4)];
    const int t = c.choose(5);
    const bool label = t > 0 && c.choose(2);
    c.note("set " + h + " " + sn(t) + (label ? " by label" : ""));
    auto a = SRV(r, SetHardwareComponentState, set_hardware_component_state_srv_cb, [&](auto & q) { q.name = h; q.target_state.id = label ? 0 : t; if (label) q.target_state.label = sn(t); });
    bool want = false;
    if (h != "nope") {
      want = r.model("set", [&] { return t > 0 && r.m.hw.set_state(r.m.hw.comp(h), t); });
      if (a->state.id != r.m.hw.comp(h).state || a->state.label != sn(r.m.hw.comp(h).state)) r.fail("reported", h + " is reported as " + a->state.label);
    } else r.model("set", [] { return 0; });
    if (a->ok != want) r.fail("result", "the request to set " + h + (want ? " failed" : " succeeded"));
    r.verify("set");
    c.outcome(r.m.hw.str());
  }, opt(k, "every assignment of four components to initial states and groups, one (thorough: two) failing transitions, then one request", 6));
}
}  // namespace
int main(int argc, char ** argv)
{
  const std::string id = argc > 1 && argv[1][0] == 'C' ? argv[1] : "C06";
  register_controllers();
  mc::Check k(argc, argv, id);
  const int t = k.q(0, 1);
  if (id == "C06") {
    k.rule = "an execution is one sequence of service calls and callback answers; after every call the states, loans, exported interfaces and callbacks are compared with the reference model; outcomes are distinct final states";
    k.own = {"life:*", "setup:*", "*:loaded", "cycle:*", "switch:callback", "switch:state", "switch:loans", "switch:claimed", "switch:availability"};
    life(k, "chain", "load, configure, clean up, unload, start and stop three controllers of a chain, reload libraries; callbacks fail", abc, 4, 3 + t, 1 + t, false);
    life(k, "odd", "the same with controllers that cannot be configured or loaded", odd, 4, 3 + t, 1 + t, false);
    life(k, "broadcaster", "the same with a controller that reads whatever is available", all, 4, 4 + t, 1 + t, false);
    life(k, "history", "as the first without cutting at states seen before", abc, 4, 2 + t, 1, false, false);
  }
  if (id == "C09") {
    k.rule = "an execution is one assignment of initial states and groups with one sequence of callback answers; states, interfaces and callbacks are compared with the reference model; outcomes are distinct final states";
    k.own = {"*"};
    initial(k);
  }
  if (id == "C10") {
    k.rule = "an execution is one sequence of service calls or cycles and callback answers; all lists are compared with the reference model after every step; outcomes are distinct final states";
    k.own = {"list:*"};
    life(k, "chain", "load, configure, clean up, unload, start and stop; lists after every call", abc, 4, 3 + t, 1 + t, true);
    life(k, "fork", "the same with a controller that commands two others", forks, 4, 3 + t, 1, true);
    failing(k, "failing chain", abc, 3 + t, 1 + t);
    failing(k, "failing fork", forks, 3 + t, 1);
  }
  return k.finish();
}
