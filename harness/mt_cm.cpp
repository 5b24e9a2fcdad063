// C11: the control loop and the services of the controller manager at the same time, every interleaving up to a
// number of preemptions.
#include "cm_common.hpp"
using namespace cmh;  // NOLINT
namespace srv = controller_manager_msgs::srv;
namespace cmh
{
std::vector<Comp> hw3()
{
  return {{"s1", "system", "", 0, {{"ja", {"position", "velocity"}}}}, {"a1", "actuator", "", 0, {{"jb", {"position"}}}}, {"n1", "sensor", "", 0, {{"jc", {}}}}};
}
// A and X want the same joint, B commands R, D is not loaded, U is not configured
Setup setup()
{
  Setup s;
  s.hw = hw3();
  s.ctrls = {{"A", false, {"ja/position"}, {"ja/position"}, {}, {}, {}}, {"B", false, {"R/a"}, {}, {}, {}, {}}, {"R", true, {"jb/position"}, {}, {"a"}, {}, {}},
    {"X", false, {"ja/position"}, {}, {}, {}, {}}, {"Q", true, {"ja/velocity"}, {}, {"q"}, {}, {}}, {"U", false, {"ja/velocity"}, {}, {}, {}, {}}, {"D", false, {"ja/velocity"}, {"jc/position"}, {}, {}, {}}};
  s.skip_load = {"D"};
  s.skip_configure = {"U", "Q"};
  return s;
}
struct Run
{
  Rig & r;
  mc::Ctx & c;
  bool done = false;
  int cycles = 0, max_cycles = 40, threads_left = 0;
  std::map<std::string, int> updates;
  std::string ops;
  void cycle()
  {
    r.now += r.dt;
    { mcrt::Quiet q; stub::set_virtual_time(std::llround(r.now * 1e9)); }
    const rclcpp::Time t(std::llround(r.now * 1e9), r.cm->get_trigger_clock()->get_clock_type());
    const auto p = rclcpp::Duration::from_nanoseconds(std::llround(r.dt * 1e9));
    size_t mark;
    std::map<std::string, bool> on;
    { mcrt::Quiet q; mark = W().all.size(); for (auto & [n, x] : live()) on[n] = x->state() == LS::PRIMARY_STATE_ACTIVE; }
    r.cm->read(t, p);
    r.cm->update(t, p);
    r.cm->write(t, p);
    ++cycles;
    mcrt::Quiet q;
    std::map<std::string, int> seen;
    bool changed = false;
    for (size_t i = mark; i < W().all.size(); ++i) {
      auto & e = W().all[i];
      if (e.cb == "update") { if (seen[e.comp]++) c.record("update-twice", e.comp + " was updated twice in one cycle"); }
      else if (e.cb != "read" && e.cb != "write") changed = true;
      if (e.ans != OK) changed = true;
    }
    if (!changed) for (auto & [n, x] : live()) if (on.count(n) && on[n] && x->state() == LS::PRIMARY_STATE_ACTIVE && !seen.count(n) && !switching.count(n)) c.record("not-updated", n + " is active and was not updated in a cycle");
  }
  std::set<std::string> switching;
  void loop()
  {
    while (!done && cycles < max_cycles) { cycle(); mcrt::yield(); }
    if (!done) c.record("loop-starved", mc::fmt("a service did not finish within %d cycles of the control loop", max_cycles));
    cycle();
  }
};
struct Step
{
  std::string name;
  std::function<void(Run &)> run;
};
template <class S, class F>
std::shared_ptr<typename S::Response> call(F f, std::function<void(typename S::Request &)> fill = nullptr)
{
  std::shared_ptr<typename S::Request> q;
  std::shared_ptr<typename S::Response> a;
  { mcrt::Quiet z; q = std::make_shared<typename S::Request>(); a = std::make_shared<typename S::Response>(); if (fill) fill(*q); }
  f(q, a);
  return a;
}
#define SRV(R, S, CB, ...) call<srv::S>([&](auto q, auto a) { (R).cm->CB(q, a); }, ##__VA_ARGS__)
// what has to be the case at the end: controller -> state
using Goal = std::map<std::string, int>;
struct Action
{
  std::string name;
  std::function<bool(Run &)> run;    // true: success
  Goal goal;                         // when it succeeds
  Names touched;                     // controllers which may miss updates
};
Action sw(const Names & A, const Names & D, bool asap)
{
  Action a;
  a.name = "switch start" + list(A) + " stop" + list(D) + (asap ? " asap" : "");
  for (auto & n : A) a.goal[n] = LS::PRIMARY_STATE_ACTIVE;
  for (auto & n : D) if (!has(A, n)) a.goal[n] = LS::PRIMARY_STATE_INACTIVE;
  a.touched = A;
  a.touched.insert(a.touched.end(), D.begin(), D.end());
  a.run = [=](Run & x) {
    return SRV(x.r, SwitchController, switch_controller_service_cb, [&](auto & q) { q.activate_controllers = A; q.deactivate_controllers = D; q.strictness = STRICT; q.activate_asap = asap; })->ok;
  };
  return a;
}
Action load(const std::string & n) { return {"load " + n, [=](Run & x) { return SRV(x.r, LoadController, load_controller_service_cb, [&](auto & q) { q.name = n; })->ok; }, {{n, LS::PRIMARY_STATE_UNCONFIGURED}}, {}}; }
Action conf(const std::string & n) { return {"configure " + n, [=](Run & x) { return SRV(x.r, ConfigureController, configure_controller_service_cb, [&](auto & q) { q.name = n; })->ok; }, {{n, LS::PRIMARY_STATE_INACTIVE}}, {}}; }
Action unload(const std::string & n) { return {"unload " + n, [=](Run & x) { return SRV(x.r, UnloadController, unload_controller_service_cb, [&](auto & q) { q.name = n; })->ok; }, {{n, 0}}, {}}; }
Action clean(const std::string & n) { return {"clean up " + n, [=](Run & x) { return SRV(x.r, CleanupController, cleanup_controller_service_cb, [&](auto & q) { q.name = n; })->ok; }, {{n, LS::PRIMARY_STATE_UNCONFIGURED}}, {}}; }
Action hwset(const std::string & n, int st) { return {"set " + n + " " + sn(st), [=](Run & x) { return SRV(x.r, SetHardwareComponentState, set_hardware_component_state_srv_cb, [&](auto & q) { q.name = n; q.target_state.id = static_cast<uint8_t>(st); q.target_state.label = sn(st); })->ok; }, {}, {}}; }
Action listc() { return {"list controllers", [](Run & x) { return !SRV(x.r, ListControllers, list_controllers_srv_cb)->controller.empty(); }, {}, {}}; }
Action listh() { return {"list hardware", [](Run & x) { return !SRV(x.r, ListHardwareComponents, list_hardware_components_srv_cb)->component.empty() && !SRV(x.r, ListHardwareInterfaces, list_hardware_interfaces_srv_cb)->command_interfaces.empty(); }, {}, {}}; }

struct Program
{
  std::string name;
  Names active;                            // at the beginning
  std::vector<std::vector<Action>> threads;   // services
  std::set<std::string> failing;           // callbacks which may fail once
  int how = ERR;
  bool thorough = false;                   // only there
};
void check_end(Run & x, const std::vector<std::vector<std::pair<const Action *, bool>>> & results, bool failed)
{
  auto & r = x.r;
  auto & c = x.c;
  // services on different threads exclude each other: the end is that of the last one for each controller
  std::set<std::string> known;
  if (!failed) for (auto & t : results) {
    Goal g;
    for (auto & [a, ok] : t) { if (!ok) c.fail("refused", a->name + " failed although nothing else did"); for (auto & [n, s] : a->goal) g[n] = s; }
    for (auto & [n, s] : g) {
      auto it = live().find(n);
      const int is = it == live().end() ? 0 : it->second->state();
      if (is != s) c.fail("result", n + " is " + (is ? sn(is) : "not loaded") + " after all services succeeded, must be " + (s ? sn(s) : "not loaded"));
    }
  }
  std::map<std::string, std::string> holder;
  for (auto & [n, p] : live()) {
    const bool on = p->state() == LS::PRIMARY_STATE_ACTIVE;
    Names cl = p->commands(), sl = p->states();
    if (!on && (!cl.empty() || !sl.empty())) c.fail("loans", n + " is " + sn(p->state()) + " and holds interfaces " + list(cl) + list(sl));
    if (on && (cl != p->d.cmd.names || sl != p->d.st.names)) c.fail("loans", n + " is active and holds " + list(cl) + list(sl));
    for (auto & i : cl) if (!holder.emplace(i, n).second) c.fail("loans", i + " is held by " + n + " and by " + holder[i]);
    if (p->d.chain) {
      bool used = false;
      for (auto & [m, q] : live()) for (auto & i : q->commands()) if (i.rfind(n + "/", 0) == 0) used = true;
      if (p->base->is_in_chained_mode() != used) c.fail("chained", n + (used ? " is used and not in chained mode" : " is in chained mode and not used"));
    }
  }
  for (auto & i : r.cm->resource_manager_->available_command_interfaces())
    if (r.cm->resource_manager_->command_interface_is_claimed(i) != (holder.count(i) > 0)) c.fail("claimed", i + (holder.count(i) ? " is held by " + holder[i] + " and not claimed" : " is claimed and held by nobody"));
  auto l = r.cm->get_loaded_controllers();
  Names names;
  for (auto & s : l) names.push_back(s.info.name);
  std::sort(names.begin(), names.end());
  Names want;
  for (auto & [n, p] : live()) want.push_back(n);
  if (names != want) c.fail("listed", "the list of controllers is " + list(names) + ", loaded are " + list(want));
}
void scenario(mc::Ctx & c, const Program & p, int bound, int first, bool races, bool atomics)
{
  mcrt::Options o;
  o.preemptions = bound;
  o.first_points = first;
  o.races = races;
  o.atomic_points = atomics;
  // a switch outside of the loop while the loop stops controllers itself: see known-findings.txt
  if (!p.failing.empty() && p.name.find("not asap") != std::string::npos) o.scope = "failure and switch not asap";
  mcrt::Session session(c, o);
  {
    mcrt::on_idle([] { return hook().fire(); });
    Rig r(c, setup());
    W().mute = {"read", "write", "update"};
    if (!p.active.empty()) r.sw(p.active, {}, true);
    mcrt::on_idle(nullptr);
    W().mute.clear();
    W().drop();
    W().life = {OK, ERR};
    menus().life = {OK, ERR};
    menus().update = {OK, ERR};
    W().rw = {OK, p.how};
    W().on_event = nullptr;
    std::set<std::string> cbs{"read", "write", "update", "activate", "deactivate", "configure", "cleanup", "shutdown", "init", "prepare", "perform", "on_error"};
    for (auto & x : cbs) {
      bool some = false;
      for (auto & f : p.failing) some |= f == x || (f.size() > x.size() && f.substr(f.size() - x.size() - 1) == "." + x);
      if (!some) W().mute.insert(x);
      else if (!p.failing.count(x)) for (auto n : {"s1", "a1", "n1", "A", "B", "R", "X", "Q", "U", "D"}) if (!p.failing.count(std::string(n) + "." + x)) W().mute.insert(std::string(n) + "." + x);
    }
    W().budget = p.failing.empty() ? 0 : 1;
    W().limit = 3;
    W().asked.clear();
    Run x{r, c};
    W().busy.clear();
    W().on_overlap = [&](const std::string & comp, const std::string & what) { if (what.find("prepare") != std::string::npos) return; c.record("overlap", comp + ": " + what + " is still running on another thread"); };
    std::vector<std::vector<std::pair<const Action *, bool>>> res(p.threads.size());
    std::vector<std::pair<std::string, std::function<void()>>> bodies;
    size_t left = p.threads.size();
    // the loop is the first thread; whoever makes it wait must go on without a pause
    mcrt::on_held([&](int waiter, const std::string & what) { if (waiter != 1) return;
      const size_t at = what.rfind("is in the callback ");
      c.record("loop-blocked:" + (at == std::string::npos ? std::string("pause") : what.substr(at + 19)) + ":" + p.name, what);
    });
    bodies.push_back({"loop", [&] { x.loop(); }});
    for (size_t i = 0; i < p.threads.size(); ++i) bodies.push_back({mc::fmt("service%zu", i), [&, i] {
      for (auto & a : p.threads[i]) {
        { mcrt::Quiet q; for (auto & n : a.touched) x.switching.insert(n); mcrt::note(a.name); }
        const bool ok = a.run(x);
        mcrt::Quiet q;
        mcrt::note(a.name + (ok ? " succeeded" : " failed"));
        res[i].push_back({&a, ok});
      }
      mcrt::Quiet q;
      if (--left == 0) x.done = true;
    }});
    c.step();
    mcrt::parallel(bodies);
    W().on_overlap = nullptr;
    mcrt::on_held(nullptr);
    bool failed = W().budget == 0 && !p.failing.empty();
    static int most = 0;
    if (mcrt::points() > most) { most = mcrt::points(); if (getenv("MT_POINTS")) fprintf(stderr, "points %d cycles %d\n", most, x.cycles); }
    if (!c.failed) check_end(x, res, failed);
    std::string out;
    for (auto & [n, q] : live()) out += n + sn(q->state());
    for (auto & t : res) for (auto & [a, ok] : t) out += ok ? '1' : '0';
    c.outcome(out + mc::fmt("%d", x.cycles));
  }
}
}  // namespace cmh
int main(int argc, char ** argv)
{
  register_controllers();
  const std::string id = argc > 1 ? argv[1] : "C11";
  const bool memory = id == "C12";
  mc::Check k(argc, argv, id);
  const auto began = std::chrono::steady_clock::now();
  k.rule = std::string("The control loop (read, update, write in one thread) and one or two threads calling services of the real controller manager under a controlled scheduler: every interleaving at lock operations, condition variables, yields, sleeps, atomic accesses and callbacks up to the preemption bound; ") +
    (memory ? "data races between accesses that are not ordered by synchronisation and accesses to freed memory are judged in every execution." : "deadlocks, waits of the loop for a service that pauses, overlapping callbacks of one component and the state at the end are judged in every execution.");
  const int ACT = LS::PRIMARY_STATE_ACTIVE, INA = LS::PRIMARY_STATE_INACTIVE;
  std::vector<Program> ps;
  ps.push_back({"load before the first cycle", {}, {{load("D")}}, {}});
  ps.push_back({"switch asap", {"A"}, {{sw({"X"}, {"A"}, true)}}, {}});
  ps.push_back({"switch not asap", {"A"}, {{sw({"X"}, {"A"}, false)}}, {}});
  ps.push_back({"switch chain", {"A"}, {{sw({"B", "R"}, {}, true), sw({}, {"B", "R"}, true)}}, {}});
  ps.push_back({"switch chain not asap", {"A"}, {{sw({"B", "R"}, {}, false), sw({}, {"B", "R"}, false)}}, {}, ERR, true});
  ps.push_back({"load and configure", {"A", "R", "B"}, {{load("D"), conf("D")}}, {}});
  ps.push_back({"unload", {"A", "R", "B"}, {{unload("U"), unload("X")}}, {}});
  ps.push_back({"clean up", {"A"}, {{clean("X"), conf("U")}}, {}});
  ps.push_back({"configure chainable", {"A"}, {{conf("Q"), clean("Q")}}, {}});
  ps.push_back({"lists", {"A", "R", "B"}, {{listc(), listh()}}, {}});
  ps.push_back({"hardware state", {"A"}, {{hwset("a1", INA), hwset("a1", ACT)}}, {}});
  ps.push_back({"failing update and load", {"A"}, {{load("D")}}, {"A.update"}});
  ps.push_back({"failing update and switch", {"A"}, {{sw({"B", "R"}, {"A"}, true)}}, {"A.update"}});
  ps.push_back({"failing update and switch not asap", {"A"}, {{sw({"B", "R"}, {"A"}, false)}}, {"A.update"}, ERR, memory});
  ps.push_back({"deactivating write and load", {"A"}, {{load("D")}}, {"s1.write"}, DEACT});
  ps.push_back({"failing read and switch", {"A"}, {{sw({"B", "R"}, {}, true)}}, {"s1.read"}});
  ps.push_back({"failing read and switch not asap", {"A"}, {{sw({"B", "R"}, {"A"}, false)}}, {"s1.read"}, ERR, true});
  ps.push_back({"failing write and load", {"A"}, {{load("D")}}, {"s1.write"}});
  ps.push_back({"failing activation", {"A"}, {{sw({"X"}, {"A"}, true)}}, {"X.activate"}});
  ps.push_back({"failing mode switch", {"A"}, {{sw({"X"}, {"A"}, true)}}, {"s1.perform"}});
  ps.push_back({"switch and list", {"A"}, {{sw({"X"}, {"A"}, true)}, {listc()}}, {}});
  ps.push_back({"switch and load", {"A"}, {{sw({"X"}, {"A"}, true)}, {load("D")}}, {}, ERR, true});
  ps.push_back({"hardware state and switch", {"A"}, {{hwset("a1", INA)}, {sw({"X"}, {"A"}, true)}}, {}});
  const int bound = getenv("MT_BOUND") ? atoi(getenv("MT_BOUND")) : k.q(1, 2);
  for (auto & p : ps) {
    if (p.thorough && !k.thorough() && k.replay_scn.empty() && !getenv("MT_ALL")) continue;
    const double spent = std::chrono::duration<double>(std::chrono::steady_clock::now() - began).count();
    mc::Check::Opt o;
    o.split = 1;
    o.hang_s = 60;
    o.cap_s = std::max(2.0, std::min(k.q(60, 120) * 1.0, k.q(400, 3000) - spent));
    mcrt::explore(k, p.name, bound, [=](mc::Ctx & c) { scenario(c, p, bound, 0, memory, !getenv("MT_NOATOM")); }, o);
  }
  return k.finish();
}
