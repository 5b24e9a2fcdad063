// C04 C05 C07 C08: what the control loop does to active controllers, cycle after cycle.
#include "cm_common.hpp"
using namespace cmh;  // NOLINT
namespace
{
std::vector<Comp> two_hw(int rate = 0, const char * g1 = "", const char * g2 = "")
{
  return {{"s1", "system", g1, rate, {{"ja", {"position", "velocity"}}}}, {"a1", "actuator", g2, 0, {{"jb", {"position", "velocity"}}}}};
}
mc::Check::Opt opt(mc::Check & k, const char * what, int split, bool caching = true)
{
  mc::Check::Opt o;
  o.split = split;
  o.caching = caching;
  o.cap_s = k.q(120, 1500);
  o.what = what;
  return o;
}
// ---- C04
// controllers connected in every way without a circle: 0 nothing, 1 i commands j, 2 i reads what j exports
Setup graph(const std::vector<int> & e, int n)
{
  Setup s;
  auto nm = [](int i) { return std::string(1, "dbeac"[i]); };
  for (int i = 0; i < n; ++i) s.ctrls.push_back({nm(i), true, {}, {}, {}, {"o"}, {}});
  int x = 0;
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j, ++x) {
    auto add = [](Cfg & c, const std::string & v) { c.type = IT::INDIVIDUAL; c.names.push_back(v); };
    if (e[x] == 1) { s.ctrls[j].refs.push_back("r" + nm(i)); add(s.ctrls[i].cmd, nm(j) + "/r" + nm(i)); }
    if (e[x] == 2) add(s.ctrls[i].st, nm(j) + "/o");
  }
  s.hw = two_hw();
  return s;
}
void order(mc::Check & k)
{
  auto go = [&](const char * name, int n, bool all_orders, const char * what) {
    k.explore(name, [=](mc::Ctx & c) {
      std::vector<int> e;
      for (int i = 0; i < n * (n - 1) / 2; ++i) e.push_back(c.choose(3));
      Setup s = graph(e, n);
      Names rest;
      for (auto & d : s.ctrls) rest.push_back(d.name);
      if (all_orders) {
        while (!rest.empty()) { const int i = c.choose(rest.size()); s.load_order.push_back(rest[i]); rest.erase(rest.begin() + i); }
      } else {
        const int o = c.choose(4);
        std::sort(rest.begin(), rest.end());
        if (o & 1) std::reverse(rest.begin(), rest.end());
        if (o & 2) std::rotate(rest.begin(), rest.begin() + n / 2, rest.end());
        s.load_order = rest;
      }
      std::string g;
      for (int x : e) g += mc::fmt("%d", x);
      c.note("connections " + g + ", loaded in the order " + list(s.load_order));
      Rig r(c, s);
      W().mute = {"read", "write", "update", "activate", "deactivate"};
      Names all;
      for (auto & d : s.ctrls) all.push_back(d.name);
      r.sw(all, {}, true);
      r.op = "cycle";
      r.cycle_raw();
      c.outcome(mc::fmt("%zu", r.edges.size()));
    }, opt(k, what, 4, false));
  };
  go("three", 3, true, "every way to connect three controllers (commands, exported states), loaded and configured in every order");
  go("four", 4, k.q(0, 1), "the same with four controllers (quick: four of the orders)");
  if (k.q(0, 1)) go("five", 5, false, "five controllers, four of the orders");
}
// ---- C07
void rates(mc::Check & k)
{
  k.explore("rates", [&](mc::Ctx & c) {
    static const int cm[] = {100, 30, 7, 1000}, r1[] = {0, 1, 3, 10, 20, 33, 50, 60, 66, 99, 100, 250};
    Setup s;
    s.hw = two_hw();
    s.rate = cm[c.choose(4)];
    const int a = r1[c.choose(12)], b = r1[c.choose(12)];
    s.ctrls = {{"x", false, {}, {"ja/position"}, {}, {}, {}}, {"y", true, {"jb/position"}, {}, {"r"}, {}, {}}};
    s.ctrls[0].rate = a;
    s.ctrls[1].rate = b;
    c.note(mc::fmt("control loop at %d Hz, controllers at %d and %d Hz", s.rate, a, b));
    Rig r(c, s);
    r.dt = 1.0 / s.rate;
    W().mute = {"read", "write", "update", "activate", "deactivate"};
    // the second one starts some cycles later, the first one pauses
    const int late = c.choose(4), pause = c.choose(3);
    r.sw({"x"}, {}, true);
    auto run = [&](int n) { for (int i = 0; i < n; ++i) { r.op = "cycle"; r.cycle_raw(); c.step(); } };
    run(late);
    r.sw({"y"}, {}, true);
    run(5);
    if (pause) { r.sw({}, {"x"}, true); run(pause); r.sw({"x"}, {}, true); }
    run(k.q(25, 220));
    c.outcome(mc::fmt("%d %d %d", s.rate, a, b));
  }, opt(k, "two controllers with every combination of 12 rates in a control loop of 4 rates, started at different cycles and paused", 4, false));
  k.explore("jitter", [&](mc::Ctx & c) {
    static const int r1[] = {20, 33, 50, 66, 100};
    static const double f[] = {1.0, 0.6, 1.4};
    Setup s;
    s.hw = two_hw();
    s.ctrls = {{"x", false, {}, {"ja/position"}, {}, {}, {}}};
    s.ctrls[0].rate = r1[c.choose(5)];
    c.note(mc::fmt("controller at %d Hz", s.ctrls[0].rate));
    Rig r(c, s);
    W().mute = {"read", "write", "update", "activate", "deactivate"};
    r.sw({"x"}, {}, true);
    for (int i = 0; i < k.q(7, 9); ++i) { r.dt = 0.01 * f[c.choose(3)]; c.note(mc::fmt("cycle after %g s", r.dt)); r.op = "cycle"; r.cycle_raw(); c.step(); }
    c.outcome(mc::fmt("%g", r.now - r.timing["x"].last));
  }, opt(k, "every sequence of early, punctual and late cycles", 3, false));
}
// ---- C05, C08
Setup many()
{
  Setup s;
  s.hw = two_hw();
  s.ctrls = {
    {"p", false, {"ja/velocity"}, {"ja/position"}, {}, {}, {}},
    {"q", false, {"low/r"}, {}, {}, {}, {}},
    {"low", true, {"jb/position"}, {"jb/position"}, {"r"}, {"v"}, {}},
    {"obs", false, {}, {"low/v", "ja/position"}, {}, {}, {}},
    {"sep", false, {"jb/velocity"}, {"jb/velocity"}, {}, {}, {}}};
  return s;
}
Setup falls()
{
  Setup s;
  s.hw = two_hw();
  s.ctrls = {
    {"f2", false, {"low/r"}, {}, {}, {}, {}},
    {"low", true, {"ja/position"}, {}, {"r"}, {}, {}},
    {"f1", false, {"jb/position"}, {"jb/position"}, {}, {}, {}},
    {"m", false, {"ja/velocity"}, {}, {}, {}, {"f2", "low"}},
    {"n", false, {"jb/velocity"}, {}, {}, {}, {"f1"}},
    {"u", false, {"jb/position"}, {}, {}, {}, {}},
    {"c", false, {"low/r"}, {}, {}, {}, {"f1"}}};
  return s;
}
Setup mixed()   // controllers which span hardware, and ones which only read
{
  Setup s;
  s.hw = two_hw(0, "", "");
  s.ctrls = {
    {"both", false, {"ja/position", "jb/position"}, {"ja/position"}, {}, {}, {}},
    {"rd", false, {}, {"ja/velocity"}, {}, {}, {}},
    {"cross", false, {"jb/velocity"}, {"ja/position"}, {}, {}, {}},
    {"own", false, {"ja/velocity"}, {}, {}, {}, {}},
    {"all", false, {}, {IT::ALL}, {}, {}, {}}};
  return s;
}
Setup grouped() { Setup s = mixed(); s.hw = two_hw(0, "g", "g"); return s; }
// start some of the controllers, then cycles in which callbacks fail; a switch in between
void run(mc::Check & k, const char * name, const char * what, Setup (*make)(), const std::vector<Names> & starts, int cycles, int budget, std::set<std::string> mute, bool again)
{
  k.explore(name, [=](mc::Ctx & c) {
    Rig r(c, make());
    const Names & A = starts[c.choose(starts.size())];
    W().mute = {"read", "write", "update", "activate", "deactivate", "prepare", "perform"};
    r.sw(A, {}, true);
    W().mute = mute;
    W().budget = budget;
    for (int i = 0; i < cycles; ++i) {
      r.cycle();
      c.state(r.m.str() + mc::fmt("b%d", W().budget), cycles - i);
      // a controller which refused to stop leaves its chain broken, a group in transition would change during the switch
      bool calm = r.m.refused.empty();
      for (auto & [g, v] : r.m.hw.group) calm = calm && v == rmh::OK;
      if (again && i + 1 < cycles && calm && c.flip("switch")) {
        const auto b = W().budget;
        W().budget = 0;
        const Names & B = starts[c.choose(starts.size())];
        r.sw(B, c.flip("stop the others") ? A : Names(), false);
        W().budget = b;
        c.state(r.m.str() + mc::fmt("b%d s", W().budget), cycles - i);
      }
    }
    c.outcome(r.m.str());
  }, opt(k, what, 3));
}
}  // namespace
int main(int argc, char ** argv)
{
  const std::string id = argc > 1 && argv[1][0] == 'C' ? argv[1] : "C05";
  register_controllers();
  mc::Check k(argc, argv, id);
  const int t = k.q(0, 1);
  if (id == "C04") {
    k.rule = "an execution is one way to connect the controllers and one order of loading them; the order of the updates of one cycle is checked; outcomes are distinct numbers of constraints";
    k.own = {"*:order", "*:update", "setup:*", "*:refused"};
    order(k);
  }
  if (id == "C05") {
    k.rule = "an execution is one set of active controllers and one sequence of callback answers; every cycle is compared with the reference model; outcomes are distinct final states";
    k.own = {"*"};
    std::set<std::string> io = {"read", "write"};
    run(k, "chains", "updates which fail or throw in chains and single controllers; deactivations and mode switches which fail as well", many, {{"p", "q", "low", "obs", "sep"}, {"p", "low", "obs"}, {"sep", "low", "q"}, {"p", "sep"}}, 3 + t, 2 + t, io, true);
    run(k, "fallbacks", "failing controllers with fallback controllers, whose interfaces may be in use and whose activation may fail", falls, {{"m", "n", "u"}, {"m", "n"}, {"m", "low", "c"}, {"n", "u", "c", "low"}, {"m", "low"}, {"n", "f1"}}, 3 + t, 2 + t, io, false);
  }
  if (id == "C07") {
    k.rule = "an execution is one combination of rates and one history of cycles; every update and its period is checked; outcomes are distinct combinations";
    k.own = {"*:rate", "*:period", "*:update"};
    rates(k);
  }
  if (id == "C08") {
    k.rule = "an execution is one set of active controllers and one sequence of answers of the hardware; every cycle is compared with the reference models of hardware and controllers; outcomes are distinct final states";
    k.own = {"*"};
    std::set<std::string> ctl = {"update", "activate", "s1.deactivate"};
    run(k, "chains", "reads and writes which fail, throw or deactivate the hardware; error handlers, deactivations and mode switches which fail as well", many, {{"p", "q", "low", "obs", "sep"}, {"p", "low", "obs"}, {"sep", "low", "q"}}, 3 + t, 2 + t, ctl, true);
    run(k, "spanning", "controllers which use several hardware components or only read", mixed, {{"both", "rd", "cross", "own", "all"}, {"rd", "cross", "all"}, {"own", "both"}}, 3 + t, 2 + t, ctl, true);
    run(k, "groups", "the hardware components form a group", grouped, {{"both", "rd", "cross", "own", "all"}, {"rd", "cross", "all"}}, 3 + t, 1 + t, ctl, true);
    run(k, "fallback controllers", "the hardware of fallback controllers which took over fails", falls, {{"m", "n", "u"}, {"n"}, {"m"}}, 3 + t, 2 + t, {"activate", "deactivate", "prepare", "perform"}, false);
  }
  return k.finish();
}
