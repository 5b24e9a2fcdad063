// C01 C02 C03: every switch request from every reachable state of several sets of controllers.
#include "cm_common.hpp"
using namespace cmh;  // NOLINT
namespace
{
std::vector<Comp> hw2() { return {{"s1", "system", "", 0, {{"ja", {"position", "velocity"}}, {"jb", {"position", "velocity"}}}}}; }
std::vector<Comp> hw_two() { return {{"s1", "system", "", 0, {{"ja", {"position", "velocity"}}}}, {"a1", "actuator", "", 0, {{"jb", {"position", "velocity"}}}}}; }
Setup plain()
{
  Setup s;
  s.hw = hw_two();
  s.ctrls = {
    {"p1", false, {"ja/position"}, {"ja/position"}, {}, {}, {}},
    {"p2", false, {"jb/velocity", "ja/position"}, {"ja/velocity", "jb/position"}, {}, {}, {}},
    {"p3", false, {"jb/velocity"}, {}, {}, {}, {}},
    {"br", false, {}, {IT::ALL}, {}, {}, {}}};
  return s;
}
Setup chain()
{
  Setup s;
  s.hw = hw2();
  s.ctrls = {
    {"top", false, {"mid/r1"}, {}, {}, {}, {}},
    {"mid", true, {"low/r1", "ja/velocity"}, {"ja/position"}, {"r1"}, {}, {}},
    {"low", true, {"ja/position"}, {"ja/position"}, {"r1", "r2"}, {}, {}},
    {"alt", false, {"low/r1"}, {}, {}, {}, {}}};
  return s;
}
Setup split_chain()   // two controllers command different references of one
{
  Setup s;
  s.hw = hw2();
  s.ctrls = {
    {"c1", false, {"low/r1"}, {}, {}, {}, {}},
    {"c2", false, {"low/r2"}, {}, {}, {}, {}},
    {"low", true, {"ja/position"}, {"ja/position"}, {"r1", "r2"}, {}, {}},
    {"di", false, {"ja/position"}, {}, {}, {}, {}}};
  return s;
}
Setup fork_chain()    // one controller commands two
{
  Setup s;
  s.hw = hw2();
  s.ctrls = {
    {"top", false, {"l1/r", "l2/r"}, {}, {}, {}, {}},
    {"l1", true, {"ja/position"}, {}, {"r"}, {}, {}},
    {"l2", true, {"jb/position"}, {}, {"r"}, {}, {}}};
  return s;
}
Setup exporter()      // reads what another one exports
{
  Setup s;
  s.hw = hw2();
  s.ctrls = {
    {"est", true, {}, {"ja/position"}, {}, {"v"}, {}},
    {"rd", false, {"ja/position"}, {"est/v"}, {}, {}, {}},
    {"rd2", false, {"jb/position"}, {"est/v", "ja/position"}, {}, {}, {}}};
  return s;
}
Setup exporter_ref()  // references and exported states of the same controller
{
  Setup s;
  s.hw = hw2();
  s.ctrls = {
    {"both", true, {"ja/position"}, {"ja/position"}, {"r"}, {"v"}, {}},
    {"cmd", false, {"both/r"}, {}, {}, {}, {}},
    {"obs", false, {"jb/position"}, {"both/v"}, {}, {}, {}}};
  return s;
}
Setup fallbacks()
{
  Setup s;
  s.hw = hw2();
  s.ctrls = {
    {"f2", false, {"low/r"}, {}, {}, {}, {}},
    {"f1", false, {"jb/position"}, {}, {}, {}, {}},
    {"low", true, {"ja/position"}, {}, {"r"}, {}, {}},
    {"m1", false, {"jb/position"}, {}, {}, {}, {"f1"}},
    {"m2", false, {"ja/velocity"}, {}, {}, {}, {"f2", "low"}},
    {"m3", false, {"jb/velocity"}, {}, {}, {}, {"f2"}}};
  return s;
}
Setup kinds()
{
  Setup s;
  s.hw = hw_two();
  s.ctrls = {
    {"be", false, {IT::INDIVIDUAL_BEST_EFFORT, {"ja/position", "jc/position"}}, {IT::INDIVIDUAL_BEST_EFFORT, {"jc/position", "jb/position"}}, {}, {}, {}},
    {"re", false, {IT::REGEX, {"j[ab]/velocity"}}, {IT::REGEX, {"ja/.*"}}, {}, {}, {}},
    {"al", false, {IT::ALL}, {IT::ALL}, {}, {}, {}},
    {"un", false, {"jc/position"}, {}, {}, {}, {}}};
  return s;
}

Setup states()        // some controllers are not configured or not loaded
{
  Setup s = chain();
  s.ctrls.push_back({"bro", false, {}, {IT::ALL}, {}, {}, {}});
  s.ctrls.push_back({"fb", false, {"jb/position"}, {}, {}, {}, {"alt"}});
  s.skip_configure = {"low"};
  s.skip_load = {"mid"};
  return s;
}
Setup state_of_chain()  // chain whose last member reads through exported states of another one, with broadcasters
{
  Setup s;
  s.hw = hw2();
  s.ctrls = {
    {"bro", false, {}, {IT::ALL}, {}, {}, {}},
    {"top", false, {"flt/r"}, {"est/v"}, {}, {}, {}},
    {"flt", true, {"ja/position"}, {"est/v"}, {"r"}, {"o"}, {}},
    {"est", true, {}, {"ja/position"}, {}, {"v"}, {}}};
  return s;
}
Setup with_default(bool strict) { Setup s = plain(); s.params.emplace_back("defaults.switch_controller.strictness", std::string(strict ? "strict" : "best_effort")); return s; }
// one request out of all
void request(mc::Ctx & c, Rig & r, const Names & who, bool orders, bool timeouts)
{
  Names A, D;
  for (auto & n : who) {
    const int k = c.choose(4);
    if (k & 1) A.push_back(n);
    if (k & 2) D.push_back(n);
  }
  if (orders && (A.size() > 1 || D.size() > 1)) {
    if (c.flip("reversed")) { std::reverse(A.begin(), A.end()); std::reverse(D.begin(), D.end()); }
  }
  const int mode = c.choose(2);
  const bool asap = c.choose(2) == 0;
  r.sw(A, D, mode == 0, asap, !timeouts || c.choose(2) == 0);
}
void cycle(Rig & r)
{
  r.op = "cycle";
  r.cycle_raw();
  r.model("cycle", [] { return 0; });
}
}  // namespace
int main(int argc, char ** argv)
{
  const std::string id = argc > 1 && argv[1][0] == 'C' ? argv[1] : "C01";
  register_controllers();
  mc::Check k(argc, argv, id);
  k.rule = "an execution is one sequence of switch requests and callback answers; every step of the real controller manager (callbacks, states, loans, availability, chained modes, result) is compared with the reference model; outcomes are distinct final states";
  k.assumptions = {"the control loop runs one cycle whenever a service of the controller manager waits for it; other interleavings of the two threads are the subject of C11"};
  const bool c1 = id == "C01", c2 = id == "C02", c3 = id == "C03";
  if (c1) k.own = {"setup:*", "*:accepted*", "*:refused", "*:rejected-acts", "*:callback", "*:state", "*:loans", "*:update", "*:availability", "*:loaded"};
  if (c2) k.own = {"*:claimed", "*:loans", "*:availability", "*:accepted-conflict", "*:accepted-unavailable"};
  if (c3) k.own = {"*:chained", "*:not-chained", "*broken-chain", "*-chained", "*:accepted-chain", "*:refused", "*:callback", "*:state", "*:availability", "*:order"};
  auto go = [&](const char * name, const char * what, Setup (*make)(), const Names & who, int depth, int budget, bool orders, bool timeouts = false) {
    mc::Check::Opt o;
    o.split = 4;
    o.caching = true;
    o.cap_s = k.q(100, 1200);
    o.what = what;
    k.explore(name, [=](mc::Ctx & c) {
      Rig r(c, make());
      W().budget = budget;
      W().mute = {"read", "write", "update"};
      for (int d = 0; d < depth; ++d) {
        request(c, r, who, orders, timeouts);
        cycle(r);
        c.state(r.m.str() + mc::fmt("b%d", W().budget), depth - d);
      }
      c.outcome(r.m.str());
    }, o);
  };
  const int t = k.q(0, 1);
  const char * all = "all switch requests (each controller: nothing, start, stop, both; strict and best effort; immediate and not), one cycle after each";
  const char * cb = "as above, one callback of a controller or of the mode switch of a hardware fails in every possible way";
  if (c1 || c2) go("plain", all, plain, {"p1", "p2", "p3", "br"}, 2 + t, 0, true);
  go("chain", all, chain, {"top", "mid", "low", "alt"}, 2 + t, 0, true);
  if (!c2) go("two preceding", all, split_chain, {"c1", "c2", "low", "di"}, 2 + t, 0, true);
  if (!c2) go("two following", all, fork_chain, {"top", "l1", "l2"}, 2 + t, 0, true);
  if (!c2) go("exported states", all, exporter, {"est", "rd", "rd2"}, 2 + t, 0, true);
  if (!c2) go("both exports", all, exporter_ref, {"both", "cmd", "obs"}, 2 + t, 0, true);
  if (c3) go("filter", all, state_of_chain, {"bro", "top", "flt", "est"}, 2 + t, 0, false);
  if (c1) go("fallback controllers", all, fallbacks, {"low", "m1", "m2", "m3", "f2"}, 1 + t, 0, false);
  if (c1 || c2) go("interface kinds", all, kinds, {"be", "re", "al", "un"}, 2 + t, 0, false);
  if (c1) go("not configured", all, states, {"top", "low", "bro", "fb"}, 2, 0, false);
  if (c1) go("loop stopped", "as above, the control loop may stand still until the request times out", exporter_ref, {"both", "cmd", "obs"}, 2, 0, false, true);
  if (c1 || c2) go("failing plain", cb, plain, {"p1", "p2", "p3"}, 2, 1 + t, false);
  go("failing chain", cb, chain, {"top", "mid", "low"}, 2, 1 + t, false);
  if (!c2) go("failing two preceding", cb, split_chain, {"c1", "c2", "low"}, 2, 1 + t, false);
  if (!c2) go("failing two following", cb, fork_chain, {"top", "l1", "l2"}, 2, 1 + t, false);
  if (!c2) go("failing both exports", cb, exporter_ref, {"both", "cmd", "obs"}, 2, 1 + t, false);
  if (c1) {
    mc::Check::Opt o;
    o.split = 3;
    o.cap_s = k.q(100, 1200);
    o.what = "lists of up to three names with repeated, unknown and unloaded ones, through the service with every strictness and both defaults";
    const int len = 2 + t;
    k.explore("names", [=](mc::Ctx & c) {
      const bool strict_default = c.choose(2);
      const Names words = {"p1", "p2", "p3", "nope", ""};
      Names l[2];
      for (auto & v : l) for (int i = 0; i < len; ++i) { const int w = c.choose(words.size() + 1); if (w == 0) break; v.push_back(words[w - 1]); }
      const int how = c.choose(5), pre = c.choose(2);
      Rig r(c, with_default(strict_default));
      W().mute = {"read", "write", "update"};
      if (pre) r.sw({"p1", "p3"}, {}, true);
      r.service = 1 + std::max(0, how - 1);
      W().budget = 1;
      r.sw(l[0], l[1], how == 0 || (r.service == 2 && strict_default));
      cycle(r);
      c.outcome(r.m.str());
    }, o);
  }
  return k.finish();
}
