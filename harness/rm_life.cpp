// H03..H08: the resource manager under sequences of operations, beside its reference model
#include "rm_common.hpp"
using namespace rmh;
static std::vector<Comp> robot(bool group)
{
  std::string g = group ? "g" : "";
  return {{"act", "actuator", g, 0, {{"ja", {"position"}}}}, {"sen", "sensor", g, 0, {{"s1", {}}}}, {"sys", "system", g, 0, {{"jb", {"position", "velocity"}}}}};
}
static const std::vector<int> TARGETS{LS::PRIMARY_STATE_UNCONFIGURED, LS::PRIMARY_STATE_INACTIVE, LS::PRIMARY_STATE_ACTIVE, LS::PRIMARY_STATE_FINALIZED};
static void seq(mc::Ctx & c, bool group, std::vector<std::string> who, int depth, int budget, bool start_active, int flags)
{
  Pair p(c, robot(group));
  p.load(flags & 1, !(flags & 2));
  if (start_active) for (auto & n : {"act", "sen", "sys"}) p.set_state(n, LS::PRIMARY_STATE_ACTIVE);
  W().budget = budget;
  const int ns = static_cast<int>(who.size() * TARGETS.size());
  for (int d = 0; d < depth; ++d) {
    c.state(p.m.str() + mc::fmt(" b%d", W().budget), depth - d);
    int o = c.choose(ns + 2);
    if (o < ns) p.set_state(who[o / 4], TARGETS[o % 4], flags & 4);
    else { p.advance(0.01); if (o == ns) p.read(0.01); else p.write(0.01); }
  }
  c.outcome(p.m.str());
}
static void lifecycle(mc::Check & k)
{
  mc::Check::Opt o;
  o.caching = true;
  o.cap_s = 700;
  for (const char * n : {"act", "sen", "sys"}) {
    o.what = "every sequence of state requests, reads and writes on one component, every answer of every callback";
    k.explore(std::string("one component ") + n, [&, n](mc::Ctx & c) { seq(c, false, {n}, k.q(5, 8), k.q(4, 6), false, 0); }, o);
  }
  o.what = "the target given by its label only";
  k.explore("by label", [&](mc::Ctx & c) { seq(c, false, {"sys"}, 4, 3, false, 4); }, o);
  o.what = "three components, no group";
  k.explore("three components", [&](mc::Ctx & c) { seq(c, false, {"act", "sen", "sys"}, k.q(4, 6), k.q(2, 4), true, 0); }, o);
  // no caching: nothing is assumed about what the implementation remembers
  o.caching = false;
  o.what = "as above, without cutting at states seen before";
  k.explore("one component, full history", [&](mc::Ctx & c) { seq(c, false, {"sys"}, k.q(4, 5), k.q(2, 3), false, 0); }, o);
}
static void groups(mc::Check & k)
{
  mc::Check::Opt o;
  o.caching = true;
  o.cap_s = 700;
  o.what = "three components in one group";
  k.explore("group", [&](mc::Ctx & c) { seq(c, true, {"act", "sen", "sys"}, k.q(4, 6), k.q(2, 3), true, 0); }, o);
  o.what = "as above, self-deactivated hardware is not reported";
  k.explore("group, deactivation not reported", [&](mc::Ctx & c) { seq(c, true, {"sys"}, k.q(5, 8), 2, true, 2); }, o);
  o.what = "no group";
  k.explore("no group", [&](mc::Ctx & c) { seq(c, false, {"act", "sys"}, k.q(4, 6), k.q(3, 4), true, 0); }, o);
  auto two = [&](mc::Ctx & c) {
    Pair p(c, {{"a1", "actuator", "g1", 0, {{"ja", {"position"}}}}, {"a2", "actuator", "g2", 0, {{"jb", {"position"}}}}, {"y1", "system", "g1", 0, {{"jc", {"position"}}}}, {"y2", "system", "", 0, {{"jd", {"position"}}}}});
    p.load();
    for (auto & n : {"a1", "a2", "y1", "y2"}) p.set_state(n, LS::PRIMARY_STATE_ACTIVE);
    W().budget = k.q(2, 3);
    for (int d = 0; d < k.q(4, 6); ++d) {
      c.state(p.m.str() + mc::fmt(" b%d", W().budget), k.q(4, 6) - d);
      int o = c.choose(5);
      if (o < 2) { p.advance(0.01); if (o == 0) p.read(0.01); else p.write(0.01); }
      else p.set_state(o == 2 ? "a1" : o == 3 ? "y1" : "a2", LS::PRIMARY_STATE_ACTIVE);
    }
    c.outcome(p.m.str());
  };
  o.what = "two groups and an ungrouped component";
  k.explore("two groups", two, o);
}
static void rates(mc::Check & k)
{
  mc::Check::Opt o;
  o.caching = true;
  o.cap_s = 700;
  for (int variant = 0; variant < 3; ++variant) {
    static const std::vector<std::vector<int>> R{{50, 30, 13}, {0, 100, 30}, {13, 250, 50}};
    o.what = mc::fmt("read/write rates %d %d %d at 100 Hz, jittering and late cycles, state changes in between", R[variant][0], R[variant][1], R[variant][2]);
    k.explore(mc::fmt("rates %d", variant), [&, variant](mc::Ctx & c) {
      auto d = robot(false);
      for (int i = 0; i < 3; ++i) d[i].rw_rate = R[variant][i];
      Pair p(c, d);
      p.load();
      static const std::vector<int> st{LS::PRIMARY_STATE_ACTIVE, LS::PRIMARY_STATE_INACTIVE, LS::PRIMARY_STATE_UNCONFIGURED};
      for (auto & n : {"act", "sen", "sys"}) { int s = st[c.choose(3)]; if (s != LS::PRIMARY_STATE_UNCONFIGURED) p.set_state(n, s); }
      W().budget = 1;
      W().mute = {"activate", "deactivate", "configure", "cleanup", "shutdown"};
      W().rw = {OK, THROW};
      const int depth = k.q(6, 9);
      int changes = 0;
      for (int i = 0; i < depth; ++i) {
        c.state(p.m.str() + mc::fmt(" c%d b%d", changes, W().budget), depth - i);
        static const double dts[] = {0.010, 0.008, 0.013, 0.047};
        int a = c.choose(4 + (changes < 1 ? 4 : 0));
        if (a >= 4) {
          ++changes;
          const char * n = a < 6 ? "act" : "sys";
          p.set_state(n, a % 2 ? LS::PRIMARY_STATE_INACTIVE : LS::PRIMARY_STATE_ACTIVE);
          continue;
        }
        p.advance(dts[a]);
        p.read(dts[a]);
        p.write(dts[a]);
      }
      W().mute.clear();
      W().rw = {OK, ERR, DEACT, THROW};
      c.outcome(p.m.str());
    }, o);
  }
  o.what = "every state and every answer: which states are read and written";
  k.explore("gating", [&](mc::Ctx & c) { seq(c, false, {"act", "sys"}, k.q(4, 6), 2, true, 0); }, o);
}
static void modes(mc::Check & k)
{
  mc::Check::Opt o;
  o.split = 5;
  for (int allow = 0; allow < 2; ++allow) {
    o.what = allow ? "interfaces of inactive hardware may be started" : "every combination of component states, start and stop lists and answers";
    k.explore(allow ? "inactive allowed" : "mode switch", [&, allow](mc::Ctx & c) {
      Pair p(c, {{"act", "actuator", "", 0, {{"ja", {"position"}}}}, {"sys", "system", "", 0, {{"jb", {"position", "velocity"}}}}, {"sy2", "system", "", 0, {{"jc", {"position"}}}}});
      p.load(allow);
      static const std::vector<int> st{LS::PRIMARY_STATE_ACTIVE, LS::PRIMARY_STATE_INACTIVE, LS::PRIMARY_STATE_UNCONFIGURED, LS::PRIMARY_STATE_FINALIZED};
      for (auto & n : {"act", "sys", "sy2"}) { int s = st[c.choose(n[1] == 'y' && n[2] == '2' ? 3 : 4)]; if (s != LS::PRIMARY_STATE_UNCONFIGURED) p.set_state(n, s); }
      W().budget = k.q(1, 3);
      static const std::vector<std::string> I{"ja/position", "jb/position", "jb/velocity", "jc/position", "nope/position"};
      std::vector<std::string> a, b;
      for (auto & i : I) {
        int w = c.choose(i == "nope/position" ? 3 : 4);  // in neither, start, stop, both
        if (w & 1) a.push_back(i);
        if (w & 2) b.push_back(i);
      }
      p.mode("prepare", a, b);
      // an unknown interface never reaches the hardware, whatever the order
      p.mode("perform", a, b);
      c.outcome(p.m.str() + list(a) + list(b));
    }, o);
  }
}
static void loans(mc::Check & k)
{
  mc::Check::Opt o;
  o.caching = true;
  o.cap_s = 700;
  const int depth = k.q(5, 7);
  auto run = [&](mc::Ctx & c, bool refs) {
    Pair p(c, {{"act", "actuator", "", 0, {{"ja", {"position"}}}}, {"sys", "system", "", 0, {{"jb", {"position", "velocity"}}}}});
    p.load();
    W().budget = k.q(1, 2);
    std::vector<std::string> I{"ja/position", "jb/position"};
    std::vector<hi::CommandInterface::SharedPtr> keep;
    bool imported = false;
    if (refs) I = {"ja/position", "ctrl/ref"};
    for (int d = 0; d < depth; ++d) {
      c.state(p.m.str() + mc::fmt(" i%d b%d", imported, W().budget), depth - d);
      int o = c.choose(refs ? 11 : 9);
      if (o < 2) p.claim(I[o]);
      else if (o < 4) { if (p.loans.count(I[o - 2])) p.release(I[o - 2]); }
      else if (o < 7) { if (o == 4) p.set_state("act", LS::PRIMARY_STATE_ACTIVE); else if (o == 5) p.set_state("act", LS::PRIMARY_STATE_UNCONFIGURED); else { p.advance(0.01); p.read(0.01); } }
      else if (o == 7) {  // move a loan: ownership goes with it
        auto it = p.loans.find(I[0]);
        if (it != p.loans.end()) {
          c.note("move " + I[0]);
          p.op = "claim";
          hi::LoanedCommandInterface other(std::move(it->second));
          p.loans.erase(it);
          p.verify();
          p.loans.emplace(I[0], std::move(other));
          p.verify();
        }
      } else if (o == 8) {
        if (refs) {  // the interfaces of a chainable controller
          if (!imported) {
            c.note("import ctrl/ref");
            p.op = "claim";
            keep = {std::make_shared<hi::CommandInterface>("ctrl", "ref", nullptr)};
            keep = {std::make_shared<hi::CommandInterface>(hi::InterfaceDescription("ctrl", hi::InterfaceInfo("ref", "double")))};
            p.rm->import_controller_reference_interfaces("ctrl", keep);
            p.m.claimed["ctrl/ref"] = false;
            imported = true;
            p.verify();
          } else if (!p.m.claimed["ctrl/ref"]) {
            c.note("remove ctrl/ref");
            p.op = "claim";
            p.rm->make_controller_reference_interfaces_unavailable("ctrl");
            p.rm->remove_controller_reference_interfaces("ctrl");
            p.m.avail_c.erase("ctrl/ref");
            p.m.claimed.erase("ctrl/ref");
            imported = false;
            if (p.rm->command_interface_exists("ctrl/ref")) p.fail("exists", "ctrl/ref still exists after its removal");
            p.verify();
          }
        } else {
          // a second claim through a unavailable or unknown key
          p.op = "claim";
          bool ok = true;
          try { auto l = p.rm->claim_command_interface("nope/position"); } catch (const std::exception &) { ok = false; }
          if (ok) p.fail("claim", "claim of an unknown interface granted");
        }
      } else if (imported) {
        p.op = "claim";
        if (o == 9) { c.note("make ctrl available"); p.rm->make_controller_reference_interfaces_available("ctrl"); p.m.avail_c.insert("ctrl/ref"); }
        else { c.note("make ctrl unavailable"); p.rm->make_controller_reference_interfaces_unavailable("ctrl"); p.m.avail_c.erase("ctrl/ref"); }
        p.verify();
      }
      // state interfaces: any number of loans, only while available
      for (const char * s : {"ja/position", "jb/velocity"}) {
        bool ok = true;
        try { auto l1 = p.rm->claim_state_interface(s); auto l2 = p.rm->claim_state_interface(s); } catch (const std::exception &) { ok = false; }
        if (ok != (p.m.avail_s.count(s) > 0)) p.fail("claim", std::string("state interface ") + s + (ok ? " lent although unavailable" : " refused although available") + "; " + p.m.str());
      }
    }
    c.outcome(p.m.str());
  };
  o.what = "claims, releases, moves of loans and state changes of the hardware with failing transitions";
  k.explore("hardware interfaces", [&](mc::Ctx & c) { run(c, false); }, o);
  o.what = "as above with interfaces exported by a controller which come and go";
  k.explore("reference interfaces", [&](mc::Ctx & c) { run(c, true); }, o);
}
int main(int argc, char ** argv)
{
  const std::string id = argc > 1 ? argv[1] : "H05";
  mc::Check k(argc, argv, id);
  register_plugins();
  k.rule = "an execution is one sequence of operations and callback answers; every step of the real resource manager is compared with the reference model; outcomes are distinct final states";
  k.assumptions = {"callback answers other than success are limited per execution as stated in DESIGN.md"};
  if (id == "H03") { k.own = {"claim:claim", "claim:claimed", "*:claimed", "claim:*"}; loans(k); }
  if (id == "H04") { k.own = {"*:availability", "*:exists", "claim:claim"}; lifecycle(k); loans(k); }
  if (id == "H05") { k.own = {"set:state", "set:callback", "set:set-result"}; lifecycle(k); }
  if (id == "H06") { k.own = {"*:io-callback", "*:period"}; rates(k); }
  if (id == "H07") { k.own = {"cycle:state", "cycle:callback", "cycle:availability", "cycle:failed-names", "cycle:cycle-result"}; groups(k); }
  if (id == "H08") { k.own = {"mode:*"}; modes(k); }
  return k.finish();
}
