// L01: hard joint limits (range limiter for single joints)
#include "jl_common.hpp"
using Lim = joint_limits::JointSaturationLimiter<D>;
static mc::u64 evals = 0;

struct Verdict { bool threw = false; D out; bool flag = false; };

// reference: one enforcement; prev is the command history (updated)
static bool expect(const JointLimits & l, D & prev, const D & act0, const D & des, double dt, D & out, std::vector<std::pair<const char *, Win>> & wins)
{
  out = des;
  if (!(dt > 0)) return true;
  D act = act0;
  act.position = fin(act.position); act.velocity = fin(act.velocity); act.effort = fin(act.effort);
  act.acceleration = fin(act.acceleration); act.jerk = fin(act.jerk);
  ref::start(prev, act, des);
  if (fin(des.position)) {
    if (ref::too_far(l, act.position)) return false;
    Win w = ref::position(l, act.velocity, act.position, fin(prev.position), dt);
    out.position = clampw(*des.position, w); wins.push_back({"position", w});
  }
  if (fin(des.velocity)) {
    Win w = ref::velocity(l, *des.velocity, act.position, fin(prev.velocity), dt);
    out.velocity = clampw(*des.velocity, w); wins.push_back({"velocity", w});
  }
  if (fin(des.effort)) { Win w = ref::effort(l, act.position, act.velocity); out.effort = clampw(*des.effort, w); wins.push_back({"effort", w}); }
  if (fin(des.acceleration)) { Win w = ref::acceleration(l, *des.acceleration, act.velocity); out.acceleration = clampw(*des.acceleration, w); wins.push_back({"acceleration", w}); }
  if (fin(des.jerk)) { Win w = ref::jerk(l); out.jerk = clampw(*des.jerk, w); wins.push_back({"jerk", w}); }
  ref::advance(prev, out);
  return true;
}
static std::string ctxs(const JointLimits & l, const D & prev, const D & act, const D & des, double dt)
{
  return slim(l) + mc::fmt(" dt=%g history=", dt) + sd(prev) + " measured=" + sd(act) + " command=" + sd(des);
}
// runs one enforcement of the real limiter and compares; returns false if the limiter refused
static bool step(mc::Ctx & c, Lim & lim, const JointLimits & l, D & prev, const D & act, const D & des, double dt)
{
  ++evals;
  c.step();
  D before = prev, want;
  std::vector<std::pair<const char *, Win>> wins;
  bool ok = expect(l, prev, act, des, dt, want, wins);
  D got = des;
  bool flag = false, threw = false;
  try { flag = lim.enforce(act, got, rclcpp::Duration::from_nanoseconds(static_cast<int64_t>(std::llround(dt * 1e9)))); }
  catch (const std::exception &) { threw = true; }
  if (!ok) {
    if (!threw) c.record("no-refusal", "position command accepted although the joint is measured far outside its range: " + ctxs(l, before, act, des, dt));
    prev = before; 
    return false;
  }
  if (threw) { c.record("unexpected-refusal", "enforcement refused: " + ctxs(l, before, act, des, dt)); return false; }
  if (!agree(got, want))
    c.record("value", ctxs(l, before, act, des, dt) + " -> " + sd(got) + ", must be " + sd(want));
  int ch = changed(got, des);
  if (ch == 1 && !flag) c.record("flag-missing", "command was changed but not reported: " + ctxs(l, before, act, des, dt) + " -> " + sd(got));
  if (ch == 0 && flag) c.record("flag-wrong", "command was not changed but reported as limited: " + ctxs(l, before, act, des, dt));
  // independent statement of the hard bounds
  if (dt > 0) {
    if (fin(des.position) && l.has_position_limits && (*got.position > l.max_position + 1e-9 || *got.position < l.min_position - 1e-9))
      c.record("bound-position", ctxs(l, before, act, des, dt) + " -> " + sd(got));
    bool conf = false;
    for (auto & w : wins) if (std::string("velocity") == w.first) conf = w.second.conflict;
    if (fin(des.velocity) && l.has_velocity_limits && !conf && std::fabs(*got.velocity) > l.max_velocity + 1e-9)
      c.record("bound-velocity", ctxs(l, before, act, des, dt) + " -> " + sd(got));
    if (fin(des.effort) && l.has_effort_limits && std::fabs(*got.effort) > l.max_effort + 1e-9)
      c.record("bound-effort", ctxs(l, before, act, des, dt) + " -> " + sd(got));
  }
  mc::u64 h = mc::mix(static_cast<mc::u64>(flag), static_cast<mc::u64>(ch + 1));
  for (auto & w : wins) h = mc::mix(h, mc::hash_str(std::string(w.first) + so(w.second.lo) + so(w.second.hi)));
  c.outcome_h(h);
  return true;
}
static std::unique_ptr<Lim> make(mc::Ctx & c, const JointLimits & l)
{
  auto p = std::make_unique<Lim>();
  if (!p->init({"j"}, std::vector<JointLimits>{l}, {}, nullptr, nullptr)) c.fail("init", "limiter does not initialise");
  return p;
}
static const std::vector<Opt> ACT_POS = {{}, 0.0, 2.0, 1.98, 2.001, 2.005, 2.02, -1.0, -0.98, -1.001, -1.005, -1.02, 0.7, NaN};
static const std::vector<Opt> ACT_VEL = {{}, 0.0, 0.4, -0.4, 1.6, -1.6, NaN};

int main(int argc, char ** argv)
{
  mc::Check k(argc, argv, "L01");
  k.rule = "exhaustive product of limit configurations x measured state x command history x command x period; an outcome is a distinct (admissible window, changed, reported) combination";
  k.assumptions = {"finite limits with lower <= upper", "values in the alphabets are representative of the branches between them", "rounding differences below 1e-9 are not judged"};
  const std::vector<Opt> P = {{}, NaN, 0.0, 0.005, -0.005, 0.1, 1.0, 1.99, 2.0, 2.1, -0.99, -1.0, -1.2, 50.0, -50.0, INF, -INF};
  const std::vector<Opt> V = {{}, NaN, 0.0, 0.02, -0.02, 0.5, -0.5, 1.5, -1.5, 1.7, -1.7, 40.0, -40.0};
  const std::vector<Opt> E = {{}, NaN, 0.0, 5.0, -5.0, 10.0, -10.0, 12.0, -12.0};
  const std::vector<Opt> A = {{}, NaN, 0.0, 3.0, -3.0, 5.0, -5.0, 8.0, -8.0};
  const std::vector<Opt> J = {{}, NaN, 1.0, 60.0, -60.0};
  const std::vector<double> DT = {0.01, 0.1, 1.0};
  // one enforcement from every history
  {
    mc::Check::Opt o; o.split = 3; o.what = "one enforcement of a single quantity from every limiter history";
    k.explore("single", [&](mc::Ctx & c) {
      int m = c.choose(64, "limits");
      bool off = c.flip("values-when-disabled");
      double dt = c.pick(DT, "dt");
      Opt ap = c.pick(ACT_POS, "act_pos"), av = c.pick(ACT_VEL, "act_vel");
      JointLimits l = limits(m, off);
      auto lim = make(c, l);
      auto one = [&](const D & hist, const D & des) {
        lim->reset_internals();
        lim->configure(hist);
        D prev = hist;
        step(c, *lim, l, prev, mk(ap, av), des, dt);
      };
      for (auto & h : {Opt{}, Opt{0.0}, Opt{1.99}, Opt{2.5}, Opt{-1.5}, Opt{-0.999}})
        for (auto & p : P) one(mk(h, {}), mk(p, {}));
      for (auto & h : {Opt{}, Opt{0.0}, Opt{0.48}, Opt{-0.48}, Opt{1.5}, Opt{-3.0}})
        for (auto & v : V) one(mk({}, h), mk({}, v));
      for (auto & e : E) one(mk({}, {}), mk({}, {}, e));
      for (auto & a : A) one(mk({}, {}), mk({}, {}, {}, a));
      for (auto & j : J) one(mk({}, {}), mk({}, {}, {}, {}, j));
    }, o);
  }
  // several quantities at once
  {
    mc::Check::Opt o; o.split = 3; o.what = "commands of several quantities at once, measured effort and acceleration present or not";
    k.explore("combined", [&](mc::Ctx & c) {
      int m = c.choose(64, "limits");
      Opt ap = c.pick(std::vector<Opt>{{}, 0.0, 2.0, 2.005, -1.02, NaN}, "act_pos"), av = c.pick(std::vector<Opt>{{}, 0.0, 0.4, -1.6}, "act_vel");
      Opt ae = c.pick(std::vector<Opt>{{}, 3.0}, "act_eff");
      JointLimits l = limits(m, false);
      auto lim = make(c, l);
      const std::vector<Opt> p3 = {{}, NaN, 0.1, 2.1}, v3 = {{}, 0.02, 1.7, -40.0}, e3 = {{}, 5.0, -12.0}, a3 = {{}, 3.0, -8.0}, j2 = {{}, 60.0};
      for (auto & p : p3) for (auto & v : v3) for (auto & e : e3) for (auto & a : a3) for (auto & j : j2)
        for (int h = 0; h < 3; ++h) {
          lim->reset_internals();
          D prev = h == 0 ? D() : h == 1 ? mk(0.0, {}) : mk(0.5, 0.1, 1.0, 1.0, 1.0);
          if (h) lim->configure(prev);
          D act = mk(ap, av, ae, ae);
          step(c, *lim, l, prev, act, mk(p, v, e, a, j), 0.1);
        }
    }, o);
  }
  // histories built by the limiter itself
  for (int cached = 0; cached < 2; ++cached) {
    mc::Check::Opt o; o.split = 3; o.caching = cached;
    int depth = cached ? k.q(3, 5) : k.q(2, 3);
    o.what = mc::fmt("every command sequence of length %d, with resets, through one limiter%s", depth, cached ? " (reached histories merged)" : "");
    k.explore(cached ? "sequence-merged" : "sequence", [&, depth](mc::Ctx & c) {
      static const int M[] = {0, 1, 2, 3, 7, 15, 31, 63, 16, 18, 19, 22, 5, 6};
      int li = c.choose(14, "limits");
      JointLimits l = limits(M[li], false);
      auto lim = make(c, l);
      D prev;
      static const std::vector<D> acts = {mk({}, {}), mk(0.0, 0.0), mk(1.99, 0.4), mk(NaN, NaN), mk(2.0, 1.6), mk(-1.003, -0.4)};
      static const std::vector<D> cmds = {mk(0.1, {}), mk(2.1, {}), mk(NaN, {}), mk(-50.0, {}), mk({}, 1.7), mk({}, -1.7), mk({}, {}, 12.0), mk(0.5, -0.5), mk({}, {}, {}, 8.0, 60.0), mk({}, {})};
      static const std::vector<double> dts = {0.1, 0.0, -0.1, 1.0};
      for (int i = 0; i < depth; ++i) {
        c.state(mc::fmt("%d ", li) + sd(prev), depth - i);
        int op = c.choose(static_cast<int>(cmds.size()) + 1, "cmd");
        if (op == static_cast<int>(cmds.size())) { lim->reset_internals(); prev = D(); continue; }
        D act = acts[c.choose(static_cast<int>(acts.size()), "act")];
        double dt = dts[c.choose(static_cast<int>(dts.size()), "dt")];
        D before = prev;
        if (!step(c, *lim, l, prev, act, cmds[op], dt)) return;
        if (!(dt > 0)) { prev = before; }
      }
    }, o);
  }
  // refusing to initialise for anything but one joint
  k.explore("init", [&](mc::Ctx & c) {
    int names = c.choose(3), lims = c.choose(3);
    Lim lim;
    bool r = lim.init(std::vector<std::string>(names, "j"), std::vector<JointLimits>(lims), {}, nullptr, nullptr);
    if (r != (names == 1 && lims == 1)) c.fail("init", mc::fmt("init with %d names and %d limits returned %d", names, lims, r));
    c.outcome(mc::fmt("%d", r));
  });
  return k.finish();
}
