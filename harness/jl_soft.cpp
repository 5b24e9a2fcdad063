// L02: soft joint limits
#include "jl_common.hpp"
using Lim = joint_limits::JointSoftLimiter;

static bool soft_pos(const SoftJointLimits & s) { return std::isfinite(s.min_position) && std::isfinite(s.max_position) && s.max_position - s.min_position > 1e-10; }
static bool soft_full(const SoftJointLimits & s) { return soft_pos(s) && std::isfinite(s.k_position) && std::fabs(s.k_position) > 1e-10; }
static Win meet(const Win & a, const Win & b) { return {std::max(a.lo, b.lo), std::min(a.hi, b.hi)}; }
static double clamp2(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }

// reference: one enforcement
static bool expect(const JointLimits & l, const SoftJointLimits & s, D & prev, const D & act0, const D & des, double dt, D & out, std::vector<std::pair<const char *, Win>> & wins)
{
  out = des;
  if (!(dt > 0)) return true;
  D act = act0;
  act.position = fin(act.position); act.velocity = fin(act.velocity);
  ref::start(prev, act, des);
  Opt pp = prev.position && std::isfinite(*prev.position) ? prev.position : act.position;  // commanded position so far
  Opt ap = act.position ? act.position : (prev.position && std::isfinite(*prev.position) ? prev.position : Opt{});
  // admissible velocity from the soft limits
  Win sv;
  if (l.has_velocity_limits) {
    sv = {-l.max_velocity, l.max_velocity};
    if (l.has_position_limits && soft_full(s) && pp) {
      sv.lo = clamp2(-s.k_position * (*pp - s.min_position), -l.max_velocity, l.max_velocity);
      sv.hi = clamp2(-s.k_position * (*pp - s.max_position), -l.max_velocity, l.max_velocity);
      if (ap && (*ap < l.min_position - ref::POS_TOL || *ap > l.max_position + ref::POS_TOL)) sv = {0, 0};
      else {
        double a = ap ? *ap : INF;
        if (a < s.min_position || a > s.max_position) { const double back = M_PI / 180; sv.lo = std::copysign(back, sv.lo); sv.hi = std::copysign(back, sv.hi); }
      }
    }
  }
  if (fin(des.position)) {
    if (ref::too_far(l, act.position)) return false;
    Win hard = ref::position(l, act.velocity, act.position, fin(prev.position), dt);
    Win w;
    if (soft_pos(s)) w = {s.min_position, s.max_position};
    if (l.has_velocity_limits && pp) { w.lo = clamp2(*pp + sv.lo * dt, w.lo, w.hi); w.hi = clamp2(*pp + sv.hi * dt, w.lo, w.hi); }
    Win both = meet(w, hard);
    if (both.lo > both.hi) both = w;
    out.position = clampw(*des.position, both);
    wins.push_back({"position", both});
  }
  if (fin(des.velocity)) {
    Win hard = ref::velocity(l, *des.velocity, act.position, fin(prev.velocity), dt);
    if (l.has_velocity_limits && l.has_acceleration_limits && act.velocity)
      sv = meet(sv, {*act.velocity - l.max_acceleration * dt, *act.velocity + l.max_acceleration * dt});
    sv = meet(sv, hard);
    if (sv.lo > sv.hi) sv = hard;
    out.velocity = clampw(*des.velocity, sv);
    wins.push_back({"velocity", sv});
  }
  if (fin(des.effort)) {
    Win hard = ref::effort(l, act.position, act.velocity), w = hard;
    if (l.has_effort_limits && std::isfinite(s.k_velocity) && act.velocity) {
      w.lo = clamp2(-s.k_velocity * (*act.velocity - sv.lo), -l.max_effort, l.max_effort);
      w.hi = clamp2(-s.k_velocity * (*act.velocity - sv.hi), -l.max_effort, l.max_effort);
      w = meet(w, hard);
      if (w.lo > w.hi) w = hard;
    }
    out.effort = clampw(*des.effort, w);
    wins.push_back({"effort", w});
  }
  if (fin(des.acceleration)) { Win w = ref::acceleration(l, *des.acceleration, act.velocity); out.acceleration = clampw(*des.acceleration, w); wins.push_back({"acceleration", w}); }
  if (fin(des.jerk)) { Win w = ref::jerk(l); out.jerk = clampw(*des.jerk, w); wins.push_back({"jerk", w}); }
  ref::advance(prev, out);
  return true;
}
static std::string ctxs(const JointLimits & l, const SoftJointLimits & s, const D & prev, const D & act, const D & des, double dt)
{
  return slim(l) + mc::fmt(" soft[%g,%g] kp=%g kv=%g dt=%g history=", s.min_position, s.max_position, s.k_position, s.k_velocity, dt) + sd(prev) + " measured=" + sd(act) + " command=" + sd(des);
}
static bool step(mc::Ctx & c, Lim & lim, const JointLimits & l, const SoftJointLimits & s, D & prev, const D & act, const D & des, double dt)
{
  c.step();
  D before = prev, want;
  std::vector<std::pair<const char *, Win>> wins;
  bool ok = expect(l, s, prev, act, des, dt, want, wins);
  D got = des;
  bool flag = false, threw = false;
  try { flag = lim.enforce(act, got, rclcpp::Duration::from_nanoseconds(static_cast<int64_t>(std::llround(dt * 1e9)))); }
  catch (const std::exception &) { threw = true; }
  if (!ok) {
    if (!threw) c.record("no-refusal", "position command accepted although the joint is measured far outside its range: " + ctxs(l, s, before, act, des, dt));
    prev = before;
    return false;
  }
  if (threw) { c.record("unexpected-refusal", "enforcement refused: " + ctxs(l, s, before, act, des, dt)); return false; }
  if (!agree(got, want)) c.record("value", ctxs(l, s, before, act, des, dt) + " -> " + sd(got) + ", must be " + sd(want));
  int ch = changed(got, des);
  if (ch == 1 && !flag) c.record("flag-missing", "command was changed but not reported: " + ctxs(l, s, before, act, des, dt) + " -> " + sd(got));
  if (ch == 0 && flag) c.record("flag-wrong", "command was not changed but reported as limited: " + ctxs(l, s, before, act, des, dt));
  if (dt > 0 && fin(des.position) && soft_pos(s) && (*got.position > s.max_position + 1e-9 || *got.position < s.min_position - 1e-9))
    c.record("bound-soft-position", ctxs(l, s, before, act, des, dt) + " -> " + sd(got));
  if (dt > 0 && fin(des.effort) && l.has_effort_limits && std::fabs(*got.effort) > l.max_effort + 1e-9)
    c.record("bound-effort", ctxs(l, s, before, act, des, dt) + " -> " + sd(got));
  mc::u64 h = mc::mix(static_cast<mc::u64>(flag), static_cast<mc::u64>(ch + 1));
  for (auto & w : wins) h = mc::mix(h, mc::hash_str(std::string(w.first) + so(w.second.lo) + so(w.second.hi)));
  c.outcome_h(h);
  return true;
}
static SoftJointLimits soft(int m)
{
  SoftJointLimits s;
  if (m == 0) return s;                       // nothing given
  s.min_position = -0.8; s.max_position = 1.8; s.k_position = 10; s.k_velocity = 20;
  if (m == 2) s.k_position = NaN;
  if (m == 3) s.k_velocity = NaN;
  if (m == 4) s.min_position = s.max_position = 0;   // degenerate: as not given
  if (m == 5) s.k_position = 0;
  return s;
}
static std::unique_ptr<Lim> make(mc::Ctx & c, const JointLimits & l, const SoftJointLimits & s, bool none)
{
  auto p = std::make_unique<Lim>();
  if (!p->init({"j"}, std::vector<JointLimits>{l}, none ? std::vector<SoftJointLimits>{} : std::vector<SoftJointLimits>{s}, nullptr, nullptr)) c.fail("init", "limiter does not initialise");
  return p;
}
static const std::vector<Opt> ACT_POS = {{}, 0.0, 1.79, 1.81, 2.0, 2.001, 2.005, 2.02, -0.79, -0.81, -1.001, -1.005, -1.02, NaN};
static const std::vector<Opt> ACT_VEL = {{}, 0.0, 0.4, -0.4, 1.6, -1.6, 3.0, NaN};

int main(int argc, char ** argv)
{
  mc::Check k(argc, argv, "L02");
  k.rule = "exhaustive product of hard and soft limit configurations x measured state x command history x command x period; an outcome is a distinct (admissible window, changed, reported) combination";
  k.assumptions = {"soft range lies inside the hard range, gains are not negative", "values in the alphabets are representative of the branches between them", "rounding differences below 1e-9 are not judged"};
  const std::vector<Opt> P = {NaN, 0.0, 0.005, 0.1, 1.0, 1.79, 1.9, 2.1, -0.79, -0.9, -1.2, 50.0, -50.0, INF};
  const std::vector<Opt> V = {NaN, 0.0, 0.01, -0.01, 0.5, -0.5, 1.5, 1.7, -1.7, 40.0, -40.0};
  const std::vector<Opt> E = {NaN, 0.0, 3.0, -3.0, 9.0, -9.0, 12.0, -12.0};
  const std::vector<double> DT = {0.01, 0.1, 1.0};
  const std::vector<Opt> HP = {{}, 0.0, 1.75, 1.85, 1.99, 2.5, -0.75, -0.95, -1.5};
  {
    mc::Check::Opt o; o.split = 3; o.what = "one enforcement of a single quantity from every limiter history";
    k.explore("single", [&](mc::Ctx & c) {
      int m = c.choose(64, "limits");
      int sm = c.choose(7, "soft");
      double dt = c.pick(DT, "dt");
      Opt ap = c.pick(ACT_POS, "act_pos");
      JointLimits l = limits(m, false);
      SoftJointLimits s = sm == 6 ? SoftJointLimits() : soft(sm);
      auto lim = make(c, l, s, sm == 6);
      for (auto & av : ACT_VEL) {
        auto one = [&](const D & hist, const D & des) {
          lim->reset_internals();
          lim->configure(hist);
          D prev = hist;
          step(c, *lim, l, s, prev, mk(ap, av), des, dt);
        };
        for (auto & h : HP) for (auto & p : P) one(mk(h, {}), mk(p, {}));
        for (auto & hp : HP) for (auto & h : {Opt{}, Opt{0.0}, Opt{0.48}, Opt{-3.0}}) for (auto & v : V) one(mk(hp, h), mk({}, v));
        for (auto & hp : HP) for (auto & e : E) one(mk(hp, {}), mk({}, {}, e));
        for (auto & a : {Opt{3.0}, Opt{-5.0}, Opt{8.0}, Opt{-8.0}, Opt{NaN}}) one(mk({}, {}), mk({}, {}, {}, a));
        for (auto & j : {Opt{1.0}, Opt{-60.0}, Opt{NaN}}) one(mk({}, {}), mk({}, {}, {}, {}, j));
      }
    }, o);
  }
  {
    mc::Check::Opt o; o.split = 3; o.what = "commands of several quantities at once";
    k.explore("combined", [&](mc::Ctx & c) {
      int m = c.choose(32, "limits");
      int sm = c.choose(6, "soft");
      Opt ap = c.pick(std::vector<Opt>{{}, 0.0, 1.81, 2.0, 2.005, -0.81, NaN}, "act_pos"), av = c.pick(std::vector<Opt>{{}, 0.0, 0.4, -1.6, 3.0}, "act_vel");
      JointLimits l = limits(m, false);
      SoftJointLimits s = soft(sm);
      auto lim = make(c, l, s, false);
      const std::vector<Opt> p3 = {{}, NaN, 0.1, 2.1}, v3 = {{}, 0.02, 1.7, -40.0}, e3 = {{}, 5.0, -12.0}, a3 = {{}, -8.0};
      for (auto & p : p3) for (auto & v : v3) for (auto & e : e3) for (auto & a : a3)
        for (int h = 0; h < 4; ++h) {
          lim->reset_internals();
          D prev = h == 0 ? D() : h == 1 ? mk(0.0, {}) : h == 2 ? mk(0.5, 0.1, 1.0, 1.0, 1.0) : mk(-0.95, 1.0);
          if (h) lim->configure(prev);
          step(c, *lim, l, s, prev, mk(ap, av), mk(p, v, e, a), 0.1);
        }
    }, o);
  }
  for (int cached = 0; cached < 2; ++cached) {
    mc::Check::Opt o; o.split = 3; o.caching = cached;
    int depth = cached ? k.q(3, 5) : k.q(2, 3);
    o.what = mc::fmt("every command sequence of length %d, with resets, through one limiter%s", depth, cached ? " (reached histories merged)" : "");
    k.explore(cached ? "sequence-merged" : "sequence", [&, depth](mc::Ctx & c) {
      static const int M[] = {3, 7, 19, 23, 31, 16, 1, 2};
      int li = c.choose(8, "limits"), sm = c.choose(4, "soft");
      JointLimits l = limits(M[li], false);
      SoftJointLimits s = soft(sm);
      auto lim = make(c, l, s, false);
      D prev;
      static const std::vector<D> acts = {mk({}, {}), mk(0.0, 0.0), mk(1.79, 0.4), mk(NaN, NaN), mk(1.9, 1.6), mk(-1.003, -0.4)};
      static const std::vector<D> cmds = {mk(0.1, {}), mk(2.1, {}), mk(NaN, {}), mk(-50.0, {}), mk({}, 1.7), mk({}, -1.7), mk({}, {}, 12.0), mk(0.5, -0.5), mk({}, {}, {}, 8.0, 60.0), mk({}, {})};
      static const std::vector<double> dts = {0.1, 0.0, 1.0};
      for (int i = 0; i < depth; ++i) {
        c.state(mc::fmt("%d %d ", li, sm) + sd(prev), depth - i);
        int op = c.choose(static_cast<int>(cmds.size()) + 1, "cmd");
        if (op == static_cast<int>(cmds.size())) { lim->reset_internals(); prev = D(); continue; }
        D act = acts[c.choose(static_cast<int>(acts.size()), "act")];
        double dt = dts[c.choose(static_cast<int>(dts.size()), "dt")];
        D before = prev;
        if (!step(c, *lim, l, s, prev, act, cmds[op], dt)) return;
        if (!(dt > 0)) { prev = before; }
      }
    }, o);
  }
  k.explore("init", [&](mc::Ctx & c) {
    int names = c.choose(3), lims = c.choose(3);
    Lim lim;
    bool r = lim.init(std::vector<std::string>(names, "j"), std::vector<JointLimits>(lims), {}, nullptr, nullptr);
    if (r != (names == 1 && lims == 1)) c.fail("init", mc::fmt("init with %d names and %d limits returned %d", names, lims, r));
    c.outcome(mc::fmt("%d", r));
  });
  return k.finish();
}
