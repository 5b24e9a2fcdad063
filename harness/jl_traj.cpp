// L03: limits on joint trajectory points
#include "jl_common.hpp"
#include "rclcpp/node.hpp"
#include "trajectory_msgs/msg/joint_trajectory_point.hpp"
using TP = trajectory_msgs::msg::JointTrajectoryPoint;
using Lim = joint_limits::JointSaturationLimiter<TP>;
using V = std::vector<double>;
static std::string sv(const V & v) { std::string s = "["; for (double x : v) s += mc::fmt("%.9g ", x); return s + "]"; }
static std::string st(const TP & t) { return "p" + sv(t.positions) + " v" + sv(t.velocities) + " a" + sv(t.accelerations); }
static bool tiny(double x) { return std::fabs(x) <= 1e-10; }
static bool samev(const V & a, const V & b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }

// reference
static bool expect(const std::vector<JointLimits> & L, const TP & cur, TP & des, double dt)
{
  const size_t n = L.size();
  if (!(dt > 0)) return false;
  const bool hp = des.positions.size() == n, hv = des.velocities.size() == n, ha = des.accelerations.size() == n;
  if (cur.positions.size() != n || !(hp || hv)) return false;
  const V cv = cur.velocities.size() == n ? cur.velocities : V(n, 0.0);
  V P(n), W(n), A(n);
  bool limited = false, brake = false;
  for (size_t i = 0; i < n; ++i) {
    const JointLimits & l = L[i];
    const double x = cur.positions[i], u = cv[i];
    double p = hp ? des.positions[i] : 0, v = hv ? des.velocities[i] : 0, a = ha ? des.accelerations[i] : 0;
    // 1. the commanded position stays inside the range; a missing velocity follows from it
    if (hp) {
      if (l.has_position_limits) {
        double q = std::min(std::max(p, l.min_position), l.max_position);
        if (q != p) { p = q; limited = true; }
      }
      if (!tiny(p - x) && tiny(v)) v = (p - x) / dt;
    }
    // 2. velocity
    if (l.has_velocity_limits) {
      if (tiny(v) || std::isnan(v)) v = (p - x) / dt;
      if (std::fabs(v) > l.max_velocity) {
        v = std::copysign(l.max_velocity, v);
        limited = true;
        if (hp) p = x + v * dt;
        a = (v - u) / dt;
      }
    }
    // 3. acceleration, or deceleration when the speed is reduced
    if (l.has_acceleration_limits || l.has_deceleration_limits) {
      if (tiny(a) || std::isnan(a)) a = (v - u) / dt;
      bool braking = (a < 0 && u > 0) || (a > 0 && u < 0);
      double m = braking && l.has_deceleration_limits ? l.max_deceleration : l.has_acceleration_limits ? l.max_acceleration : INF;
      if (std::fabs(a) > m) {
        a = std::copysign(m, a);
        limited = true;
        v = u + a * dt;
        if (hp) p = x + u * dt + 0.5 * a * dt * dt;
      }
    }
    // 4. stay able to stop inside the range
    if (l.has_position_limits) {
      if (hv && !hp) {
        double e = x + v * dt, q = std::min(std::max(e, l.min_position), l.max_position);
        if (q != e) { v = (q - x) / dt; limited = true; }
      }
      double d = l.has_deceleration_limits ? l.max_deceleration : l.has_acceleration_limits ? l.max_acceleration : std::fabs(v / dt);
      double dist = std::fabs(v * v / (2 * d)), t = std::fabs(v / d);
      double room = v < 0 ? x - l.min_position : l.max_position - x;
      if (v != 0 && (room < dist || room < v * t)) { brake = true; limited = true; }
    }
    P[i] = p; W[i] = v; A[i] = a;
  }
  if (brake)
    for (size_t i = 0; i < n; ++i) {
      const JointLimits & l = L[i];
      double a = -cv[i] / dt;
      double m = l.has_deceleration_limits ? l.max_deceleration : l.has_acceleration_limits ? l.max_acceleration : INF;
      a = std::copysign(std::min(std::fabs(a), m), a);
      A[i] = a;
      if (hv) W[i] = cv[i] + a * dt;
      if (hp) P[i] = cur.positions[i] + cv[i] * dt + 0.5 * a * dt * dt;
    }
  if (hp) des.positions = P;
  if (hv) des.velocities = W;
  if (ha) des.accelerations = A;
  return limited;
}
static void one(mc::Ctx & c, Lim & lim, const std::vector<JointLimits> & L, const TP & cur, const TP & des, double dt)
{
  c.step();
  TP want = des, got = des;
  bool wf = expect(L, cur, want, dt);
  bool gf = lim.enforce(cur, got, rclcpp::Duration::from_nanoseconds(static_cast<int64_t>(std::llround(dt * 1e9))));
  std::string ctx = slim(L[0]) + (L.size() > 1 ? " | " + slim(L[1]) : "") + mc::fmt(" dt=%g measured ", dt) + st(cur) + " desired " + st(des);
  if (!samev(got.positions, want.positions) || !samev(got.velocities, want.velocities) || !samev(got.accelerations, want.accelerations) || !samev(got.effort, want.effort))
    c.record("value", ctx + " -> " + st(got) + " must be " + st(want));
  if (gf != wf) c.record("flag", ctx + mc::fmt(" reported %d must report %d", gf, wf));
  c.outcome(st(got) + mc::fmt("%d", gf));
}
int main(int argc, char ** argv)
{
  mc::Check k(argc, argv, "L03");
  k.rule = "exhaustive product of limits x measured state x desired point x period for one and two joints; an outcome is a distinct resulting point";
  k.assumptions = {"finite limits with lower < upper", "comparisons exactly at a threshold are avoided by the chosen values"};
  auto node = std::make_shared<rclcpp::Node>("n");
  auto mkl = [&](mc::Ctx & c, const std::vector<JointLimits> & L) {
    auto p = std::make_unique<Lim>();
    std::vector<std::string> names; for (size_t i = 0; i < L.size(); ++i) names.push_back("j" + std::to_string(i));
    if (!p->init(names, L, {}, nullptr, node->get_node_logging_interface())) c.fail("init", "does not initialise");
    return p;
  };
  const V X = {0.0, 1.0, 1.83, 1.97, 2.003, -0.97, -1.01}, U = {0.0, 0.31, -0.31, 1.3, -1.3, 1.9};
  const V DP = {0.0, 0.013, 0.1, 1.01, 2.0, 2.3, -1.0, -1.4, 1.9}, DV = {0.0, 0.17, -0.17, 1.1, -1.1, 1.9, -1.9, NaN}, DA = {0.0, 2.3, -2.3, 4.7, -7.1, NaN};
  {
    mc::Check::Opt o; o.split = 3; o.what = "one joint";
    k.explore("one-joint", [&](mc::Ctx & c) {
      JointLimits l = limits(c.choose(16, "limits"), false);
      double dt = c.pick(V{0.1, 0.01, 1.0}, "dt");
      double x = c.pick(X, "x");
      int uv = c.choose(static_cast<int>(U.size()) + 1, "u");
      TP cur; cur.positions = {x}; if (uv) cur.velocities = {U[uv - 1]};
      auto lim = mkl(c, {l});
      for (int hp = 0; hp <= static_cast<int>(DP.size()); ++hp) for (int hv = 0; hv <= static_cast<int>(DV.size()); ++hv) for (int ha = 0; ha <= static_cast<int>(DA.size()); ++ha) {
        TP d; if (hp) d.positions = {DP[hp - 1]}; if (hv) d.velocities = {DV[hv - 1]}; if (ha) d.accelerations = {DA[ha - 1]};
        one(c, *lim, {l}, cur, d, dt);
      }
    }, o);
  }
  {
    mc::Check::Opt o; o.split = 3; o.what = "two joints with different limits";
    k.explore("two-joints", [&](mc::Ctx & c) {
      const std::vector<int> M = {0, 1, 2, 3, 5, 7, 9, 15};
      JointLimits a = limits(c.pick(M, "limits0"), false), b = limits(c.pick(M, "limits1"), false);
      b.max_position *= 0.7; b.max_velocity *= 0.5; b.max_acceleration *= 0.6;
      double dt = c.pick(V{0.1, 0.5}, "dt");
      int hu = c.flip("have-velocity");
      auto lim = mkl(c, {a, b});
      for (double x0 : {0.0, 1.95}) for (double x1 : {0.0, 1.37}) for (double u0 : {0.0, 0.9}) for (double u1 : {0.0, -0.41}) {
        if (!hu && (u0 != 0 || u1 != 0)) continue;
        TP cur; cur.positions = {x0, x1}; if (hu) cur.velocities = {u0, u1};
        for (int what = 1; what < 8; ++what)
          for (double p0 : {0.02, 2.3}) for (double p1 : {0.0, -1.4, 1.36}) for (double v0 : {0.17, 1.9}) for (double v1 : {0.0, -0.53}) for (double a0 : {0.0, 5.3}) {
            TP d; if (what & 1) d.positions = {p0, p1}; if (what & 2) d.velocities = {v0, v1}; if (what & 4) d.accelerations = {a0, -a0};
            one(c, *lim, {a, b}, cur, d, dt);
          }
      }
    }, o);
  }
  k.explore("shapes", [&](mc::Ctx & c) {
    JointLimits l = limits(15, false);
    auto lim = mkl(c, {l, l});
    V three = {5.0, 5.0, 5.0};
    auto cut = [&](int n) { return V(three.begin(), three.begin() + n); };
    TP cur, d;
    cur.positions = cut(c.choose(4)); cur.velocities = cut(c.choose(4));
    for (auto & q : cur.positions) q = 0.1;
    d.positions = cut(c.choose(4)); d.velocities = cut(c.choose(4)); d.accelerations = cut(c.choose(4));
    double dt = c.pick(V{0.1, 0.0, -0.1});
    one(c, *lim, {l, l}, cur, d, dt);
  });
  return k.finish();
}
