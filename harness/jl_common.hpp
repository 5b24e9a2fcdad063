#pragma once
#include <cmath>
#include <optional>
#include "joint_limits/joint_saturation_limiter.hpp"
#include "joint_limits/joint_soft_limiter.hpp"
#include "mc.hpp"
using D = joint_limits::JointControlInterfacesData;
using Opt = std::optional<double>;
using joint_limits::JointLimits;
using joint_limits::SoftJointLimits;
static const double INF = std::numeric_limits<double>::infinity();
static const double NaN = std::numeric_limits<double>::quiet_NaN();
static inline std::string so(const Opt & o) { return o ? mc::fmt("%.9g", *o) : std::string("-"); }
static inline std::string sd(const D & d)
{
  return "{p=" + so(d.position) + " v=" + so(d.velocity) + " e=" + so(d.effort) + " a=" + so(d.acceleration) + " j=" + so(d.jerk) + "}";
}
static inline D mk(Opt p, Opt v, Opt e = {}, Opt a = {}, Opt j = {})
{
  D d; d.joint_name = "j"; d.position = p; d.velocity = v; d.effort = e; d.acceleration = a; d.jerk = j; return d;
}
// NaN is "no measurement"
static inline Opt fin(const Opt & o) { return o && !std::isnan(*o) ? o : std::nullopt; }
struct Win { double lo = -INF, hi = INF; bool conflict = false; };
static inline double close_tol(double a, double b) { return 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
static inline bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= close_tol(a, b); }
static inline bool same(const Opt & a, const Opt & b) { return a.has_value() == b.has_value() && (!a || same(*a, *b)); }
static inline double clampw(double v, const Win & w) { return v < w.lo ? w.lo : v > w.hi ? w.hi : v; }
static inline Win norm(Win w) { if (w.lo > w.hi) { std::swap(w.lo, w.hi); w.conflict = true; } return w; }

// ---- reference windows, from the documentation of the limiters ----
namespace ref
{
constexpr double OUT_TOL = 0.0087, POS_TOL = 0.002;
static inline bool too_far(const JointLimits & l, const Opt & p)
{
  return l.has_position_limits && p && (*p > l.max_position + OUT_TOL || *p < l.min_position - OUT_TOL);
}
// position: hard range, narrowed to what can be reached from the reference in one period
static inline Win position(const JointLimits & l, Opt act_vel, Opt act_pos, Opt prev, double dt)
{
  Win w;
  if (l.has_position_limits) { w.lo = l.min_position; w.hi = l.max_position; }
  Opt r = prev ? prev : act_pos;
  if (l.has_velocity_limits && r)
  {
    double vmax = l.max_velocity;
    if (l.has_acceleration_limits) vmax = std::min(vmax, std::fabs(act_vel.value_or(0.0)) + l.max_acceleration * dt);
    Win n{*r - vmax * dt, *r + vmax * dt};
    // the reachable range is first moved to the closest end of the hard range when they do not meet
    double lo = std::max(std::min(n.lo, w.hi), w.lo);
    double hi = std::min(std::max(n.hi, lo), w.hi);
    w.lo = lo; w.hi = hi;
  }
  return norm(w);
}
static inline Win velocity(const JointLimits & l, double want, Opt act_pos, Opt prev, double dt)
{
  Win w;
  if (!l.has_velocity_limits) return w;
  w = {-l.max_velocity, l.max_velocity};
  if (l.has_position_limits && act_pos)
  {
    double p = *act_pos;
    w.lo = std::max(w.lo, (l.min_position - p) / dt);
    w.hi = std::min(w.hi, (l.max_position - p) / dt);
    bool above = p > l.max_position, below = p < l.min_position;
    if (above || below)
    {
      double over = above ? p - l.max_position : l.min_position - p;
      if (over < POS_TOL)
      {
        if ((above && want >= 0) || (below && want <= 0)) w = {0, 0};
      }
      else if (over > POS_TOL)
        w = {0, 0};
    }
  }
  if (l.has_acceleration_limits && prev)
  {
    w.lo = std::max(w.lo, *prev - l.max_acceleration * dt);
    w.hi = std::min(w.hi, *prev + l.max_acceleration * dt);
  }
  return norm(w);
}
static inline Win effort(const JointLimits & l, Opt p, Opt v)
{
  Win w;
  if (!l.has_effort_limits) return w;
  w = {-l.max_effort, l.max_effort};
  if (l.has_position_limits && p && v)
  {
    if (*p <= l.min_position && *v <= 0) w.lo = 0;
    else if (*p >= l.max_position && *v >= 0) w.hi = 0;
  }
  if (l.has_velocity_limits && v)
  {
    if (*v < -l.max_velocity) w.lo = 0;
    else if (*v > l.max_velocity) w.hi = 0;
  }
  return norm(w);
}
static inline Win acceleration(const JointLimits & l, double want, Opt v)
{
  bool braking = v && ((want < 0 && *v > 0) || (want > 0 && *v < 0));
  if (braking && l.has_deceleration_limits) return {-l.max_deceleration, l.max_deceleration};
  if (l.has_acceleration_limits) return {-l.max_acceleration, l.max_acceleration};
  return {};
}
static inline Win jerk(const JointLimits & l) { return l.has_jerk_limits ? Win{-l.max_jerk, l.max_jerk} : Win{}; }
static inline void advance(D & prev, const D & out)
{
  if (fin(out.position)) prev.position = out.position;
  if (fin(out.velocity)) prev.velocity = out.velocity;
  if (fin(out.effort)) prev.effort = out.effort;
  if (fin(out.acceleration)) prev.acceleration = out.acceleration;
  if (fin(out.jerk)) prev.jerk = out.jerk;
}
// what a limiter without history starts from: the measured value of each commanded quantity
static inline void start(D & prev, const D & act, const D & des)
{
  if (prev.has_data()) return;
  auto f = [](Opt & p, const Opt & a, const Opt & d) { if (d) { if (fin(a)) p = a; else if (fin(d)) p = d; } };
  f(prev.position, act.position, des.position);
  f(prev.velocity, act.velocity, des.velocity);
  f(prev.effort, act.effort, des.effort);
  f(prev.acceleration, act.acceleration, des.acceleration);
  f(prev.jerk, act.jerk, des.jerk);
}
}  // namespace ref
static inline std::string slim(const JointLimits & l)
{
  std::string s = "limits";
  if (l.has_position_limits) s += mc::fmt(" pos[%g,%g]", l.min_position, l.max_position);
  if (l.has_velocity_limits) s += mc::fmt(" vel%g", l.max_velocity);
  if (l.has_acceleration_limits) s += mc::fmt(" acc%g", l.max_acceleration);
  if (l.has_deceleration_limits) s += mc::fmt(" dec%g", l.max_deceleration);
  if (l.has_effort_limits) s += mc::fmt(" eff%g", l.max_effort);
  if (l.has_jerk_limits) s += mc::fmt(" jerk%g", l.max_jerk);
  return s;
}
// 1: changed for certain, 0: identical, -1: within rounding
static int changed(const D & a, const D & b)
{
  int r = 0;
  auto f = [&](const Opt & x, const Opt & y) {
    if (!x || !y) { if (x.has_value() != y.has_value()) r = 1; return; }
    if (std::isnan(*x) && std::isnan(*y)) return;
    if (*x == *y) return;
    if (same(*x, *y)) { if (r == 0) r = -1; return; }
    r = 1;
  };
  f(a.position, b.position); f(a.velocity, b.velocity); f(a.effort, b.effort); f(a.acceleration, b.acceleration); f(a.jerk, b.jerk);
  return r;
}
static bool agree(const D & a, const D & b)
{
  return same(a.position, b.position) && same(a.velocity, b.velocity) && same(a.effort, b.effort) && same(a.acceleration, b.acceleration) && same(a.jerk, b.jerk);
}
static JointLimits limits(int m, bool values_when_off)
{
  JointLimits l;
  l.has_position_limits = m & 1; l.has_velocity_limits = m & 2; l.has_acceleration_limits = m & 4;
  l.has_deceleration_limits = m & 8; l.has_effort_limits = m & 16; l.has_jerk_limits = m & 32;
  if (l.has_position_limits || values_when_off) { l.min_position = -1; l.max_position = 2; }
  if (l.has_velocity_limits || values_when_off) l.max_velocity = 1.5;
  if (l.has_acceleration_limits || values_when_off) l.max_acceleration = 4;
  if (l.has_deceleration_limits || values_when_off) l.max_deceleration = 6;
  if (l.has_effort_limits || values_when_off) l.max_effort = 10;
  if (l.has_jerk_limits || values_when_off) l.max_jerk = 50;
  return l;
}
