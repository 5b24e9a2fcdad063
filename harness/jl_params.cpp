// L04: limits given and changed through parameters
#include "jl_common.hpp"
#include "joint_limits/joint_limits_rosparam.hpp"
#include "rclcpp/rclcpp.hpp"
using Lim = joint_limits::JointSaturationLimiter<D>;
struct Par { std::string n; bool isb; bool b; double d; };
static std::string sp(const Par & p) { return p.n + "=" + (p.isb ? (p.b ? "true" : "false") : mc::fmt("%g", p.d)); }
struct Num { const char * n; double JointLimits::* f; };
static const Num NUMS[] = {{"min_position", &JointLimits::min_position}, {"max_position", &JointLimits::max_position}, {"max_velocity", &JointLimits::max_velocity}, {"max_acceleration", &JointLimits::max_acceleration}, {"max_deceleration", &JointLimits::max_deceleration}, {"max_jerk", &JointLimits::max_jerk}, {"max_effort", &JointLimits::max_effort}};
struct Flag { const char * n; bool JointLimits::* f; double JointLimits::* v; };
static const Flag FLAGS[] = {{"has_velocity_limits", &JointLimits::has_velocity_limits, &JointLimits::max_velocity}, {"has_acceleration_limits", &JointLimits::has_acceleration_limits, &JointLimits::max_acceleration}, {"has_deceleration_limits", &JointLimits::has_deceleration_limits, &JointLimits::max_deceleration}, {"has_jerk_limits", &JointLimits::has_jerk_limits, &JointLimits::max_jerk}, {"has_effort_limits", &JointLimits::has_effort_limits, &JointLimits::max_effort}};
// reference of a batch of updates: first the values, then the switches, a switch without usable values stays off
static void updlim(JointLimits & l, const std::vector<Par> & b)
{
  for (auto & p : b) for (auto & n : NUMS) if (p.n == n.n) l.*(n.f) = p.d;
  for (auto & p : b) {
    if (p.n == "has_position_limits") l.has_position_limits = p.b && !std::isnan(l.min_position) && !std::isnan(l.max_position) && l.min_position < l.max_position;
    for (auto & f : FLAGS) if (p.n == f.n) l.*(f.f) = p.b && !std::isnan(l.*(f.v));
    if (p.n == "angle_wraparound") l.angle_wraparound = p.b && !l.has_position_limits;
  }
}
static bool eq(const JointLimits & a, const JointLimits & b)
{
  for (auto & n : NUMS) if (!same(a.*(n.f), b.*(n.f))) return false;
  for (auto & f : FLAGS) if (a.*(f.f) != b.*(f.f)) return false;
  return a.has_position_limits == b.has_position_limits && a.angle_wraparound == b.angle_wraparound;
}
static rclcpp::Parameter rp(const std::string & joint, const Par & p)
{
  std::string n = "joint_limits." + joint + "." + p.n;
  return p.isb ? rclcpp::Parameter(n, p.b) : rclcpp::Parameter(n, p.d);
}
static std::vector<Par> menu()
{
  std::vector<Par> m;
  auto b = [&](const char * n, bool v) { m.push_back({n, true, v, 0}); };
  auto d = [&](const char * n, double v) { m.push_back({n, false, false, v}); };
  d("max_velocity", 1.0); d("max_velocity", 0.3); b("has_velocity_limits", true); b("has_velocity_limits", false);
  d("min_position", -1.0); d("max_position", 2.0); d("max_position", 0.5); b("has_position_limits", true); b("has_position_limits", false);
  d("max_effort", 7.0); b("has_effort_limits", true); b("has_effort_limits", false);
  d("max_acceleration", 2.0); b("has_acceleration_limits", true); b("has_acceleration_limits", false); d("max_deceleration", 3.0); b("has_deceleration_limits", true);
  d("max_jerk", 11.0); b("has_jerk_limits", true);
  return m;
}
// observes the limits in force through commands
static void probe(mc::Ctx & c, Lim & lim, const JointLimits & l, const std::string & j)
{
  auto enforce = [&](D act, D des) {
    lim.reset_internals();
    act.joint_name = des.joint_name = j;
    lim.enforce(act, des, rclcpp::Duration::from_seconds(0.1));
    return des;
  };
  auto is = [&](const char * what, const Opt & got, double want) {
    c.step();
    if (!got || !same(*got, want)) c.fail("limits-in-force", mc::fmt("%s command leaves the limiter as %s, must be %g; limits in force must be ", what, so(got).c_str(), want) + slim(l));
  };
  for (double s : {50.0, -50.0}) {
    is("position", enforce(mk({}, {}), mk(s, {})).position, clampw(s, ref::position(l, {}, {}, s, 0.1)));
    is("velocity", enforce(mk({}, 0.0), mk({}, s)).velocity, clampw(s, ref::velocity(l, s, {}, 0.0, 0.1)));
    is("effort", enforce(mk({}, {}), mk({}, {}, s)).effort, clampw(s, ref::effort(l, {}, {})));
    is("acceleration", enforce(mk({}, {}), mk({}, {}, {}, s)).acceleration, clampw(s, ref::acceleration(l, s, {})));
    is("braking", enforce(mk({}, -s), mk({}, {}, {}, s)).acceleration, clampw(s, ref::acceleration(l, s, -s)));
    is("jerk", enforce(mk({}, {}), mk({}, {}, {}, {}, s)).jerk, clampw(s, ref::jerk(l)));
  }
}
int main(int argc, char ** argv)
{
  mc::Check k(argc, argv, "L04");
  k.rule = "every sequence of parameter batches from the alphabet; an outcome is a distinct set of limits in force";
  rclcpp::init(0, nullptr);
  const auto M = menu();
  const int n = static_cast<int>(M.size());
  // update function on its own
  {
    mc::Check::Opt o; o.split = 2; o.what = "every batch of up to three updates on every start configuration, through the update function";
    k.explore("update", [&](mc::Ctx & c) {
      auto node = std::make_shared<rclcpp::Node>("n");
      JointLimits l0 = limits(c.pick(std::vector<int>{0, 1, 2, 3, 63}, "start"), c.flip("values"));
      int len = c.choose(3, "len") + 1;
      std::vector<int> ix(len);
      ix[0] = c.choose(n, "u0");
      auto go = [&]() {
        std::vector<Par> b; for (int i : ix) b.push_back(M[i]);
        JointLimits l = l0, want = l0;
        updlim(want, b);
        std::vector<rclcpp::Parameter> ps; std::string t;
        for (auto & p : b) { ps.push_back(rp("j", p)); t += sp(p) + " "; }
        ps.push_back(rclcpp::Parameter("joint_limits.other.max_velocity", 0.01));
        ps.push_back(rclcpp::Parameter("unrelated", 5));
        c.step();
        bool ch = joint_limits::check_for_limits_update("j", ps, node->get_node_logging_interface(), l);
        if (!eq(l, want)) c.record("update-value", "updates " + t + "on " + slim(l0) + " give " + slim(l) + " must be " + slim(want));
        if (!eq(l, l0) && !ch) {
          c.record("update-unreported", "updates " + t + "on " + slim(l0) + " changed the limits but are not reported as a change");
        }
        c.outcome(slim(l) + (ch ? "1" : "0"));
      };
      if (len == 1) go();
      else for (ix[1] = 0; ix[1] < n; ++ix[1]) { if (len == 2) go(); else for (ix[2] = 0; ix[2] < n; ++ix[2]) go(); }
    }, o);
  }
  // wrong types never throw and change nothing
  k.explore("types", [&](mc::Ctx & c) {
    auto node = std::make_shared<rclcpp::Node>("n");
    JointLimits l0 = limits(63, false), l = l0;
    static const char * names[] = {"min_position", "max_position", "max_velocity", "max_acceleration", "max_deceleration", "max_jerk", "max_effort", "has_position_limits", "has_velocity_limits", "has_acceleration_limits", "has_deceleration_limits", "has_jerk_limits", "has_effort_limits", "angle_wraparound"};
    int i = c.choose(14, "name");
    std::string nm = std::string("joint_limits.j.") + names[i];
    rclcpp::Parameter p = c.flip("string") ? rclcpp::Parameter(nm, std::string("x")) : i < 7 ? rclcpp::Parameter(nm, true) : rclcpp::Parameter(nm, 1.0);
    try { joint_limits::check_for_limits_update("j", {p}, node->get_node_logging_interface(), l); }
    catch (const std::exception & e) { c.fail("type-throws", nm + ": " + e.what()); }
    if (!eq(l, l0)) c.fail("type-applied", nm + " of the wrong type changed the limits to " + slim(l));
    c.outcome(nm);
  });
  // initial parameters and run-time updates through a limiter bound to a node
  {
    mc::Check::Opt o; o.split = 3; o.what = "limiter on a node: start parameters, then batches of parameter changes, enforced in between or not";
    int steps = k.q(2, 3);
    k.explore("node", [&, steps](mc::Ctx & c) {
      std::vector<Par> start;
      switch (c.choose(6, "start")) {
        case 0: break;
        case 1: start = {{"has_velocity_limits", true, true, 0}, {"max_velocity", false, false, 1.5}}; break;
        case 2: start = {{"has_position_limits", true, true, 0}, {"min_position", false, false, -3.0}, {"max_position", false, false, 3.0}, {"has_velocity_limits", true, true, 0}, {"max_velocity", false, false, 1.5}}; break;
        case 3: start = {{"has_position_limits", true, true, 0}, {"min_position", false, false, -3.0}, {"max_position", false, false, 3.0}, {"has_effort_limits", true, true, 0}, {"max_effort", false, false, 9.0}, {"has_acceleration_limits", true, true, 0}, {"max_acceleration", false, false, 5.0}, {"has_deceleration_limits", true, true, 0}, {"max_deceleration", false, false, 6.0}, {"has_jerk_limits", true, true, 0}, {"max_jerk", false, false, 20.0}}; break;
        case 4: start = {{"has_velocity_limits", true, false, 0}, {"max_velocity", false, false, 1.5}, {"has_effort_limits", true, false, 0}, {"max_effort", false, false, 2.0}}; break;
        case 5: start = {{"max_velocity", false, false, 1.5}, {"max_effort", false, false, 2.0}}; break;
      }
      rclcpp::NodeOptions no;
      for (auto & p : start) no.append_parameter_override(rp("j", p).get_name(), rp("j", p).get_parameter_value());
      auto node = std::make_shared<rclcpp::Node>("n", no);
      Lim lim;
      if (!lim.init({"j"}, node)) c.fail("init", "limiter does not initialise from parameters");
      JointLimits l;
      for (auto & p : start) for (auto & f : FLAGS) if (p.n == f.n && p.b) { l.*(f.f) = true; for (auto & q : start) for (auto & nn : NUMS) if (nn.f == f.v && q.n == nn.n) l.*(f.v) = q.d; }
      for (auto & p : start) if (p.n == "has_position_limits" && p.b) { l.has_position_limits = true; for (auto & q : start) { if (q.n == "min_position") l.min_position = q.d; if (q.n == "max_position") l.max_position = q.d; } }
      JointLimits known = l;  // numbers of disabled limits are not taken over at start
      if (c.flip("probe")) probe(c, lim, l, "j");
      for (int i = 0; i < steps; ++i) {
        std::vector<Par> b;
        b.push_back(M[c.choose(n)]);
        int second = i + 1 < steps || steps == 2 ? c.choose(n + 1) : 0;
        if (second) b.push_back(M[second - 1]);
        std::vector<rclcpp::Parameter> ps; std::string t = "set ";
        for (auto & p : b) { ps.push_back(rp("j", p)); t += sp(p) + " "; }
        c.note(t);
        if (b.size() == 2 && b[0].n == b[1].n) throw mc::Abort();
        auto r = node->set_parameters_atomically(ps);
        if (!r.successful) c.fail("rejected", t);
        updlim(l, b);
        if (i + 1 == steps || c.flip("enforce")) probe(c, lim, l, "j");
      }
      c.outcome(slim(l));
    }, o);
  }
  // reading from parameters: which of the declared values end up in the limits
  k.explore("read", [&](mc::Ctx & c) {
    rclcpp::NodeOptions no;
    std::map<std::string, double> v; std::map<std::string, bool> h;
    auto put = [&](const Par & p) { no.append_parameter_override(rp("j", p).get_name(), rp("j", p).get_parameter_value()); if (p.isb) h[p.n] = p.b; else v[p.n] = p.d; };
    int which = c.choose(6, "group");
    static const char * fl[] = {"has_position_limits", "has_velocity_limits", "has_acceleration_limits", "has_deceleration_limits", "has_jerk_limits", "has_effort_limits"};
    int fs = c.choose(3, "flag");  // absent, false, true
    if (fs) put({fl[which], true, fs == 2, 0});
    int hasv = c.flip("value");
    if (hasv) { if (which == 0) { put({"min_position", false, false, -1.25}); put({"max_position", false, false, 4.5}); } else put({FLAGS[which - 1].n + std::string(), false, false, 0}); }
    if (hasv && which) { no = rclcpp::NodeOptions(); if (fs) no.append_parameter_override("joint_limits.j." + std::string(fl[which]), rclcpp::ParameterValue(fs == 2)); for (auto & nn : NUMS) if (nn.f == FLAGS[which - 1].v) { no.append_parameter_override("joint_limits.j." + std::string(nn.n), rclcpp::ParameterValue(2.75)); v[nn.n] = 2.75; } }
    int wrap = c.choose(3, "wraparound");
    if (wrap) put({"angle_wraparound", true, wrap == 2, 0});
    bool declare = c.flip("declare");
    auto node = std::make_shared<rclcpp::Node>("n", no);
    if (declare && !joint_limits::declare_parameters("j", node)) c.fail("declare", "declaration failed");
    JointLimits l = JointLimits(), want = l;
    l.max_effort = want.max_effort = 99;  // values which are not given stay
    bool r = joint_limits::get_joint_limits("j", node, l);
    if (!declare) { if (r || !eq(l, want)) c.fail("read-undeclared", "limits read although nothing is declared"); c.outcome("none"); return; }
    if (!r) c.fail("read", "limits are not found");
    bool on = fs == 2;
    if (on) {
      if (which == 0) { want.has_position_limits = true; want.min_position = hasv ? -1.25 : NaN; want.max_position = hasv ? 4.5 : NaN; }
      else { want.*(FLAGS[which - 1].f) = true; want.*(FLAGS[which - 1].v) = hasv ? 2.75 : NaN; }
    }
    want.angle_wraparound = wrap == 2 && !want.has_position_limits;
    if (!eq(l, want)) c.fail("read-value", "got " + l.to_string() + " expected " + want.to_string());
    c.outcome(l.to_string());
  });
  k.explore("soft", [&](mc::Ctx & c) {
    rclcpp::NodeOptions no;
    static const char * nm[] = {"k_position", "k_velocity", "soft_lower_limit", "soft_upper_limit"};
    int fs = c.choose(3, "has_soft_limits");
    if (fs) no.append_parameter_override("joint_limits.j.has_soft_limits", rclcpp::ParameterValue(fs == 2));
    int mask = c.choose(16, "mask");
    for (int i = 0; i < 4; ++i) if (mask >> i & 1) no.append_parameter_override(std::string("joint_limits.j.") + nm[i], rclcpp::ParameterValue(1.5 + i));
    auto node = std::make_shared<rclcpp::Node>("n", no);
    int decl = c.choose(3, "declare");
    if (decl == 2) joint_limits::declare_parameters("j", node);
    if (decl == 1) { if (fs) node->declare_parameter("joint_limits.j.has_soft_limits", false); for (int i = 0; i < 4; ++i) if (mask >> i & 1) node->declare_parameter(std::string("joint_limits.j.") + nm[i], 0.0); }
    SoftJointLimits s; s.k_position = 7; s.k_velocity = 8; s.min_position = -9; s.max_position = 9;
    bool r = joint_limits::get_joint_limits("j", node, s);
    bool want = decl && fs == 2 && (decl == 2 || mask == 15);
    double w[4] = {7, 8, -9, 9};
    if (want) for (int i = 0; i < 4; ++i) w[i] = mask >> i & 1 ? 1.5 + i : NaN;
    if (r != want || !same(s.k_position, w[0]) || !same(s.k_velocity, w[1]) || !same(s.min_position, w[2]) || !same(s.max_position, w[3]))
      c.fail("soft-read", mc::fmt("returned %d expected %d, got %s", r, want, s.to_string().c_str()));
    // updates
    SoftJointLimits u; u.k_position = 7; u.k_velocity = 8; u.min_position = -9; u.max_position = 9;
    std::vector<rclcpp::Parameter> ps;
    double uw[4] = {7, 8, -9, 9};
    int upd = c.choose(16, "update");
    bool any = false;
    int order = c.flip("reverse"), eqm = c.flip("same-last");
    for (int q = 0; q < 4; ++q) { int i = order ? 3 - q : q; if (upd >> i & 1) { double val = eqm && q == 3 ? uw[i] : 1.5 + i; ps.emplace_back(std::string("joint_limits.j.") + nm[i], val); any |= val != uw[i]; uw[i] = val; } }
    if (fs) ps.emplace_back("joint_limits.j.has_soft_limits", fs == 2);
    if (fs == 1) { uw[0] = 7; uw[1] = 8; uw[2] = -9; uw[3] = 9; any = false; }
    bool ch = joint_limits::check_for_limits_update("j", ps, node->get_node_logging_interface(), u);
    if (!same(u.k_position, uw[0]) || !same(u.k_velocity, uw[1]) || !same(u.min_position, uw[2]) || !same(u.max_position, uw[3])) c.fail("soft-update", "wrong values " + u.to_string());
    if (ch != any) c.fail("soft-update-report", mc::fmt("reported %d expected %d", ch, any));
    c.outcome(mc::fmt("%d %d %s", r, ch, u.to_string().c_str()));
  });
  return k.finish();
}
