// I03: semantic components read and write the right interfaces.
#include <cmath>
#include <functional>
#include "mc.hpp"
#include "semantic_components/force_torque_sensor.hpp"
#include "semantic_components/gps_sensor.hpp"
#include "semantic_components/imu_sensor.hpp"
#include "semantic_components/led_rgb_device.hpp"
#include "semantic_components/magnetic_field_sensor.hpp"
#include "semantic_components/pose_sensor.hpp"
#include "semantic_components/range_sensor.hpp"
namespace hi = hardware_interface;
namespace sc = semantic_components;
namespace
{
using Names = std::vector<std::string>;
using Vals = std::vector<double>;
bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
// one kind of sensor: names in the order of its data, value before anything was read, what reading returns
struct Sensor
{
  std::string kind;
  Names names;
  Vals first;                         // what is reported while an interface has never been readable
  bool last = true;                   // an unreadable interface keeps its last value (otherwise: first)
  std::function<Names()> get_names;
  std::function<bool(std::vector<hi::LoanedStateInterface> &)> assign;
  std::function<void()> release;
  std::function<bool(Vals &)> raw;    // get_values
  // every way of reading: label, indices of the data and values
  std::function<std::vector<std::pair<std::string, std::vector<std::pair<int, double>>>>()> read;
};
template <class S> void common(Sensor & r, std::shared_ptr<S> s)
{
  r.get_names = [s] { return s->get_state_interface_names(); };
  r.assign = [s](auto & v) { return s->assign_loaned_state_interfaces(v); };
  r.release = [s] { s->release_interfaces(); };
  r.raw = [s](Vals & v) { return s->get_values(v); };
}
using Part = std::vector<std::pair<int, double>>;
using Parts = std::vector<std::pair<std::string, Part>>;
template <class A> Part from(int start, const A & a) { Part p; for (size_t i = 0; i < a.size(); ++i) p.emplace_back(start + static_cast<int>(i), a[i]); return p; }
Part vec3(int i, double x, double y, double z) { return {{i, x}, {i + 1, y}, {i + 2, z}}; }
constexpr double garbage = -777;
Sensor make(int kind, int axes)
{
  const double nan = std::nan("");
  Sensor r;
  const std::string n = "s";
  if (kind == 0) {   // force torque, 6 axes
    auto s = std::make_shared<sc::ForceTorqueSensor>(n);
    r.kind = "force torque";
    r.names = {"s/force.x", "s/force.y", "s/force.z", "s/torque.x", "s/torque.y", "s/torque.z"};
    r.first = Vals(6, nan);
    common(r, s);
    r.read = [s] { geometry_msgs::msg::Wrench m; const bool ok = s->get_values_as_message(m); return Parts{{"forces", from(0, s->get_forces())}, {"torques", from(3, s->get_torques())}, {ok ? "message" : "failed", {{0, m.force.x}, {1, m.force.y}, {2, m.force.z}, {3, m.torque.x}, {4, m.torque.y}, {5, m.torque.z}}}}; };
  }
  if (kind == 1) {   // force torque, any subset of the axes with other names
    static const Names all = {"a/fx", "b/fy", "c/fz", "d/tx", "e/ty", "f/tz"};
    auto name = [&](int i) { return axes >> i & 1 ? all[i] : std::string(); };
    auto s = std::make_shared<sc::ForceTorqueSensor>(name(0), name(1), name(2), name(3), name(4), name(5));
    r.kind = mc::fmt("force torque axes %02x", axes);
    std::vector<int> at;
    for (int i = 0; i < 6; ++i) if (axes >> i & 1) { at.push_back(i); r.names.push_back(all[i]); }
    r.first = Vals(at.size(), nan);
    common(r, s);
    r.read = [s, at] {
      geometry_msgs::msg::Wrench m;
      const bool ok = s->get_values_as_message(m);
      auto f = s->get_forces(), t = s->get_torques();
      const double v[6] = {m.force.x, m.force.y, m.force.z, m.torque.x, m.torque.y, m.torque.z}, w[6] = {f[0], f[1], f[2], t[0], t[1], t[2]};
      Part a, b;
      for (int i = 0, k = 0; i < 6; ++i) {
        const bool has = k < static_cast<int>(at.size()) && at[k] == i;
        a.emplace_back(has ? k : -1, v[i]);
        b.emplace_back(has ? k : -1, w[i]);
        k += has;
      }
      return Parts{{ok ? "message" : "failed", a}, {"arrays", b}};
    };
  }
  if (kind == 2) {
    auto s = std::make_shared<sc::IMUSensor>(n);
    r.kind = "imu";
    r.names = {"s/orientation.x", "s/orientation.y", "s/orientation.z", "s/orientation.w", "s/angular_velocity.x", "s/angular_velocity.y", "s/angular_velocity.z", "s/linear_acceleration.x", "s/linear_acceleration.y", "s/linear_acceleration.z"};
    r.first = {0, 0, 0, 1, 0, 0, 0, 0, 0, 0};
    common(r, s);
    r.read = [s] {
      sensor_msgs::msg::Imu m;
      const bool ok = s->get_values_as_message(m);
      return Parts{{"orientation", from(0, s->get_orientation())}, {"velocity", from(4, s->get_angular_velocity())}, {"acceleration", from(7, s->get_linear_acceleration())},
        {ok ? "message" : "failed", {{0, m.orientation.x}, {1, m.orientation.y}, {2, m.orientation.z}, {3, m.orientation.w}, {4, m.angular_velocity.x}, {5, m.angular_velocity.y}, {6, m.angular_velocity.z}, {7, m.linear_acceleration.x}, {8, m.linear_acceleration.y}, {9, m.linear_acceleration.z}}}};
    };
  }
  if (kind == 3) {
    auto s = std::make_shared<sc::PoseSensor>(n);
    r.kind = "pose";
    r.names = {"s/position.x", "s/position.y", "s/position.z", "s/orientation.x", "s/orientation.y", "s/orientation.z", "s/orientation.w"};
    r.first = {0, 0, 0, 0, 0, 0, 1};
    common(r, s);
    r.read = [s] {
      geometry_msgs::msg::Pose m;
      const bool ok = s->get_values_as_message(m);
      return Parts{{"position", from(0, s->get_position())}, {"orientation", from(3, s->get_orientation())},
        {ok ? "message" : "failed", {{0, m.position.x}, {1, m.position.y}, {2, m.position.z}, {3, m.orientation.x}, {4, m.orientation.y}, {5, m.orientation.z}, {6, m.orientation.w}}}};
    };
  }
  if (kind == 4) {
    auto s = std::make_shared<sc::MagneticFieldSensor>(n);
    r.kind = "magnetic field";
    r.names = {"s/magnetic_field.x", "s/magnetic_field.y", "s/magnetic_field.z"};
    r.first = {0, 0, 0};
    common(r, s);
    r.read = [s] { sensor_msgs::msg::MagneticField m; const bool ok = s->get_values_as_message(m); return Parts{{ok ? "message" : "failed", vec3(0, m.magnetic_field.x, m.magnetic_field.y, m.magnetic_field.z)}}; };
  }
  if (kind == 5) {
    auto s = std::make_shared<sc::RangeSensor>(n);
    r.kind = "range";
    r.names = {"s/range"};
    r.first = {nan};
    r.last = false;
    common(r, s);
    r.read = [s] { sensor_msgs::msg::Range m; m.min_range = 3; const bool ok = s->get_values_as_message(m) && m.min_range == 3; return Parts{{"range", {{0, s->get_range()}}}, {ok ? "message" : "failed", {{0, m.range}}}}; };
  }
  if (kind == 6 || kind == 7) {
    r.names = {"s/status", "s/service", "s/latitude", "s/longitude", "s/altitude"};
    r.first = {127, 65535, nan, nan, nan};
    r.last = false;
    auto part = [](auto & s) {
      sensor_msgs::msg::NavSatFix m;
      const bool ok = s->get_values_as_message(m);
      Parts p{{"values", {{0, s->get_status()}, {1, s->get_service()}, {2, s->get_latitude()}, {3, s->get_longitude()}, {4, s->get_altitude()}}},
        {ok ? "message" : "failed", {{0, m.status.status}, {1, m.status.service}, {2, m.latitude}, {3, m.longitude}, {4, m.altitude}}}};
      return std::make_pair(p, m);
    };
    if (kind == 6) {
      r.kind = "gps";
      auto s = std::make_shared<sc::GPSSensor<sc::GPSSensorOption::WithoutCovariance>>(n);
      common(r, s);
      r.read = [s, part] { return part(s).first; };
    } else {
      r.kind = "gps with covariance";
      for (auto x : {"s/latitude_covariance", "s/longitude_covariance", "s/altitude_covariance"}) { r.names.push_back(x); r.first.push_back(0); }
      auto s = std::make_shared<sc::GPSSensor<sc::GPSSensorOption::WithCovariance>>(n);
      common(r, s);
      r.read = [s, part] {
        auto x = part(s);
        auto c = s->get_covariance();
        Part a, b;
        for (int i = 0; i < 9; ++i) { a.emplace_back(i % 4 ? -2 : 5 + i / 4, c[i]); b.emplace_back(i % 4 ? -2 : 5 + i / 4, x.second.position_covariance[i]); }
        x.first.push_back({"covariance", a});
        x.first.push_back({"covariance of the message", b});
        return x.first;
      };
    }
  }
  return r;
}
struct Itf
{
  std::vector<std::shared_ptr<hi::StateInterface>> h;
  std::vector<hi::LoanedStateInterface> loans;
  void add(const std::string & n) { const auto p = n.rfind('/'); h.push_back(std::make_shared<hi::StateInterface>(hi::InterfaceDescription(n.substr(0, p), hi::InterfaceInfo(n.substr(p + 1), "double")))); }
  void lend() { loans.clear(); for (auto & x : h) loans.emplace_back(std::shared_ptr<const hi::StateInterface>(x)); }
};
void sensors(mc::Check & k)
{
  const int deep = k.q(3, 4);
  k.explore("sensors", [=, &k](mc::Ctx & c) {
    int kind = c.choose(8), axes = kind == 1 ? 1 + c.choose(63) : 0;
    Sensor s = make(kind, axes);
    const int n = static_cast<int>(s.names.size());
    const int depth = n > 3 ? deep - 1 : deep;
    c.note(s.kind);
    if (s.get_names() != s.names) c.fail("names", s.kind + ": the names of the interfaces");
    // order of the interfaces: all of up to 4 (5), otherwise one exchanged with another, or rotated
    std::vector<int> order(n);
    for (int i = 0; i < n; ++i) order[i] = i;
    if (n <= k.q(4, 5)) for (int i = 0; i + 1 < n; ++i) std::swap(order[i], order[i + c.choose(n - i)]);
    else if (c.choose(2)) { int r = 1 + c.choose(n - 1); std::rotate(order.begin(), order.begin() + r, order.end()); }
    else { int a = c.choose(n), b = c.choose(n); std::swap(order[a], order[b]); }
    const int missing = c.choose(n + 1) - 1;
    const bool extra = c.choose(2);
    Itf it;
    std::vector<int> at(n, -1);   // position in the list
    if (extra) { it.add("s2/force.x"); it.add("other/" + s.names[0].substr(s.names[0].rfind('/') + 1)); }
    for (int i = 0; i < n; ++i) if (order[i] != missing) { at[order[i]] = static_cast<int>(it.h.size()); it.add(s.names[order[i]]); }
    if (extra) it.add("s/other");
    it.lend();
    c.note(mc::fmt("missing %d extra %d", missing, extra));
    const bool ok = s.assign(it.loans);
    if (ok != (missing < 0)) c.fail("assign", s.kind + (ok ? ": accepted although an interface is missing" : ": refused"));
    if (!ok) { s.release(); c.outcome("missing"); return; }
    Vals value(n, std::nan("")), model = s.first;
    auto put = [&](int i, double v) { if (!it.h[at[i]]->set_value(v)) c.fail("value", "cannot set"); value[i] = v; };
    for (int d = 0; d < depth; ++d) {
      c.step();
      if (d) {
        const int o = c.choose(3);
        if (o == 0) { const int i = c.choose(n); c.note(mc::fmt("change %d", i)); put(i, 20 + 10 * d + i); }
        else if (o == 1) { c.note("release, assign again"); s.release(); it.lend(); if (!s.assign(it.loans)) c.fail("assign", s.kind + ": refused the second time"); }
        else { c.note("nothing"); }
      } else
        for (int i = 0; i < n; ++i) put(i, 1 + i);
      // somebody is writing one of the interfaces
      const int locked = c.choose(n + 2) - 2;   // -2: none, -1: all
      c.note(mc::fmt("locked %d", locked));
      std::vector<std::unique_lock<std::shared_mutex>> l;
      for (int i = 0; i < n; ++i) {
        const bool lock = locked == -1 || locked == i;
        if (lock) l.emplace_back(it.h[at[i]]->get_mutex());
        if (!lock) model[i] = value[i]; else if (!s.last) model[i] = kind == 7 && i >= 5 ? model[i] : s.first[i];
      }
      for (auto & p : s.read()) {
        if (p.first == "failed") c.fail("read", s.kind + ": reading failed");
        for (auto & v : p.second) {
          const double want = v.first == -1 ? std::nan("") : v.first == -2 ? 0 : model[v.first];
          if (!same(v.second, want)) c.fail("value", s.kind + " " + p.first + mc::fmt(": %g instead of %g for ", v.second, want) + (v.first < 0 ? "an axis which does not exist" : s.names[v.first]));
        }
      }
      if (!l.empty()) {
        Vals raw;
        raw.reserve(n);
        bool got = true;
        try { got = s.raw(raw); } catch (const std::exception & e) { c.fail("raw", s.kind + ": get_values threw " + e.what()); }
        if (got) c.fail("raw", s.kind + ": get_values succeeded although not all values can be read");
      }
      l.clear();
      Vals raw;
      raw.reserve(n);
      if (!s.raw(raw)) c.fail("raw", s.kind + ": get_values failed");
      for (int i = 0; i < n; ++i) if (!same(raw[i], value[i])) c.fail("raw", s.kind + mc::fmt(": get_values %g instead of %g", raw[i], value[i]));
      Vals small;
      small.reserve(n + 1);
      if (s.raw(small) || !small.empty()) c.fail("raw", s.kind + ": get_values accepted storage of another size");
    }
    c.outcome(s.kind);
  }, [&] { mc::Check::Opt o; o.split = 3; o.cap_s = k.q(150, 1200); o.what = "8 kinds of sensors (63 sets of axes), orders of interfaces, missing and further ones, sequences of 2 to 3 (3 to 4) changes, reassignments and locked interfaces"; return o; }());
}
void leds(mc::Check & k)
{
  k.explore("led", [&](mc::Ctx & c) {
    sc::LedRgbDevice dev("led", "r", "g", "b");
    static const Names names = {"led/r", "led/g", "led/b"};
    if (dev.get_command_interface_names() != names) c.fail("names", "names");
    std::vector<std::shared_ptr<hi::CommandInterface>> h;
    std::vector<hi::LoanedCommandInterface> loans;
    std::vector<int> order = {0, 1, 2}, at(3, -1);
    std::swap(order[0], order[c.choose(3)]);
    std::swap(order[1], order[1 + c.choose(2)]);
    const int missing = c.choose(4) - 1;
    for (int i : order) if (i != missing) { at[i] = static_cast<int>(h.size()); h.push_back(std::make_shared<hi::CommandInterface>(hi::InterfaceDescription("led", hi::InterfaceInfo(std::string(1, "rgb"[i]), "double")))); }
    for (auto & x : h) loans.emplace_back(x);
    if (dev.assign_loaned_command_interfaces(loans) != (missing < 0)) c.fail("assign", "result of assigning");
    if (missing >= 0) return;
    Vals now(3, std::nan(""));
    for (int d = 0; d < k.q(2, 3); ++d) {
      static const Vals menu = {0, 1, 0.25, -0.5, 1.5, std::nan(""), -1e-9, 1.0001, std::numeric_limits<double>::infinity()};
      Vals v;
      if (d == 0) v = c.choose(2) ? Vals{0.1, 0.2, 0.3} : Vals{0.5, 0.25, 1};
      else for (int i = 0; i < 3; ++i) v.push_back(c.pick(menu));
      const bool msg = c.choose(2);
      const int locked = c.choose(4) - 1;
      c.note(mc::fmt("%g %g %g by %s, locked %d", v[0], v[1], v[2], msg ? "message" : "values", locked));
      c.step();
      std::unique_lock<std::shared_mutex> l;
      if (locked >= 0) l = std::unique_lock<std::shared_mutex>(h[at[locked]]->get_mutex());
      bool ok, valid = true;
      if (msg) {
        std_msgs::msg::ColorRGBA m;
        m.r = static_cast<float>(v[0]); m.g = static_cast<float>(v[1]); m.b = static_cast<float>(v[2]); m.a = 5;
        for (auto x : {m.r, m.g, m.b}) if (!(x >= 0 && x <= 1)) valid = false;
        for (int i = 0; i < 3; ++i) v[i] = static_cast<double>(static_cast<float>(v[i]));
        ok = dev.set_values_from_message(m);
      } else
        ok = dev.set_values(v);
      if (ok != (valid && locked < 0)) c.fail("result", mc::fmt("setting %g %g %g %s", v[0], v[1], v[2], ok ? "succeeded" : "failed"));
      l = {};
      for (int i = 0; i < 3; ++i) {
        if (valid && i != locked) now[i] = v[i];
        auto o = h[at[i]]->get_optional();
        if (!o || !same(*o, now[i])) c.fail("value", mc::fmt("component %d is %g instead of %g", i, o ? *o : garbage, now[i]));
      }
      if (dev.set_values({1, 2}) || dev.set_values({1, 2, 3, 4})) c.fail("result", "accepted another number of values");
    }
    dev.release_interfaces();
    if (dev.set_values({1, 2, 3})) c.fail("result", "set values after releasing the interfaces");
    c.outcome(mc::fmt("%g %g %g", now[0], now[1], now[2]));
  }, [&] { mc::Check::Opt o; o.split = 3; o.cap_s = k.q(150, 1200); o.what = "every order and missing interface of a LED, every one (two) further colours out of 9 values per component, locked interfaces"; return o; }());
}
}  // namespace
int main(int argc, char ** argv)
{
  mc::Check k(argc, argv, "I03");
  k.rule = "an execution is one sequence of assignments, changes and reads of a sensor or LED; outcomes are distinct kinds and values";
  sensors(k);
  leds(k);
  return k.finish();
}
