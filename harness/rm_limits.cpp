// H11: limits of the robot description between the controllers and the hardware
#include "rm_common.hpp"
using namespace rmh;
namespace
{
const double DT = 0.1;
struct Plant { std::map<std::string, double> state, seen; bool follow = true; };
Plant & plant() { static Plant p; return p; }
class Robot : public hi::SystemInterface
{
public:
  std::vector<hi::StateInterface::ConstSharedPtr> none_;
  CR on_configure(const rclcpp_lifecycle::State &) override { return CR::SUCCESS; }
  hi::return_type read(const rclcpp::Time &, const rclcpp::Duration &) override
  {
    for (auto & j : get_hardware_info().joints) for (auto & s : j.state_interfaces) set_state(j.name + "/" + s.name, plant().state[j.name + "/" + s.name]);
    return RT::OK;
  }
  hi::return_type write(const rclcpp::Time &, const rclcpp::Duration &) override
  {
    for (auto & j : get_hardware_info().joints) for (auto & s : j.command_interfaces) {
      const std::string n = j.name + "/" + s.name;
      const double v = get_command<double>(n);
      plant().seen[n] = v;
      if (plant().follow && !std::isnan(v)) {
        if (s.name == "position") plant().state[n] = v;
        if (s.name == "velocity") plant().state[n] = v;
      }
    }
    return RT::OK;
  }
};
std::string joint(const std::string & n, const std::string & limit) { return "<link name=\"l_" + n + "\"/><joint name=\"" + n + "\" type=\"" + (limit.empty() ? "continuous" : "revolute") + "\"><parent link=\"world\"/><child link=\"l_" + n + "\"/><axis xyz=\"0 0 1\"/>" + limit + "</joint>"; }
// p: limited by the joint and by its interface, q: velocity and effort, d: limits disabled, f: no limits, z: switched alone
const char * xml()
{
  static std::string s = std::string("<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"world\"/>") +
    joint("p", "<limit lower=\"-1\" upper=\"1\" velocity=\"1\" effort=\"10\"/>") +
    joint("q", "<limit lower=\"-100\" upper=\"100\" velocity=\"2\" effort=\"10\"/>") +
    joint("d", "<limit lower=\"-1\" upper=\"1\" velocity=\"1\" effort=\"10\"/>") + joint("f", "") +
    joint("z", "<limit lower=\"-1\" upper=\"1\" velocity=\"1\" effort=\"10\"/>") +
    "<ros2_control name=\"h1\" type=\"system\"><hardware><plugin>verif/Robot</plugin></hardware>"
    "<joint name=\"p\"><command_interface name=\"position\"><param name=\"min\">-0.25</param><param name=\"max\">3</param></command_interface><state_interface name=\"position\"/></joint>"
    "<joint name=\"d\"><limits enable=\"false\"/><command_interface name=\"position\"/><state_interface name=\"position\"/></joint>"
    "</ros2_control>"
    "<ros2_control name=\"h2\" type=\"system\"><hardware><plugin>verif/Robot</plugin></hardware>"
    "<joint name=\"q\"><command_interface name=\"velocity\"/><command_interface name=\"effort\"><param name=\"min\">-4</param><param name=\"max\">5</param></command_interface><state_interface name=\"position\"/><state_interface name=\"velocity\"/></joint>"
    "<joint name=\"f\"><command_interface name=\"position\"/><state_interface name=\"position\"/></joint>"
    "<joint name=\"z\"><command_interface name=\"position\"/><state_interface name=\"position\"/></joint>"
    "</ros2_control></robot>";
  return s.c_str();
}
struct Lim { double lo, hi, rate; bool limited; };   // rate: of change per second (0: free)
const std::map<std::string, Lim> & limits()
{
  static const std::map<std::string, Lim> m{{"p/position", {-0.25, 1, 1, true}}, {"q/velocity", {-2, 2, 0, true}}, {"q/effort", {-4, 4, 0, true}}, {"d/position", {0, 0, 0, false}}, {"f/position", {0, 0, 0, false}}, {"z/position", {-1, 1, 1, true}}};
  return m;
}
struct Rig
{
  mc::Ctx & c;
  std::unique_ptr<hi::ResourceManager> rm;
  std::map<std::string, hi::LoanedCommandInterface> loans;
  std::map<std::string, double> last;      // what the hardware has seen since the last switch of the interface
  std::map<std::string, double> value;     // what the interface must hold
  double now = 100;
  std::string prefix;
  void fail(const char * key, const std::string & msg) { c.fail(prefix + key, msg); }
  explicit Rig(mc::Ctx & ctx) : c(ctx)
  {
    static bool once = false;
    if (!once) { once = true; stub::register_plugin<hi::SystemInterface>("verif/Robot", [] { return new Robot(); }); }
    stub::set_virtual_time(std::llround(now * 1e9));
    plant() = Plant();
    for (auto & n : {"p", "d", "q", "f", "z"}) { plant().state[std::string(n) + "/position"] = 0; plant().state[std::string(n) + "/velocity"] = 0; }
    hi::ResourceManagerParams params;
    params.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
    params.robot_description = xml();
    params.update_rate = 10;
    rm = std::make_unique<hi::ResourceManager>(params, false);
    rm->import_joint_limiters(xml());
    if (!rm->load_and_initialize_components(params)) c.fail("load", "the description was refused");
    for (auto & n : {"h1", "h2"}) { rclcpp_lifecycle::State s(LS::PRIMARY_STATE_ACTIVE, "active"); if (rm->set_component_state(n, s) != RT::OK) c.fail("load", "cannot activate the hardware"); }
    cycle({});
  }
  void sw(const std::vector<std::string> & start, const std::vector<std::string> & stop)
  {
    if (!rm->prepare_command_mode_switch(start, stop) || !rm->perform_command_mode_switch(start, stop)) c.fail("switch", "a switch was refused");
    for (auto & i : stop) { loans.erase(i); last.erase(i); }
    for (auto & i : start) { loans.emplace(i, rm->claim_command_interface(i)); last.erase(i); value[i] = NAN; }
  }
  // one cycle, cmds are written by the controllers in order
  void cycle(const std::vector<std::pair<std::string, double>> & cmds)
  {
    now += DT;
    stub::set_virtual_time(std::llround(now * 1e9));
    const rclcpp::Time t(std::llround(now * 1e9), RCL_STEADY_TIME);
    const auto p = rclcpp::Duration::from_seconds(DT);
    rm->read(t, p);
    std::map<std::string, double> before = plant().seen, want;
    for (auto & [i, v] : cmds) { if (!loans.at(i).set_value(v)) c.fail("set", "a command was not accepted"); want[i] = v; }
    rm->enforce_command_limits(p);
    std::map<std::string, double> base;
    for (auto & [i, l] : limits()) base[i] = last.count(i) ? last[i] : plant().state[i];
    rm->write(t, p);
    for (auto & [i, l] : limits()) {
      const double v = plant().seen[i];
      if (!loans.count(i) || !want.count(i)) {
        // nobody has written it
        const double b = before.count(i) ? before[i] : NAN;
        // what an interface holds when it is claimed again is limited like the first command
        if (loans.count(i) && !last.count(i)) { if (!std::isnan(v)) last[i] = v; continue; }
        if (!(v == b || (std::isnan(v) && std::isnan(b)))) fail("untouched", mc::fmt("%s was changed from %g to %g although nobody commanded it", i.c_str(), b, v));
        if (loans.count(i) && !std::isnan(v)) last[i] = v;
        continue;
      }
      const double w = want[i];
      if (!l.limited) { if (v != w) fail("unlimited", mc::fmt("%s has no limits, %g was commanded and %g written", i.c_str(), w, v)); last[i] = v; continue; }
      double lo = l.lo, hi = l.hi;
      if (l.rate > 0) { lo = std::max(lo, base[i] - l.rate * DT); hi = std::min(hi, base[i] + l.rate * DT); }
      const double eps = 1e-9;
      if (!(v >= lo - eps && v <= hi + eps)) fail("outside", mc::fmt("%s: %g was written to the hardware for the command %g, allowed are %g to %g", i.c_str(), v, w, lo, hi));
      if (w >= lo + eps && w <= hi - eps && v != w) fail("restricted", mc::fmt("%s: the allowed command %g was changed to %g (allowed are %g to %g)", i.c_str(), w, v, lo, hi));
      if (w > hi + eps && v < hi - eps) fail("restricted", mc::fmt("%s: %g was written for the command %g although %g is allowed", i.c_str(), v, w, hi));
      if (w < lo - eps && v > lo + eps) fail("restricted", mc::fmt("%s: %g was written for the command %g although %g is allowed", i.c_str(), v, w, lo));
      last[i] = v;
    }
  }
  std::string str()
  {
    std::string s;
    for (auto & [i, l] : limits()) s += i + mc::fmt("%d:%.9g:%.9g:%.9g ", (int)loans.count(i), plant().seen[i], last.count(i) ? last[i] : NAN, plant().state[i]);
    return s;
  }
};
}  // namespace
int main(int argc, char ** argv)
{
  mc::Check k(argc, argv, "H11");
  k.rule = "every sequence of commands, switches and cycles up to the depth through the real resource manager with limits from the description; every value written to the hardware is compared with the limits computed here";
  mc::Check::Opt o;
  o.caching = false;
  o.cap_s = 300;
  for (int follow = 0; follow < 2; ++follow) {
    o.what = "position limits with a rate, one joint switched while the other one is used";
    k.explore(follow ? "position, hardware follows" : "position, hardware does not move", [&, follow](mc::Ctx & c) {
      Rig r(c);
      plant().follow = follow;
      r.sw({"p/position", "d/position", "f/position"}, {});
      for (int d = 0; d < k.q(5, 7); ++d) {
        static const double V[] = {0.05, 0.4, 5, -5, -0.1};
        const int a = c.choose(8);
        if (a < 5) { c.note(mc::fmt("command %g", V[a])); r.cycle({{"p/position", V[a]}, {"d/position", V[a] * 7}, {"f/position", V[a] * 9}}); }
        else if (a == 5) { c.note("cycle without a command"); r.cycle({}); }
        else if (a == 6) {
          c.note("switch z");
          if (r.loans.count("z/position")) r.sw({}, {"z/position"}); else r.sw({"z/position"}, {});
        } else { c.note("restart p"); r.sw({"p/position"}, {"p/position"}); }
      }
      c.outcome(r.str());
    }, o);
  }
  o.what = "velocity and effort of one joint, two interfaces of one joint commanded in both orders";
  k.explore("velocity and effort", [&](mc::Ctx & c) {
    Rig r(c);
    plant().follow = c.choose(2);
    r.sw({"q/velocity"}, {});
    for (int d = 0; d < k.q(4, 6); ++d) {
      static const double V[] = {1, 3, -5};
      const int a = c.choose(8);
      const bool e = r.loans.count("q/effort");
      if (a < 3) { c.note(mc::fmt("command %g", V[a])); if (e) r.cycle({{"q/velocity", V[a]}, {"q/effort", -2 * V[a]}}); else r.cycle({{"q/velocity", V[a]}}); }
      else if (a < 6) { c.note(mc::fmt("command %g", V[a - 3])); if (e) r.cycle({{"q/effort", V[a - 3]}, {"q/velocity", V[a - 3]}}); else r.cycle({{"q/velocity", -V[a - 3]}}); }
      else if (a == 6) { c.note("switch effort"); if (e) r.sw({}, {"q/effort"}); else r.sw({"q/effort"}, {}); }
      else { c.note("switch p"); if (r.loans.count("p/position")) r.sw({}, {"p/position"}); else r.sw({"p/position"}, {}); }
    }
    c.outcome(r.str());
  }, o);
  o.what = "the command is written several times in one cycle";
  k.explore("several writes", [&](mc::Ctx & c) {
    Rig r(c);
    plant().follow = c.choose(2);
    r.sw({"p/position"}, {});
    for (int d = 0; d < k.q(3, 4); ++d) {
      std::vector<std::pair<std::string, double>> w;
      const int n = c.choose(4);
      static const double V[] = {0.05, 5, -5};
      r.prefix = n > 1 ? "several-writes:" : "";
      for (int i = 0; i < n; ++i) w.push_back({"p/position", V[c.choose(3)]});
      std::string t = "commands";
      for (auto & x : w) t += mc::fmt(" %g", x.second);
      c.note(t);
      r.cycle(w);
    }
    c.outcome(r.str());
  }, o);
  return k.finish();
}
