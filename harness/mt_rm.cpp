// H12: the resource manager used by a control loop and by a service thread, every interleaving up to a number of
// preemptions.
#include "rm_common.hpp"
using namespace rmh;
namespace cmh
{
struct Seen { std::string comp, itf; double v; };
double & position() { static double p; return p; }   // of the joint with a velocity interface
double & measured() { static double p; return p; }
std::vector<Seen> & seen() { static std::vector<Seen> v; return v; }
template <class B>
class Watched : public B
{
public:
  RT write(const rclcpp::Time & t, const rclcpp::Duration & p) override
  {
    for (auto & j : this->get_hardware_info().joints) for (auto & s : j.command_interfaces) {
      const std::string n = j.name + "/" + s.name;
      const double v = this->template get_command<double>(n);
      mcrt::Quiet q;
      seen().push_back({this->n(), n, v});
    }
    return B::write(t, p);
  }
  RT read(const rclcpp::Time & t, const rclcpp::Duration & p) override
  {
    for (auto & j : this->get_hardware_info().joints) for (auto & s : j.state_interfaces) {
      if (j.name == "jv" && s.name == "position") { mcrt::Quiet q; measured() = position(); }
      this->set_state(j.name + "/" + s.name, j.name == "jv" && s.name == "position" ? position() : 0.0);
    }
    return B::read(t, p);
  }
};
struct Program
{
  std::string name;
  std::string loop;                                   // what the loop does: w write commands, s switch b1 to and fro, f hardware fails
  std::vector<std::pair<std::string, int>> service;   // component and state, or a list ("list", 0)
  std::set<std::string> failing;
  int how = ERR;
  int more = 0;        // further preemptions
};
void scenario(mc::Ctx & c, const Program & p, int bound)
{
  mcrt::Options o;
  o.preemptions = bound;
  mcrt::Session session(c, o);
  static bool once = false;
  if (!once) {
    once = true;
    stub::register_plugin<hi::ActuatorInterface>("verif/Actuator", [] { return new Watched<Act>(); });
    stub::register_plugin<hi::SystemInterface>("verif/System", [] { return new Watched<Sys>(); });
    stub::register_plugin<hi::SensorInterface>("verif/Sensor", [] { return new Sen(); });
  }
  W().c = nullptr;
  W().budget = 0;
  W().drop();
  W().asked.clear();
  W().busy.clear();
  W().mute.clear();
  W().on_overlap = nullptr;
  double now = 100;
  const double dt = 0.1;
  stub::set_virtual_time(std::llround(now * 1e9));
  hi::ResourceManagerParams params;
  params.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  params.robot_description = urdf({{"a1", "actuator", "", 0, {{"ja", {"position"}}, {"jv", {"velocity"}}}}, {"s1", "system", "", 0, {{"jb", {"position"}}}}});
  params.update_rate = 10;
  hi::ResourceManager rm(params, false);
  rm.import_joint_limiters(params.robot_description);
  if (!rm.load_and_initialize_components(params)) c.fail("load", "refused");
  for (auto n : {"a1", "s1"}) { rclcpp_lifecycle::State s(LS::PRIMARY_STATE_ACTIVE, "active"); if (rm.set_component_state(n, s) != RT::OK) c.fail("load", "cannot activate"); }
  std::map<std::string, hi::LoanedCommandInterface> loans;
  std::vector<std::string> A{"ja/position", "jv/velocity"}, B{"jb/position"};
  rm.prepare_command_mode_switch(A, {});
  rm.perform_command_mode_switch(A, {});
  for (auto & i : A) loans.emplace(i, rm.claim_command_interface(i));
  position() = measured() = 0;
  {
    const rclcpp::Time t(std::llround(now * 1e9), RCL_STEADY_TIME);
    rm.read(t, rclcpp::Duration::from_seconds(dt));
    (void)loans.at("ja/position").set_value(0.0);
    (void)loans.at("jv/velocity").set_value(0.5);
    rm.enforce_command_limits(rclcpp::Duration::from_seconds(dt));
    rm.write(t, rclcpp::Duration::from_seconds(dt));
  }
  W().drop();
  seen().clear();
  W().c = &c;
  W().budget = p.failing.empty() ? 0 : 1;
  W().limit = 3;
  W().rw = {OK, p.how};
  W().life = {OK, ERR};
  for (auto x : {"read", "write", "activate", "deactivate", "configure", "cleanup", "shutdown", "on_error", "perform", "prepare"}) for (auto n : {"a1", "s1"}) if (!p.failing.count(std::string(n) + "." + x)) W().mute.insert(std::string(n) + "." + x);
  W().on_overlap = [&](const std::string & comp, const std::string & what) { c.record("overlap", comp + ": " + what + " is still running on another thread"); };
  mcrt::on_held([&](int waiter, const std::string & what) { if (waiter == 1) c.record("loop-blocked", what); });
  bool done = false;
  int cycles = 0;
  std::map<std::string, bool> results;
  auto loop = [&] {
    double cmd = 0.05, ref = 0, when = now;
    do {
      now += dt;
      { mcrt::Quiet q; stub::set_virtual_time(std::llround(now * 1e9)); }
      const rclcpp::Time t(std::llround(now * 1e9), RCL_STEADY_TIME);
      const auto per = rclcpp::Duration::from_seconds(dt);
      // the joint arrives at its upper limit in the first cycle and stays there
      { mcrt::Quiet q; position() = 1.0; }
      auto r = rm.read(t, per);
      bool arrived;
      { mcrt::Quiet q; arrived = measured() >= 1.0; }
      const bool failed = r.result != RT::OK;
      (void)failed;
      const double want = p.loop.find('w') != std::string::npos ? 5.0 : cmd;
      if (!loans.at("ja/position").set_value(want)) { mcrt::Quiet q; c.record("set", "a command of the loop was not accepted"); }
      if (loans.count("jb/position")) (void)loans.at("jb/position").set_value(-3.0);
      rm.enforce_command_limits(per);
      if (p.loop.find('s') != std::string::npos) {
        const bool start = !loans.count("jb/position");
        if (!start || rm.command_interface_is_available("jb/position")) {
          static const std::vector<std::string> none;
          rm.perform_command_mode_switch(start ? B : none, start ? none : B);
          if (start) loans.emplace("jb/position", rm.claim_command_interface("jb/position"));
          else loans.erase("jb/position");
        }
      }
      size_t mark;
      { mcrt::Quiet q; mark = seen().size(); }
      rm.write(t, per);
      {
        mcrt::Quiet q;
        std::set<std::string> w;
        for (size_t i = mark; i < seen().size(); ++i) {
          auto & x = seen()[i];
          if (!w.insert(x.itf).second) c.record("written-twice", x.comp + " was written twice in one cycle");
          if (x.itf == "ja/position" && !(x.v <= ref + (now - when) + 1e-9 && x.v >= ref - (now - when) - 1e-9 && std::fabs(x.v) <= 1)) c.record("outside", mc::fmt("%g was written %g s after %g: not within the limits", x.v, now - when, ref));
          if (x.itf == "ja/position") { ref = x.v; when = now; }
          if (x.itf == "jv/velocity" && arrived && x.v > 0) c.record("outside", mc::fmt("the velocity %g was written at the upper position limit", x.v));
          if (x.itf == "jb/position" && !std::isnan(x.v) && std::fabs(x.v) > 1) c.record("outside", mc::fmt("%g was written to jb, not within the limits", x.v));
        }
        ++cycles;
      }
      mcrt::yield();
    } while (!done && cycles < 30);
    if (!done) { mcrt::Quiet q; c.record("starved", "the service does not end"); }
  };
  auto service = [&] {
    for (auto & [n, st] : p.service) {
      if (n == "status") {
        auto m = rm.get_components_status();
        mcrt::Quiet q;
        if (m.size() != 2) c.record("status", "not all components are listed");
      } else if (n == "lists") {
        auto a = rm.available_command_interfaces(), b = rm.available_state_interfaces();
        bool cl = rm.command_interface_is_claimed("ja/position");
        mcrt::Quiet q;
        if (!cl && p.failing.empty()) c.record("status", "ja/position is not claimed");
      } else if (n == "prepare") {
        rm.prepare_command_mode_switch(B, {});
      } else {
        rclcpp_lifecycle::State s;
        { mcrt::Quiet q; s = rclcpp_lifecycle::State(static_cast<uint8_t>(st), sn(st)); mcrt::note("set " + n + " " + sn(st)); }
        const bool ok = rm.set_component_state(n, s) == RT::OK;
        mcrt::Quiet q;
        mcrt::note(ok ? "succeeded" : "failed");
        if (!ok && p.failing.empty()) c.record("result", "the state of " + n + " could not be set");
      }
    }
    mcrt::Quiet q;
    done = true;
  };
  c.step();
  mcrt::parallel({{"loop", loop}, {"service", service}});
  mcrt::on_held(nullptr);
  W().on_overlap = nullptr;
  if (!c.failed) {
    auto st = rm.get_components_status();
    std::string out;
    std::map<std::string, int> goal;
    for (auto & [n, s] : p.service) if (st.count(n)) goal[n] = s;
    for (auto & [n, x] : st) {
      out += n + sn(x.state.id());
      if (p.failing.empty() && goal.count(n) && x.state.id() != goal[n]) c.record("result", n + " is " + sn(x.state.id()) + " at the end");
      const bool on = x.state.id() == LS::PRIMARY_STATE_INACTIVE || x.state.id() == LS::PRIMARY_STATE_ACTIVE;
      const std::string j = n == "a1" ? "ja" : "jb";
      if (rm.command_interface_is_available(j + "/position") != on || rm.state_interface_is_available(j + "/position") != on) c.record("available", n + " is " + sn(x.state.id()) + " and its interfaces are " + (on ? "not " : "") + "available");
    }
    c.outcome(out + mc::fmt("%d", cycles));
  }
  loans.clear();
  W().c = nullptr;
}
}  // namespace cmh
int main(int argc, char ** argv)
{
  using namespace cmh;
  mc::Check k(argc, argv, "H12");
  k.rule = "A control loop (read, commands far outside of the limits, enforcement, mode switches, write) and a thread which sets states, lists or prepares switches on the real resource manager under a controlled scheduler: every interleaving at lock operations, atomics and callbacks up to the preemption bound; values written, data races, deadlocks, waits of the loop, overlapping callbacks and the state at the end are judged.";
  const int ACT = LS::PRIMARY_STATE_ACTIVE, INA = LS::PRIMARY_STATE_INACTIVE, UNC = LS::PRIMARY_STATE_UNCONFIGURED, FIN = LS::PRIMARY_STATE_FINALIZED;
  std::vector<Program> ps{
    {"limits and state of other hardware", "w", {{"s1", INA}, {"s1", ACT}}, {}},
    {"limits and one state of other hardware", "w", {{"s1", INA}}, {}, ERR, 1},
    {"limits and state of this hardware", "w", {{"a1", INA}, {"a1", ACT}}, {}},
    {"switches and state of other hardware", "ws", {{"a1", INA}, {"a1", ACT}}, {}},
    {"lists", "w", {{"status", 0}, {"lists", 0}}, {}},
    {"switches and lists", "ws", {{"lists", 0}, {"status", 0}}, {}},
    {"switches and preparation", "ws", {{"prepare", 0}}, {}},
    {"failing read and state", "w", {{"a1", INA}, {"a1", ACT}}, {"a1.read"}},
    {"failing read and other state", "w", {{"s1", UNC}, {"s1", FIN}}, {"a1.read"}},
    {"failing write and state", "w", {{"a1", INA}, {"a1", ACT}}, {"a1.write"}},
    {"deactivating write and state", "w", {{"a1", INA}, {"a1", ACT}}, {"a1.write"}, DEACT},
    {"deactivating write and other state", "w", {{"s1", INA}, {"s1", ACT}}, {"a1.write"}, DEACT},
    {"failing read and lists", "w", {{"status", 0}, {"lists", 0}}, {"a1.read"}},
    {"failing transition", "w", {{"s1", INA}, {"s1", ACT}}, {"s1.deactivate", "s1.activate"}},
  };
  const int bound = getenv("MT_BOUND") ? atoi(getenv("MT_BOUND")) : k.q(2, 3);
  for (auto & p : ps) {
    mc::Check::Opt o;
    o.split = 1;
    o.hang_s = 60;
    o.cap_s = k.q(60, 200);
    mcrt::explore(k, p.name, bound + p.more, [=](mc::Ctx & c) { scenario(c, p, bound + p.more); }, o);
  }
  return k.finish();
}
