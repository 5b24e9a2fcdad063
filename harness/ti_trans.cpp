// T01: transmissions between actuators and joints.
#include <array>
#include <cmath>
#include "hardware_interface/component_parser.hpp"
#include "mc.hpp"
#include "ti_make.hpp"
#include "transmission_interface/differential_transmission_loader.hpp"
#include "transmission_interface/four_bar_linkage_transmission_loader.hpp"
#include "transmission_interface/simple_transmission_loader.hpp"
namespace ti = transmission_interface;
namespace hi = hardware_interface;
namespace
{
enum Kind { SIMPLE, DIFF, FOUR };
const char * kn(int k) { static const char * n[] = {"simple", "differential", "four bar"}; return n[k]; }
enum Itf { POS, VEL, EFF, TOR, FOR, ABS, N };
const std::array<std::string, N> INAME{"position", "velocity", "effort", "torque", "force", "absolute_position"};
mc::Check::Opt opt(mc::Check & k, const char * what, int split)
{
  mc::Check::Opt o;
  o.split = split;
  o.caching = false;
  o.cap_s = k.q(120, 1200);
  o.what = what;
  return o;
}
bool near(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
// The relation of velocities is the matrix M: actuator = M * joint. Efforts: joint = M' * actuator.
struct Model
{
  int k = SIMPLE, n = 1;
  double ar[2] = {1, 1}, jr[2] = {1, 1}, off[2] = {0, 0};
  double m[2][2];
  double j[N][2], a[N][2];        // expected values
  bool jh[N] = {}, ah[N] = {};    // all handles of the kind are there
  void matrix()
  {
    m[0][0] = m[0][1] = m[1][0] = m[1][1] = 0;
    if (k == SIMPLE) m[0][0] = jr[0];
    if (k == DIFF) { m[0][0] = ar[0] * jr[0]; m[0][1] = ar[0] * jr[1]; m[1][0] = ar[1] * jr[0]; m[1][1] = -ar[1] * jr[1]; }
    if (k == FOUR) { m[0][0] = ar[0] * jr[0]; m[1][0] = ar[1]; m[1][1] = ar[1] * jr[1]; }
  }
  bool known(int i) const { return k != FOUR || i <= EFF; }
  bool pair(int i) const { return known(i) && jh[i] && ah[i]; }
  void solve(const double b[2], double x[2], bool transposed) const
  {
    if (n == 1) { x[0] = b[0] / m[0][0]; return; }
    const double p = m[0][0], q = transposed ? m[1][0] : m[0][1], r = transposed ? m[0][1] : m[1][0], s = m[1][1], d = p * s - q * r;
    x[0] = (b[0] * s - b[1] * q) / d;
    x[1] = (b[1] * p - b[0] * r) / d;
  }
  void a2j()
  {
    for (int i = 0; i < N; ++i) {
      if (!pair(i)) continue;
      double x[2] = {0, 0};
      if (i == EFF || i == TOR || i == FOR) for (int c = 0; c < n; ++c) for (int r = 0; r < n; ++r) x[c] += m[r][c] * a[i][r];
      else solve(a[i], x, false);
      for (int c = 0; c < n; ++c) j[i][c] = x[c] + (i == POS || i == ABS ? off[c] : 0);
    }
  }
  void j2a()
  {
    for (int i = 0; i < ABS; ++i) {   // absolute encoders are only read
      if (!pair(i)) continue;
      double x[2] = {0, 0}, y[2];
      for (int c = 0; c < n; ++c) y[c] = j[i][c] - (i == POS ? off[c] : 0);
      if (i == EFF || i == TOR || i == FOR) solve(y, x, true);
      else for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) x[r] += m[r][c] * y[c];
      for (int r = 0; r < n; ++r) a[i][r] = x[r];
    }
  }
};
struct Mem { double j[N][2], a[N][2]; };
std::unique_ptr<ti::Transmission> make(const Model & m)
{
  const std::vector<double> ar{m.ar[0], m.ar[1]}, jr{m.jr[0], m.jr[1]}, off{m.off[0], m.off[1]};
  return m.k == SIMPLE ? tim::make_simple(m.jr[0], m.off[0]) : m.k == DIFF ? tim::make_diff(ar, jr, off) : tim::make_four(ar, jr, off);
}
void init(Model & m, Mem & mem)
{
  for (int i = 0; i < N; ++i) for (int x = 0; x < 2; ++x) {
    m.j[i][x] = mem.j[i][x] = 0.5 + i + 10 * x;
    m.a[i][x] = mem.a[i][x] = 100.25 + 3 * i - 7 * x;
  }
}
void compare(mc::Ctx & c, const Model & m, const Mem & mem, const std::string & when, const std::string & key = "values")
{
  for (int i = 0; i < N; ++i) for (int x = 0; x < 2; ++x) {
    if (!near(m.j[i][x], mem.j[i][x])) c.fail(key, mc::fmt("%s: %s of joint %d is %g, not %g", when.c_str(), INAME[i].c_str(), x + 1, mem.j[i][x], m.j[i][x]));
    if (!near(m.a[i][x], mem.a[i][x])) c.fail(key, mc::fmt("%s: %s of actuator %d is %g, not %g", when.c_str(), INAME[i].c_str(), x + 1, mem.a[i][x], m.a[i][x]));
  }
}
void set_a(Model & m, Mem & mem, int i, double v0, double v1) { m.a[i][0] = mem.a[i][0] = v0; m.a[i][1] = mem.a[i][1] = v1; }
void set_j(Model & m, Mem & mem, int i, double v0, double v1) { m.j[i][0] = mem.j[i][0] = v0; m.j[i][1] = mem.j[i][1] = v1; }
void values(mc::Check & k)
{
  const bool deep = k.thorough();
  k.explore("values", [deep](mc::Ctx & c) {
    Model m;
    Mem mem;
    m.k = c.choose(3, "transmission");
    m.n = m.k == SIMPLE ? 1 : 2;
    const std::vector<double> red = deep ? std::vector<double>{-3, -0.5, 1, 0.25, 7} : std::vector<double>{-3, 0.5, 1};
    const std::vector<double> offs{0, 0.75, -2};
    for (int x = 0; x < m.n; ++x) {
      m.jr[x] = c.pick(red, "joint reduction");
      if (m.k != SIMPLE) m.ar[x] = c.pick(red, "actuator reduction");
      m.off[x] = c.pick(offs, "offset");
    }
    m.matrix();
    init(m, mem);
    auto t = make(m);
    std::vector<ti::JointHandle> jh;
    std::vector<ti::ActuatorHandle> ah;
    for (int i = 0; i < N; ++i) {
      m.jh[i] = m.ah[i] = true;
      for (int x = 0; x < m.n; ++x) {
        jh.emplace_back(x ? "joint2" : "joint1", INAME[i], &mem.j[i][x]);
        ah.emplace_back(x ? "motor2" : "motor1", INAME[i], &mem.a[i][x]);
      }
    }
    t->configure(jh, ah);
    compare(c, m, mem, "after configure", "configure");
    static const double v[][2] = {{0, 0}, {1, -2}, {-0.125, 1e3}, {1e-6, -1e6}};
    const int first = c.choose(4, "values"), second = deep ? c.choose(4, "values") : 3 - first;
    for (int round = 0; round < 2; ++round) {
      const auto & w = v[round ? second : first];
      for (int i = 0; i < N; ++i) set_a(m, mem, i, w[0] + i, w[1] - 2 * i);
      t->actuator_to_joint();
      m.a2j();
      compare(c, m, mem, "actuator to joint");
      // the power of joints and actuators
      for (int e : {EFF, TOR, FOR}) {
        if (!m.known(e)) continue;
        double pj = 0, pa = 0;
        for (int x = 0; x < m.n; ++x) { pj += mem.j[e][x] * mem.j[VEL][x]; pa += mem.a[e][x] * mem.a[VEL][x]; }
        if (std::fabs(pj - pa) > 1e-6 * (1 + std::fabs(pa))) c.fail("power", mc::fmt("power of %s is %g in the joints and %g in the actuators", INAME[e].c_str(), pj, pa));
      }
      const Mem before = mem;
      t->joint_to_actuator();
      m.j2a();
      compare(c, m, mem, "joint to actuator");
      for (int i = 0; i < N; ++i) for (int x = 0; x < m.n; ++x)
        if (std::fabs(before.a[i][x] - mem.a[i][x]) > 1e-6 * (1 + std::fabs(before.a[i][x]))) c.fail("round-trip", INAME[i] + " of the actuator changed in a round trip");
      for (int i = 0; i < N; ++i) set_j(m, mem, i, w[1] + 1 - i, w[0] + 0.5 * i);
      t->joint_to_actuator();
      m.j2a();
      compare(c, m, mem, "joint to actuator");
      c.step();
    }
    c.outcome(mc::fmt("%d %g %g %g %g", m.k, mem.a[0][0], mem.a[0][1], mem.j[0][0], mem.j[0][1]));
  }, opt(k, "every transmission, reduction and offset of a grid with several values of all interfaces", 3));
}
// which interfaces are there, in which order the handles come
void subsets(mc::Check & k)
{
  k.explore("interfaces", [](mc::Ctx & c) {
    Model m;
    Mem mem;
    m.k = c.choose(3, "transmission");
    m.n = m.k == SIMPLE ? 1 : 2;
    m.ar[0] = 2; m.ar[1] = -4; m.jr[0] = 0.5; m.jr[1] = 3; m.off[0] = 1; m.off[1] = -0.25;
    m.matrix();
    init(m, mem);
    auto t = make(m);
    std::vector<ti::JointHandle> jh;
    std::vector<ti::ActuatorHandle> ah;
    // all, none, only joints, only actuators for every interface; for one interface also a part of it
    const int odd = c.choose(N + 1, "incomplete interface");
    bool partial = false, jnames[2] = {}, anames[2] = {}, jany = false, aany = false, common = false;
    std::vector<std::array<int, 2>> present;   // handles per interface: bit mask of joints and actuators
    for (int i = 0; i < N; ++i) {
      int jm, am;
      const int full = m.n == 1 ? 1 : 3;
      if (i == odd) {
        if (m.n == 1) { const int x = c.choose(3, "null handles"); jm = x & 1 ? 1 | 4 : 1; am = x & 2 ? 1 | 4 : (x == 0 ? 1 | 4 : 1); if (x == 0) jm = 1 | 4; }
        else { jm = 1 + c.choose(3, "joints") ; am = 1 + c.choose(3, "actuators"); if (c.flip("null handles instead of none")) { if (jm != 3) jm = 3 | (jm == 1 ? 8 : 4); if (am != 3) am = 3 | (am == 1 ? 8 : 4); } }
      } else {
        static const int S[4][2] = {{0, 0}, {1, 0}, {0, 1}, {1, 1}};
        const auto & s = S[c.choose(4, "interface")];
        jm = s[0] * full; am = s[1] * full;
      }
      present.push_back({jm, am});
    }
    const int order = c.choose(3, "order of handles");
    auto add = [&](int i, int x) {
      if (present[i][0] >> x & 1) jh.emplace_back(x ? "joint2" : "joint1", INAME[i], present[i][0] >> (x + 2) & 1 ? nullptr : &mem.j[i][x]);
      if (present[i][1] >> x & 1) ah.emplace_back(x ? "motor2" : "motor1", INAME[i], present[i][1] >> (x + 2) & 1 ? nullptr : &mem.a[i][x]);
    };
    if (order == 0) for (int i = 0; i < N; ++i) for (int x = 0; x < m.n; ++x) add(i, x);
    if (order == 1) for (int i = N - 1; i >= 0; --i) for (int x = 0; x < m.n; ++x) add(i, x);
    if (order == 2) for (int x = 0; x < m.n; ++x) for (int i = 0; i < N; ++i) add(i, x);
    // The order of the names is that of their first handles: it has to be the one of the reductions.
    auto firsts = [](const auto & h) { std::vector<std::string> n; for (auto & x : h) if (std::find(n.begin(), n.end(), x.get_prefix_name()) == n.end()) n.push_back(x.get_prefix_name()); return n; };
    auto jf = firsts(jh), af = firsts(ah);
    if ((jf.size() == 2 && jf[0] != "joint1") || (af.size() == 2 && af[0] != "motor1")) return;
    for (int i = 0; i < N; ++i) {
      int jc = 0, ac = 0;
      for (int x = 0; x < m.n; ++x) {
        if (present[i][0] >> x & 1) { jnames[x] = true; if (!(present[i][0] >> (x + 2) & 1)) ++jc; }
        if (present[i][1] >> x & 1) { anames[x] = true; if (!(present[i][1] >> (x + 2) & 1)) ++ac; }
      }
      m.jh[i] = jc == m.n;
      m.ah[i] = ac == m.n;
      if (m.known(i)) {
        jany = jany || jc; aany = aany || ac;
        if ((jc && jc != m.n) || (ac && ac != m.n)) partial = true;
        if (m.pair(i)) common = true;
      }
    }
    const bool names = m.n == 1 ? jnames[0] && anames[0] : jnames[0] && jnames[1] && anames[0] && anames[1];
    bool thrown = false;
    try { t->configure(jh, ah); } catch (const std::exception & e) { thrown = true; c.note(e.what()); }
    if (thrown && names && common && !partial) c.fail("rejected", "complete handles were rejected");
    if (!thrown && (!names || !jany || !aany)) c.fail("accepted", "handles were accepted although joints or actuators are missing");
    compare(c, m, mem, "after configure", "configure");
    if (!thrown) {
      set_a(m, mem, POS, 5, 6);
      t->actuator_to_joint();
      m.a2j();
      compare(c, m, mem, "actuator to joint");
      set_j(m, mem, VEL, 5, 6);
      set_j(m, mem, POS, -5, 16);
      t->joint_to_actuator();
      m.j2a();
      compare(c, m, mem, "joint to actuator");
      c.step();
      if (order == 0 && odd == N) {
        // the same transmission with other handles
        Model m2 = m;
        Mem other;
        init(m2, other);
        jh.clear(); ah.clear();
        for (int x = 0; x < m.n; ++x) { jh.emplace_back(x ? "y" : "x", INAME[VEL], &other.j[VEL][x]); ah.emplace_back(x ? "b" : "a", INAME[VEL], &other.a[VEL][x]); }
        for (int i = 0; i < N; ++i) m2.jh[i] = m2.ah[i] = i == VEL;
        t->configure(jh, ah);
        t->actuator_to_joint();
        m2.a2j();
        compare(c, m2, other, "configured again");
        compare(c, m, mem, "configured again", "old-handles");
        t->joint_to_actuator();
        m2.j2a();
        compare(c, m2, other, "configured again");
        compare(c, m, mem, "configured again", "old-handles");
      }
    }
    c.outcome(mc::fmt("%d %d %d %g %g", m.k, thrown, odd, mem.a[0][0], mem.j[0][0]));
  }, opt(k, "every set of interfaces of joints and actuators, complete or with one incomplete, in three orders", 3));
}
// names of joints and actuators, and the order of their handles
void names(mc::Check & k)
{
  k.explore("names", [](mc::Ctx & c) {
    Model m;
    Mem mem;
    m.k = c.choose(3, "transmission");
    m.n = m.k == SIMPLE ? 1 : 2;
    m.ar[0] = 2; m.ar[1] = -4; m.jr[0] = 0.5; m.jr[1] = 3; m.off[0] = 1; m.off[1] = -0.25;
    m.matrix();
    init(m, mem);
    auto t = make(m);
    static const std::vector<std::string> NAMES{"a", "b", ""};
    std::vector<std::string> n;
    for (int i = 0; i < 2 * m.n; ++i) n.push_back(c.pick(NAMES, i < m.n ? "joint" : "actuator"));
    const int extra = c.choose(3, "another joint or actuator");
    std::vector<ti::JointHandle> jh;
    std::vector<ti::ActuatorHandle> ah;
    double far = 77;
    for (int i : {POS, VEL}) {
      for (int x = 0; x < m.n; ++x) { jh.emplace_back(n[x], INAME[i], &mem.j[i][x]); ah.emplace_back(n[m.n + x], INAME[i], &mem.a[i][x]); }
      m.jh[i] = m.ah[i] = true;
    }
    if (extra == 1) jh.emplace_back("z", INAME[POS], &far);
    if (extra == 2) ah.emplace_back("z", INAME[POS], &far);
    const bool good = !extra && (m.n == 1 || (n[0] != n[1] && n[2] != n[3]));
    if (extra && m.n == 2 && (n[0] == n[1] || n[2] == n[3])) return;   // the same handle twice: not specified
    bool thrown = false;
    try { t->configure(jh, ah); } catch (const std::exception & e) { thrown = true; c.note(e.what()); }
    if (good && thrown) c.fail("rejected", "good handles were rejected");
    if (!good && !thrown) c.fail("accepted", "handles of a wrong number of joints or actuators were accepted");
    if (!thrown) {
      set_a(m, mem, POS, 5, 6);
      t->actuator_to_joint();
      m.a2j();
      compare(c, m, mem, "actuator to joint", "order");
      set_j(m, mem, VEL, 5, 6);
      t->joint_to_actuator();
      m.j2a();
      compare(c, m, mem, "joint to actuator", "order");
      c.step();
    }
    if (far != 77) c.fail("values", "a handle of another joint was written");
    c.outcome(mc::fmt("%d %d %g", m.k, thrown, mem.j[0][0]));
  }, opt(k, "all names of two joints and actuators over three names, in every order, and a joint or actuator too many", 2));
}
std::unique_ptr<ti::TransmissionLoader> loader(int k)
{
  if (k == SIMPLE) return std::make_unique<ti::SimpleTransmissionLoader>();
  if (k == DIFF) return std::make_unique<ti::DifferentialTransmissionLoader>();
  return std::make_unique<ti::FourBarLinkageTransmissionLoader>();
}
// constructors and loaders refuse what cannot be computed
void loading(mc::Check & k)
{
  k.explore("loaders", [](mc::Ctx & c) {
    const int kind = c.choose(3, "transmission");
    const std::vector<double> red{2, -0.5, 0, -0.0};
    hi::TransmissionInfo info;
    const int nj = c.choose(4, "joints"), na = c.choose(4, "actuators");
    bool zero = false;
    for (int i = 0; i < nj; ++i) { hi::JointInfo j; j.name = mc::fmt("j%d", i); j.mechanical_reduction = i < 2 ? c.pick(red, "reduction") : 1; j.offset = 0.5 * i - 0.25; info.joints.push_back(j); }
    for (int i = 0; i < na; ++i) { hi::ActuatorInfo a; a.name = mc::fmt("a%d", i); a.mechanical_reduction = i < 2 ? c.pick(red, "reduction") : 1; info.actuators.push_back(a); }
    const int need = kind == SIMPLE ? 1 : 2;
    for (int i = 0; i < need && i < nj; ++i) zero = zero || info.joints[i].mechanical_reduction == 0;
    if (kind != SIMPLE) for (int i = 0; i < need && i < na; ++i) zero = zero || info.actuators[i].mechanical_reduction == 0;
    auto t = loader(kind)->load(info);
    const bool missing = nj < need || (kind != SIMPLE && na < need);
    if (!t && !missing && !zero && (nj == need && na == need)) c.fail("load", "a good description was refused");
    if (t && (missing || zero)) c.fail("load", "a description was accepted although reductions are missing or zero");
    if (t) {
      std::vector<double> ar, jr, off;
      if (!(kind == SIMPLE ? tim::data_simple(*t, ar, jr, off) : kind == DIFF ? tim::data_diff(*t, ar, jr, off) : tim::data_four(*t, ar, jr, off))) c.fail("load", "wrong type");
      for (int i = 0; i < need; ++i) {
        if (jr.at(i) != info.joints[i].mechanical_reduction || off.at(i) != info.joints[i].offset) c.fail("load", "reduction or offset of a joint is not the described one");
        if (kind != SIMPLE && ar.at(i) != info.actuators[i].mechanical_reduction) c.fail("load", "reduction of an actuator is not the described one");
      }
      if (static_cast<int>(t->num_joints()) != need || static_cast<int>(t->num_actuators()) != need) c.fail("load", "number of joints or actuators");
    }
    // the constructors
    if (kind != SIMPLE) {
      std::vector<double> jr, ar, off;
      for (auto & j : info.joints) { jr.push_back(j.mechanical_reduction); off.push_back(j.offset); }
      for (auto & a : info.actuators) ar.push_back(a.mechanical_reduction);
      bool thrown = false;
      try {
        if (kind == DIFF) tim::make_diff(ar, jr, off); else tim::make_four(ar, jr, off);
      } catch (const std::exception &) { thrown = true; }
      if (thrown != (nj != 2 || na != 2 || zero)) c.fail("construct", thrown ? "a good transmission was refused" : "a transmission without or with zero reductions was made");
    }
    c.step();
    c.outcome(mc::fmt("%d %d %d %d %d", kind, nj, na, !t, zero));
  }, opt(k, "every number of joints and actuators up to three with reductions over a grid with zero", 2));
}
// from the description to the values, as hardware does it
void description(mc::Check & k)
{
  k.explore("description", [](mc::Ctx & c) {
    Model m;
    Mem mem;
    m.k = c.choose(3, "transmission");
    m.n = m.k == SIMPLE ? 1 : 2;
    static const std::vector<std::array<const char *, 2>> NAMES{{{"alpha", "beta"}}, {{"wrist_roll", "wrist_pitch"}}};
    const auto jn = c.pick(NAMES, "joints"), an = c.pick(NAMES, "actuators");
    const bool listed_backwards = c.flip("the component lists its joints the other way round");
    std::string tr = std::string("<transmission name=\"t\"><plugin>transmission_interface/") + (m.k == SIMPLE ? "SimpleTransmission" : m.k == DIFF ? "DifferentialTransmission" : "FourBarLinkageTransmission") + "</plugin>";
    std::string js, as;
    static const std::vector<double> red{-2, 0.5, 1};
    for (int x = 0; x < m.n; ++x) {
      m.jr[x] = c.pick(red, "joint reduction");
      const int o = c.choose(3, "offset");
      m.off[x] = o == 1 ? 0.5 : o == 2 ? -1.5 : 0;
      if (m.k != SIMPLE) m.ar[x] = c.pick(red, "actuator reduction");
      js += std::string("<joint name=\"") + jn[x] + "\" role=\"joint" + char('1' + x) + "\">" + (m.jr[x] != 1 ? mc::fmt("<mechanical_reduction>%g</mechanical_reduction>", m.jr[x]) : "") + (o ? mc::fmt("<offset>%g</offset>", m.off[x]) : "") + "</joint>";
      as += std::string("<actuator name=\"") + an[x] + "\" role=\"actuator" + char('1' + x) + "\">" + (m.ar[x] != 1 ? mc::fmt("<mechanical_reduction>%g</mechanical_reduction>", m.ar[x]) : "") + "</actuator>";
    }
    tr += c.flip("actuators first") ? as + js : js + as;
    tr += "</transmission>";
    std::string joints, urdf;
    for (int y = 0; y < m.n; ++y) {
      const int x = listed_backwards ? m.n - 1 - y : y;
      joints += std::string("<joint name=\"") + jn[x] + "\"><command_interface name=\"position\"/><state_interface name=\"position\"/><state_interface name=\"velocity\"/></joint>";
      urdf += std::string("<link name=\"l") + jn[x] + "\"/><joint name=\"" + jn[x] + "\" type=\"continuous\"><parent link=\"world\"/><child link=\"l" + jn[x] + "\"/><axis xyz=\"0 0 1\"/></joint>";
    }
    const std::string xml = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"world\"/>" + urdf + "<ros2_control name=\"s\" type=\"system\"><hardware><plugin>p</plugin></hardware>" + joints + tr + "</ros2_control></robot>";
    const auto info = hi::parse_control_resources_from_urdf(xml);
    if (info.size() != 1 || info[0].transmissions.size() != 1) c.fail("description", "the transmission is not in the description");
    const auto & d = info[0].transmissions[0];
    if (static_cast<int>(d.joints.size()) != m.n || static_cast<int>(d.actuators.size()) != m.n) c.fail("description", "joints or actuators of the transmission are missing");
    m.matrix();
    init(m, mem);
    auto t = loader(m.k)->load(d);
    if (!t) c.fail("description", "the transmission was refused");
    std::vector<ti::JointHandle> jh;
    std::vector<ti::ActuatorHandle> ah;
    for (int x = 0; x < m.n; ++x) {
      if (d.joints[x].name != jn[x] || d.actuators[x].name != an[x]) c.fail("description", "the names are not those described");
      if (d.joints[x].command_interfaces != std::vector<std::string>{"position"} || d.joints[x].state_interfaces != std::vector<std::string>{"position", "velocity"}) c.fail("description", "the interfaces of the joint are not those of the component");
      for (int i : {POS, VEL}) { jh.emplace_back(d.joints[x].name, INAME[i], &mem.j[i][x]); ah.emplace_back(d.actuators[x].name, INAME[i], &mem.a[i][x]); m.jh[i] = m.ah[i] = true; }
    }
    t->configure(jh, ah);
    set_a(m, mem, POS, 5, 6);
    set_a(m, mem, VEL, 1, -1);
    t->actuator_to_joint();
    m.a2j();
    compare(c, m, mem, "actuator to joint", "order");
    set_j(m, mem, POS, 0.5, 0.25);
    t->joint_to_actuator();
    m.j2a();
    compare(c, m, mem, "joint to actuator", "order");
    c.step();
    c.outcome(mc::fmt("%d %g %g", m.k, mem.j[0][0], mem.a[0][1]));
  }, opt(k, "descriptions with every transmission, name order, order of elements, reductions and offsets, through parser, loader and transmission", 3));
}
}  // namespace
int main(int argc, char ** argv)
{
  mc::Check k(argc, argv, "T01");
  k.rule = "an execution is one configuration of a transmission with a sequence of computations; outcomes are distinct results";
  values(k);
  subsets(k);
  names(k);
  loading(k);
  description(k);
  return k.finish();
}
