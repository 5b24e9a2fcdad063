// H02: interface values shared between threads.
#include "hardware_interface/handle.hpp"
#include "hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/loaned_state_interface.hpp"
#include "mcrt.hpp"
namespace hi = hardware_interface;
namespace cmh
{
enum Op { GET, GET_WAIT, GET_TRY, SET, SET_WAIT, SET_TRY, HOLD_GET, HOLD_SET, LOAN_GET, LOAN_SET, NOPS };
static const char * op_name(int o) { static const char * n[] = {"get", "get(wait)", "get(try)", "set", "set(wait)", "set(try)", "locked get+get", "locked set+set", "loan.get", "loan.set"}; return n[o]; }
static bool is_set(int o) { return o == SET || o == SET_WAIT || o == SET_TRY || o == HOLD_SET || o == LOAN_SET; }
static bool waits(int o) { return o == GET_WAIT || o == SET_WAIT || o == HOLD_GET || o == HOLD_SET; }
struct Rec { int thread, op; double arg = 0; bool ok = false; double got = 0; long start = 0, end = 0, waited = 0; };
template <class T> struct Val;
template <> struct Val<double> { static constexpr const char * type = "double"; static double v(int i) { return i == 0 ? 1.5 : 1.5 * (i + 1) * 1e10; } };
template <> struct Val<float> { static constexpr const char * type = "float32"; static float v(int i) { return 1.5f * (i + 1); } };
template <> struct Val<bool> { static constexpr const char * type = "bool"; static bool v(int i) { return i % 2; } };
template <> struct Val<int32_t> { static constexpr const char * type = "int32"; static int32_t v(int i) { return -100000 * (i + 1); } };
template <> struct Val<uint8_t> { static constexpr const char * type = "uint8"; static uint8_t v(int i) { return static_cast<uint8_t>(10 + i); } };
static std::string show(const std::vector<Rec> & r)
{
  std::string s;
  for (auto & x : r) s += mc::fmt("%s[t%d %s%s -> %s @%ld-%ld]", s.empty() ? "" : " ", x.thread, op_name(x.op), is_set(x.op) ? mc::fmt(" %g", x.arg).c_str() : "", !x.ok ? "failed" : is_set(x.op) ? "ok" : mc::fmt("%g", x.got).c_str(), x.start, x.end);
  return s;
}
// is there an order of the successful operations which respects time and explains every value read?
static bool explain(const std::vector<Rec> & r, std::vector<bool> & used, double value, size_t left)
{
  if (!left) return true;
  for (size_t i = 0; i < r.size(); ++i) {
    if (used[i]) continue;
    bool first = true;
    for (size_t j = 0; j < r.size(); ++j) if (!used[j] && j != i && r[j].end < r[i].start) first = false;
    if (!first) continue;
    double v = value;
    if (is_set(r[i].op)) v = r[i].arg;
    else if (r[i].got != value) continue;
    used[i] = true;
    if (explain(r, used, v, left - 1)) return true;
    used[i] = false;
  }
  return false;
}
template <class T>
static void scenario(mc::Ctx & c, int nthreads, int nops, int bound, const std::vector<int> & menu, bool as_double)
{
  std::vector<std::vector<Rec>> prog(static_cast<size_t>(nthreads));
  int next = 1;
  for (int t = 0; t < nthreads; ++t) for (int k = 0; k < nops; ++k) {
    Rec r{t, c.pick(menu)};
    if (is_set(r.op)) r.arg = static_cast<double>(Val<T>::v(next++));
    prog[static_cast<size_t>(t)].push_back(r);
  }
  // threads are alike
  for (int t = 1; t < nthreads; ++t) for (int k = 0; k < nops; ++k) {
    int a = prog[t - 1][k].op, b = prog[t][k].op;
    if (a < b) break;
    if (a > b) return;
  }
  std::string what;
  for (int t = 0; t < nthreads; ++t) { what += mc::fmt("%st%d:", t ? " | " : "", t); for (auto & r : prog[t]) what += std::string(" ") + op_name(r.op); }
  c.note(what);
  c.step();
  hi::InterfaceInfo info;
  info.name = "value";
  info.data_type = Val<T>::type;
  long clock = 0;
  std::vector<Rec> all;
  {
    auto ci = std::make_shared<hi::CommandInterface>(hi::InterfaceDescription("joint", info));
    if (!ci->set_value(Val<T>::v(0))) c.fail("set", "a value could not be set with no other thread around");
    std::vector<std::unique_ptr<hi::LoanedCommandInterface>> loans;
    for (int t = 0; t < nthreads; ++t) loans.push_back(std::make_unique<hi::LoanedCommandInterface>(ci, [] {}));
    mcrt::Options o;
    o.preemptions = bound;
    mcrt::begin(c, o);
    std::vector<std::pair<std::string, std::function<void()>>> bodies;
    for (int t = 0; t < nthreads; ++t) bodies.push_back({mc::fmt("t%d", t), [&, t] {
      for (auto & r : prog[static_cast<size_t>(t)]) {
        const long w0 = mcrt::waits();
        r.start = ++clock;
        auto arg = static_cast<T>(r.arg);
        std::optional<T> v;
        T x{};
        auto read = [&](std::optional<T> q) { r.ok = q.has_value(); if (q) r.got = static_cast<double>(*q); };
        switch (r.op) {
          case GET:
            if (as_double) { auto q = ci->get_optional(); r.ok = q.has_value(); if (q) r.got = *q; }
            else read(ci->template get_optional<T>());
            break;
          case GET_WAIT: case GET_TRY:
            if (as_double) { double d = 0; r.ok = ci->get_value(d, r.op == GET_WAIT); r.got = d; }
            else { r.ok = ci->get_value(x, r.op == GET_WAIT); r.got = static_cast<double>(x); }
            break;
          case SET: r.ok = ci->set_value(arg); break;
          case SET_WAIT: r.ok = ci->set_value(arg, true); break;
          case SET_TRY: r.ok = ci->set_value(arg, false); break;
          case HOLD_GET: {
            std::shared_lock<std::shared_mutex> l(ci->get_mutex());
            read(ci->template get_optional<T>(l));
            mcrt::point("holding");
            auto again = ci->template get_optional<T>(l);
            if (!r.ok || !again || static_cast<double>(*again) != r.got) c.record("locked-read", "two reads under one lock differ or fail");
            break;
          }
          case HOLD_SET: {
            std::unique_lock<std::shared_mutex> l(ci->get_mutex());
            bool ok = ci->set_value(l, Val<T>::v(9));
            mcrt::point("holding");
            r.ok = ci->set_value(l, arg) && ok;
            if (!r.ok) c.record("locked-write", "writing under the lock fails");
            break;
          }
          case LOAN_GET: read(loans[static_cast<size_t>(t)]->template get_optional<T>(2)); break;
          case LOAN_SET: r.ok = loans[static_cast<size_t>(t)]->set_value(arg, 2); break;
        }
        r.end = ++clock;
        r.waited = mcrt::waits() - w0;
      }
    }});
    mcrt::parallel(bodies);
    mcrt::end();
    for (auto & p : prog) for (auto & r : p) all.push_back(r);
    // with nobody else around everything succeeds
    Rec last{9, GET};
    auto q = ci->template get_optional<T>();
    if (!q) c.fail("left-locked", "the value cannot be read after all threads are done: " + show(all));
    last.ok = true;
    last.got = static_cast<double>(*q);
    last.start = ++clock;
    last.end = ++clock;
    if (!ci->set_value(*q)) c.fail("left-locked", "the value cannot be written after all threads are done: " + show(all));
    all.push_back(last);
  }
  std::vector<Rec> good;
  for (auto & r : all) {
    if (r.ok) { good.push_back(r); if (r.waited && !waits(r.op)) c.fail("blocked", mc::fmt("t%d: %s waited for another thread: ", r.thread, op_name(r.op)) + show(all)); continue; }
    if (r.waited && !waits(r.op)) c.fail("blocked", mc::fmt("t%d: %s waited for another thread: ", r.thread, op_name(r.op)) + show(all));
    if (waits(r.op)) c.fail("gave-up", mc::fmt("t%d: %s failed although it may wait: ", r.thread, op_name(r.op)) + show(all));
    bool contended = false;
    for (auto & q : all) if (q.thread != r.thread && q.start < r.end && r.start < q.end && (is_set(r.op) || is_set(q.op))) contended = true;
    if (!contended) c.fail("failed-alone", mc::fmt("t%d: %s failed although nobody else was using the value: ", r.thread, op_name(r.op)) + show(all));
  }
  std::vector<bool> used(good.size());
  if (!explain(good, used, static_cast<double>(Val<T>::v(0)), good.size())) c.fail("inconsistent", "no order of the operations explains the values read: " + show(all));
  std::string out;
  for (auto & r : all) out += mc::fmt("%d%d%g ", r.op, r.ok, r.got);
  c.outcome(out);
}
}  // namespace cmh
int main(int argc, char ** argv)
{
  using namespace cmh;  // NOLINT
  mc::Check k(argc, argv, "H02");
  k.rule = "Every program of 2 threads with 2 operations and of 3 threads with 1 operation on one interface (get, set, waiting and not waiting, under a lock of the caller, through a loan), every interleaving at lock operations, yields and atomic accesses within the preemption bound; every data race (happens-before), wait, failure and value is judged.";
  k.assumptions = {"sequentially consistent memory between two synchronisations; a data race is reported as such, hence nothing else can be observed"};
  std::vector<int> all{GET, GET_WAIT, GET_TRY, SET, SET_WAIT, SET_TRY, HOLD_GET, HOLD_SET, LOAN_GET, LOAN_SET};
  std::vector<int> some{GET, GET_WAIT, SET, SET_WAIT, HOLD_GET, HOLD_SET};
  auto go = [&](auto tag, bool as_double, const char * n) {
    using T = decltype(tag);
    mc::Check::Opt o;
    o.split = 2;
    o.cap_s = k.q(120, 800);
    k.explore(mc::fmt("%s 2x1", n), [=](mc::Ctx & c) { scenario<T>(c, 2, 1, 4, all, as_double); }, o);
    k.explore(mc::fmt("%s 3x1", n), [=](mc::Ctx & c) { scenario<T>(c, 3, 1, k.q(2, 4), all, as_double); }, o);
    if (std::string(n) == "double" || k.thorough()) {
      o.split = 3;
      k.explore(mc::fmt("%s 2x2", n), [=](mc::Ctx & c) { scenario<T>(c, 2, 2, k.q(2, 3), some, as_double); }, o);
    }
  };
  go(double(), false, "double");
  go(bool(), false, "bool");
  go(bool(), true, "bool read as double");
  go(float(), false, "float");
  go(int32_t(), false, "int32");
  go(uint8_t(), false, "uint8");
  return k.finish();
}
