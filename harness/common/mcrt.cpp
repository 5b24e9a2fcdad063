#include "mcrt.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <time.h>
#include <atomic>
#include <cstdlib>
#include <new>
#include <unordered_set>
namespace mcrt
{
constexpr int MAXT = 8;
using Clk = uint32_t;
struct VC
{
  Clk c[MAXT] = {};
  void join(const VC & o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
enum class St { NONE, READY, MUTEX, RDLOCK, WRLOCK, COND, JOIN, GUARD, DONE };
static const char * st_name(St s) { static const char * n[] = {"-", "ready", "waits for a mutex", "waits for a shared lock", "waits for an exclusive lock", "waits for a condition", "waits for a thread", "waits for an initialisation", "done"}; return n[static_cast<int>(s)]; }
struct Thread
{
  int id = 0;
  std::string name;
  St st = St::NONE;
  const void * obj = nullptr;
  bool timed = false, expired = false, signaled = false, yielded = false;
  int64_t deadline = 0;
  int join_of = -1;
  VC vc;
  sem_t sem;
  pthread_t real{};
  void * (*fn)(void *) = nullptr;
  void * arg = nullptr;
  void * ret = nullptr;
  bool joined = false, detached = false;
  std::vector<const void *> stack;
  std::vector<uint64_t> hash;
  uintptr_t lo = 0, hi = 0;
  long waits = 0;
};
// which threads touch an object of synchronisation, and from where
struct Obj { uint8_t mask = 0, wmask = 0; bool open = false; std::vector<uint64_t> sites; };
struct Mutex { int owner = -1, count = 0; VC vc; };
struct RW { int writer = -1; std::vector<int> readers; VC w, r; };
struct Cell
{
  Clk wclk = 0;
  int8_t wtid = -1;
  uint8_t wmask = 0;
  bool freed = false;
  const void * wpc[3] = {};
  Clk rclk[MAXT] = {};
  uint8_t rmask[MAXT] = {};
  const void * rpc[MAXT] = {};
};
// open addressing, emptied by counting up the generation; allocates nothing while it is used
struct Shadow
{
  struct Slot { uintptr_t key; uint32_t gen; Cell c; };
  Slot * t = nullptr;
  size_t cap = 0, used = 0;
  uint32_t gen = 1;
  bool empty() const { return used == 0; }
  void clear() { ++gen; used = 0; }
  static size_t h(uintptr_t k) { return (k >> 3) * 0x9e3779b97f4a7c15ull >> 17; }
  void grow()
  {
    Slot * o = t;
    size_t oc = cap;
    cap = cap ? cap * 4 : 1 << 14;
    t = static_cast<Slot *>(calloc(cap, sizeof(Slot)));
    used = 0;
    for (size_t i = 0; i < oc; ++i) if (o[i].gen == gen) *slot(o[i].key, true) = o[i];
    free(o);
  }
  Slot * slot(uintptr_t k, bool make)
  {
    if (!t || used * 2 > cap) { if (!make && !t) return nullptr; grow(); }
    for (size_t i = h(k) & (cap - 1);; i = (i + 1) & (cap - 1)) {
      Slot & s = t[i];
      if (s.gen != gen) { if (!make) return nullptr; s.key = k; s.gen = gen; s.c = Cell(); ++used; return &s; }
      if (s.key == k) return &s;
    }
  }
  Cell & operator[](uintptr_t k) { return slot(k, true)->c; }
  Cell * find(uintptr_t k) { auto * s = slot(k, false); return s ? &s->c : nullptr; }
  void erase(uintptr_t k) { if (auto * s = slot(k, false)) s->c = Cell(); }
};
struct Sched
{
  mc::Ctx * c = nullptr;
  Options o;
  bool on = false, explore = false;
  int n = 0, cur = 0, left = 0, timeouts = 0, target = -1, target_end = 0;
  long npoints = 0, total = 0;
  int64_t mono = 0;
  int last_rr = 0;
  Thread t[MAXT];
  std::unordered_map<const void *, Mutex> mu;
  std::unordered_map<const void *, RW> rw;
  std::unordered_map<const void *, VC> sync;
  Shadow shadow;
  std::unordered_map<const void *, Obj> objs;
  std::vector<std::pair<void *, size_t>> quarantine;
  std::set<std::string> reported;
  std::string running_note;
};
static Sched * g_sched = nullptr;
static inline Sched & S() { if (__builtin_expect(!g_sched, 0)) g_sched = new Sched(); return *g_sched; }
static thread_local int tl_quiet = 0;   // inside the runtime or harness: instrumentation is off
static thread_local int tl_id = -1;
static inline bool live() { return S().on && tl_id >= 0; }
struct In { In() { ++tl_quiet; } ~In() { --tl_quiet; } };
Quiet::Quiet() { ++tl_quiet; }
Quiet::~Quiet() { --tl_quiet; }
bool active() { return S().on; }
bool exploring() { return S().explore; }
void explore_on(bool on) { S().explore = on; }
int points() { return static_cast<int>(S().npoints); }
int64_t monotonic() { return S().mono; }
void advance(int64_t ns) { S().mono += ns; }
int self() { return tl_id; }
static std::function<bool()> & idle() { static std::function<bool()> f; return f; }
void on_idle(std::function<bool()> f) { In in; idle() = f; }
long waits() { return tl_id < 0 ? 0 : S().t[tl_id].waits; }
void note(const std::string & s) { In in; if (S().c) S().c->note("  [" + S().t[S().cur].name + "] " + s); }

// ------------------------------------------------------------------------------------------- real functions
template <class F> static F real(const char * n) { void * p = dlsym(RTLD_NEXT, n); if (!p) { fprintf(stderr, "no %s\n", n); abort(); } return reinterpret_cast<F>(p); }
#define REAL(name) static auto real_##name = real<decltype(&name)>(#name)

static std::string where(const void * pc)
{
  Dl_info d;
  if (!pc || !dladdr(pc, &d) || !d.dli_sname) return "?";
  int st;
  char * p = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
  std::string r = p ? p : d.dli_sname;
  free(p);
  return r;
}
static std::string short_name(std::string s)
{
  // drop arguments and template arguments
  std::string r;
  int depth = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    char ch = s[i];
    if (ch == '<' && !(r.size() >= 8 && r.compare(r.size() - 8, 8, "operator") == 0)) ++depth;
    else if (ch == '>' && depth) --depth;
    else if (ch == '(' && !depth) { if (s.compare(i, 2, "()") == 0 && r.size() >= 8 && r.compare(r.size() - 8, 8, "operator") == 0) { r += "()"; ++i; continue; } break; }
    else if (!depth) r += ch;
  }
  return r;
}
static void dump(const char * why)
{
  auto & s = S();
  if (!s.c) return;
  s.c->note(why);
  for (int i = 0; i < s.n; ++i) if (s.t[i].st != St::DONE) {
    std::string l = "  thread " + s.t[i].name + " " + st_name(s.t[i].st);
    if (s.t[i].st == St::MUTEX && s.mu.count(s.t[i].obj) && s.mu[s.t[i].obj].owner >= 0) l += " held by " + s.t[s.mu[s.t[i].obj].owner].name;
    l += " in";
    int k = 0;
    for (auto it = s.t[i].stack.rbegin(); it != s.t[i].stack.rend() && k < 8; ++it) { auto w = short_name(where(*it)); if (w.rfind("std::", 0) != 0 && w != "?") { l += " < " + w; ++k; } }
    s.c->note(l);
  }
}
[[noreturn]] static void stuck(const char * why)
{
  dump(why);
  fflush(stdout);
  _exit(77);
}
// ------------------------------------------------------------------------------------------- places of a switch
// A preemption before an operation on an object which only one thread ever touches (or which all only read) leads
// to nothing new.  The places (call stacks) at which shared objects are touched are collected over all executions,
// and the exploration is repeated with the places known so far until no new ones turn up.
struct Table
{
  static constexpr size_t N = 1 << 16;
  std::atomic<uint64_t> t[N];
  std::atomic<long> n;
  std::atomic<int> most;   // places passed before the first preemption
  bool has(uint64_t k) const
  {
    for (size_t i = (k * 0x9e3779b97f4a7c15ull >> 20) & (N - 1);; i = (i + 1) & (N - 1)) { const uint64_t v = t[i].load(std::memory_order_relaxed); if (v == k) return true; if (!v) return false; }
  }
  void add(uint64_t k)
  {
    if (n > static_cast<long>(N / 2)) { fprintf(stderr, "too many places\n"); abort(); }
    for (size_t i = (k * 0x9e3779b97f4a7c15ull >> 20) & (N - 1);; i = (i + 1) & (N - 1)) {
      uint64_t v = t[i];
      if (v == k) return;
      if (!v && t[i].compare_exchange_strong(v, k)) { ++n; return; }
      if (v == k) return;
    }
  }
};
static Table * g_seen = nullptr;
static std::unordered_set<uint64_t> g_frozen;   // all places known
static std::unordered_set<uint64_t> g_pass;     // those looked at in this pass
static bool g_increment = false, g_explicit = true;
static bool g_reduce = false;
static int g_first = 0;
static uintptr_t module_base()
{
  static uintptr_t b = [] { Dl_info d; return dladdr(reinterpret_cast<void *>(&module_base), &d) ? reinterpret_cast<uintptr_t>(d.dli_fbase) : 0; }();
  return b;
}
void sites_on(bool on)
{
  g_reduce = on;
  if (on && !g_seen) g_seen = new (mmap(nullptr, sizeof(Table), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) Table;
}
// the places seen so far become the places of a switch; false: they already were
// the places seen so far become the places of a switch.  With one preemption a later pass only has to look at the
// new places, the others (and those named by the harness) were looked at in the passes before.
void sites_begin(bool increment) { g_increment = increment; g_first = 64; g_seen->most = 0; g_pass.clear(); g_explicit = true; }
void sites_freeze(bool first)
{
  std::unordered_set<uint64_t> fresh;
  for (auto & x : g_seen->t) if (const uint64_t v = x) if (g_frozen.insert(v).second) fresh.insert(v);
  const bool more = g_seen->most > g_first;   // too few places of the first preemption in the last pass
  if (more) g_first = g_seen->most * 5 / 4 + 4;
  if (first || !g_increment) g_pass = g_frozen;
  else if (more) for (auto v : fresh) g_pass.insert(v);
  else { g_pass = fresh; g_explicit = false; }
}
bool sites_grew() { return static_cast<size_t>(g_seen->n) > g_frozen.size() || g_seen->most > g_first; }
size_t sites_count() { return g_frozen.size(); }
void sites_save(const std::string & file) { if (FILE * f = fopen(file.c_str(), "w")) { fprintf(f, "%d %d\n", g_first, g_explicit); for (auto v : g_pass) fprintf(f, "%llx\n", static_cast<unsigned long long>(v)); fclose(f); } }
bool sites_load(const std::string & file)
{
  FILE * f = fopen(file.c_str(), "r");
  if (!f) return false;
  g_pass.clear();
  unsigned long long v;
  int e = 1;
  if (fscanf(f, "%d %d", &g_first, &e) != 2) g_first = 0;
  g_explicit = e;
  while (fscanf(f, "%llx", &v) == 1) g_pass.insert(v);
  fclose(f);
  return true;
}
static uint64_t stack_hash(const Thread & t) { return t.hash.empty() ? 7 : t.hash.back(); }
// notes an operation and says whether this is a place where a thread may be preempted
static bool touch(const volatile void * p, bool write)
{
  auto & s = S();
  if (!g_reduce || !s.explore) return true;
  const Thread & me = s.t[s.cur];
  uint64_t site = stack_hash(me);
  auto & o = s.objs[const_cast<const void *>(p)];
  bool fresh = true;
  for (auto x : o.sites) if (x == site) { fresh = false; break; }
  if (fresh) o.sites.push_back(site);
  const uint8_t b = static_cast<uint8_t>(1u << me.id);
  const bool changed = !(o.mask & b) || (write && !(o.wmask & b));
  o.mask |= b;
  if (write) o.wmask |= b;
  if (o.wmask && (o.mask & (o.mask - 1))) {
    if (!o.open) { o.open = true; for (auto x : o.sites) g_seen->add(x); }
    else if (fresh) g_seen->add(site);
  }
  (void)changed;
  return g_pass.count(site) > 0;
}
// ------------------------------------------------------------------------------------------- scheduling
static bool enabled(const Thread & t)
{
  auto & s = S();
  switch (t.st) {
    case St::READY: return true;
    case St::MUTEX: { auto it = s.mu.find(t.obj); return it == s.mu.end() || it->second.owner < 0 || it->second.owner == t.id; }
    case St::RDLOCK: { auto it = s.rw.find(t.obj); return it == s.rw.end() || it->second.writer < 0; }
    case St::WRLOCK: { auto it = s.rw.find(t.obj); return it == s.rw.end() || (it->second.writer < 0 && it->second.readers.empty()); }
    case St::COND: return t.signaled || t.expired;
    case St::JOIN: return s.t[t.join_of].st == St::DONE;
    case St::GUARD: return (*static_cast<const volatile uint16_t *>(t.obj) & 0xff00) == 0;
    default: return false;
  }
}
static void hand_over(int to)
{
  auto & s = S();
  int me = s.cur;
  if (to == me) return;
  s.cur = to;
  sem_post(&s.t[to].sem);
  if (s.t[me].st != St::DONE) while (sem_wait(&s.t[me].sem) != 0) {}
}
static int choose(int n) { auto & s = S(); return n > 1 && s.explore ? s.c->choose_cb(n) : 0; }
// picks the thread which goes on; the current thread's state is set
static void pick(bool preemptible, const char * what)
{
  auto & s = S();
  Thread & me = s.t[s.cur];
  if (++s.total > s.o.max_points) stuck("LIVELOCK: the threads go on without an end");
  if (s.c->pending_skip) s.explore = false;
  int cand[MAXT], k = 0;
  const bool can = enabled(me);
  if (can && !me.yielded) {
    if (!preemptible) return;
    for (int i = 0; i < s.n; ++i) if (i != me.id && s.t[i].st != St::DONE && enabled(s.t[i])) cand[k++] = i;
    if (!k) return;
    if (!s.explore || s.left <= 0) return;
    // a thread which yielded or waits for time goes on only after others did: still a candidate of a preemption
    const long at = s.npoints++;
    if (s.target >= 0 && g_seen) { int most = g_seen->most; while (most < at + 1 && !g_seen->most.compare_exchange_weak(most, static_cast<int>(at + 1))) {} }
    int v;
    if (s.target >= 0) {
      if (at < s.target) return;
      if (at + 1 < s.target_end) { v = choose(1 + k); if (!v) return; }
      else v = 1 + choose(k);
      s.target = -1;
    }
    else v = choose(1 + k);
    if (!v) return;
    --s.left;
    if (s.c->replay) s.c->note(mc::fmt("  -- %s is preempted at %s, %s goes on", me.name.c_str(), what, s.t[cand[v - 1]].name.c_str()));
    for (int i = 0; i < s.n; ++i) s.t[i].yielded = false;
    hand_over(cand[v - 1]);
    return;
  }
  while (true) {
    k = 0;
    for (int j = 1; j <= s.n; ++j) { int i = (s.cur + j) % s.n; if (s.t[i].st != St::DONE && enabled(s.t[i]) && !s.t[i].yielded) cand[k++] = i; }
    if (k) break;
    bool any = false;
    for (int i = 0; i < s.n; ++i) if (s.t[i].yielded && enabled(s.t[i])) { s.t[i].yielded = false; any = true; }
    if (any) { s.mono += 1000; continue; }
    // nobody can go on: time passes until a timed wait expires
    int best = -1;
    for (int i = 0; i < s.n; ++i) if (s.t[i].st == St::COND && s.t[i].timed && (best < 0 || s.t[i].deadline < s.t[best].deadline)) best = i;
    if (best < 0) stuck("DEADLOCK");
    if (s.t[best].deadline > s.mono) s.mono = s.t[best].deadline;
    s.t[best].expired = true;
    if (s.c->replay) s.c->note("  -- the wait of " + s.t[best].name + " times out");
  }
  int v = 0;
  if (!me.yielded) v = choose(k);   // the current thread waits: which one goes on is free
  const bool yielded = me.yielded;
  if (s.c->replay && cand[v] != s.cur) s.c->note(mc::fmt("  -- %s %s, %s goes on", me.name.c_str(), yielded ? "yields" : st_name(me.st), s.t[cand[v]].name.c_str()));
  if (cand[v] != s.cur) hand_over(cand[v]);
}
static void wait_until_enabled(const char * what, const void * obj, bool write = true)
{
  // the state of the current thread says what it waits for
  if (!enabled(S().t[S().cur])) ++S().t[S().cur].waits;
  pick(touch(obj, write), what);
  while (!enabled(S().t[S().cur])) { ++S().t[S().cur].waits; pick(false, what); }
}
static std::string chain(const std::vector<const void *> & st);
// somebody waits for a lock of the current thread, which does something slow
static std::function<void(int, const std::string &)> & held() { static std::function<void(int, const std::string &)> f; return f; }
void on_held(std::function<void(int, const std::string &)> f) { In in; held() = f; }
static void slow(const char * what)
{
  auto & s = S();
  if (!s.explore || !held()) return;
  for (int i = 0; i < s.n; ++i) {
    Thread & t = s.t[i];
    if (i == s.cur || enabled(t)) continue;
    bool mine = false;
    if (t.st == St::MUTEX) mine = s.mu[t.obj].owner == s.cur;
    else if (t.st == St::RDLOCK || t.st == St::WRLOCK) { auto & x = s.rw[t.obj]; mine = x.writer == s.cur; for (int r : x.readers) mine |= r == s.cur; }
    if (mine) held()(i, t.name + " waits for a lock of " + s.t[s.cur].name + " in " + chain(t.stack) + ", which " + what);
  }
}
void point(const char * what) { if (!live() || !S().explore) return; In in; slow((std::string("is in the callback ") + what).c_str()); pick(g_explicit || !g_reduce, what); }
void yield()
{
  if (!live()) return;
  if (!S().explore && tl_id == 0 && idle()) { idle()(); return; }
  In in;
  auto & s = S();
  slow("sleeps");
  s.t[s.cur].yielded = true;
  s.mono += 1000;
  pick(false, "yield");
  s.t[s.cur].yielded = false;
}
// ------------------------------------------------------------------------------------------- races
static bool stub_prefix(const std::string & n)
{
  for (auto p : {"rclcpp::", "rclcpp_lifecycle::", "realtime_tools::", "stub::", "pluginlib::", "pal_statistics::", "diagnostic_updater::", "mcrt::", "mc::", "rmh::", "cmh::", "libstatistics_collector::", "urdf::"}) if (n.find(p) == 0 || n.find(std::string(" ") + p) != std::string::npos) return true;
  return false;
}
static bool repo_prefix(const std::string & n)
{
  for (auto p : {"hardware_interface::", "controller_manager::", "controller_interface::", "joint_limits::", "transmission_interface::", "semantic_components::", "ros2_control::", "mock_components::"}) if (n.find(p) != std::string::npos) return true;
  return false;
}
// the function of the code under test which makes an access (empty: an access of a stand-in)
static std::string culprit(const std::vector<const void *> & st)
{
  for (auto it = st.rbegin(); it != st.rend(); ++it) {
    auto n = short_name(where(*it));
    if (stub_prefix(n)) return "";
    if (repo_prefix(n)) return n;
  }
  return "";
}
static std::string entry(const std::vector<const void *> & st)  // outermost function of the code under test
{
  for (auto p : st) { auto n = short_name(where(p)); if (repo_prefix(n)) return n.substr(n.rfind(':') + 1); }
  return "";
}
static const void * frame(const Thread & t)  // innermost function outside std
{
  return t.stack.empty() ? nullptr : t.stack.back();
}
static std::string chain(const std::vector<const void *> & st)
{
  std::string r;
  int k = 0;
  for (auto it = st.rbegin(); it != st.rend() && k < 6; ++it) { auto n = short_name(where(*it)); if (n == "?" || n.rfind("std::", 0) == 0) continue; r += (k++ ? " < " : "") + n; }
  return r;
}
static std::unordered_map<u_int64_t, std::vector<const void *>> g_stacks;   // saved stacks by hash
static u_int64_t save_stack(const Thread & t)
{
  const uint64_t h = stack_hash(t);
  static uint64_t last = 0;
  if (h == last) return h;
  last = h;
  auto & v = g_stacks[h];
  if (v.empty()) v = t.stack;
  return h;
}
static void report(const char * kind, const Thread & me, bool write, const std::vector<const void *> & other, int otid, bool owrite)
{
  auto & s = S();
  std::string a = culprit(me.stack), b = culprit(other);
  if (a.empty() || b.empty()) return;
  std::string x = s.o.scope.empty() ? a : entry(me.stack), y = s.o.scope.empty() ? b : entry(other);
  if (y < x) std::swap(x, y);
  std::string key = std::string(kind) + ":" + (s.o.scope.empty() ? "" : s.o.scope + ":") + x + "|" + y;
  for (auto & ch : key) if (ch == ' ') ch = '_';
  if (!s.reported.insert(key).second) return;
  s.c->record(key, std::string(kind) + ": " + (write ? "write" : "read") + " by " + me.name + " (" + chain(me.stack) + ") and " + (owrite ? "write" : "read") + " by " + s.t[otid].name + " (" + chain(other) + ") are not ordered");
}
static void access(const void * p, size_t n, bool write)
{
  auto & s = S();
  Thread & me = s.t[tl_id];
  uintptr_t a = reinterpret_cast<uintptr_t>(p), e = a + n;
  for (int i = 0; i < s.n; ++i) if (a >= s.t[i].lo && a < s.t[i].hi) return;
  for (uintptr_t g = a & ~uintptr_t(7); g < e; g += 8) {
    uint8_t mask = 0xff;
    if (g < a) mask &= static_cast<uint8_t>(0xff << (a - g));
    if (g + 8 > e) mask &= static_cast<uint8_t>(0xff >> (g + 8 - e));
    Cell & c = s.shadow[g];
    if (c.freed) { report("use-after-free", me, write, g_stacks[reinterpret_cast<u_int64_t>(c.wpc[0])], c.wtid, true); continue; }
    const u_int64_t st = save_stack(me);
    if (c.wtid >= 0 && c.wtid != me.id && (c.wmask & mask) && c.wclk > me.vc.c[c.wtid]) report("race", me, write, g_stacks[reinterpret_cast<u_int64_t>(c.wpc[0])], c.wtid, true);
    if (write) {
      for (int i = 0; i < s.n; ++i) if (i != me.id && (c.rmask[i] & mask) && c.rclk[i] > me.vc.c[i]) report("race", me, true, g_stacks[reinterpret_cast<u_int64_t>(c.rpc[i])], i, false);
      c.wtid = static_cast<int8_t>(me.id);
      c.wclk = me.vc.c[me.id];
      c.wmask = mask;
      c.wpc[0] = reinterpret_cast<const void *>(st);
    } else {
      c.rclk[me.id] = me.vc.c[me.id];
      c.rmask[me.id] = mask;
      c.rpc[me.id] = reinterpret_cast<const void *>(st);
    }
  }
}
static inline void mem(const void * p, size_t n, bool write)
{
  if (tl_quiet || tl_id < 0) return;
  auto & s = S();
  if (!s.on || !s.o.races || !s.explore) return;
  In in;
  access(p, n, write);
}
static void release(VC & v) { auto & me = S().t[tl_id]; v.join(me.vc); ++me.vc.c[me.id]; }
static void acquire(const VC & v) { S().t[tl_id].vc.join(v); }

// ------------------------------------------------------------------------------------------- life cycle
static void stack_of(Thread & t)
{
  pthread_attr_t at;
  void * a;
  size_t sz;
  if (pthread_getattr_np(pthread_self(), &at) == 0) {
    pthread_attr_getstack(&at, &a, &sz);
    t.lo = reinterpret_cast<uintptr_t>(a);
    t.hi = t.lo + sz;
    pthread_attr_destroy(&at);
  }
}
void begin(mc::Ctx & c, const Options & o)
{
  auto & s = S();
  In in;
  if (s.on) { fprintf(stderr, "nested begin\n"); abort(); }
  s.c = &c;
  s.o = o;
  s.n = 1;
  s.cur = 0;
  s.left = o.preemptions;
  s.timeouts = o.timeouts;
  s.target = -1;
  s.npoints = s.total = 0;
  s.mono = 1000000000LL;
  s.mu.clear(); s.rw.clear(); s.sync.clear(); s.objs.clear(); s.shadow.clear(); s.reported.clear();
  for (auto & t : s.t) { t.stack.clear(); t.hash.clear(); t.vc = VC(); t.st = St::NONE; t.yielded = t.expired = t.signaled = t.joined = t.detached = false; t.name.clear(); t.lo = t.hi = 0; t.waits = 0; }
  Thread & m = s.t[0];
  m.id = 0;
  m.name = "main";
  m.st = St::READY;
  m.vc.c[0] = 1;
  m.real = pthread_self();
  sem_init(&m.sem, 0, 0);
  stack_of(m);
  tl_id = 0;
  s.explore = false;
  s.on = true;
}
void end()
{
  auto & s = S();
  In in;
  s.explore = false;
  // whoever is still there has to end
  while (true) {
    bool more = false;
    for (int i = 1; i < s.n; ++i) if (s.t[i].st != St::DONE) more = true;
    if (!more) break;
    s.t[0].yielded = true;
    bool any = false;
    for (int i = 1; i < s.n; ++i) if (s.t[i].st != St::DONE && enabled(s.t[i])) any = true;
    if (!any) { dump("a thread is left behind"); s.c->record("thread-left", "a thread is left behind"); _exit(78); }
    pick(false, "end");
    s.t[0].yielded = false;
  }
  s.on = false;
  tl_id = -1;
  for (auto & q : s.quarantine) free(q.first);
  s.quarantine.clear();
}
struct Start { int id; };
static void * tramp(void * a)
{
  int id = static_cast<int>(reinterpret_cast<intptr_t>(a));
  auto & s = S();
  Thread & t = s.t[id];
  {
    In in;
    while (sem_wait(&t.sem) != 0) {}
    tl_id = id;
    stack_of(t);
  }
  void * r = t.fn(t.arg);
  In in;
  t.ret = r;
  t.st = St::DONE;
  release(s.sync[&t]);
  pick(false, "end of thread");
  tl_id = -1;
  return r;
}
static int spawn(void * (*fn)(void *), void * arg, const std::string & name)
{
  auto & s = S();
  In in;
  if (s.n >= MAXT) { fprintf(stderr, "too many threads\n"); abort(); }
  Thread & t = s.t[s.n];
  t.id = s.n;
  t.name = name;
  t.fn = fn;
  t.arg = arg;
  t.st = St::READY;
  t.vc = VC();
  t.vc.join(s.t[tl_id].vc);
  t.vc.c[t.id] = 1;
  ++s.t[tl_id].vc.c[tl_id];
  sem_init(&t.sem, 0, 0);
  ++s.n;
  static auto rc = real<int (*)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *)>("pthread_create");
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  if (rc(&t.real, &at, tramp, reinterpret_cast<void *>(static_cast<intptr_t>(t.id)))) { fprintf(stderr, "pthread_create failed\n"); abort(); }
  pthread_attr_destroy(&at);
  return t.id;
}
static void join_thread(int id)
{
  auto & s = S();
  In in;
  Thread & me = s.t[s.cur];
  if (s.t[id].st != St::DONE) {
    me.st = St::JOIN;
    me.join_of = id;
    while (!enabled(me)) pick(false, "join");
    me.st = St::READY;
  }
  acquire(s.sync[&s.t[id]]);
  static auto rj = real<int (*)(pthread_t, void **)>("pthread_join");
  rj(s.t[id].real, nullptr);
  s.t[id].joined = true;
}
void parallel(const std::vector<std::pair<std::string, std::function<void()>>> & bodies)
{
  auto & s = S();
  std::vector<int> ids;
  struct Body { const std::function<void()> * f; };
  std::vector<Body> bs;
  for (auto & b : bodies) bs.push_back({&b.second});
  const int first = g_reduce ? g_first : s.o.first_points;
  if (first > 0 && s.o.preemptions > 0) {
    // the first preemption is within one of the groups of places
    constexpr int GROUP = 8;
    const int v = s.c->choose_cb((first + GROUP - 1) / GROUP + 1);
    s.target = v == 0 ? 1 << 30 : (v - 1) * GROUP;
    s.target_end = s.target + GROUP;
    if (s.c->replay) s.c->note(v == 0 ? "no preemption" : mc::fmt("the first preemption is at one of the places %d to %d", s.target, s.target_end - 1));
  } else s.target = -1;
  for (size_t i = 0; i < bodies.size(); ++i) {
    ids.push_back(spawn([](void * a) -> void * {
      try { (*static_cast<Body *>(a)->f)(); } catch (mc::Abort &) {} catch (mc::Skip &) {}
      return nullptr;
    }, &bs[i], bodies[i].first));
  }
  s.explore = true;
  for (int i : ids) join_thread(i);
  s.explore = false;
}
}  // namespace mcrt
using namespace mcrt;  // NOLINT

// ------------------------------------------------------------------------------------------- memory
extern "C" void * __libc_malloc(size_t);
static void * alloc(size_t n)
{
  void * p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void unalloc(void * p) noexcept
{
  if (!p) return;
  auto & s = S();
  if (tl_id < 0 || tl_quiet || !s.on || !s.explore || !s.o.races) { if (s.on && tl_id >= 0 && !s.shadow.empty()) { In in; size_t n = malloc_usable_size(p); auto a = reinterpret_cast<uintptr_t>(p); for (uintptr_t g = a & ~uintptr_t(7); g < a + n; g += 8) s.shadow.erase(g); } free(p); return; }
  In in;
  size_t n = malloc_usable_size(p);
  auto a = reinterpret_cast<uintptr_t>(p);
  Thread & me = s.t[tl_id];
  const u_int64_t st = save_stack(me);
  for (uintptr_t g = a & ~uintptr_t(7); g < a + n; g += 8) {
    if (s.shadow.find(g)) access(reinterpret_cast<void *>(g), 8, true);
    Cell & c = s.shadow[g];
    c.freed = true;
    c.wtid = static_cast<int8_t>(me.id);
    c.wpc[0] = reinterpret_cast<const void *>(st);
  }
  s.quarantine.push_back({p, n});
}
void * operator new(size_t n) { return alloc(n); }
void * operator new[](size_t n) { return alloc(n); }
void operator delete(void * p) noexcept { unalloc(p); }
void operator delete[](void * p) noexcept { unalloc(p); }
void operator delete(void * p, size_t) noexcept { unalloc(p); }
void operator delete[](void * p, size_t) noexcept { unalloc(p); }

// ------------------------------------------------------------------------------------------- pthread
extern "C" {
static bool recursive(pthread_mutex_t * m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static int lock_mutex(pthread_mutex_t * m)
{
  auto & s = S();
  Thread & me = s.t[s.cur];
  me.st = St::MUTEX;
  me.obj = m;
  { auto & x = s.mu[m]; if (x.owner == me.id && !recursive(m)) { stuck("DEADLOCK: a thread locks a mutex it holds"); } }
  wait_until_enabled("lock", m);
  me.st = St::READY;
  auto & x = s.mu[m];
  x.owner = me.id;
  ++x.count;
  acquire(x.vc);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t * m)
{
  static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
  if (!live()) return r(m);
  if (tl_quiet) return 0;
  In in;
  return lock_mutex(m);
}
int pthread_mutex_trylock(pthread_mutex_t * m)
{
  static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
  if (!live()) return r(m);
  if (tl_quiet) return 0;
  In in;
  pick(touch(m, true), "try_lock");
  auto & s = S();
  auto & x = s.mu[m];
  if (x.owner >= 0 && !(x.owner == s.cur && recursive(m))) return EBUSY;
  x.owner = s.cur;
  ++x.count;
  acquire(x.vc);
  return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec *) { return pthread_mutex_lock(m); }
static void unlock_mutex(pthread_mutex_t * m)
{
  auto & s = S();
  auto & x = s.mu[m];
  if (x.owner != s.cur) { s.c->record("foreign-unlock", "a thread unlocks a mutex it does not hold"); return; }
  if (--x.count == 0) { release(x.vc); x.owner = -1; }
}
int pthread_mutex_unlock(pthread_mutex_t * m)
{
  static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
  if (!live()) return r(m);
  if (tl_quiet) return 0;
  In in;
  if (S().o.unlock_points) pick(touch(m, true), "unlock");
  unlock_mutex(m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t * m)
{
  static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_destroy");
  if (live()) { In in; S().mu.erase(m); return 0; }
  return r(m);
}
static bool rw_held(RW & x, int id) { for (int r : x.readers) if (r == id) return true; return false; }
int pthread_rwlock_rdlock(pthread_rwlock_t * m)
{
  static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock");
  if (!live()) return r(m);
  if (tl_quiet) return 0;
  In in;
  auto & s = S();
  Thread & me = s.t[s.cur];
  if (s.rw[m].writer == me.id) return EDEADLK;
  me.st = St::RDLOCK;
  me.obj = m;
  wait_until_enabled("shared lock", m, false);
  me.st = St::READY;
  s.rw[m].readers.push_back(me.id);
  acquire(s.rw[m].w);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t * m)
{
  static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_tryrdlock");
  if (!live()) return r(m);
  if (tl_quiet) return 0;
  In in;
  auto & s = S();
  pick(touch(m, false), "try shared lock");
  if (s.rw[m].writer >= 0) return EBUSY;
  s.rw[m].readers.push_back(s.cur);
  acquire(s.rw[m].w);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t * m)
{
  static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock");
  if (!live()) return r(m);
  if (tl_quiet) return 0;
  In in;
  auto & s = S();
  Thread & me = s.t[s.cur];
  if (s.rw[m].writer == me.id) return EDEADLK;
  if (rw_held(s.rw[m], me.id)) stuck("DEADLOCK: a thread locks exclusively what it holds shared");
  me.st = St::WRLOCK;
  me.obj = m;
  wait_until_enabled("exclusive lock", m);
  me.st = St::READY;
  s.rw[m].writer = me.id;
  acquire(s.rw[m].w);
  acquire(s.rw[m].r);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t * m)
{
  static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_trywrlock");
  if (!live()) return r(m);
  if (tl_quiet) return 0;
  In in;
  auto & s = S();
  pick(touch(m, true), "try exclusive lock");
  if (s.rw[m].writer >= 0 || !s.rw[m].readers.empty()) return EBUSY;
  s.rw[m].writer = s.cur;
  acquire(s.rw[m].w);
  acquire(s.rw[m].r);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t * m)
{
  static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
  if (!live()) return r(m);
  if (tl_quiet) return 0;
  In in;
  auto & s = S();
  if (s.o.unlock_points) pick(touch(m, true), "unlock");
  auto & x = s.rw[m];
  if (x.writer == s.cur) { release(x.w); x.writer = -1; return 0; }
  for (size_t i = 0; i < x.readers.size(); ++i) if (x.readers[i] == s.cur) { x.readers.erase(x.readers.begin() + static_cast<long>(i)); release(x.r); return 0; }
  s.c->record("foreign-unlock", "a thread unlocks a shared mutex it does not hold");
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t * m)
{
  static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_destroy");
  if (live()) { In in; S().rw.erase(m); return 0; }
  return r(m);
}
static int cond(pthread_cond_t * cv, pthread_mutex_t * m, bool timed, int64_t deadline)
{
  auto & s = S();
  Thread & me = s.t[s.cur];
  unlock_mutex(m);
  slow("waits for a condition");
  me.st = St::COND;
  me.obj = cv;
  me.signaled = me.expired = false;
  me.timed = timed;
  me.deadline = deadline;
  if (timed && s.explore && s.timeouts > 0 && s.c->choose_cb(2) == 1) {
    --s.timeouts;
    // the time is over whenever this thread is scheduled
    me.expired = true;
    if (deadline > s.mono) s.mono = deadline;
    if (s.c->replay) s.c->note("  -- the wait of " + me.name + " times out");
    me.yielded = true;   // after the others had their chance
    pick(false, "time out");
    me.yielded = false;
  }
  while (!enabled(me)) pick(false, "wait");
  const bool exp = me.expired && !me.signaled;
  me.st = St::READY;
  lock_mutex(m);
  return exp ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t * cv, pthread_mutex_t * m)
{
  static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
  if (!live()) return r(cv, m);
  In in;
  return cond(cv, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t * cv, pthread_mutex_t * m, const struct timespec * ts)
{
  static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait");
  if (!live()) return r(cv, m, ts);
  In in;
  return cond(cv, m, true, ts->tv_sec * 1000000000LL + ts->tv_nsec);
}
int pthread_cond_clockwait(pthread_cond_t * cv, pthread_mutex_t * m, clockid_t c, const struct timespec * ts)
{
  static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait");
  if (!live()) return r(cv, m, c, ts);
  if (!S().explore && tl_id == 0 && idle()) { pthread_mutex_unlock(m); idle()(); pthread_mutex_lock(m); return 0; }
  In in;
  return cond(cv, m, true, ts->tv_sec * 1000000000LL + ts->tv_nsec);
}
static void wake(pthread_cond_t * cv, bool all)
{
  auto & s = S();
  pick(touch(cv, true), "notify");
  int cand[MAXT], k = 0;
  for (int i = 0; i < s.n; ++i) if (s.t[i].st == St::COND && s.t[i].obj == cv && !s.t[i].signaled) cand[k++] = i;
  if (!k) return;
  if (all) { for (int i = 0; i < k; ++i) s.t[cand[i]].signaled = true; return; }
  s.t[cand[choose(k)]].signaled = true;
}
int pthread_cond_signal(pthread_cond_t * cv)
{
  static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
  if (!live()) return r(cv);
  In in;
  wake(cv, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t * cv)
{
  static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
  if (!live()) return r(cv);
  In in;
  wake(cv, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t * cv)
{
  static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_destroy");
  if (live()) return 0;
  return r(cv);
}
int pthread_create(pthread_t * t, const pthread_attr_t * a, void * (*fn)(void *), void * arg)
{
  static auto r = real<int (*)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *)>("pthread_create");
  if (!live()) return r(t, a, fn, arg);
  int id = spawn(fn, arg, mc::fmt("worker%d", S().n));
  *t = S().t[id].real;
  point("thread start");
  return 0;
}
int pthread_join(pthread_t t, void ** ret)
{
  static auto r = real<int (*)(pthread_t, void **)>("pthread_join");
  if (!live()) return r(t, ret);
  auto & s = S();
  for (int i = 1; i < s.n; ++i) if (!s.t[i].joined && pthread_equal(s.t[i].real, t)) { join_thread(i); if (ret) *ret = s.t[i].ret; return 0; }
  return ESRCH;
}
int sched_yield() noexcept
{
  static auto r = real<int (*)()>("sched_yield");
  if (!live()) return r();
  mcrt::yield();
  return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec * t, struct timespec * rem)
{
  static auto r = real<int (*)(clockid_t, int, const struct timespec *, struct timespec *)>("clock_nanosleep");
  if (!live()) return r(c, f, t, rem);
  int64_t ns = t->tv_sec * 1000000000LL + t->tv_nsec;
  if (f & TIMER_ABSTIME) { if (ns > S().mono && c == CLOCK_MONOTONIC) S().mono = ns; }
  else S().mono += ns;
  mcrt::yield();
  return 0;
}
int nanosleep(const struct timespec * t, struct timespec * rem)
{
  static auto r = real<int (*)(const struct timespec *, struct timespec *)>("nanosleep");
  if (!live()) return r(t, rem);
  S().mono += t->tv_sec * 1000000000LL + t->tv_nsec;
  mcrt::yield();
  return 0;
}
int clock_gettime(clockid_t c, struct timespec * ts) noexcept
{
  static auto r = real<int (*)(clockid_t, struct timespec *)>("clock_gettime");
  if (!live() || c != CLOCK_MONOTONIC) return r(c, ts);
  S().mono += 1000;
  ts->tv_sec = S().mono / 1000000000LL;
  ts->tv_nsec = S().mono % 1000000000LL;
  return 0;
}
// static initialisation
int __cxa_guard_acquire(long long int * g)
{
  auto * b = reinterpret_cast<volatile uint8_t *>(g);
  if (b[0]) { if (live() && !tl_quiet) { In in; acquire(S().sync[g]); } return 0; }
  if (!live() || tl_quiet) { b[1] = 1; return 1; }
  In in;
  auto & s = S();
  while (b[1]) {
    Thread & me = s.t[s.cur];
    me.st = St::GUARD;
    me.obj = g;
    pick(false, "initialisation");
    me.st = St::READY;
  }
  if (b[0]) { acquire(s.sync[g]); return 0; }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long long int * g)
{
  auto * b = reinterpret_cast<volatile uint8_t *>(g);
  b[1] = 0;
  b[0] = 1;
  if (live() && !tl_quiet) { In in; release(S().sync[g]); }
}
void __cxa_guard_abort(long long int * g) { reinterpret_cast<volatile uint8_t *>(g)[1] = 0; }

// ------------------------------------------------------------------------------------------- instrumentation
void __tsan_init() {}
void __tsan_func_entry(void * pc)
{
  if (tl_id < 0 || tl_quiet || !S().on) return;
  // the return address of the instrumented function's entry lies in the function itself
  (void)pc;
  auto & t = S().t[tl_id];
  const void * at = __builtin_return_address(0);
  t.stack.push_back(at);
  t.hash.push_back(mc::mix(t.hash.empty() ? 7 : t.hash.back(), reinterpret_cast<uintptr_t>(at) - module_base()));
}
void __tsan_func_exit()
{
  if (tl_id < 0 || tl_quiet || !S().on) return;
  auto & t = S().t[tl_id];
  if (!t.stack.empty()) { t.stack.pop_back(); t.hash.pop_back(); }
}
#define RDWR(n) \
  void __tsan_read##n(void * p) { mem(p, n, false); } \
  void __tsan_write##n(void * p) { mem(p, n, true); } \
  void __tsan_unaligned_read##n(void * p) { mem(p, n, false); } \
  void __tsan_unaligned_write##n(void * p) { mem(p, n, true); } \
  void __tsan_volatile_read##n(void * p) { mem(p, n, false); } \
  void __tsan_volatile_write##n(void * p) { mem(p, n, true); }
RDWR(1) RDWR(2) RDWR(4) RDWR(8) RDWR(16)
void __tsan_read_range(void * p, size_t n) { mem(p, n, false); }
void __tsan_write_range(void * p, size_t n) { mem(p, n, true); }
void __tsan_vptr_update(void ** p, void *) { mem(p, 8, true); }
void __tsan_vptr_read(void ** p) { mem(p, 8, false); }
}
static void at_point(const volatile void * a, bool write, const char * what, bool counting = false)
{
  if (tl_quiet || tl_id < 0) return;
  auto & s = S();
  if (!s.on || !s.explore || !s.o.atomic_points || counting) return;
  In in;
  pick(touch(a, write), what);
}
static void at_sync(const volatile void * p, int mo, bool ld, bool st)
{
  if (tl_quiet || tl_id < 0) return;
  auto & s = S();
  if (!s.on || !s.explore) return;
  In in;
  auto & v = s.sync[const_cast<const void *>(p)];
  if (ld && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME)) acquire(v);
  if (st && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) {
    if (!ld) { Thread & me = s.t[tl_id]; v = me.vc; ++me.vc.c[me.id]; } else release(v);
  } else if (st && !ld) v = VC();
}
// counters of shared pointers (32 bit additions) are not places to switch
#define ATOMIC(bits, T) \
  extern "C" T __tsan_atomic##bits##_load(const volatile T * a, int mo) { at_point(a, false, "atomic load"); at_sync(a, mo, true, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  extern "C" void __tsan_atomic##bits##_store(volatile T * a, T v, int mo) { at_point(a, true, "atomic store"); at_sync(a, mo, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  extern "C" T __tsan_atomic##bits##_exchange(volatile T * a, T v, int mo) { at_point(a, true, "atomic exchange"); at_sync(a, mo, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  extern "C" T __tsan_atomic##bits##_fetch_add(volatile T * a, T v, int mo) { at_point(a, true, "atomic add", bits == 32); at_sync(a, mo, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T * a, T v, int mo) { at_point(a, true, "atomic sub", bits == 32); at_sync(a, mo, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  extern "C" T __tsan_atomic##bits##_fetch_and(volatile T * a, T v, int mo) { at_point(a, true, "atomic and"); at_sync(a, mo, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  extern "C" T __tsan_atomic##bits##_fetch_or(volatile T * a, T v, int mo) { at_point(a, true, "atomic or"); at_sync(a, mo, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T * a, T v, int mo) { at_point(a, true, "atomic xor"); at_sync(a, mo, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T * a, T * c, T v, int mo, int) { at_point(a, true, "compare and exchange"); at_sync(a, mo, true, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T * a, T * c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
extern "C" void __tsan_atomic_signal_fence(int) {}
