// Exhaustive bounded exploration of executions of real code.
//
// A scenario is a function of a Ctx; every nondeterministic decision is taken through Ctx::choose(n).
// explore() runs the scenario once for every possible sequence of answers (depth-first over the tree of
// choices, optionally cut where an already explored state is reached again), in parallel over forked
// workers.  A worker that dies (signal, abort, sanitizer) or stops making progress is itself a finding:
// the parent knows the choice sequence it was executing.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc
{
using u64 = uint64_t;
inline u64 mix(u64 h, u64 v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
inline u64 hash_str(const std::string & s)
{
  u64 h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h, s.size());
}
inline std::string fmt(const char * f, ...)
{
  char b[4096];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
struct Abort {};   // ends the current execution
struct Skip {};    // this execution belongs to another worker / was explored already

struct Finding
{
  std::string key, msg, trace;
  std::vector<int> choices;
};
struct Stats
{
  u64 executions = 0, transitions = 0, states = 0;
  std::unordered_set<u64> outcomes;   // distinct non-trivial outcomes
  std::unordered_set<u64> seen;       // states
  std::vector<std::string> samples;
  std::map<std::string, Finding> findings;
  bool capped = false;
};
struct Shared
{
  volatile u64 beat;
  volatile int n;
  volatile int done;
  unsigned char c[8192];
};

class Ctx
{
public:
  std::vector<int> prefix, taken, arity;
  std::vector<std::string> log;
  Stats * st = nullptr;
  Shared * sh = nullptr;
  int split = 0, workers = 1, me = 0;
  bool owner = true, replay = false, failed = false;
  std::unordered_map<u64, int> * cache = nullptr;  // state -> largest remaining depth explored
  u64 tree = 0;
  // keys (or prefixes ending in *) which are violations of the property of this check; empty: all
  const std::vector<std::string> * own = nullptr;
  bool owns(const std::string & key) const
  {
    if (!own || own->empty() || key == "harness-divergence") return true;
    for (auto & o : *own) {
      if (o == key) return true;
      if (!o.empty() && o[0] == '*' && key.size() >= o.size() - 1 && key.compare(key.size() - (o.size() - 1), std::string::npos, o, 1) == 0) return true;
      if (!o.empty() && o.back() == '*' && key.compare(0, o.size() - 1, o, 0, o.size() - 1) == 0) return true;
    }
    return false;
  }

  // For choices made inside callbacks of the code under test, which must not see our exceptions: leaving the
  // execution is postponed to the next choice made by the harness.
  bool pending_skip = false, in_callback = false;
  int choose_cb(int n, const char * what = nullptr)
  {
    in_callback = true;
    int v = choose(n, what);
    in_callback = false;
    return v;
  }
  int choose(int n, const char * what = nullptr)
  {
    size_t i = taken.size();
    if (pending_skip && !in_callback) throw Skip();
    if (pending_skip) return 0;
    if (workers > 1 && static_cast<int>(i) == split) claim();
    if (pending_skip) return 0;
    int v = i < prefix.size() ? prefix[i] : 0;
    if (n <= 0 || v >= n) {
      if (replay) { fprintf(stderr, "replay diverged at choice %zu (%d of %d)\n", i, v, n); _exit(3); }
      failed = true;
      record("harness-divergence", fmt("choice %zu: %d not below %d", i, v, n));
      if (in_callback) return 0;
      throw Abort();
    }
    taken.push_back(v);
    arity.push_back(n);
    if (sh && i + 1 < sizeof(sh->c)) { sh->c[i] = static_cast<unsigned char>(v); sh->n = static_cast<int>(i + 1); }
    if (what) note(fmt("%s=%d", what, v));
    return v;
  }
  template <class T>
  const T & pick(const std::vector<T> & v, const char * what = nullptr) { return v[choose(static_cast<int>(v.size()), what)]; }
  bool flip(const char * what = nullptr) { return choose(2, what) == 1; }
  void note(const std::string & s) { log.push_back(s); if (replay) { printf("  %s\n", s.c_str()); fflush(stdout); } }
  void step() { if (st && owner) ++st->transitions; else ++pend_steps; }
  // records a violation; the execution continues (safe to call from inside callbacks of the code under test)
  void record(const std::string & key, const std::string & msg)
  {
    if (pending_skip) return;
    if (!owns(key)) { note("(deviation outside this property: " + key + ": " + msg + ")"); return; }
    failed = true;
    if (replay) printf("  !! %s: %s\n", key.c_str(), msg.c_str());
    if (!st || st->findings.count(key)) return;
    Finding f{key, msg, trace(), taken};
    st->findings.emplace(key, f);
  }
  // records and leaves the execution; only from harness level
  [[noreturn]] void fail(const std::string & key, const std::string & msg) { record(key, msg); throw Abort(); }
  void check(bool ok, const std::string & key, const std::string & msg) { if (!ok) fail(key, msg); }
  // a reached (non-trivial) outcome
  void outcome(const std::string & s) { outcome_h(hash_str(s)); }
  void outcome_h(u64 h) { if (st && owner) st->outcomes.insert(h); else pend.push_back(h); }
  std::vector<u64> pend;
  u64 pend_steps = 0;
  void flush() { if (st && owner) { for (u64 h : pend) st->outcomes.insert(h); st->transitions += pend_steps; } pend.clear(); pend_steps = 0; }
  // Declares the current state (everything the future can depend on, canonical form).  Cuts the execution when
  // the same state was already explored from at least as much remaining depth.
  void state(const std::string & s, int remaining) { state_h(hash_str(s), remaining); }
  void state_h(u64 h, int remaining)
  {
    if (pending_skip) throw Skip();
    if (st && owner) st->seen.insert(h);
    if (!cache || replay) return;
    if (taken.size() < prefix.size()) return;                     // still replaying the prefix
    if (static_cast<int>(taken.size()) <= split && workers > 1) return;  // above the split everybody walks
    auto it = cache->find(h);
    if (it != cache->end() && it->second >= remaining) throw Skip();
    (*cache)[h] = remaining;
  }
  std::string trace() const
  {
    std::string r;
    for (auto & l : log) { r += l; r += "\n"; }
    return r;
  }
  void claim()
  {
    u64 h = 0x1234567;
    for (size_t i = 0; i < taken.size() && static_cast<int>(i) < split; ++i) h = mix(h, static_cast<u64>(taken[i]) + 1);
    owner = (h >> 7) % static_cast<u64>(workers) == static_cast<u64>(me);
    if (!owner && static_cast<int>(taken.size()) >= split) {
      if (in_callback) { pending_skip = true; return; }
      throw Skip();
    }
    flush();
  }
};
using Scenario = std::function<void(Ctx &)>;

class Check
{
public:
  std::string prop, tier = "quick", evidence, level = "model_checking", replay_name;
  std::string replay_scn, root;
  std::vector<int> replay_choices;
  u64 seed = 1;
  Stats total;
  u64 validated = 0;
  bool exhaustive = true;
  int jobs = 8;
  std::string only;
  std::vector<std::string> own;   // see Ctx::own
  std::vector<std::string> assumptions, scopes;
  std::string rule;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  std::map<std::string, std::string> known;  // key -> description
  u64 n_known = 0;

  Check(int argc, char ** argv, const std::string & property) : prop(property)
  {
    const char * t = getenv("VERIF_TIER");
    if (t && std::string(t) == "thorough") tier = "thorough";
    if (const char * s = getenv("VERIF_SEED")) seed = strtoull(s, nullptr, 10);
    if (const char * s = getenv("VERIF_ROOT")) root = s; else root = "/verif";
    if (const char * s = getenv("VERIF_JOBS")) jobs = atoi(s);
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      if (a == "--thorough") tier = "thorough";
      if (a == "--only" && i + 1 < argc) only = argv[++i];
      if (a == "--replay" && i + 1 < argc) load_replay(argv[++i]);
    }
    evidence = root + "/evidence/" + prop + ".json";
    std::ifstream kf(root + "/known-findings.txt");
    std::string l;
    while (std::getline(kf, l)) {
      // finding: property=P05 key=<key> <text>
      if (l.rfind("finding:", 0) != 0) continue;
      std::istringstream is(l.substr(8));
      std::string p, k, rest;
      is >> p >> k;
      std::getline(is, rest);
      if (p == "property=" + prop && k.rfind("key=", 0) == 0) known[k.substr(4)] = rest;
    }
  }
  bool thorough() const { return tier == "thorough"; }
  int q(int quick, int deep) const { return thorough() ? deep : quick; }

  void load_replay(const std::string & f)
  {
    std::ifstream is(f);
    std::string l;
    while (std::getline(is, l)) {
      if (l.rfind("scenario: ", 0) == 0) replay_scn = l.substr(10);
      if (l.rfind("choices:", 0) == 0) { std::istringstream s(l.substr(8)); int v; while (s >> v) replay_choices.push_back(v); }
    }
  }
  struct Opt
  {
    int split = 3;         // depth at which the tree is divided among workers
    bool caching = false;  // use Ctx::state for pruning
    double cap_s = 600;    // stop after that many seconds (reported as not exhaustive)
    double hang_s = 120;   // no finished execution for that long is reported
    int jobs = 0;
    std::string what;      // description for the evidence
  };
  // one execution in this process
  void run_one(const Scenario & s, Ctx & c)
  {
    try {
      s(c);
    } catch (Abort &) {
    }
    if (c.pending_skip) throw Skip();
    if (c.workers > 1 && static_cast<int>(c.taken.size()) <= c.split) c.claim();
  }
  void explore(const std::string & name, const Scenario & s) { explore(name, s, Opt()); }
  void explore(const std::string & name, const Scenario & s, Opt o)
  {
    if (!only.empty() && name.find(only) == std::string::npos) return;
    if (!replay_scn.empty()) {
      if (name == replay_scn) {
        Ctx c;
        Stats st;
        c.st = &st;
        c.replay = true;
        c.own = &own;
        c.prefix = replay_choices;
        printf("replaying %s\n", name.c_str());
        try { run_one(s, c); } catch (Skip &) {}
        printf("replay finished: %s\n", c.failed ? "VIOLATED" : "held");
        fflush(stdout);
        _exit(c.failed ? 1 : 0);
      }
      return;
    }
    auto started = std::chrono::steady_clock::now();
    int J = o.jobs ? o.jobs : jobs;
    auto * sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared) * J, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<pid_t> pid(J);
    std::vector<FILE *> out(J);
    fflush(stdout);
    fflush(stderr);
    for (int w = 0; w < J; ++w) {
      out[w] = tmpfile();
      pid[w] = fork();
      if (pid[w] == 0) { if (!getenv("MC_STDERR")) { if (!freopen("/dev/null", "w", stderr)) {} } worker(s, o, sh + w, w, J, out[w], started); }
    }
    std::vector<u64> last(J, 0);
    std::vector<double> since(J, 0);
    std::vector<bool> alive(J, true);
    int left = J;
    Stats sum;
    while (left) {
      bool any = false;
      for (int w = 0; w < J; ++w) {
        if (!alive[w]) continue;
        int st;
        pid_t r = waitpid(pid[w], &st, WNOHANG);
        if (r == pid[w]) {
          any = true;
          alive[w] = false;
          --left;
          merge(out[w], sum);
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w].done)) {
            died(name, s, sh[w], WIFSIGNALED(st) ? fmt("signal %d", WTERMSIG(st)) : fmt("exit %d", WEXITSTATUS(st)), sum);
          }
        } else {
          double now = std::chrono::duration<double>(std::chrono::steady_clock::now() - started).count();
          if (sh[w].beat != last[w]) { last[w] = sh[w].beat; since[w] = now; }
          else if (now - since[w] > o.hang_s) {
            kill(pid[w], SIGKILL);
            waitpid(pid[w], &st, 0);
            alive[w] = false;
            --left;
            hung(name, s, sh[w], o, sum);
          }
        }
      }
      if (!any) usleep(2000);
    }
    for (auto f : out) fclose(f);
    munmap(sh, sizeof(Shared) * J);
    double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - started).count();
    for (auto & [k, f] : sum.findings) {
      if (!total.findings.count(k)) { f.trace = "scenario: " + name + "\n" + f.trace; total.findings.emplace(k, f); }
    }
    total.executions += sum.executions;
    total.transitions += sum.transitions;
    total.states += sum.seen.size();
    u64 before = total.outcomes.size();
    u64 hn = hash_str(name);
    for (u64 h : sum.outcomes) total.outcomes.insert(mix(hn, h));
    for (auto & x : sum.samples) if (total.samples.size() < 12) total.samples.push_back(name + ": " + x);
    if (sum.capped) exhaustive = false;
    scopes.push_back(fmt("%s: executions=%llu transitions=%llu states=%zu distinct_outcomes=%llu%s %.1fs%s%s", name.c_str(),
      (unsigned long long)sum.executions, (unsigned long long)sum.transitions, sum.seen.size(),
      (unsigned long long)(total.outcomes.size() - before), sum.capped ? " CAPPED" : " complete", secs,
      o.what.empty() ? "" : " -- ", o.what.c_str()));
    printf("[%s] %s\n", prop.c_str(), scopes.back().c_str());
    fflush(stdout);
  }

  // plain enumeration inside this process (no forking): the scenario counts evaluations itself
  int finish()
  {
    if (!replay_scn.empty()) { fprintf(stderr, "replay: scenario %s not found\n", replay_scn.c_str()); return 2; }
    double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    int bad = 0, nknown = 0;
    std::string lines;
    for (auto & [k, f] : total.findings) {
      auto kn = known.find(k);
      if (kn != known.end()) {
        printf("KNOWN-FINDING: property=%s key=%s %s\n", prop.c_str(), k.c_str(), kn->second.c_str());
        ++nknown;
        continue;
      }
      std::string dir = root + "/replays";
      if (system(("mkdir -p '" + dir + "'").c_str())) {}
      std::string path = dir + "/" + prop + "-" + fmt("%d", bad) + ".txt";
      std::ofstream os(path);
      os << f.trace.substr(0, f.trace.find('\n') + 1);
      os << "property: " << prop << "\nkey: " << k << "\nmessage: " << f.msg << "\nchoices:";
      for (int c : f.choices) os << " " << c;
      os << "\ntrace:\n" << f.trace << "\n";
      printf("violation key=%s: %s\n%s\n", k.c_str(), f.msg.c_str(), f.trace.c_str());
      printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
      if (++bad >= 5) break;
    }
    if (total.executions == 0) { fprintf(stderr, "nothing was explored\n"); return 2; }
    write_evidence(secs, bad);
    fflush(stdout);
    return bad ? 1 : 0;
  }

private:
  static std::string esc(const std::string & s)
  {
    std::string r;
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
      else if (c == '\n') r += "\\n";
      else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
      else r += static_cast<char>(c);
    }
    return r;
  }
  void write_evidence(double secs, int bad)
  {
    if (system(("mkdir -p '" + root + "/evidence'").c_str())) {}
    std::ofstream os(evidence);
    os << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"" << level << "\",\n \"coverage\": {\n";
    if (level == "model_checking") {
      os << "  \"states\": " << (total.states ? total.states : total.outcomes.size()) << ",\n  \"transitions\": " << total.transitions
         << ",\n  \"traces_validated_against_impl\": " << total.executions << ",\n";
    }
    if (level != "model_checking") os << "  \"evaluations\": " << total.executions << ",\n  \"distinct_nontrivial\": " << total.outcomes.size() << ",\n";
    else if (total.states) os << "  \"distinct_outcomes\": " << total.outcomes.size() << ",\n";
    os << "  \"rule\": \"" << esc(rule) << "\",\n";
    os << "  \"exhaustive\": " << (exhaustive ? "true" : "false") << ",\n  \"scopes\": [";
    for (size_t i = 0; i < scopes.size(); ++i) os << (i ? ", " : "") << "\n   \"" << esc(scopes[i]) << "\"";
    os << "],\n  \"samples\": [";
    for (size_t i = 0; i < total.samples.size(); ++i) os << (i ? ", " : "") << "\n   \"" << esc(total.samples[i]) << "\"";
    os << "]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < assumptions.size(); ++i) os << (i ? ", " : "") << "\n  \"" << esc(assumptions[i]) << "\"";
    os << "],\n \"wall_s\": " << fmt("%.2f", secs) << ",\n \"violations\": " << bad << "\n}\n";
  }
  [[noreturn]] void worker(const Scenario & s, const Opt & o, Shared * sh, int w, int J, FILE * out, std::chrono::steady_clock::time_point started)
  {
    Stats st;
    std::unordered_map<u64, int> cache;
    std::vector<int> prefix;
    u64 rnd = seed + static_cast<u64>(w);
    while (true) {
      Ctx c;
      c.prefix = prefix;
      c.st = &st;
      c.sh = sh;
      c.own = &own;
      c.split = o.split;
      c.workers = J;
      c.me = w;
      c.owner = J == 1;
      sh->n = 0;
      if (o.caching) c.cache = &cache;
      u64 tr0 = st.transitions;
      bool skipped = false;
      try { run_one(s, c); } catch (Skip &) { skipped = true; }
      (void)tr0;
      if (c.owner) {
        ++st.executions;
        if (!skipped && (st.samples.empty() || (st.samples.size() < 4 && (rnd = mix(rnd, st.executions)) % 97 == 0))) {
          std::string t = c.trace();
          for (auto & ch : t) if (ch == '\n') ch = ';';
          if (t.size() > 600) t = t.substr(0, 600) + "...";
          st.samples.push_back(t);
        }
      }
      sh->beat = sh->beat + 1;
      // next leaf
      int i = static_cast<int>(c.taken.size()) - 1;
      while (i >= 0 && c.taken[i] + 1 >= c.arity[i]) --i;
      if (i < 0) break;
      prefix.assign(c.taken.begin(), c.taken.begin() + i);
      prefix.push_back(c.taken[i] + 1);
      if ((sh->beat & 63) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - started).count() > o.cap_s) { st.capped = true; break; }
      if (st.findings.size() >= 40) { st.capped = true; break; }
    }
    emit(out, st);
    sh->done = 1;
    _exit(0);
  }
  static void put(FILE * f, const std::string & s) { u64 n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); }
  static bool get(FILE * f, u64 & n) { return fread(&n, 8, 1, f) == 1; }
  static std::string gets(FILE * f) { u64 n = 0; get(f, n); std::string s(n, 0); if (n && fread(&s[0], 1, n, f) != n) s.clear(); return s; }
  static void emit(FILE * f, Stats & st)
  {
    u64 h[4] = {st.executions, st.transitions, st.outcomes.size(), st.seen.size()};
    fwrite(h, 8, 4, f);
    for (u64 x : st.outcomes) fwrite(&x, 8, 1, f);
    for (u64 x : st.seen) fwrite(&x, 8, 1, f);
    u64 n = st.samples.size();
    fwrite(&n, 8, 1, f);
    for (auto & s : st.samples) put(f, s);
    n = st.findings.size();
    fwrite(&n, 8, 1, f);
    for (auto & [k, v] : st.findings) {
      put(f, v.key); put(f, v.msg); put(f, v.trace);
      n = v.choices.size();
      fwrite(&n, 8, 1, f);
      for (int c : v.choices) { u64 x = static_cast<u64>(c); fwrite(&x, 8, 1, f); }
    }
    n = st.capped;
    fwrite(&n, 8, 1, f);
    fflush(f);
  }
  static void merge(FILE * f, Stats & st)
  {
    rewind(f);
    u64 h[4];
    if (fread(h, 8, 4, f) != 4) return;
    st.executions += h[0];
    st.transitions += h[1];
    u64 x;
    for (u64 i = 0; i < h[2]; ++i) { get(f, x); st.outcomes.insert(x); }
    for (u64 i = 0; i < h[3]; ++i) { get(f, x); st.seen.insert(x); }
    u64 n = 0;
    get(f, n);
    while (n--) st.samples.push_back(gets(f));
    n = 0;
    get(f, n);
    while (n--) {
      Finding v;
      v.key = gets(f); v.msg = gets(f); v.trace = gets(f);
      u64 m = 0;
      get(f, m);
      while (m--) { get(f, x); v.choices.push_back(static_cast<int>(x)); }
      auto it = st.findings.find(v.key);
      if (it == st.findings.end() || v.choices.size() < it->second.choices.size()) st.findings[v.key] = v;
    }
    n = 0;
    get(f, n);
    if (n) st.capped = true;
  }
  // re-executes one choice sequence in a fresh process; returns exit description ("" = finished normally)
  std::string again(const Scenario & s, const std::vector<int> & ch, double limit, std::string & trace)
  {
    fflush(stdout);
    FILE * f = tmpfile();
    pid_t p = fork();
    if (p == 0) {
      Ctx c;
      Stats st;
      c.st = &st;
      c.replay = false;
      c.prefix = ch;
      dup2(fileno(f), 1);
      c.replay = true;
      try { run_one(s, c); } catch (Skip &) {}
      fflush(stdout);
      _exit(0);
    }
    double t = 0;
    int st;
    std::string r = "hang";
    while (t < limit) {
      pid_t x = waitpid(p, &st, WNOHANG);
      if (x == p) { r = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "" : WIFSIGNALED(st) ? fmt("signal %d", WTERMSIG(st)) : fmt("exit %d", WEXITSTATUS(st)); break; }
      usleep(10000);
      t += 0.01;
    }
    if (r == "hang") { kill(p, SIGKILL); waitpid(p, &st, 0); }
    rewind(f);
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0 && trace.size() < 20000) trace.append(b, n);
    fclose(f);
    return r;
  }
  void died(const std::string &, const Scenario & s, Shared & sh, const std::string & how, Stats & sum)
  {
    Finding f;
    for (int i = 0; i < sh.n; ++i) f.choices.push_back(sh.c[i]);
    std::string tr;
    std::string r = again(s, f.choices, 120, tr);
    if (r.empty()) {  // not reproduced: an error of the machinery, not a verdict
      fprintf(stderr, "worker ended with %s but the execution does not reproduce it\n", how.c_str());
      _exit(4);
    }
    f.key = r == "exit 77" ? "stuck" : r == "exit 78" ? "thread-left" : "crash";
    f.msg = r == "exit 77" ? "the threads wait for each other or go on without an end (see the end of the trace)" : r == "exit 78" ? "a thread does not end" : "the code under test ended the process (" + r + ")";
    f.trace = tr;
    sum.capped = true;
    ++sum.executions;
    if (!sum.findings.count(f.key)) sum.findings[f.key] = f;
  }
  void hung(const std::string &, const Scenario & s, Shared & sh, const Opt & o, Stats & sum)
  {
    Finding f;
    for (int i = 0; i < sh.n; ++i) f.choices.push_back(sh.c[i]);
    std::string tr;
    std::string r = again(s, f.choices, o.hang_s * 1.5, tr);
    if (r.empty()) { sum.capped = true; fprintf(stderr, "slow execution, not a hang\n"); return; }
    f.key = r == "hang" ? "hang" : "crash";
    f.msg = "the execution does not finish (" + r + ")";
    f.trace = tr;
    sum.capped = true;
    if (!sum.findings.count(f.key)) sum.findings[f.key] = f;
  }
};
}  // namespace mc
