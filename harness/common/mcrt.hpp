// Controlled scheduler for real threads: exactly one thread runs at a time, and which one goes on at every
// synchronisation of the code under test (mutexes, condition variables, atomics, yields, thread start and end) is
// a decision of the exploration.  The code under test is compiled with the ThreadSanitizer instrumentation and
// linked with this runtime instead of libtsan.
//
// Interleavings are explored up to a number of preemptions (switching away from a thread that could go on);
// switches where a thread has to wait are free.  Every execution is also watched for data races (vector clocks),
// for accesses to freed memory, and for deadlocks.
#pragma once
#include <sys/stat.h>
#include <functional>
#include <string>
#include <vector>
#include "mc.hpp"
namespace mcrt
{
struct Options
{
  int preemptions = 1;
  bool races = true;
  int timeouts = 0;        // timed waits which may expire although somebody could still signal
  int max_points = 200000; // scheduling points per execution, above: livelock
  int first_points = 0;    // number of possible places of the first preemption (0: decided one by one)
  bool unlock_points = false;
  std::string scope;       // when set, races are identified by it and by the outermost functions only
  bool atomic_points = true;
};
// Everything between begin and end is under the control of the scheduler; the calling thread is thread 0.
void begin(mc::Ctx & c, const Options & o);
// runs the bodies as concurrent threads to their end, interleavings are explored
void parallel(const std::vector<std::pair<std::string, std::function<void()>>> & bodies);
void end();
bool active();
// explicit places where another thread may be scheduled (inside callbacks)
void point(const char * what);
// lets the others go on first (the end of a cycle)
void yield();
int points();                // places of a possible preemption passed in this execution
int64_t monotonic();         // virtual time in ns
void advance(int64_t ns);
int self();
// called where the only thread waits while nothing is explored (setup)
void on_idle(std::function<bool()> f);
long waits();                // how often the current thread had to wait for another one
// a thread (its number is given) waits for a lock of a thread which sleeps, waits or is inside a callback
void on_held(std::function<void(int, const std::string &)> f);
bool exploring();
void explore_on(bool on);
// nothing is reported and nothing is scheduled while one lives (harness code)
struct Quiet { Quiet(); ~Quiet(); };
void note(const std::string & s);
// names of functions whose state belongs to the stand-ins (races inside are not reported)
bool stub_function(const std::string & name);
// places of a switch are found by repeating the exploration (see mcrt.cpp)
void sites_on(bool on);
void sites_begin(bool increment);
void sites_freeze(bool first);
bool sites_grew();
size_t sites_count();
void sites_save(const std::string & file);
bool sites_load(const std::string & file);
}  // namespace mcrt
namespace mcrt
{
struct Session
{
  Session(mc::Ctx & c, const Options & o) { begin(c, o); }
  ~Session() { end(); }
};
// explores a scenario until the places where threads may be preempted no longer grow
template <class F>
void explore(mc::Check & k, const std::string & name, int preemptions, F f, mc::Check::Opt o)
{
  sites_on(true);
  sites_begin(preemptions <= 1);
  mkdir((k.root + "/replays").c_str(), 0755);
  for (int pass = 1; pass < 12; ++pass) {
    const std::string n = pass == 1 ? name : name + mc::fmt(", pass %d", pass);
    std::string file = k.root + "/replays/" + k.prop + "-places-" + n;
    for (auto & ch : file) if (ch == ' ' || ch == ',') ch = '_';
    if (!k.replay_scn.empty()) sites_load(file);
    else { sites_freeze(pass == 1); sites_save(file); }
    k.explore(n, f, o);
    if (k.replay_scn.empty() && !sites_grew()) break;
  }
}
}  // namespace mcrt
