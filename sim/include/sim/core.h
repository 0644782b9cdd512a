// Deterministic scheduler core: fibers, virtual time, discrete events, seeded decisions.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <stdint.h>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

typedef int64_t ns_t;
static const ns_t US = 1000, MS = 1000000, SEC = 1000000000LL;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  void reseed(uint64_t seed) { s = seed * 0x9E3779B97F4A7C15ULL + 0xD1B54A32D192ED03ULL; next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double range(double a, double b) { return a + (b - a) * uni(); }
  int irange(int a, int b) { return a + static_cast<int>(below(static_cast<uint64_t>(b - a + 1))); }
  bool chance(double p) { return uni() < p; }
  template <class T>
  const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Hash {
  uint64_t h = 1469598103934665603ULL;
  void bytes(const void* p, size_t n) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
  }
  void u64(uint64_t v) { h ^= v; h *= 1099511628211ULL; h ^= h >> 29; }
};

struct NodeCtx;  // per-process context of the simulated ROS graph (simros)

struct SchedCfg {
  uint64_t seed = 1;
  double p_sync = 0.05;      // probability of a switch at a synchronisation point
  double mean_access = 0;    // mean number of instrumented accesses between preemptions (0 = never)
  ns_t cost_sync = 400;      // virtual cost of a synchronisation point
  ns_t cost_access = 2;      // virtual cost of an instrumented access
  double p_spurious = 0;     // spurious condition variable wake-ups
  double timer_slack_us = 0; // extra random wake-up latency
  int garbage = 0;           // which of the contents memory that was never written has (added to the choice of the seed)
};

struct Fiber;

// ---- lifecycle
void start(const SchedCfg& cfg);                     // make the simulator active in this process
void run(ns_t until);                                // run events and fibers until virtual time `until` or stop()
void stop(const std::string& why = "");              // request end of run
bool active();
bool stopping();
bool in_fiber();

Fiber* spawn(const std::function<void()>& fn, const std::string& name, NodeCtx* node);
void join(Fiber* f);
bool finished(Fiber* f);
Fiber* cur();
int cur_id();
int fiber_id(Fiber*);
const std::string& fiber_name(Fiber*);
NodeCtx* cur_node();
void set_cur_node(NodeCtx*);
std::vector<Fiber*> fibers_of(NodeCtx*);
void stall(Fiber* f, ns_t until);
void stall_at_spawn(int n, ns_t dur, const std::function<void(ns_t until)>& cb);  // stall the thread that starts the n-th thread from now on
std::string dump_threads();
int live_fibers(NodeCtx*);

ns_t now();
void at(ns_t t, const std::function<void()>& fn);    // discrete event (runs on the scheduler stack; must not block)
uint64_t switches();
uint64_t preemptions();

// ---- blocking primitives (fibers only)
void sleep_until(ns_t t);
bool wait_key(const void* key, ns_t deadline);       // true when woken, false on time-out (deadline<0: none)
void wake_key(const void* key, bool all = true);
void point();                                        // synchronisation-grade schedule point
void spend(ns_t d);                                  // consume virtual CPU time

struct NoPreempt {
  NoPreempt();
  ~NoPreempt();
};

// ---- trace/hash of the run
void trace(uint64_t v);
void trace(const char* tag, uint64_t v);
uint64_t trace_hash();
void set_trace_file(const char* path);
void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();

// ---- failure sink: called once on deadlock / crash (see core.cpp); ends the process
void fatal(const std::string& kind, const std::string& what) __attribute__((noreturn));
extern void (*on_fatal)(const std::string& kind, const std::string& what);

// race detector (happens-before) over addresses registered for watching
void watch_range(const void* p, size_t n, const char* name);

}  // namespace sim
#endif
