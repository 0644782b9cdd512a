// Runs plans: one plan = one exactly repeatable execution in a forked child.
#ifndef SIM_DRIVER_H
#define SIM_DRIVER_H
#include <sim/core.h>
#include <sim/simros.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

struct Op {
  double t = 0;
  std::string kind;
  std::vector<double> p;
  double P(size_t i, double d = 0) const { return i < p.size() ? p[i] : d; }
};
struct Plan {
  std::string prop;
  uint64_t seed = 1;
  std::map<std::string, double> k;
  std::vector<Op> ops;
  double K(const std::string& n, double d) const { auto it = k.find(n); return it == k.end() ? d : it->second; }
};
struct Report {
  struct V { std::string prop, key, msg; double t; uint64_t n; };
  std::vector<V> v;
  std::map<std::string, uint64_t> probes;
  std::set<uint64_t> states;
  std::string crash_prop = "X00", crash_phase = "run";
  std::function<std::vector<std::string>()> crash_also;  // guarantees of progress that a dead process breaks
  void violation(const std::string& prop, const std::string& key, const std::string& msg);
  void probe(const std::string& n, uint64_t k = 1) { probes[n] += k; }
  void state(uint64_t h) { if (states.size() < 4000) states.insert(h); }
};
Report& rep();
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
void scenario_run(const Plan& p);  // provided by each simulation
void configure_sched(const Plan& p);
#endif
