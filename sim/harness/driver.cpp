#include "driver.h"
#include <sys/syscall.h>
#include <unistd.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <sim/race.h>
#ifndef SIM_RACE
#include <sanitizer/asan_interface.h>
#endif

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:symbolize=0:handle_segv=1:handle_abort=0:detect_stack_use_after_return=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=3000:print_legend=0:quarantine_size_mb=32:malloc_context_size=12";
}
extern uint8_t* sim_cov_map;
extern uint32_t sim_cov_n;

static int g_out = -1;
static const Plan* g_plan = nullptr;
static bool g_reported = false;

Report& rep() { static Report* r = new Report(); return *r; }
std::string fmt(const char* f, ...) {
  char b[1500];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
void Report::violation(const std::string& prop, const std::string& key, const std::string& msg) {
  for (V& x : v)
    if (x.prop == prop && x.key == key) { x.n++; return; }
  if (sim::tracing()) sim::tracef("VIOLATION %s %s %s", prop.c_str(), key.c_str(), msg.c_str());
  v.push_back(V{prop, key, msg, sim::now() / 1e9 - 1000, 1});
}

static std::string js(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
    else o += static_cast<char>(c);
  }
  return o + "\"";
}
static void emit(const std::string& end, const std::string& detail) {
  if (g_reported) return;
  g_reported = true;
  Report& r = rep();
  sim::Env& e = sim::env();
#ifdef SIM_RACE
  if (sim::race_checked()) r.probes["race_accesses"] += sim::race_checked();
#endif
  std::string o = "{\"end\":" + js(end) + ",\"detail\":" + js(detail) + fmt(",\"hash\":\"%016llx\",\"sim_s\":%.3f,\"switches\":%llu,\"preempt\":%llu",
      (unsigned long long)sim::trace_hash(), sim::now() / 1e9 - 1000, (unsigned long long)sim::switches(), (unsigned long long)sim::preemptions());
  o += ",\"viol\":[";
  bool first = true;
  for (auto& x : r.v) {
    o += (first ? "" : ",") + std::string("{\"prop\":") + js(x.prop) + ",\"key\":" + js(x.key) + ",\"msg\":" + js(x.msg) + fmt(",\"t\":%.4f,\"n\":%llu}", x.t, (unsigned long long)x.n);
    first = false;
  }
  o += "],\"probes\":{";
  first = true;
  for (auto& x : r.probes) { o += (first ? "" : ",") + js(x.first) + fmt(":%llu", (unsigned long long)x.second); first = false; }
  o += "},\"faults\":{";
  first = true;
  std::map<std::string, uint64_t> f = e.counters;
  if (e.dropped) f["net_drop"] += e.dropped;
  if (e.duplicated) f["net_dup"] += e.duplicated;
  if (e.reordered) f["net_reorder"] += e.reordered;
  if (e.overflowed) f["queue_overflow"] += e.overflowed;
  for (auto& x : f) { o += (first ? "" : ",") + js(x.first) + fmt(":%llu", (unsigned long long)x.second); first = false; }
  o += fmt("},\"msgs\":[%llu,%llu,%llu,%llu]", (unsigned long long)e.published, (unsigned long long)e.delivered, (unsigned long long)e.timer_calls, (unsigned long long)e.service_calls);
  o += ",\"states\":[";
  first = true;
  for (auto x : r.states) { o += fmt("%s\"%x\"", first ? "" : ",", static_cast<unsigned>(x ^ (x >> 32))); first = false; }
  o += "],\"cov\":\"";
  if (sim_cov_map)
    for (uint32_t i = 0; i < sim_cov_n; i += 4) {
      int d = 0;
      for (uint32_t j = 0; j < 4 && i + j < sim_cov_n; j++) if (sim_cov_map[i + j + 1]) d |= 1 << j;
      o += "0123456789abcdef"[d];
    }
  o += "\"}\n";
  if (g_out < 0) { fwrite(o.data(), 1, o.size(), stdout); fflush(stdout); return; }
  size_t off = 0;
  while (off < o.size()) {
    ssize_t w = write(g_out, o.data() + off, o.size() - off);
    if (w <= 0) { if (errno == EINTR) continue; break; }
    off += static_cast<size_t>(w);
  }
}
static std::string demangle_pc(void* pc) {
  Dl_info di;
  if (!dladdr(pc, &di) || !di.dli_sname) return "";
  int st;
  char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
  std::string s = st == 0 && d ? d : di.dli_sname;
  free(d);
  size_t p = s.find('(');
  if (p != std::string::npos && p > 0) s = s.substr(0, p);
  return s;
}
static std::string first_repo_frame(const std::string& report) {
  // first frame that belongs to the code under test
  size_t pos = 0;
  std::string any;
  int stacks = 0;
  while ((pos = report.find("#", pos)) != std::string::npos) {
    size_t x = report.find("0x", pos);
    if (x == std::string::npos || x > pos + 8) { pos++; continue; }
    if (report[pos + 1] == '0' && ++stacks > 1) break;
    void* pc = reinterpret_cast<void*>(strtoull(report.c_str() + x, nullptr, 16) - 1);
    std::string f = demangle_pc(pc);
    if (!f.empty() && any.empty()) any = f;
    static const char* ns[] = {"avoidance::", "global_planner::", "GlobalPlanner", "LocalPlanner", "SafeLanding", "WaypointGenerator"};
    for (auto n : ns) if (f.compare(0, strlen(n), n) == 0) return f;
    pos = x;
  }
  return any;
}
static void die(const std::string& kind, const std::string& key, const std::string& detail) {
  rep().violation(rep().crash_prop, rep().crash_phase + ":" + key, detail.substr(0, 1200));
  if (rep().crash_phase == "run" && rep().crash_also)
    for (auto& p : rep().crash_also()) rep().violation(p, "process-died", detail.substr(0, 300));
  emit(kind, detail.substr(0, 3000));
  syscall(SYS_exit_group, 0);
}
static void on_asan(const char* s) {
  std::string r = s;
  size_t a = r.find("AddressSanitizer: ");
  std::string type = "error";
  if (a != std::string::npos) { a += 18; size_t b = r.find_first_of(" \n", a); type = r.substr(a, b - a); }
  std::string fr = first_repo_frame(r), fn = fr;
  size_t t = fn.find('<');
  if (t != std::string::npos) fn = fn.substr(0, t);
  std::string syms;
  size_t pos = 0;
  for (int n = 0; n < 40 && (pos = r.find(" 0x", pos)) != std::string::npos; n++) {
    std::string f = demangle_pc(reinterpret_cast<void*>(strtoull(r.c_str() + pos + 1, nullptr, 16) - 1));
    if (!f.empty()) syms += " <- " + f.substr(0, 90);
    pos += 3;
  }
  die("crash", "memory:" + type + "@" + fn, type + syms);
}
static void on_term() {
  std::string w = "std::terminate";
  if (std::exception_ptr p = std::current_exception()) {
    try { std::rethrow_exception(p); } catch (const std::exception& e) { w += std::string(": ") + typeid(e).name() + ": " + e.what(); } catch (...) { w += ": unknown exception"; }
  } else w += " without an active exception (a joinable std::thread was destroyed, or a throw in a destructor)";
  die("crash", "terminate", w);
}
static void on_sig(int s) {
  if (s == SIGPROF) die("hang", "hang", "one simulated step ran for more than its processor-time allowance without reaching a scheduling point: " + sim::dump_threads());
  die("crash", fmt("signal-%d", s), fmt("signal %d (%s)", s, s == SIGABRT ? "abort: a failed assertion" : strsignal(s)));
}
static void on_sim_fatal(const std::string& kind, const std::string& what) {
  if (kind == "internal") { emit("internal", what); syscall(SYS_exit_group, 0); }
  die(kind, kind, what);
}
// "twin" plans are executed twice, with nothing different but what memory that was never written happens to hold;
// the first execution leaves its publications in shared memory, the second one is compared with them
struct TwinRec { uint64_t topic, hash; sim::ns_t t; };
static const size_t TWIN_MAX = 400000;
struct Twin { size_t n, done; TwinRec r[TWIN_MAX]; };
static Twin* g_tw = nullptr;
static int g_twin = 0;  // 0 no, 1 first execution, 2 second
static size_t g_twin_i = 0;
static bool g_twin_diff = false;
static void twin_publication(const std::string& topic, uint64_t hash) {
  uint64_t th = 1469598103934665603ULL;
  for (char c : topic) th = (th ^ static_cast<unsigned char>(c)) * 1099511628211ULL;
  TwinRec r = {th, hash, sim::now()};
  if (g_twin == 1) {
    if (g_tw->n < TWIN_MAX) g_tw->r[g_tw->n++] = r;
    return;
  }
  if (g_twin_diff || g_twin_i >= TWIN_MAX) return;
  rep().probe("twin_publications_compared");
  const TwinRec* o = g_twin_i < g_tw->n ? &g_tw->r[g_twin_i] : nullptr;
  g_twin_i++;
  if (o && o->topic == r.topic && o->hash == r.hash && o->t == r.t) return;
  g_twin_diff = true;
  const char* how = !o ? "the other one had ended by then" : o->topic != r.topic ? "the other one published on another topic" : o->hash != r.hash ? "the contents differ" : "the times differ";
  rep().violation("C33", "output:/" + topic, fmt("publication %zu, on /%s at t=%.6f s, depends on memory that was never written: of two executions that differ in nothing else, %s", g_twin_i, topic.c_str(), sim::now() / 1e9 - 1000, how));
}
void configure_sched(const Plan& p) {
  sim::SchedCfg c;
  c.seed = p.seed;
  c.p_sync = p.K("p_sync", 0.05);
  c.mean_access = p.K("mean_access", 0);
  c.p_spurious = p.K("p_spurious", 0);
  c.timer_slack_us = p.K("timer_slack_us", 0);
  c.cost_sync = static_cast<sim::ns_t>(p.K("cost_sync", 400));
  c.cost_access = static_cast<sim::ns_t>(p.K("cost_access", 2));
  c.garbage = g_twin == 2 ? 1 + static_cast<int>(p.seed / 16 % 3) : 0;
  sim::start(c);
  sim::env().rng.reseed(p.seed * 7919 + 13);
}

static bool parse(const std::string& text, Plan& p, std::string& err) {
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string w;
    if (!(l >> w) || w[0] == '#') continue;
    if (w == "plan" || w == "sim" || w == "expect") continue;
    if (w == "prop") l >> p.prop;
    else if (w == "seed") l >> p.seed;
    else if (w == "knob") { std::string n, v; l >> n >> v; p.k[n] = strtod(v.c_str(), nullptr); }
    else if (w == "op") {
      Op o;
      std::string v;
      l >> v >> o.kind;
      o.t = strtod(v.c_str(), nullptr);
      while (l >> v) o.p.push_back(strtod(v.c_str(), nullptr));
      p.ops.push_back(o);
    } else { err = "bad line: " + line; return false; }
  }
  return true;
}
static void child(const Plan& p, int wall) {
  g_plan = &p;
  if (p.K("twin", 0) > 0) {
    g_tw = static_cast<Twin*>(mmap(nullptr, sizeof(Twin), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    pid_t pid = fork();
    if (pid == 0) {
      g_twin = 1;
      g_out = open("/dev/null", O_WRONLY);
      sim::set_trace_file("");
    } else {
      int st;
      waitpid(pid, &st, 0);
      g_twin = 2;
    }
    sim::on_publication = twin_publication;
#ifdef SIM_RACE
    sim::race_track = false;
#endif
  }
  std::set_terminate(on_term);
  for (int s : {SIGABRT, SIGFPE, SIGILL, SIGPROF}) signal(s, on_sig);
  sim::on_fatal = on_sim_fatal;
#ifdef SIM_RACE
  for (int s : {SIGSEGV, SIGBUS}) signal(s, on_sig);
  sim::on_race = [](const std::string& key, const std::string& msg) {
    // a data race counts against the property whose plan is run, or against the property about all nodes
    rep().violation(g_plan->K("race", 0) > 1 ? "C32" : g_plan->prop, key, msg);
  };
#else
  __asan_set_error_report_callback(on_asan);
#endif
  sim_cov_map = static_cast<uint8_t*>(mmap(nullptr, sim_cov_n + 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  // processor time, not wall-clock time: a loaded machine must not look like a hang
  struct itimerval it = {{0, 0}, {wall, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
  scenario_run(p);
  if (g_twin == 2 && !g_twin_diff && g_twin_i < g_tw->n && g_twin_i < TWIN_MAX)
    rep().violation("C33", "output:end", fmt("of two executions that differ only in memory that was never written, one published %zu messages and the other %zu", g_tw->n, g_twin_i));
  emit("done", "");
  syscall(SYS_exit_group, 0);
}

static bool read_n(int fd, char* b, size_t n) {
  size_t o = 0;
  while (o < n) { ssize_t r = read(fd, b + o, n - o); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } o += static_cast<size_t>(r); }
  return true;
}

int main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
    personality(ADDR_NO_RANDOMIZE);
    setenv("SIM_NOASLR", "1", 1);
    execv("/proc/self/exe", argv);
  }
  int wall = getenv("SIM_WALL") ? atoi(getenv("SIM_WALL")) : 60;
  if (argc >= 3 && std::string(argv[1]) == "--run") {
    FILE* f = fopen(argv[2], "r");
    if (!f) { perror(argv[2]); return 2; }
    std::string t;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n);
    fclose(f);
    Plan p;
    std::string err;
    if (!parse(t, p, err)) { fprintf(stderr, "%s\n", err.c_str()); return 2; }
    if (argc >= 4) sim::set_trace_file(argv[3]);
    child(p, wall);
  }
  if (argc >= 2 && std::string(argv[1]) == "--serve") {
    // requests: "RUN <bytes>\n<plan text>"; reply: one JSON line
    for (;;) {
      std::string head;
      char c;
      while (read_n(0, &c, 1) && c != '\n') head += c;
      if (head.compare(0, 4, "RUN ") != 0) return 0;
      std::string text(strtoull(head.c_str() + 4, nullptr, 10), 0);
      if (!read_n(0, &text[0], text.size())) return 0;
      int pfd[2];
      if (pipe(pfd)) return 2;
      pid_t pid = fork();
      if (pid == 0) {
        close(pfd[0]);
        g_out = pfd[1];
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        if (!getenv("SIM_STDERR")) dup2(dn, 2);
        Plan p;
        std::string err;
        if (!parse(text, p, err)) { emit("internal", err); syscall(SYS_exit_group, 0); }
        child(p, wall);
      }
      close(pfd[1]);
      std::string out;
      char b[65536];
      bool killed = false;
      double left = wall * 10.0 + 60;
      for (;;) {
        struct pollfd pf = {pfd[0], POLLIN, 0};
        int pr = poll(&pf, 1, 1000);
        if (pr == 0) { left -= 1; if (left <= 0 && !killed) { kill(pid, SIGKILL); killed = true; } continue; }
        ssize_t r = read(pfd[0], b, sizeof b);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) break;
        out.append(b, static_cast<size_t>(r));
      }
      close(pfd[0]);
      int st = 0;
      waitpid(pid, &st, 0);
      if (out.empty() || out.back() != '\n')
        out = fmt("{\"end\":\"lost\",\"detail\":\"child ended with status %d%s\",\"hash\":\"0\",\"sim_s\":0,\"switches\":0,\"preempt\":0,\"viol\":[],\"probes\":{},\"faults\":{},\"msgs\":[0,0,0,0],\"states\":[],\"cov\":\"\"}\n", st, killed ? " killed" : "");
      size_t off = 0;
      while (off < out.size()) { ssize_t w = write(1, out.data() + off, out.size() - off); if (w <= 0) return 1; off += static_cast<size_t>(w); }
    }
  }
  fprintf(stderr, "usage: %s --run PLAN [TRACE] | --serve\n", argv[0]);
  return 2;
}
