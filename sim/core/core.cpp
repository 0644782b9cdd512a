// Scheduler core. Compiled without coverage instrumentation: nothing in here is preempted.
#include <sim/core.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <queue>
#include <exception>
#include <sim/race.h>
#ifndef SIM_RACE
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

extern "C" {
#ifdef SIM_RACE
static inline void __sanitizer_start_switch_fiber(void**, const void*, size_t) {}
static inline void __sanitizer_finish_switch_fiber(void*, const void**, size_t*) {}
#define __asan_unpoison_memory_region(a, b)
#else
void __sanitizer_start_switch_fiber(void** fake_stack_save, const void* bottom, size_t size);
void __sanitizer_finish_switch_fiber(void* fake_stack_save, const void** bottom_old, size_t* size_old);
#endif
void sim_ctx_switch(void** save_sp, void* load_sp);
}
__asm__(
    ".text\n.globl sim_ctx_switch\n.type sim_ctx_switch,@function\nsim_ctx_switch:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  subq $8,%rsp\n  stmxcsr (%rsp)\n  fnstcw 4(%rsp)\n"
    "  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
    "  ldmxcsr (%rsp)\n  fldcw 4(%rsp)\n  addq $8,%rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
    ".size sim_ctx_switch,.-sim_ctx_switch\n");

namespace sim {

struct EhGlobals { void* caught; unsigned int uncaught; };

enum State { RUNNABLE, SLEEP, WAITKEY, WAITMUTEX, DONE };

struct Fiber {
  int id = 0;
  std::string name;
  NodeCtx* node = nullptr;
  std::function<void()> fn;
  void* sp = nullptr;
  char* stack = nullptr;
  size_t stack_size = 0;
  State st = RUNNABLE;
  ns_t wake = -1;          // deadline (-1: none)
  const void* key = nullptr;
  pthread_mutex_t* mutex = nullptr;
  bool woken = false;
  ns_t stalled_until = 0;
  int nopreempt = 0;
  EhGlobals eh{nullptr, 0};
  int err = 0;
  void* fake = nullptr;
  bool detached = false;
  std::vector<uint32_t> vc;
  void* (*cfn)(void*) = nullptr;
  void* carg = nullptr;
};

struct Event {
  ns_t t;
  uint64_t seq;
  std::function<void()> fn;
};
struct EvCmp {
  bool operator()(const Event* a, const Event* b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; }
};

static bool g_active = false, g_stop = false;
static SchedCfg g_cfg;
static Rng g_rng;
static ns_t g_now = 0, g_next_due = INT64_MAX;
static std::vector<Fiber*>* g_fibers;
static Fiber* g_cur = nullptr;
static std::priority_queue<Event*, std::vector<Event*>, EvCmp>* g_events;
static uint64_t g_evseq = 0, g_switches = 0, g_preempt = 0;
static int64_t g_countdown = INT64_MAX;
static void* g_sched_sp = nullptr;
static void* g_sched_fake = nullptr;
static const void* g_sched_bottom = nullptr;
static size_t g_sched_size = 0;
static EhGlobals g_sched_eh{nullptr, 0};
static Hash g_hash;
static FILE* g_trace = nullptr;
static char* g_stack_next = reinterpret_cast<char*>(0x200000000000ULL);
static const size_t STACK = 1 << 20;
static const size_t STACK_FILL = 128 << 10;
static NodeCtx* g_event_node = nullptr;
void (*on_fatal)(const std::string&, const std::string&) = nullptr;

static EhGlobals* eh() { return reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals()); }

bool active() { return g_active; }
bool stopping() { return g_stop; }
bool in_fiber() { return g_cur != nullptr; }
Fiber* cur() { return g_cur; }
int cur_id() { return g_cur ? g_cur->id : 0; }
int fiber_id(Fiber* f) { return f->id; }
const std::string& fiber_name(Fiber* f) { return f->name; }
NodeCtx* cur_node() { return g_cur ? g_cur->node : g_event_node; }
void set_cur_node(NodeCtx* n) { if (g_cur) g_cur->node = n; else g_event_node = n; }
ns_t now() { return g_now; }
uint64_t switches() { return g_switches; }
uint64_t preemptions() { return g_preempt; }
void trace(uint64_t v) { g_hash.u64(v); }
void trace(const char* tag, uint64_t v) { g_hash.u64(v); if (g_trace) tracef("%s %llx", tag, (unsigned long long)v); }
uint64_t trace_hash() { return g_hash.h; }
bool tracing() { return g_trace != nullptr; }
void set_trace_file(const char* path) { g_trace = fopen(path, "w"); }
void tracef(const char* fmt, ...) {
  if (!g_trace) return;
  fprintf(g_trace, "%10.6f f%-3d ", g_now / 1e9, g_cur ? g_cur->id : 0);
  va_list ap;
  va_start(ap, fmt);
  vfprintf(g_trace, fmt, ap);
  va_end(ap);
  fputc('\n', g_trace);
}

void fatal(const std::string& kind, const std::string& what) {
  g_active = false;
  if (g_trace) { fprintf(g_trace, "FATAL %s: %s\n", kind.c_str(), what.c_str()); fflush(g_trace); }
  if (on_fatal) on_fatal(kind, what);
  fprintf(stderr, "FATAL %s: %s\n", kind.c_str(), what.c_str());
  _exit(97);
}

static void new_countdown() {
  if (g_cfg.mean_access <= 0) { g_countdown = INT64_MAX; return; }
  double u = g_rng.uni();
  if (u < 1e-12) u = 1e-12;
  // geometric-like around the mean, with a heavy tail of short runs
  double c = -__builtin_log(u) * g_cfg.mean_access;
  if (g_rng.below(8) == 0) c = static_cast<double>(g_rng.below(24));
  g_countdown = static_cast<int64_t>(c) + 1;
}

#ifdef SIM_RACE
extern "C" unsigned char sim_heap_fill;
#endif
void start(const SchedCfg& cfg) {
  g_cfg = cfg;
#ifdef SIM_RACE
  static const unsigned char HEAP[] = {0xbe, 0, 0x7f, 0xff};  // negative, zero, huge and not-a-number floats
  sim_heap_fill = HEAP[(cfg.seed / 4 + static_cast<uint64_t>(cfg.garbage)) % 4];
#endif
  g_rng.reseed(cfg.seed);
  g_fibers = new std::vector<Fiber*>();
  g_events = new std::priority_queue<Event*, std::vector<Event*>, EvCmp>();
  g_now = 1000 * SEC;  // ROS time never zero
  g_active = true;
  g_stop = false;
  new_countdown();
}

void stop(const std::string&) { g_stop = true; }

static void switch_to_sched() {
  Fiber* f = g_cur;
  EhGlobals* g = eh();
  f->eh = *g;
  f->err = errno;
  bool dying = f->st == DONE;
  __sanitizer_start_switch_fiber(dying ? nullptr : &f->fake, g_sched_bottom, g_sched_size);
  sim_ctx_switch(&f->sp, g_sched_sp);
  __sanitizer_finish_switch_fiber(f->fake, nullptr, nullptr);
  *eh() = f->eh;
  errno = f->err;
}

static void fiber_entry() {
  __sanitizer_finish_switch_fiber(nullptr, &g_sched_bottom, &g_sched_size);
  Fiber* f = g_cur;
  *eh() = f->eh;
  try {
    f->fn();
  } catch (...) {
    std::terminate();
  }
  f->st = DONE;
  f->fn = nullptr;
  trace("done", f->id);
  wake_key(f, true);
  switch_to_sched();
  abort();
}

static void fiber_boot() { fiber_entry(); }

void point();
static int g_ss_n = 0;
static ns_t g_ss_dur = 0;
static std::function<void(ns_t)>* g_ss_cb = nullptr;
void stall_at_spawn(int n, ns_t dur, const std::function<void(ns_t)>& cb) {
  g_ss_n = n;
  g_ss_dur = dur;
  if (!g_ss_cb) g_ss_cb = new std::function<void(ns_t)>();
  *g_ss_cb = cb;
}
static Fiber* spawn_raw(const std::function<void()>& fn, const std::string& name, NodeCtx* node);
Fiber* spawn(const std::function<void()>& fn, const std::string& name, NodeCtx* node) {
  Fiber* f = spawn_raw(fn, name, node);
  if (g_cur && g_ss_n > 0 && --g_ss_n == 0) {
    stall(g_cur, g_now + g_ss_dur);
    if (*g_ss_cb) (*g_ss_cb)(g_now + g_ss_dur);
    point();
  }
  return f;
}
static Fiber* spawn_raw(const std::function<void()>& fn, const std::string& name, NodeCtx* node) {
  NoPreempt np;
  Fiber* f = new Fiber();
  f->id = static_cast<int>(g_fibers->size()) + 1;
  f->name = name;
  f->node = node;
  f->fn = fn;
  f->stack_size = STACK;
  void* m = mmap(g_stack_next, STACK + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (m == MAP_FAILED) fatal("internal", "fiber stack mmap failed");
  g_stack_next += STACK + 65536;
  mprotect(m, 65536, PROT_NONE);
  f->stack = static_cast<char*>(m) + 65536;
  // memory that was never initialised must not look initialised: zero pages would hide it
  static const int FILL[] = {0, 0xcb, 0x7f, 0xff};
  int fill = FILL[(g_cfg.seed + static_cast<uint64_t>(g_cfg.garbage)) % 4];
  if (fill) memset(f->stack + STACK - STACK_FILL, fill, STACK_FILL);
  uint64_t* top = reinterpret_cast<uint64_t*>(f->stack + STACK - 64);
  *--top = 0;                                            // fake return address, keeps alignment
  *--top = reinterpret_cast<uint64_t>(&fiber_boot);      // ret target
  for (int i = 0; i < 6; i++) *--top = 0;                // callee-saved
  --top;
  uint32_t mx;
  uint16_t cw;
  __asm__ volatile("stmxcsr %0" : "=m"(mx));
  __asm__ volatile("fnstcw %0" : "=m"(cw));
  reinterpret_cast<uint32_t*>(top)[0] = mx;
  reinterpret_cast<uint32_t*>(top)[1] = cw;
  f->sp = top;
  g_fibers->push_back(f);
  race_spawn(f->id);
  trace("spawn", f->id);
  return f;
}

bool finished(Fiber* f) { return f->st == DONE; }
std::vector<Fiber*> fibers_of(NodeCtx* n) {
  std::vector<Fiber*> r;
  for (Fiber* f : *g_fibers) if (f->st != DONE && (!n || f->node == n)) r.push_back(f);
  return r;
}
int live_fibers(NodeCtx* n) { return static_cast<int>(fibers_of(n).size()); }

void stall(Fiber* f, ns_t until) { if (f->stalled_until < until) f->stalled_until = until; }

void at(ns_t t, const std::function<void()>& fn) {
  NoPreempt np;
  Event* e = new Event{t < g_now ? g_now : t, ++g_evseq, fn};
  g_events->push(e);
  if (e->t < g_next_due) g_next_due = e->t;
}

static bool runnable(Fiber* f) {
  if (f->st == DONE) return false;
  if (f->stalled_until > g_now) return false;
  switch (f->st) {
    case RUNNABLE: return true;
    case SLEEP: return f->wake <= g_now;
    case WAITKEY: return f->woken || (f->wake >= 0 && f->wake <= g_now);
    case WAITMUTEX: return f->mutex->__data.__lock == 0 || (f->wake >= 0 && f->wake <= g_now);
    default: return false;
  }
}

std::string dump_threads() {
  std::string s;
  for (Fiber* f : *g_fibers) {
    if (f->st == DONE) continue;
    char b[300];
    const char* st[] = {"runnable", "sleeping", "waiting", "blocked-on-mutex", "done"};
    int owner = f->st == WAITMUTEX ? f->mutex->__data.__owner : 0;
    snprintf(b, sizeof b, "[f%d %s %s", f->id, f->name.c_str(), st[f->st]);
    s += b;
    if (f->st == WAITMUTEX) { snprintf(b, sizeof b, " owner=f%d", owner); s += b; }
    if (f->wake >= 0) { snprintf(b, sizeof b, " until=%.3f", f->wake / 1e9); s += b; }
    s += "] ";
  }
  return s;
}

void run(ns_t until) {
  std::vector<Fiber*> ready;
  for (;;) {
    if (g_stop) return;
    // due events
    while (!g_events->empty() && g_events->top()->t <= g_now) {
      Event* e = g_events->top();
      g_events->pop();
      trace(e->seq);
      NodeCtx* save = g_event_node;
      e->fn();
      g_event_node = save;
      delete e;
      if (g_stop) return;
    }
    g_next_due = g_events->empty() ? INT64_MAX : g_events->top()->t;
    if (g_now >= until) return;
    ready.clear();
    ns_t next = g_next_due;
    for (Fiber* f : *g_fibers) {
      if (f->st == DONE) continue;
      if (runnable(f)) { ready.push_back(f); continue; }
      ns_t w = -1;
      bool could = f->st == RUNNABLE || (f->st == WAITKEY && f->woken) || (f->st == WAITMUTEX && f->mutex->__data.__lock == 0);
      if (f->stalled_until > g_now) {
        if (could) w = f->stalled_until;
        else if (f->wake >= 0) w = std::max(f->wake, f->stalled_until);
      } else if (f->wake >= 0) w = f->wake;
      if (w >= 0 && w < next) next = w;
    }
    if (ready.empty()) {
      if (next == INT64_MAX) return;  // nothing can ever happen
      if (next > until) { g_now = until; return; }
      if (next > g_now) g_now = next;
      continue;
    }
    Fiber* f = ready[ready.size() == 1 ? 0 : g_rng.below(ready.size())];
    // the moment a deadline that lies ahead passes must end the current slice
    g_next_due = std::min(g_next_due, next);
    g_cur = f;
    g_switches++;
    g_hash.u64(static_cast<uint64_t>(f->id) * 1000003ULL ^ static_cast<uint64_t>(g_now));
    g_sched_eh = *eh();
    const void* ob; size_t os;
    __sanitizer_start_switch_fiber(&g_sched_fake, f->stack, f->stack_size);
    sim_ctx_switch(&g_sched_sp, f->sp);
    __sanitizer_finish_switch_fiber(g_sched_fake, &ob, &os);
    *eh() = g_sched_eh;
    g_cur = nullptr;
    if (f->st == DONE && f->stack) {
      __asan_unpoison_memory_region(f->stack, f->stack_size);
      madvise(f->stack, f->stack_size, MADV_DONTNEED);
      f->stack = nullptr;
    }
  }
}

static inline bool can_switch() { return g_active && g_cur && g_cur->nopreempt == 0; }

static void yield_now() {
  g_preempt++;
  switch_to_sched();
}

void point() {
  if (!g_active || !g_cur) return;
  g_now += g_cfg.cost_sync;
  if (g_cur->nopreempt) return;
  if (g_now >= g_next_due || g_cur->stalled_until > g_now) { yield_now(); return; }
  if (g_cfg.p_sync > 0 && g_rng.uni() < g_cfg.p_sync) yield_now();
}

void spend(ns_t d) {
  if (!g_active || !g_cur) return;
  g_now += d;
  if (g_cur->nopreempt) return;
  if (g_now >= g_next_due || g_cur->stalled_until > g_now) yield_now();
}

static inline void access_point() {
  g_now += g_cfg.cost_access;
  if (__builtin_expect(--g_countdown > 0 && g_now < g_next_due, 1)) return;
  if (g_cur->nopreempt) { if (g_countdown <= 0) g_countdown = 1; return; }
  if (g_countdown <= 0) new_countdown();
  yield_now();
}

void sleep_until(ns_t t) {
  Fiber* f = g_cur;
  if (!f) { if (t > g_now) g_now = t; return; }
  if (g_cfg.timer_slack_us > 0) t += static_cast<ns_t>(g_rng.uni() * g_cfg.timer_slack_us * 1000);
  f->st = SLEEP;
  f->wake = t;
  switch_to_sched();
  f->st = RUNNABLE;
  f->wake = -1;
}

bool wait_key(const void* key, ns_t deadline) {
  Fiber* f = g_cur;
  if (!f) fatal("internal", "wait on scheduler stack");
  f->st = WAITKEY;
  f->key = key;
  f->wake = deadline;
  f->woken = false;
  switch_to_sched();
  bool w = f->woken;
  f->st = RUNNABLE;
  f->key = nullptr;
  f->wake = -1;
  f->woken = false;
  return w;
}

void wake_key(const void* key, bool all) {
  NoPreempt np;
  static std::vector<Fiber*> c;
  c.clear();
  for (Fiber* f : *g_fibers)
    if (f->st == WAITKEY && f->key == key && !f->woken) c.push_back(f);
  if (c.empty()) return;
  if (all) for (Fiber* f : c) f->woken = true;
  else c[c.size() == 1 ? 0 : g_rng.below(c.size())]->woken = true;
  g_next_due = std::min(g_next_due, std::max(g_next_due == 0 ? g_now : g_now, g_now + 20 * US));
}

void join(Fiber* f) {
  while (f->st != DONE) wait_key(f, -1);
  race_join(f->id);
}
#ifdef SIM_RACE
bool on_own_stack(const void* p) { return g_cur && static_cast<const char*>(p) >= g_cur->stack && static_cast<const char*>(p) < g_cur->stack + g_cur->stack_size; }
bool same_process(int a, int b) {
  const Fiber *x = nullptr, *y = nullptr;
  for (const Fiber* f : *g_fibers) { if (f->id == a) x = f; if (f->id == b) y = f; }
  return x && y && x->node == y->node;
}
bool preempt_off() { return g_cur && g_cur->nopreempt > 0; }
#endif

NoPreempt::NoPreempt() { if (g_cur) g_cur->nopreempt++; }
NoPreempt::~NoPreempt() { if (g_cur) g_cur->nopreempt--; }

// ------------------------------------------------------------------ mutexes
static int mtype(pthread_mutex_t* m) { return m->__data.__kind & 3; }  // 0 normal 1 recursive 2 errorcheck

static void check_deadlock(Fiber* me) {
  NoPreempt np;
  Fiber* f = me;
  std::string path = f->name;
  for (int hops = 0; hops < 64; hops++) {
    if (f->st != WAITMUTEX || f->wake >= 0) return;
    int o = f->mutex->__data.__owner;
    if (o <= 0 || o > static_cast<int>(g_fibers->size())) return;
    Fiber* n = (*g_fibers)[o - 1];
    if (n->st == DONE) { fatal("deadlock", "mutex still owned by finished thread " + n->name + "; " + dump_threads()); }
    path += " -> " + n->name;
    if (n == me) fatal("deadlock", "cycle of mutex waits: " + path + "; " + dump_threads());
    f = n;
  }
}

static int mlock(pthread_mutex_t* m, bool try_only, ns_t deadline) {
  if (!g_active || !g_cur) {
    if (g_active && !g_cur && m->__data.__lock) { if (try_only) return EBUSY; }
    m->__data.__count++;
    return 0;
  }
  point();
  Fiber* f = g_cur;
  if (m->__data.__lock && m->__data.__owner == f->id) {
    if (mtype(m) == 1) { m->__data.__count++; return 0; }
    if (mtype(m) == 2) return EDEADLK;
    if (try_only) return EBUSY;
  }
  while (m->__data.__lock) {
    if (try_only) return EBUSY;
    if (deadline >= 0 && g_now >= deadline) return ETIMEDOUT;
    f->st = WAITMUTEX;
    f->mutex = m;
    f->wake = deadline;
    if (deadline < 0) check_deadlock(f);
    switch_to_sched();
    f->st = RUNNABLE;
    f->mutex = nullptr;
    f->wake = -1;
  }
  m->__data.__lock = 1;
  m->__data.__owner = f->id;
  m->__data.__count = 1;
  race_acquire(m);
  return 0;
}

static int munlock_raw(pthread_mutex_t* m) {
  if (m->__data.__count > 1 && mtype(m) == 1) { m->__data.__count--; return 0; }
  race_release(m);
  m->__data.__count = 0;
  m->__data.__owner = 0;
  m->__data.__lock = 0;
  return 0;
}

static int munlock(pthread_mutex_t* m) {
  if (!g_active || !g_cur) { if (m->__data.__count) m->__data.__count--; return 0; }
  munlock_raw(m);
  point();
  return 0;
}

static ns_t ts_to_vt(const struct timespec* ts) { return static_cast<ns_t>(ts->tv_sec) * SEC + ts->tv_nsec; }

static int cwait(pthread_cond_t* c, pthread_mutex_t* m, ns_t deadline) {
  if (!g_active || !g_cur) return deadline >= 0 ? ETIMEDOUT : 0;
  Fiber* f = g_cur;
  int cnt = m->__data.__count;
  (void)cnt;
  f->nopreempt++;
  munlock_raw(m);
  f->nopreempt--;
  int rc = 0;
  ns_t d = deadline;
  bool spur = false;
  if (g_cfg.p_spurious > 0 && g_rng.uni() < g_cfg.p_spurious) {
    ns_t t = g_now + static_cast<ns_t>(g_rng.below(50)) * MS;
    if (d < 0 || t < d) { d = t; spur = true; }
  }
  bool woken = wait_key(c, d);
  if (!woken && !spur) rc = ETIMEDOUT;
  mlock(m, false, -1);
  return rc;
}

// ------------------------------------------------------------------ race watch (filled in by race.cpp later)
void watch_range(const void*, size_t, const char*) {}

}  // namespace sim

using namespace sim;

extern "C" {

pthread_t pthread_self(void) {
  if (g_active && g_cur) return reinterpret_cast<pthread_t>(g_cur);
  pthread_t r;
  __asm__("movq %%fs:0x10,%0" : "=r"(r));
  return r;
}

int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (!g_active) { fprintf(stderr, "pthread_create outside simulation\n"); abort(); }
  NodeCtx* n = cur_node();
  int k = static_cast<int>(g_fibers->size());
  Fiber* f = spawn([fn, arg]() { fn(arg); }, "thread" + std::to_string(k), n);
  *t = reinterpret_cast<pthread_t>(f);
  point();
  return 0;
}
int pthread_join(pthread_t t, void** r) {
  if (r) *r = nullptr;
  if (!g_active) return 0;
  point();
  join(reinterpret_cast<Fiber*>(t));
  return 0;
}
int pthread_detach(pthread_t t) { if (g_active) reinterpret_cast<Fiber*>(t)->detached = true; return 0; }
int pthread_setname_np(pthread_t, const char*) { return 0; }

int pthread_mutex_lock(pthread_mutex_t* m) { return mlock(m, false, -1); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return mlock(m, true, -1); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return mlock(m, false, ts_to_vt(ts)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return mlock(m, false, ts_to_vt(ts)); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return munlock(m); }

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cwait(c, m, ts_to_vt(ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return cwait(c, m, ts_to_vt(ts)); }
int pthread_cond_signal(pthread_cond_t* c) { if (g_active) { wake_key(c, false); point(); } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (g_active) { wake_key(c, true); point(); } return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
  if (g_active)
    for (Fiber* f : *g_fibers)
      if (f->st == WAITKEY && f->key == c) fatal("condvar-destroyed", "condition variable destroyed while thread " + f->name + " waits on it");
  return 0;
}

// read/write locks: __data.__readers = reader count, __data.__cur_writer = owner fiber id
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!g_active || !g_cur) return 0;
  point();
  while (l->__data.__cur_writer) wait_key(l, -1);
  l->__data.__readers++;
  race_acquire(l);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!g_active || !g_cur) return 0;
  point();
  if (l->__data.__cur_writer) return EBUSY;
  l->__data.__readers++;
  race_acquire(l);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!g_active || !g_cur) return 0;
  point();
  while (l->__data.__cur_writer || l->__data.__readers) wait_key(l, -1);
  l->__data.__cur_writer = g_cur->id;
  race_acquire(l);
  race_acquire(reinterpret_cast<char*>(l) + 1);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!g_active || !g_cur) return 0;
  point();
  if (l->__data.__cur_writer || l->__data.__readers) return EBUSY;
  l->__data.__cur_writer = g_cur->id;
  race_acquire(l);
  race_acquire(reinterpret_cast<char*>(l) + 1);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!g_active || !g_cur) return 0;
  if (l->__data.__cur_writer) race_release(l); else race_release(reinterpret_cast<char*>(l) + 1);
  if (l->__data.__cur_writer) l->__data.__cur_writer = 0; else if (l->__data.__readers) l->__data.__readers--;
  wake_key(l, true);
  point();
  return 0;
}

static int real_clock_gettime(clockid_t id, struct timespec* ts);
int nanosleep(const struct timespec* ts, struct timespec* rem) {
  ns_t d = ts_to_vt(ts);  // rem may alias ts
  if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; }
  if (!g_active || !g_cur) return 0;
  sleep_until(g_now + d);
  return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* ts, struct timespec* rem) {
  if (!g_active || !g_cur) return 0;
  if (flags & TIMER_ABSTIME) sleep_until(ts_to_vt(ts)); else nanosleep(ts, rem);
  return 0;
}
int usleep(useconds_t us) { if (g_active && g_cur) sleep_until(g_now + static_cast<ns_t>(us) * US); return 0; }
unsigned int sleep(unsigned int s) { if (g_active && g_cur) sleep_until(g_now + static_cast<ns_t>(s) * SEC); return 0; }
int sched_yield(void) { if (can_switch()) { g_now += US; yield_now(); } return 0; }

#include <sys/syscall.h>
static int real_clock_gettime(clockid_t id, struct timespec* ts) { return static_cast<int>(syscall(SYS_clock_gettime, id, ts)); }
int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!g_active) return real_clock_gettime(id, ts);
  point();
  ts->tv_sec = g_now / SEC;
  ts->tv_nsec = g_now % SEC;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
clock_t clock(void) {
  if (!g_active) return 0;
  point();
  return static_cast<clock_t>(g_now / 1000);
}

// guards of function-local statics: block in the simulator, not in a futex
int __cxa_guard_acquire(abi::__guard* g) {
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  if (b[0]) { race_acquire(g); return 0; }
  if (g_active && g_cur) {
    while (b[1]) { wait_key(g, -1); if (b[0]) { race_acquire(g); return 0; } }
  }
  if (b[0]) return 0;
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(abi::__guard* g) noexcept {
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  race_release(g);
  b[0] = 1; b[1] = 0;
  if (g_active) wake_key(g, true);
}
void __cxa_guard_abort(abi::__guard* g) noexcept {
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  b[1] = 0;
  if (g_active) wake_key(g, true);
}

// ---- coverage hooks: preemption points at every instrumented load/store, and edge counting
#define ACC if (__builtin_expect(g_cur != nullptr && g_active, 1)) access_point();
void __sanitizer_cov_load1(uint8_t*) { ACC }
void __sanitizer_cov_load2(uint16_t*) { ACC }
void __sanitizer_cov_load4(uint32_t*) { ACC }
void __sanitizer_cov_load8(uint64_t*) { ACC }
void __sanitizer_cov_load16(void*) { ACC }
void __sanitizer_cov_store1(uint8_t*) { ACC }
void __sanitizer_cov_store2(uint16_t*) { ACC }
void __sanitizer_cov_store4(uint32_t*) { ACC }
void __sanitizer_cov_store8(uint64_t*) { ACC }
void __sanitizer_cov_store16(void*) { ACC }

uint8_t* sim_cov_map = nullptr;   // shared with the parent: one byte per edge
uint32_t sim_cov_n = 0;
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  if (a == b || *a) return;
  for (uint32_t* p = a; p < b; p++) *p = ++sim_cov_n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* g) { if (sim_cov_map && *g) { sim_cov_map[*g] = 1; } }
}
