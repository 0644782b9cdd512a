// Implementation of the simulated ROS client library on top of the scheduler core.
#include <dynamic_reconfigure/server.h>
#include <nodelet/loader.h>
#include <octomap_msgs/conversions.h>
#include <pcl_ros/transforms.h>
#include <sim/simros.h>
#include <sim/race.h>
#include <stdarg.h>
#include <algorithm>

namespace sim {

static Env* g_env = nullptr;
Env& env() { if (!g_env) g_env = new Env(); return *g_env; }
void count(const std::string& k, uint64_t n) { env().counters[k] += n; }

static std::vector<NodeCtx*>& nodes() { static std::vector<NodeCtx*> v; return v; }
static char g_shutdown_key;

NodeCtx* make_node(const std::string& name) {
  NodeCtx* n = new NodeCtx();
  n->id = static_cast<int>(nodes().size()) + 1;
  n->name = name;
  NodeCtx* save = cur_node();
  set_cur_node(n);
  n->global = new ros::CallbackQueue();
  set_cur_node(save);
  nodes().push_back(n);
  return n;
}
static NodeCtx* here() {
  NodeCtx* n = cur_node();
  if (!n) { if (nodes().empty()) make_node("/node"); n = nodes()[0]; }
  return n;
}
void node_shutdown(NodeCtx* n) {
  n->ok = false;
  n->global->disable();
  wake_key(&g_shutdown_key, true);
}

void log_line(int level, const char* fmt, ...) {
  if (!active()) return;
  point();
  spend(2 * US);
  if (env().on_log || tracing()) {
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (tracing()) tracef("LOG%d %s", level, b);
    if (env().on_log) env().on_log(level, b);
  }
}
void log_str(int level, const std::string& s) { log_line(level, "%s", s.c_str()); }

// ------------------------------------------------------------------ callback queues
struct QEntry {
  ros::CallbackInterfacePtr cb;
  uint64_t owner = 0;
  bool removed = false;
  Fiber* running = nullptr;
};
typedef boost::shared_ptr<QEntry> QEntryPtr;
struct QueueImpl {
  std::deque<QEntryPtr> q;
  std::vector<QEntryPtr> taken;  // moved to a calling thread, not finished
  bool enabled = true;
};

}  // namespace sim

using namespace sim;

namespace ros {

CallbackQueue::CallbackQueue(bool enabled) : impl_(new QueueImpl()) { impl_->enabled = enabled; }
CallbackQueue::~CallbackQueue() {
  disable();
  delete impl_;
}
void CallbackQueue::enable() { impl_->enabled = true; wake_key(impl_, true); }
void CallbackQueue::disable() { impl_->enabled = false; wake_key(impl_, true); }
bool CallbackQueue::isEnabled() { return impl_->enabled; }
bool CallbackQueue::empty() { point(); return impl_->q.empty(); }
void CallbackQueue::clear() { impl_->q.clear(); }

void CallbackQueue::addCallback(const CallbackInterfacePtr& cb, uint64_t owner) {
  NoPreempt np;
  if (!impl_->enabled) return;
  QEntryPtr e(new QEntry());
  e->cb = cb;
  e->owner = owner;
  race_reset(e.get());
  race_release(e.get());
  impl_->q.push_back(e);
  wake_key(impl_, false);
}
void CallbackQueue::removeByID(uint64_t owner) {
  {
    NoPreempt np;
    auto& q = impl_->q;
    q.erase(std::remove_if(q.begin(), q.end(), [&](const QEntryPtr& e) { return e->owner == owner; }), q.end());
    for (auto& e : impl_->taken)
      if (e->owner == owner) e->removed = true;
  }
  for (;;) {
    bool busy = false;
    {
      NoPreempt np;
      for (auto& e : impl_->taken)
        if (e->owner == owner && e->running && e->running != cur()) busy = true;
    }
    if (!busy || !in_fiber()) { if (owner) race_acquire(reinterpret_cast<void*>(owner)); return; }
    wait_key(&impl_->taken, now() + 10 * MS);
  }
}
static CallbackQueue::CallOneResult run_entry(QueueImpl* impl, const QEntryPtr& e) {
  CallbackInterface::CallResult r = CallbackInterface::Invalid;
  if (!e->removed) {
    e->running = cur();
    race_acquire(e.get());
    r = e->cb->call();
    if (e->owner) race_release(reinterpret_cast<void*>(e->owner));
    e->running = nullptr;
  }
  NoPreempt np;
  auto& t = impl->taken;
  t.erase(std::remove(t.begin(), t.end(), e), t.end());
  if (r == CallbackInterface::TryAgain && !e->removed) {
    impl->q.push_back(e);
    return CallbackQueue::TryAgain;
  }
  if (in_fiber()) wake_key(&impl->taken, true);
  return CallbackQueue::Called;
}
static bool wait_nonempty(QueueImpl* impl, WallDuration timeout) {
  if (!impl->q.empty()) return true;
  if (timeout.toNSec() <= 0) return false;
  ns_t dl = now() + timeout.toNSec();
  while (impl->q.empty() && impl->enabled && now() < dl) wait_key(impl, dl);
  return impl->enabled && !impl->q.empty();
}
CallbackQueue::CallOneResult CallbackQueue::callOne(WallDuration timeout) {
  point();
  QueueImpl* impl = impl_;
  if (!impl->enabled) return Disabled;
  if (!wait_nonempty(impl, timeout)) return impl->enabled ? Empty : Disabled;
  QEntryPtr e;
  {
    NoPreempt np;
    e = impl->q.front();
    impl->q.pop_front();
    impl->taken.push_back(e);
  }
  CallOneResult r = run_entry(impl, e);
  if (r == TryAgain) spend(50 * US), sched_yield();
  return r;
}
void CallbackQueue::callAvailable(WallDuration timeout) {
  point();
  QueueImpl* impl = impl_;
  if (!impl->enabled) return;
  if (!wait_nonempty(impl, timeout)) return;
  std::vector<QEntryPtr> mine;
  {
    NoPreempt np;
    mine.assign(impl->q.begin(), impl->q.end());
    impl->q.clear();
    impl->taken.insert(impl->taken.end(), mine.begin(), mine.end());
  }
  bool again = false;
  for (auto& e : mine) {
    point();
    if (run_entry(impl, e) == TryAgain) again = true;
  }
  if (again) { spend(50 * US); sched_yield(); }
}

// ------------------------------------------------------------------ spinners
struct AsyncSpinner::Impl {
  uint32_t n;
  CallbackQueue* q;
  NodeCtx* node;
  bool go = false;
  std::vector<Fiber*> th;
  Impl(uint32_t n_, CallbackQueue* q_) : n(n_ ? n_ : 4), q(q_), node(here()) { if (!q) q = node->global; }
  ~Impl() { stop(); }
  void start() {
    if (go) return;
    go = true;
    for (uint32_t i = 0; i < n; i++)
      th.push_back(spawn([this]() {
        while (go && node->ok) {
          if (n == 1) q->callAvailable(WallDuration(0.1));
          else q->callOne(WallDuration(0.1));
        }
      }, "spinner" + std::to_string(i), node));
  }
  void stop() {
    if (!go) return;
    go = false;
    if (in_fiber()) for (Fiber* f : th) if (f != cur()) join(f);
    th.clear();
  }
};
AsyncSpinner::AsyncSpinner(uint32_t n) : impl_(new Impl(n, nullptr)) {}
AsyncSpinner::AsyncSpinner(uint32_t n, CallbackQueue* q) : impl_(new Impl(n, q)) {}
void AsyncSpinner::start() { impl_->start(); point(); }
void AsyncSpinner::stop() { impl_->stop(); }
void SingleThreadedSpinner::spin(CallbackQueue* q) {
  NodeCtx* n = here();
  if (!q) q = n->global;
  while (n->ok) q->callAvailable(WallDuration(0.1));
}
void MultiThreadedSpinner::spin(CallbackQueue* q) {
  AsyncSpinner s(n_, q);
  s.start();
  waitForShutdown();
}
void waitForShutdown() { NodeCtx* n = here(); while (n->ok) wait_key(&g_shutdown_key, now() + 100 * MS); }
void spin() { SingleThreadedSpinner s; s.spin(); }
void spin(Spinner& s) { s.spin(); }
void spinOnce() { here()->global->callAvailable(WallDuration()); }
CallbackQueue* getGlobalCallbackQueue() { return here()->global; }
bool ok() { point(); return here()->ok; }
bool isShuttingDown() { return !here()->ok; }
bool isInitialized() { return true; }
bool isStarted() { return true; }
void start() {}
void shutdown() { node_shutdown(here()); }
void requestShutdown() { node_shutdown(here()); }
void init(int&, char**, const std::string&, uint32_t) {}
void init(const M_string&, const std::string&, uint32_t) {}
namespace this_node {
const std::string& getName() { return here()->name; }
const std::string& getNamespace() { static const std::string s = "/"; return s; }
}
namespace names {
const M_string& getRemappings() { static M_string m; return m; }
std::string resolve(const std::string& n, bool) { return NodeHandle().resolveName(n); }
}

// ------------------------------------------------------------------ time
Time Time::now() { point(); Time t; t.fromNSec(static_cast<uint64_t>(sim::now())); return t; }
WallTime WallTime::now() { point(); WallTime t; t.fromNSec(static_cast<uint64_t>(sim::now())); return t; }
bool Duration::sleep() const { NodeCtx* n = here(); if (toNSec() > 0) sleep_until(sim::now() + toNSec()); return n->ok; }
bool WallDuration::sleep() const { if (toNSec() > 0) sleep_until(sim::now() + toNSec()); return true; }
bool Time::sleepUntil(const Time& e) { sleep_until(static_cast<ns_t>(e.toNSec())); return true; }
bool WallTime::sleepUntil(const WallTime& e) { sleep_until(static_cast<ns_t>(e.toNSec())); return true; }
bool Rate::sleep() {
  Time expected_end = start_ + expected_;
  Time n = Time::now();
  Duration d = expected_end - n;
  actual_ = n - start_;
  start_ = expected_end;
  if (d <= Duration(0.0)) {
    if (n > expected_end + expected_) start_ = n;
    return false;
  }
  return d.sleep();
}

// ------------------------------------------------------------------ names and parameters
NodeHandle::NodeHandle(const std::string& ns, const M_string&) {
  if (ns.empty()) ns_ = "/";
  else if (ns[0] == '~') ns_ = here()->name + (ns.size() > 1 ? (ns[1] == '/' ? ns.substr(1) : "/" + ns.substr(1)) : "");
  else ns_ = ns[0] == '/' ? ns : "/" + ns;
}
NodeHandle::NodeHandle(const NodeHandle& p, const std::string& ns) : queue_(p.queue_) { ns_ = p.resolveName(ns); }
std::string NodeHandle::resolveName(const std::string& n, bool) const {
  if (n.empty()) return ns_;
  if (n[0] == '/') return n;
  if (n[0] == '~') return here()->name + "/" + n.substr(1);
  return ns_ == "/" ? "/" + n : ns_ + "/" + n;
}
CallbackQueueInterface* NodeHandle::getCallbackQueue() const { return queue_ ? queue_ : here()->global; }
bool NodeHandle::ok() const { return here()->ok; }
typedef XmlRpc::XmlRpcValue PV;
static PV* find(const NodeHandle& nh, const std::string& n) {
  point();
  NoPreempt np;
  auto& m = here()->params;
  auto it = m.find(nh.resolveName(n));
  return it == m.end() ? nullptr : &it->second;
}
static bool num(PV* p) { return p && (p->t == PV::TypeInt || p->t == PV::TypeDouble || p->t == PV::TypeBoolean); }
bool NodeHandle::getParam(const std::string& n, std::string& v) const { PV* p = find(*this, n); if (!p || p->t != PV::TypeString) return false; v = p->s; return true; }
bool NodeHandle::getParam(const std::string& n, double& v) const { PV* p = find(*this, n); if (!num(p)) return false; v = p->d; return true; }
bool NodeHandle::getParam(const std::string& n, float& v) const { PV* p = find(*this, n); if (!num(p)) return false; v = static_cast<float>(p->d); return true; }
bool NodeHandle::getParam(const std::string& n, int& v) const { PV* p = find(*this, n); if (!num(p)) return false; v = static_cast<int>(p->d); return true; }
bool NodeHandle::getParam(const std::string& n, bool& v) const { PV* p = find(*this, n); if (!num(p)) return false; v = p->d != 0; return true; }
bool NodeHandle::getParam(const std::string& n, std::vector<std::string>& v) const { PV* p = find(*this, n); if (!p || p->t != PV::TypeArray) return false; v = p->v; return true; }
bool NodeHandle::getParam(const std::string& n, std::vector<double>& v) const { PV* p = find(*this, n); if (!p || p->t != PV::TypeArray) return false; v.clear(); return true; }
bool NodeHandle::hasParam(const std::string& n) const { return find(*this, n) != nullptr; }
static void put(const NodeHandle& nh, const std::string& n, PV::Type t, double d, const std::string& s) { NoPreempt np; PV v; v.t = t; v.d = d; v.s = s; here()->params[nh.resolveName(n)] = v; }
void NodeHandle::setParam(const std::string& n, const std::string& v) const { put(*this, n, PV::TypeString, 0, v); }
void NodeHandle::setParam(const std::string& n, double v) const { put(*this, n, PV::TypeDouble, v, ""); }
void NodeHandle::setParam(const std::string& n, int v) const { put(*this, n, PV::TypeInt, v, ""); }
void NodeHandle::setParam(const std::string& n, bool v) const { put(*this, n, PV::TypeBoolean, v, ""); }
bool NodeHandle::deleteParam(const std::string& n) const { NoPreempt np; return here()->params.erase(resolveName(n)) > 0; }

}  // namespace ros

// ------------------------------------------------------------------ topics
namespace sim {

struct SubCore {
  uint64_t id;
  std::string topic;
  std::string type;
  uint32_t qsize;
  NodeCtx* node;
  ros::CallbackQueueInterface* queue;
  std::function<void(const AnyMsg&)> fn;
  std::deque<AnyMsg> pending;
  bool valid = true;
  Fiber* running = nullptr;
};
typedef boost::shared_ptr<SubCore> SubCorePtr;
static std::multimap<std::string, SubCorePtr>& subs() { static std::multimap<std::string, SubCorePtr> m; return m; }
static uint64_t g_ids = 1000;

struct SubImpl {
  SubCorePtr c;
  void shutdown() {
    if (!c || !c->valid) return;
    {
      NoPreempt np;
      c->valid = false;
      for (auto it = subs().begin(); it != subs().end();) if (it->second == c) it = subs().erase(it); else ++it;
    }
    if (active()) c->queue->removeByID(c->id);
  }
  ~SubImpl() { shutdown(); }
};
struct SubCb : public ros::CallbackInterface {
  SubCorePtr c;
  explicit SubCb(const SubCorePtr& c_) : c(c_) {}
  CallResult call() override {
    AnyMsg m;
    {
      NoPreempt np;
      if (c->running) return TryAgain;
      if (!c->valid || c->pending.empty()) return Invalid;
      m = c->pending.front();
      c->pending.pop_front();
      c->running = cur();
      race_acquire(c.get());
      race_acquire(m.get());
      env().delivered++;
      if (tracing()) tracef("  > %s", c->topic.c_str());
      if (env().on_callback) env().on_callback(c->topic, c->node, m, true);
    }
    c->fn(m);
    NoPreempt np;
    race_release(c.get());
    if (env().on_callback) env().on_callback(c->topic, c->node, m, false);
    c->running = nullptr;
    return Success;
  }
};
static std::string norm(const std::string& t) { return !t.empty() && t[0] == '/' ? t.substr(1) : t; }

static void arrive(const SubCorePtr& c, const AnyMsg& m) {
  if (!c->valid || !c->node->ok) return;
  if (c->qsize > 0 && c->pending.size() >= c->qsize) { c->pending.pop_front(); env().overflowed++; }
  c->pending.push_back(m);
  c->queue->addCallback(ros::CallbackInterfacePtr(new SubCb(c)), c->id);
}

static std::map<std::pair<std::string, uint64_t>, ns_t>& last_arrival() { static std::map<std::pair<std::string, uint64_t>, ns_t> m; return m; }

static void transport(const std::string& topic, const AnyMsg& m, NodeCtx* only) {
  Env& e = env();
  auto ft = e.topic.find(topic);
  const NetFault& f = ft == e.topic.end() ? e.def : ft->second;
  auto r = subs().equal_range(topic);
  for (auto it = r.first; it != r.second; ++it) {
    SubCorePtr c = it->second;
    if (only && c->node != only) continue;
    if (f.drop > 0 && e.rng.chance(f.drop)) { e.dropped++; continue; }
    int copies = 1;
    if (f.dup > 0 && e.rng.chance(f.dup)) { copies = 2; e.duplicated++; }
    for (int k = 0; k < copies; k++) {
      ns_t lat = f.lat_min + static_cast<ns_t>(e.rng.uni() * static_cast<double>(f.lat_max - f.lat_min));
      ns_t t = now() + lat;
      ns_t& last = last_arrival()[std::make_pair(topic, c->id)];
      if (f.reorder > 0 && e.rng.chance(f.reorder)) { t += static_cast<ns_t>(e.rng.uni() * 200 * MS); e.reordered++; }
      else if (t <= last) t = last + 1;  // a stream transport keeps order
      if (t > last) last = t;
      at(t, [c, m]() { arrive(c, m); });
    }
  }
}
void inject(const std::string& topic, const AnyMsg& m, NodeCtx* only) { transport(norm(topic), m, only); }
bool has_subscriber(const std::string& topic) { return subs().count(norm(topic)) > 0; }

struct PubImpl {
  std::string topic;
  NodeCtx* node;
  uint32_t seq = 0;
  bool valid = true;
};

struct FnCb : public ros::CallbackInterface {
  std::function<void()> f;
  explicit FnCb(const std::function<void()>& f_) : f(f_) {}
  CallResult call() override { f(); return Success; }
};
void queue_call(ros::CallbackQueueInterface* q, const std::function<void()>& fn) { q->addCallback(ros::CallbackInterfacePtr(new FnCb(fn)), 0); }

// ------------------------------------------------------------------ timers
struct TimerCore : public boost::enable_shared_from_this<TimerCore> {
  uint64_t id;
  ros::TimerOptions o;
  ros::CallbackQueueInterface* q;
  NodeCtx* node;
  bool started = false;
  uint64_t gen = 0;
  ros::Time next, last_expected, last_real;
  void arm();
};
typedef boost::shared_ptr<TimerCore> TimerCorePtr;
struct TimerCb : public ros::CallbackInterface {
  TimerCorePtr c;
  uint64_t gen;
  TimerCb(const TimerCorePtr& c_, uint64_t g) : c(c_), gen(g) {}
  CallResult call() override {
    if (!c->started || c->gen != gen) return Invalid;
    ros::TimerEvent e;
    ros::Time t;
    t.fromNSec(static_cast<uint64_t>(now()));
    e.last_expected = c->last_expected;
    e.last_real = c->last_real;
    e.current_expected = c->next;
    e.current_real = t;
    env().timer_calls++;
    race_acquire(c.get());
    c->o.callback(e);
    race_release(c.get());
    NoPreempt np;
    if (!c->started || c->gen != gen) return Success;
    c->last_real = t;
    if (c->o.oneshot) { c->started = false; return Success; }
    ros::Time cur;
    cur.fromNSec(static_cast<uint64_t>(now()));
    if (c->next <= cur) {
      c->last_expected = c->next;
      c->next += c->o.period;
    }
    if (c->next + c->o.period < cur) c->next = cur;
    c->arm();
    return Success;
  }
};
void TimerCore::arm() {
  TimerCorePtr self = shared_from_this();
  uint64_t g = gen;
  at(static_cast<ns_t>(next.toNSec()) + static_cast<ns_t>(env().rng.below(300)) * US, [self, g]() {
    if (!self->started || self->gen != g || !self->node->ok) return;
    self->q->addCallback(ros::CallbackInterfacePtr(new TimerCb(self, g)), self->id);
  });
}
struct TimerImpl {
  TimerCorePtr c;
  void start() {
    NoPreempt np;
    if (c->started) return;
    c->started = true;
    c->gen++;
    c->next.fromNSec(static_cast<uint64_t>(now() + c->o.period.toNSec()));
    c->arm();
  }
  void stop() {
    {
      NoPreempt np;
      if (!c->started) return;
      c->started = false;
      c->gen++;
    }
    if (active()) c->q->removeByID(c->id);
  }
  ~TimerImpl() { stop(); }
};

struct CliImpl { std::string name; NodeCtx* node; bool valid = true; };

}  // namespace sim

void (*sim::on_publication)(const std::string&, uint64_t) = nullptr;
namespace ros {

Publisher NodeHandle::adv(const std::string& topic, uint32_t, bool, const char*) {
  point();
  NoPreempt np;
  Publisher p;
  p.impl_.reset(new PubImpl());
  p.impl_->topic = norm(resolveName(topic));
  p.impl_->node = here();
  return p;
}
void Publisher::send(const boost::shared_ptr<void>& m, uint64_t hash, void (*seq)(void*, uint32_t)) const {
  point();
  NoPreempt np;
  if (!impl_->valid || !impl_->node->ok) return;
  seq(m.get(), impl_->seq++);
  trace(impl_->topic.c_str(), hash ^ static_cast<uint64_t>(sim::now()));
  env().published++;
  if (sim::on_publication) sim::on_publication(impl_->topic, hash);
  AnyMsg c = m;
  race_reset(m.get());
  race_release(m.get());
  if (env().on_publish) env().on_publish(impl_->topic, impl_->node, c);
  transport(impl_->topic, c, nullptr);
}
void Publisher::shutdown() { if (impl_) impl_->valid = false; }
std::string Publisher::getTopic() const { return impl_ ? "/" + impl_->topic : ""; }
uint32_t Publisher::getNumSubscribers() const { return impl_ ? 1 + static_cast<uint32_t>(subs().count(impl_->topic)) : 0; }

Subscriber NodeHandle::sub(const std::string& topic, uint32_t q, const std::function<void(const AnyMsg&)>& f, const char* type) {
  point();
  NoPreempt np;
  Subscriber s;
  s.impl_.reset(new SubImpl());
  SubCorePtr c(new SubCore());
  c->id = ++g_ids;
  c->topic = norm(resolveName(topic));
  c->type = type;
  c->qsize = q;
  c->node = here();
  c->queue = getCallbackQueue();
  c->fn = f;
  s.impl_->c = c;
  subs().insert(std::make_pair(c->topic, c));
  return s;
}
void Subscriber::shutdown() { if (impl_) impl_->shutdown(); }
std::string Subscriber::getTopic() const { return impl_ ? "/" + impl_->c->topic : ""; }

Timer NodeHandle::make_timer(const TimerOptions& o) const {
  point();
  NoPreempt np;
  Timer t;
  t.impl_.reset(new TimerImpl());
  t.impl_->c.reset(new TimerCore());
  t.impl_->c->id = ++g_ids;
  t.impl_->c->o = o;
  t.impl_->c->q = o.callback_queue ? o.callback_queue : getCallbackQueue();
  t.impl_->c->node = here();
  if (o.autostart) t.impl_->start();
  return t;
}
void Timer::start() { if (impl_) impl_->start(); }
void Timer::stop() { if (impl_) impl_->stop(); }
bool Timer::hasPending() { return impl_ && impl_->c->started; }
bool Timer::hasStarted() const { return impl_ && impl_->c->started; }
void Timer::setPeriod(const Duration& p, bool) {
  if (!impl_) return;
  NoPreempt np;
  impl_->c->o.period = p;
  if (impl_->c->started) { impl_->c->gen++; impl_->c->next.fromNSec(static_cast<uint64_t>(sim::now() + p.toNSec())); impl_->c->arm(); }
}

ServiceClient NodeHandle::make_client(const std::string& n) {
  ServiceClient c;
  c.impl_.reset(new CliImpl());
  c.impl_->name = norm(resolveName(n));
  c.impl_->node = here();
  return c;
}
bool ServiceClient::invoke(const void* rq, void* rs, const char*) {
  if (!impl_ || !impl_->valid) return false;
  point();
  NodeCtx* n = impl_->node;
  if (!n->ok) return false;
  env().service_calls++;
  ServiceResult r{false, 0};
  { NoPreempt np; if (env().service) r = env().service(impl_->name, rq, rs); }
  ns_t dl = r.delay < 0 ? -1 : sim::now() + r.delay;
  while (n->ok && (dl < 0 || sim::now() < dl)) wait_key(&g_shutdown_key, dl);
  if (!n->ok) return false;
  return r.ok;
}
void ServiceClient::shutdown() { if (impl_) impl_->valid = false; }
bool ServiceClient::exists() { point(); return true; }
bool ServiceClient::waitForExistence(Duration) { point(); return true; }
std::string ServiceClient::getService() { return impl_ ? impl_->name : ""; }

}  // namespace ros

// ------------------------------------------------------------------ nodelets
namespace nodelet {
static std::map<std::string, Nodelet* (*)()>& reg() { static std::map<std::string, Nodelet* (*)()> m; return m; }
Registrar::Registrar(const char* t, Nodelet* (*mk)()) {
  std::string s = t;
  size_t p = s.rfind("::");
  reg()[p == std::string::npos ? s : s.substr(p + 2)] = mk;
}
Nodelet* create_registered(const std::string& t) {
  size_t p = t.rfind('/');
  auto it = reg().find(p == std::string::npos ? t : t.substr(p + 1));
  return it == reg().end() ? nullptr : it->second();
}
struct Loader::Impl {
  struct Item { Nodelet* n; ros::CallbackQueue* q; ros::AsyncSpinner* sp; };
  std::map<std::string, Item> m;
};
Loader::Loader(bool) : impl_(new Impl()) {}
Loader::~Loader() { clear(); delete impl_; }
bool Loader::load(const std::string& name, const std::string& type, const M_string& remap, const V_string& argv) {
  Nodelet* n = create_registered(type);
  if (!n) return false;
  Impl::Item it;
  it.n = n;
  it.q = new ros::CallbackQueue();
  it.sp = new ros::AsyncSpinner(1, it.q);
  it.sp->start();
  impl_->m[name] = it;
  n->init(name, remap, argv, it.q);
  return true;
}
bool Loader::unload(const std::string& name) {
  auto i = impl_->m.find(name);
  if (i == impl_->m.end()) return false;
  Impl::Item it = i->second;
  impl_->m.erase(i);
  delete it.n;
  it.sp->stop();
  delete it.sp;
  delete it.q;
  return true;
}
bool Loader::clear() { while (!impl_->m.empty()) unload(impl_->m.begin()->first); return true; }
}  // namespace nodelet

// ------------------------------------------------------------------ dynamic reconfigure registry
namespace sim {
std::vector<DynRecBase*>& dynrec_servers() { static std::vector<DynRecBase*> v; return v; }
void dynrec_register(DynRecBase* s) { dynrec_servers().push_back(s); }
void dynrec_unregister(DynRecBase* s) { auto& v = dynrec_servers(); v.erase(std::remove(v.begin(), v.end(), s), v.end()); }

// ------------------------------------------------------------------ tf
struct TfEdge {
  std::string parent;
  bool is_static = false;
  tf::Transform st;
  std::deque<std::pair<uint64_t, tf::Transform>> h;
};
static std::map<std::string, TfEdge>& tft() { static std::map<std::string, TfEdge> m; return m; }
static std::string fr(const std::string& f) { return !f.empty() && f[0] == '/' ? f.substr(1) : f; }
void tf_publish(const std::string& parent, const std::string& child, const tf::Transform& t, const ros::Time& stamp) {
  TfEdge& e = tft()[fr(child)];
  e.parent = fr(parent);
  uint64_t s = stamp.toNSec();
  auto it = e.h.end();
  while (it != e.h.begin() && (it - 1)->first > s) --it;
  if (it != e.h.begin() && (it - 1)->first == s) { (it - 1)->second = t; return; }
  e.h.insert(it, std::make_pair(s, t));
  while (e.h.size() > 1 && e.h.back().first - e.h.front().first > 10000000000ULL) e.h.pop_front();
}
void tf_static(const std::string& parent, const std::string& child, const tf::Transform& t) {
  TfEdge& e = tft()[fr(child)];
  e.parent = fr(parent);
  e.is_static = true;
  e.st = t;
}
void tf_forget(const std::string& child) { tft().erase(fr(child)); }

static bool chain(const std::string& f, std::vector<std::string>& c) {
  std::string x = fr(f);
  for (int i = 0; i < 32; i++) {
    c.push_back(x);
    auto it = tft().find(x);
    if (it == tft().end()) return true;
    x = it->second.parent;
  }
  return false;
}
static bool known(const std::string& f) {
  std::string x = fr(f);
  if (tft().count(x)) return true;
  for (auto& e : tft()) if (e.second.parent == x) return true;
  return false;
}
// 0 ok, 1 lookup, 2 connectivity, 3 extrapolation
static int latest(const std::string& a, const std::string& b, std::vector<std::string>& ca, std::vector<std::string>& cb, uint64_t& t, bool& any) {
  if (!known(a) || !known(b)) { if (fr(a) != fr(b)) return 1; }
  chain(a, ca);
  chain(b, cb);
  if (ca.back() != cb.back()) return 2;
  while (ca.size() > 1 && cb.size() > 1 && ca[ca.size() - 2] == cb[cb.size() - 2]) { ca.pop_back(); cb.pop_back(); }
  t = UINT64_MAX;
  any = false;
  for (auto* c : {&ca, &cb})
    for (size_t i = 0; i + 1 < c->size(); i++) {
      TfEdge& e = tft()[(*c)[i]];
      if (e.is_static) continue;
      any = true;
      if (e.h.empty()) return 2;
      t = std::min(t, e.h.back().first);
    }
  return 0;
}
static int sample(const TfEdge& e, uint64_t t, tf::Transform& out) {
  if (e.is_static) { out = e.st; return 0; }
  if (e.h.empty()) return 2;
  if (t > e.h.back().first || t < e.h.front().first) return 3;
  for (size_t i = e.h.size(); i-- > 0;) {
    if (e.h[i].first == t) { out = e.h[i].second; return 0; }
    if (e.h[i].first < t) {
      double r = static_cast<double>(t - e.h[i].first) / static_cast<double>(e.h[i + 1].first - e.h[i].first);
      const tf::Transform &a = e.h[i].second, &b = e.h[i + 1].second;
      out = tf::Transform(a.getRotation().slerp(b.getRotation(), r), a.getOrigin() * (1 - r) + b.getOrigin() * r);
      return 0;
    }
  }
  return 3;
}
static int lookup(const std::string& target, const std::string& source, const ros::Time& time, tf::StampedTransform& out) {
  std::vector<std::string> ct, cs;
  uint64_t t;
  bool any;
  int r = latest(target, source, ct, cs, t, any);
  if (r) return r;
  uint64_t q = time.isZero() ? (any ? t : static_cast<uint64_t>(now())) : time.toNSec();
  tf::Transform a, b;  // root <- target, root <- source
  tf::Transform x;
  for (size_t i = ct.size() - 1; i-- > 0;) { r = sample(tft()[ct[i]], q, x); if (r) return r; a = a * x; }
  for (size_t i = cs.size() - 1; i-- > 0;) { r = sample(tft()[cs[i]], q, x); if (r) return r; b = b * x; }
  ros::Time st;
  st.fromNSec(q);
  out.setData(a.inverse() * b);
  out.stamp_ = st;
  out.frame_id_ = target;
  out.child_frame_id_ = source;
  return 0;
}
}  // namespace sim

namespace tf {
bool Transformer::canTransform(const std::string& target, const std::string& source, const ros::Time& t, std::string*) const {
  point();
  NoPreempt np;
  StampedTransform o;
  return sim::lookup(target, source, t, o) == 0;
}
void Transformer::lookupTransform(const std::string& target, const std::string& source, const ros::Time& t, StampedTransform& out) const {
  point();
  int r;
  { NoPreempt np; r = sim::lookup(target, source, t, out); }
  if (r == 1) throw LookupException("frame does not exist: " + target + " / " + source);
  if (r == 2) throw ConnectivityException("no connection between " + target + " and " + source);
  if (r == 3) throw ExtrapolationException("lookup would require extrapolation");
}
bool Transformer::waitForTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration& timeout, const ros::Duration& poll, std::string*) const {
  ns_t dl = sim::now() + timeout.toNSec();
  for (;;) {
    if (canTransform(target, source, t)) return true;
    if (sim::now() >= dl || !here()->ok) return false;
    sleep_until(std::min(dl, sim::now() + std::max<int64_t>(poll.toNSec(), MS)));
  }
}
int Transformer::getLatestCommonTime(const std::string& target, const std::string& source, ros::Time& t, std::string*) const {
  NoPreempt np;
  std::vector<std::string> a, b;
  uint64_t v;
  bool any;
  int r = sim::latest(target, source, a, b, v, any);
  if (r) return r;
  t.fromNSec(any ? v : 0);
  return 0;
}
bool Transformer::frameExists(const std::string& f) const { NoPreempt np; return sim::known(f); }
void Transformer::transformPose(const std::string& target, const geometry_msgs::PoseStamped& in, geometry_msgs::PoseStamped& out) const {
  StampedTransform t;
  lookupTransform(target, in.header.frame_id, in.header.stamp, t);
  Transform p;
  poseMsgToTF(in.pose, p);
  std_msgs::Header h = in.header;
  poseTFToMsg(t * p, out.pose);
  out.header = h;
  out.header.frame_id = target;
}
void Transformer::transformPoint(const std::string& target, const geometry_msgs::PointStamped& in, geometry_msgs::PointStamped& out) const {
  StampedTransform t;
  lookupTransform(target, in.header.frame_id, in.header.stamp, t);
  Vector3 v;
  pointMsgToTF(in.point, v);
  std_msgs::Header h = in.header;
  pointTFToMsg(t * v, out.point);
  out.header = h;
  out.header.frame_id = target;
}
void Transformer::transformVector(const std::string& target, const geometry_msgs::Vector3Stamped& in, geometry_msgs::Vector3Stamped& out) const {
  StampedTransform t;
  lookupTransform(target, in.header.frame_id, in.header.stamp, t);
  Vector3 v;
  vector3MsgToTF(in.vector, v);
  std_msgs::Header h = in.header;
  vector3TFToMsg(t.getBasis() * v, out.vector);
  out.header = h;
  out.header.frame_id = target;
}
void Transformer::transformVector(const std::string& target, const ros::Time& t, const geometry_msgs::Vector3Stamped& in, const std::string& fixed, geometry_msgs::Vector3Stamped& out) const {
  StampedTransform a, b;
  lookupTransform(fixed, in.header.frame_id, in.header.stamp, a);
  lookupTransform(target, fixed, t, b);
  Vector3 v;
  vector3MsgToTF(in.vector, v);
  std_msgs::Header h = in.header;
  vector3TFToMsg(b.getBasis() * (a.getBasis() * v), out.vector);
  out.header = h;
  out.header.stamp = t;
  out.header.frame_id = target;
}
}  // namespace tf

namespace pcl {
void read_fields(const sensor_msgs::PointCloud2& m, int off[4]) {
  for (int i = 0; i < 4; i++) off[i] = -1;
  const char* n[] = {"x", "y", "z", "intensity"};
  for (auto& f : m.fields)
    for (int i = 0; i < 4; i++)
      if (f.name == n[i] && f.datatype == 7 && f.offset + 4 <= m.point_step) off[i] = static_cast<int>(f.offset);
}
}
namespace pcl_ros {
void transformPointCloud(const std::string& target, const tf::Transform& t, const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out) {
  out = in;
  out.header.frame_id = target;
  int off[4];
  pcl::read_fields(in, off);
  if (off[0] < 0 || off[1] < 0 || off[2] < 0) return;
  for (size_t r = 0; r < in.height; r++)
    for (size_t i = 0; i < in.width; i++) {
      uint8_t* b = out.data.data() + r * in.row_step + i * in.point_step;
      float x, y, z;
      memcpy(&x, b + off[0], 4); memcpy(&y, b + off[1], 4); memcpy(&z, b + off[2], 4);
      tf::Vector3 v = t * tf::Vector3(x, y, z);
      x = v.x(); y = v.y(); z = v.z();
      memcpy(b + off[0], &x, 4); memcpy(b + off[1], &y, 4); memcpy(b + off[2], &z, 4);
    }
}
bool transformPointCloud(const std::string& target, const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out, const tf::TransformListener& l) {
  if (in.header.frame_id == target) { out = in; return true; }
  tf::StampedTransform t;
  try { l.lookupTransform(target, in.header.frame_id, in.header.stamp, t); } catch (tf::TransformException&) { return false; }
  transformPointCloud(target, t, in, out);
  return true;
}
}
namespace octomap_msgs {
// simulated wire format: 16 bytes per voxel: float x y z logodds; a message whose size is not a multiple is undecodable
octomap::AbstractOcTree* fullMsgToMap(const Octomap& m) {
  if (m.id == "ColorOcTree") return new octomap::ColorOcTree();
  if (m.id != "OcTree" || !(m.resolution > 0) || m.data.size() % 16) return nullptr;
  octomap::OcTree* t = new octomap::OcTree(m.resolution);
  for (size_t i = 0; i + 16 <= m.data.size(); i += 16) {
    float v[4];
    memcpy(v, &m.data[i], 16);
    t->put(v[0], v[1], v[2], v[3]);
  }
  return t;
}
octomap::AbstractOcTree* msgToMap(const Octomap& m) { return fullMsgToMap(m); }
octomap::AbstractOcTree* binaryMsgToMap(const Octomap& m) { return fullMsgToMap(m); }
}
