// Simulated ROS 1 client library: same API and callback/threading semantics as roscpp, with the transport, the
// clock, the parameter server and the services owned by the simulator.
#ifndef SIM_SIMROS_H
#define SIM_SIMROS_H
#include <sim/core.h>
#include <sim/msg_base.h>
#include <sim/time.h>
#include <stdarg.h>
#include <stdio.h>
#include <boost/bind.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <boost/function.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/weak_ptr.hpp>
#include <cassert>
#include <ctime>
#include <mutex>
#include <thread>
#include <algorithm>
#include <cfloat>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>

namespace std_msgs { struct Header; }

namespace sim {
typedef boost::shared_ptr<const void> AnyMsg;
struct SubImpl;
struct TimerImpl;
struct PubImpl;
struct QueueImpl;
struct CliImpl;
template <class M, class = void>
struct HasHeader : std::false_type {};
template <class M>
struct HasHeader<M, decltype((void)std::declval<M>().header.seq)> : std::true_type {};
template <class M>
inline typename std::enable_if<HasHeader<M>::value>::type set_seq(M& m, uint32_t s) { m.header.seq = s; }
template <class M>
inline typename std::enable_if<!HasHeader<M>::value>::type set_seq(M&, uint32_t) {}
template <class M>
uint64_t msg_hash(const M& m) { MsgHash h; m.sim_hash(h); return h.h; }
void log_line(int level, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void log_str(int level, const std::string& s);
}  // namespace sim

namespace ros {

class CallbackQueueInterface;
class CallbackInterface {
 public:
  enum CallResult { Success, TryAgain, Invalid };
  virtual ~CallbackInterface() {}
  virtual CallResult call() = 0;
  virtual bool ready() { return true; }
};
typedef boost::shared_ptr<CallbackInterface> CallbackInterfacePtr;

class CallbackQueueInterface {
 public:
  virtual ~CallbackQueueInterface() {}
  virtual void addCallback(const CallbackInterfacePtr& cb, uint64_t owner_id = 0) = 0;
  virtual void removeByID(uint64_t owner_id) = 0;
};

class CallbackQueue : public CallbackQueueInterface {
 public:
  CallbackQueue(bool enabled = true);
  virtual ~CallbackQueue();
  void addCallback(const CallbackInterfacePtr& cb, uint64_t owner_id = 0) override;
  void removeByID(uint64_t owner_id) override;
  enum CallOneResult { Called, TryAgain, Disabled, Empty };
  CallOneResult callOne() { return callOne(WallDuration()); }
  CallOneResult callOne(WallDuration timeout);
  void callAvailable() { callAvailable(WallDuration()); }
  void callAvailable(WallDuration timeout);
  bool empty();
  bool isEmpty() { return empty(); }
  void clear();
  void enable();
  void disable();
  bool isEnabled();

 private:
  CallbackQueue(const CallbackQueue&);
  CallbackQueue& operator=(const CallbackQueue&);
  sim::QueueImpl* impl_;  // freed by the destructor: a late user is a use-after-free the run reports
};
typedef boost::shared_ptr<CallbackQueue> CallbackQueuePtr;

class Spinner {
 public:
  virtual ~Spinner() {}
  virtual void spin(CallbackQueue* queue = nullptr) = 0;
};
class SingleThreadedSpinner : public Spinner {
 public:
  void spin(CallbackQueue* queue = nullptr) override;
};
class MultiThreadedSpinner : public Spinner {
 public:
  explicit MultiThreadedSpinner(uint32_t n = 0) : n_(n) {}
  void spin(CallbackQueue* queue = nullptr) override;
 private:
  uint32_t n_;
};
class AsyncSpinner {
 public:
  explicit AsyncSpinner(uint32_t n);
  AsyncSpinner(uint32_t n, CallbackQueue* queue);
  bool canStart() { return true; }
  void start();
  void stop();
  struct Impl;
 private:
  boost::shared_ptr<Impl> impl_;
};

struct TransportHints {
  TransportHints& tcpNoDelay(bool = true) { return *this; }
  TransportHints& reliable() { return *this; }
  TransportHints& unreliable() { return *this; }
  TransportHints& tcp() { return *this; }
  TransportHints& udp() { return *this; }
};

struct TimerEvent {
  Time last_expected, last_real, current_expected, current_real;
  struct { WallDuration last_duration; } profile;
};
typedef TimerEvent WallTimerEvent;
typedef boost::function<void(const TimerEvent&)> TimerCallback;
struct TimerOptions {
  TimerOptions() : callback_queue(nullptr), oneshot(false), autostart(true) {}
  TimerOptions(Duration p, const TimerCallback& cb, CallbackQueueInterface* q, bool os = false, bool as = true)
      : period(p), callback(cb), callback_queue(q), oneshot(os), autostart(as) {}
  Duration period;
  TimerCallback callback;
  CallbackQueueInterface* callback_queue;
  boost::shared_ptr<void const> tracked_object;
  bool oneshot, autostart;
};
class Timer {
 public:
  void start();
  void stop();
  bool hasPending();
  void setPeriod(const Duration& p, bool reset = true);
  bool hasStarted() const;
  bool isValid() { return impl_ != nullptr; }
  operator void*() { return impl_ ? reinterpret_cast<void*>(1) : nullptr; }
  boost::shared_ptr<sim::TimerImpl> impl_;
};
typedef Timer WallTimer;
typedef Timer SteadyTimer;

class Publisher {
 public:
  template <class M>
  void publish(const M& m) const {
    if (!impl_) return;  // roscpp asserts in debug builds only
    boost::shared_ptr<M> c(new M(m));
    send(c, sim::msg_hash(*c), &Publisher::stamp<M>);
  }
  template <class M>
  void publish(const boost::shared_ptr<M>& m) const {
    if (!impl_ || !m) return;
    typedef typename std::remove_const<M>::type MM;
    boost::shared_ptr<MM> c(new MM(*m));
    send(c, sim::msg_hash(*c), &Publisher::stamp<MM>);
  }
  void shutdown();
  std::string getTopic() const;
  uint32_t getNumSubscribers() const;
  bool isLatched() const { return false; }
  operator void*() const { return impl_ ? reinterpret_cast<void*>(1) : nullptr; }
  boost::shared_ptr<sim::PubImpl> impl_;

 private:
  template <class M>
  static void stamp(void* m, uint32_t seq) { sim::set_seq(*static_cast<M*>(m), seq); }
  void send(const boost::shared_ptr<void>& m, uint64_t hash, void (*seq)(void*, uint32_t)) const;
};

class Subscriber {
 public:
  void shutdown();
  std::string getTopic() const;
  uint32_t getNumPublishers() const { return 1; }
  operator void*() const { return impl_ ? reinterpret_cast<void*>(1) : nullptr; }
  boost::shared_ptr<sim::SubImpl> impl_;
};

template <class M>
class MessageEvent {
 public:
  typedef typename std::remove_const<M>::type Message;
  MessageEvent(const boost::shared_ptr<Message const>& m) : m_(m) {}
  boost::shared_ptr<Message const> getMessage() const { return m_; }
  boost::shared_ptr<Message const> getConstMessage() const { return m_; }
  Time getReceiptTime() const { return Time::now(); }
 private:
  boost::shared_ptr<Message const> m_;
};

class ServiceClient {
 public:
  template <class S>
  auto call(S& srv) -> decltype(srv.request, srv.response, bool()) { return call(srv.request, srv.response); }
  template <class Rq, class Rs>
  bool call(Rq& rq, Rs& rs) { return invoke(&rq, &rs, typeid(Rq).name()); }
  void shutdown();
  bool exists();
  bool waitForExistence(Duration timeout = Duration(-1.0));
  bool isValid() const { return impl_ != nullptr; }
  bool isPersistent() const { return false; }
  std::string getService();
  operator void*() const { return impl_ ? reinterpret_cast<void*>(1) : nullptr; }
  boost::shared_ptr<sim::CliImpl> impl_;

 private:
  bool invoke(const void* rq, void* rs, const char* type);
};
class ServiceServer {
 public:
  void shutdown() {}
};

}  // namespace ros

namespace XmlRpc {
class XmlRpcValue {
 public:
  enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeArray };
  Type t = TypeInvalid;
  double d = 0;
  std::string s;
  std::vector<std::string> v;
};
}  // namespace XmlRpc

namespace sim {
template <class P>
struct ParamAdapter;  // converts a stored shared_ptr<const void> into the callback's parameter
template <class M>
struct ParamAdapter<const boost::shared_ptr<M>&> {
  typedef typename std::remove_const<M>::type Msg;
  static boost::shared_ptr<M> get(const boost::shared_ptr<Msg const>& m) { return conv(m, static_cast<M*>(nullptr)); }
  static boost::shared_ptr<Msg const> conv(const boost::shared_ptr<Msg const>& m, Msg const*) { return m; }
  static boost::shared_ptr<Msg> conv(const boost::shared_ptr<Msg const>& m, Msg*) { return boost::shared_ptr<Msg>(new Msg(*m)); }
};
template <class M>
struct ParamAdapter<boost::shared_ptr<M>> : ParamAdapter<const boost::shared_ptr<M>&> {};
template <class M>
struct ParamAdapter<const M&> {
  typedef M Msg;
  static const M& get(const boost::shared_ptr<M const>& m) { return *m; }
};
template <class M>
struct ParamAdapter<const ros::MessageEvent<M>&> {
  typedef typename std::remove_const<M>::type Msg;
  static ros::MessageEvent<M> get(const boost::shared_ptr<Msg const>& m) { return ros::MessageEvent<M>(m); }
};
template <class M>
struct ParamAdapter : ParamAdapter<const M&> {};
struct FirstArg {
  template <class R, class P>
  static P of(R (*)(P));
};
}  // namespace sim

namespace ros {
typedef std::map<std::string, std::string> M_string;
typedef std::vector<std::string> V_string;

class NodeHandle {
 public:
  NodeHandle(const std::string& ns = std::string(), const M_string& remap = M_string());
  NodeHandle(const NodeHandle& o) = default;
  NodeHandle(const NodeHandle& parent, const std::string& ns);
  NodeHandle& operator=(const NodeHandle& o) = default;
  void setCallbackQueue(CallbackQueueInterface* q) { queue_ = q; }
  CallbackQueueInterface* getCallbackQueue() const;
  const std::string& getNamespace() const { return ns_; }
  std::string resolveName(const std::string& n, bool remap = true) const;
  bool ok() const;
  void shutdown() {}

  template <class M>
  Publisher advertise(const std::string& topic, uint32_t q, bool latch = false) { return adv(topic, q, latch, M::sim_type()); }

  // --- subscribe overloads
  template <class P, class T>
  Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(P), T* obj, const TransportHints& = TransportHints()) {
    return sub_fn<P>(t, q, [fp, obj](const boost::shared_ptr<typename sim::ParamAdapter<P>::Msg const>& m) { (obj->*fp)(sim::ParamAdapter<P>::get(m)); });
  }
  template <class P, class T>
  Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(P) const, T* obj, const TransportHints& = TransportHints()) {
    return sub_fn<P>(t, q, [fp, obj](const boost::shared_ptr<typename sim::ParamAdapter<P>::Msg const>& m) { (obj->*fp)(sim::ParamAdapter<P>::get(m)); });
  }
  template <class P, class T>
  Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(P), const boost::shared_ptr<T>& obj, const TransportHints& = TransportHints()) {
    return sub_fn<P>(t, q, [fp, obj](const boost::shared_ptr<typename sim::ParamAdapter<P>::Msg const>& m) { (obj.get()->*fp)(sim::ParamAdapter<P>::get(m)); });
  }
  template <class P>
  Subscriber subscribe(const std::string& t, uint32_t q, void (*fp)(P), const TransportHints& = TransportHints()) {
    return sub_fn<P>(t, q, [fp](const boost::shared_ptr<typename sim::ParamAdapter<P>::Msg const>& m) { fp(sim::ParamAdapter<P>::get(m)); });
  }
  template <class M>
  Subscriber subscribe(const std::string& t, uint32_t q, const boost::function<void(const boost::shared_ptr<M const>&)>& cb,
                       const boost::shared_ptr<void const>& = boost::shared_ptr<void const>(), const TransportHints& = TransportHints()) {
    typedef typename std::remove_const<M>::type MM;
    return sub_fn<const MM&>(t, q, [cb](const boost::shared_ptr<MM const>& m) { cb(m); });
  }
  template <class M, class C>
  Subscriber subscribe(const std::string& t, uint32_t q, const boost::function<void(C)>& cb,
                       const boost::shared_ptr<void const>& = boost::shared_ptr<void const>(), const TransportHints& = TransportHints()) {
    typedef typename sim::ParamAdapter<C>::Msg MM;
    return sub_fn<const MM&>(t, q, [cb](const boost::shared_ptr<MM const>& m) { cb(sim::ParamAdapter<C>::get(m)); });
  }

  // --- timers
  template <class T>
  Timer createTimer(Duration p, void (T::*cb)(const TimerEvent&), T* obj, bool oneshot = false, bool autostart = true) {
    return createTimer(TimerOptions(p, boost::bind(cb, obj, boost::placeholders::_1), nullptr, oneshot, autostart));
  }
  template <class T>
  Timer createTimer(Rate r, void (T::*cb)(const TimerEvent&), T* obj, bool oneshot = false, bool autostart = true) {
    return createTimer(r.expectedCycleTime(), cb, obj, oneshot, autostart);
  }
  Timer createTimer(Duration p, const TimerCallback& cb, bool oneshot = false, bool autostart = true) {
    return createTimer(TimerOptions(p, cb, nullptr, oneshot, autostart));
  }
  Timer createTimer(TimerOptions& o) const { return make_timer(o); }
  Timer createTimer(const TimerOptions& o) const { return make_timer(o); }
  template <class T>
  Timer createWallTimer(WallDuration p, void (T::*cb)(const TimerEvent&), T* obj, bool oneshot = false, bool autostart = true) {
    return createTimer(Duration(p.toSec()), cb, obj, oneshot, autostart);
  }

  template <class S>
  ServiceClient serviceClient(const std::string& n, bool = false, const M_string& = M_string()) { return make_client(n); }
  template <class T, class Rq, class Rs>
  ServiceServer advertiseService(const std::string&, bool (T::*)(Rq&, Rs&), T*) { return ServiceServer(); }

  // --- parameters
  template <class T>
  bool param(const std::string& n, T& v, const T& d) const { if (getParam(n, v)) return true; v = d; return false; }
  template <class T>
  T param(const std::string& n, const T& d) const { T v; if (getParam(n, v)) return v; return d; }
  bool getParam(const std::string& n, std::string& v) const;
  bool getParam(const std::string& n, double& v) const;
  bool getParam(const std::string& n, float& v) const;
  bool getParam(const std::string& n, int& v) const;
  bool getParam(const std::string& n, bool& v) const;
  bool getParam(const std::string& n, std::vector<std::string>& v) const;
  bool getParam(const std::string& n, std::vector<double>& v) const;
  template <class T>
  bool getParamCached(const std::string& n, T& v) const { return getParam(n, v); }
  bool hasParam(const std::string& n) const;
  void setParam(const std::string& n, const std::string& v) const;
  void setParam(const std::string& n, const char* v) const { setParam(n, std::string(v)); }
  void setParam(const std::string& n, double v) const;
  void setParam(const std::string& n, int v) const;
  void setParam(const std::string& n, bool v) const;
  bool deleteParam(const std::string& n) const;

  CallbackQueueInterface* queue_ = nullptr;
  std::string ns_;

 private:
  template <class P, class F>
  Subscriber sub_fn(const std::string& t, uint32_t q, const F& f) {
    typedef typename sim::ParamAdapter<P>::Msg MM;
    return sub(t, q, [f](const sim::AnyMsg& m) { f(boost::static_pointer_cast<MM const>(m)); }, MM::sim_type());
  }
  Publisher adv(const std::string& topic, uint32_t q, bool latch, const char* type);
  Subscriber sub(const std::string& topic, uint32_t q, const std::function<void(const sim::AnyMsg&)>& f, const char* type);
  Timer make_timer(const TimerOptions& o) const;
  ServiceClient make_client(const std::string& n);
};

namespace init_options { enum InitOption { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 }; }
void init(int& argc, char** argv, const std::string& name, uint32_t options = 0);
void init(const M_string& remappings, const std::string& name, uint32_t options = 0);
bool isInitialized();
bool isStarted();
bool ok();
void start();
void shutdown();
void requestShutdown();
bool isShuttingDown();
void spin();
void spin(Spinner& s);
void spinOnce();
void waitForShutdown();
CallbackQueue* getGlobalCallbackQueue();
namespace this_node {
const std::string& getName();
const std::string& getNamespace();
}
namespace names {
const M_string& getRemappings();
std::string resolve(const std::string& n, bool = true);
}
namespace master { inline bool check() { return true; } }
namespace param {
template <class T>
inline bool get(const std::string& n, T& v) { return NodeHandle().getParam(n, v); }
template <class T>
inline bool param(const std::string& n, T& v, const T& d) { return NodeHandle().param(n, v, d); }
inline bool has(const std::string& n) { return NodeHandle().hasParam(n); }
template <class T>
inline void set(const std::string& n, const T& v) { NodeHandle().setParam(n, v); }
}
namespace console {
namespace levels { enum Level { Debug, Info, Warn, Error, Fatal, Count }; }
inline bool set_logger_level(const std::string&, levels::Level) { return true; }
inline void notifyLoggerLevelsChanged() {}
}
}  // namespace ros

#define ROSCONSOLE_DEFAULT_NAME "ros.sim"
#define SIM_LOG(l, ...) ::sim::log_line(l, __VA_ARGS__)
#define SIM_LOGS(l, a) do { std::stringstream sim_ss__; sim_ss__ << a; ::sim::log_str(l, sim_ss__.str()); } while (0)
#define ROS_DEBUG(...) SIM_LOG(0, __VA_ARGS__)
#define ROS_INFO(...) SIM_LOG(1, __VA_ARGS__)
#define ROS_WARN(...) SIM_LOG(2, __VA_ARGS__)
#define ROS_ERROR(...) SIM_LOG(3, __VA_ARGS__)
#define ROS_FATAL(...) SIM_LOG(4, __VA_ARGS__)
#define ROS_DEBUG_STREAM(a) SIM_LOGS(0, a)
#define ROS_INFO_STREAM(a) SIM_LOGS(1, a)
#define ROS_WARN_STREAM(a) SIM_LOGS(2, a)
#define ROS_ERROR_STREAM(a) SIM_LOGS(3, a)
#define ROS_FATAL_STREAM(a) SIM_LOGS(4, a)
#define ROS_DEBUG_NAMED(n, ...) SIM_LOG(0, __VA_ARGS__)
#define ROS_INFO_NAMED(n, ...) SIM_LOG(1, __VA_ARGS__)
#define ROS_WARN_NAMED(n, ...) SIM_LOG(2, __VA_ARGS__)
#define ROS_ERROR_NAMED(n, ...) SIM_LOG(3, __VA_ARGS__)
#define ROS_DEBUG_COND(c, ...) do { if (c) SIM_LOG(0, __VA_ARGS__); } while (0)
#define ROS_INFO_COND(c, ...) do { if (c) SIM_LOG(1, __VA_ARGS__); } while (0)
#define ROS_WARN_COND(c, ...) do { if (c) SIM_LOG(2, __VA_ARGS__); } while (0)
#define ROS_ERROR_COND(c, ...) do { if (c) SIM_LOG(3, __VA_ARGS__); } while (0)
#define SIM_ONCE(X) do { static bool sim_hit__ = false; if (!sim_hit__) { sim_hit__ = true; X; } } while (0)
#define ROS_DEBUG_ONCE(...) SIM_ONCE(SIM_LOG(0, __VA_ARGS__))
#define ROS_INFO_ONCE(...) SIM_ONCE(SIM_LOG(1, __VA_ARGS__))
#define ROS_WARN_ONCE(...) SIM_ONCE(SIM_LOG(2, __VA_ARGS__))
#define ROS_ERROR_ONCE(...) SIM_ONCE(SIM_LOG(3, __VA_ARGS__))
#define ROS_DEBUG_STREAM_ONCE(a) SIM_ONCE(SIM_LOGS(0, a))
#define ROS_INFO_STREAM_ONCE(a) SIM_ONCE(SIM_LOGS(1, a))
#define ROS_WARN_STREAM_ONCE(a) SIM_ONCE(SIM_LOGS(2, a))
#define ROS_ERROR_STREAM_ONCE(a) SIM_ONCE(SIM_LOGS(3, a))
#define SIM_THROTTLE(p, X) do { static double sim_last__ = -1e18; double sim_n__ = ::sim::now() / 1e9; if (sim_n__ - sim_last__ >= (p)) { sim_last__ = sim_n__; X; } } while (0)
#define ROS_DEBUG_THROTTLE(p, ...) SIM_THROTTLE(p, SIM_LOG(0, __VA_ARGS__))
#define ROS_INFO_THROTTLE(p, ...) SIM_THROTTLE(p, SIM_LOG(1, __VA_ARGS__))
#define ROS_WARN_THROTTLE(p, ...) SIM_THROTTLE(p, SIM_LOG(2, __VA_ARGS__))
#define ROS_ERROR_THROTTLE(p, ...) SIM_THROTTLE(p, SIM_LOG(3, __VA_ARGS__))
#define ROS_INFO_STREAM_THROTTLE(p, a) SIM_THROTTLE(p, SIM_LOGS(1, a))
#define ROS_WARN_STREAM_THROTTLE(p, a) SIM_THROTTLE(p, SIM_LOGS(2, a))
#define ROS_ERROR_STREAM_THROTTLE(p, a) SIM_THROTTLE(p, SIM_LOGS(3, a))
#define ROS_ASSERT(c) assert(c)
#define ROS_ASSERT_MSG(c, ...) assert(c)
#define ROS_BREAK() abort()
#define ROS_DEPRECATED __attribute__((deprecated))

// ------------------------------------------------------------------ environment side (harness)
namespace sim {
struct ServiceResult { bool ok; ns_t delay; };  // delay<0: hang until the node shuts down
struct NodeCtx {
  int id = 0;
  std::string name;
  bool ok = true;
  ros::CallbackQueue* global = nullptr;
  std::map<std::string, XmlRpc::XmlRpcValue> params;
};
NodeCtx* make_node(const std::string& name);
void node_shutdown(NodeCtx*);                   // ros::shutdown(): ok() turns false
struct NetFault {                               // per-topic transport behaviour
  double drop = 0, dup = 0, reorder = 0;
  ns_t lat_min = 100 * US, lat_max = 2 * MS;
};
struct Env {
  Rng rng;
  NetFault def;
  std::map<std::string, NetFault> topic;
  std::function<ServiceResult(const std::string& name, const void* rq, void* rs)> service;
  std::function<void(const std::string& topic, NodeCtx* from, const AnyMsg& m)> on_publish;  // every publication by real code
  std::function<void(const std::string& topic, NodeCtx* to, const AnyMsg& m, bool begin)> on_callback;  // around every subscription callback
  std::function<void(int level, const std::string&)> on_log;
  std::map<std::string, uint64_t> counters;     // faults and probes that actually fired
  uint64_t published = 0, delivered = 0, dropped = 0, duplicated = 0, reordered = 0, overflowed = 0, timer_calls = 0, service_calls = 0;
};
Env& env();
extern void (*on_publication)(const std::string& topic, uint64_t hash);  // of the code under test, with a hash of the contents
void inject(const std::string& topic, const AnyMsg& m, NodeCtx* only = nullptr);  // publish from the environment (subject to faults)
template <class M>
void send(const std::string& topic, const M& m, NodeCtx* only = nullptr) { inject(topic, boost::shared_ptr<const M>(new M(m)), only); }
void count(const std::string& k, uint64_t n = 1);
bool has_subscriber(const std::string& topic);
void queue_call(ros::CallbackQueueInterface* q, const std::function<void()>& fn);  // run fn as a callback of that queue
}  // namespace sim
#endif
