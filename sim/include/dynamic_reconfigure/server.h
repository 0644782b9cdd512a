#ifndef SIM_DYNREC_H
#define SIM_DYNREC_H
#include <sim/race.h>
#include <sim/simros.h>
namespace sim {
struct DynRecBase {
  virtual ~DynRecBase() {}
  virtual void request(const std::map<std::string, double>& kv) = 0;  // a set_parameters request arriving at the node
};
std::vector<DynRecBase*>& dynrec_servers();
void dynrec_register(DynRecBase*);
void dynrec_unregister(DynRecBase*);
}
namespace dynamic_reconfigure {
template <class C>
class Server : public sim::DynRecBase {
 public:
  typedef boost::function<void(C&, uint32_t)> CallbackType;
  explicit Server(const ros::NodeHandle& nh = ros::NodeHandle("~")) : nh_(nh), mutex_(own_) { init(); }
  Server(boost::recursive_mutex& m, const ros::NodeHandle& nh = ros::NodeHandle("~")) : nh_(nh), mutex_(m) { init(); }
  ~Server() override {
    sim::dynrec_unregister(this);
    alive_->store_alive = false;
    if (queue_) queue_->removeByID(reinterpret_cast<uint64_t>(this));
  }
  void setCallback(const CallbackType& cb) {
    boost::recursive_mutex::scoped_lock l(mutex_);
    cb_ = cb;
    if (cb_) { C c = config_; cb_(c, ~0u); config_ = c; }
  }
  void clearCallback() { boost::recursive_mutex::scoped_lock l(mutex_); cb_.clear(); }
  void updateConfig(const C& c) { boost::recursive_mutex::scoped_lock l(mutex_); config_ = c; }
  void getConfigDefault(C& c) { c = C::__getDefault__(); }
  void setConfigDefault(const C& c) { boost::recursive_mutex::scoped_lock l(mutex_); config_ = c; }
  void request(const std::map<std::string, double>& kv) override {
    boost::shared_ptr<Alive> a = alive_;
    queue_->addCallback(boost::make_shared<Cb>(this, a, kv), reinterpret_cast<uint64_t>(this));
  }

 private:
  struct Alive { bool store_alive = true; };
  struct Cb : ros::CallbackInterface {
    Server* s; boost::shared_ptr<Alive> a; std::map<std::string, double> kv;
    Cb(Server* s_, const boost::shared_ptr<Alive>& a_, const std::map<std::string, double>& k) : s(s_), a(a_), kv(k) {}
    CallResult call() override { sim::race_acquire(a.get()); if (a->store_alive) s->apply(kv); return Success; }
  };
  void apply(const std::map<std::string, double>& kv) {
    boost::recursive_mutex::scoped_lock l(mutex_);
    C c = config_;
    for (auto& p : kv) c.__set__(p.first, p.second);
    c.__clamp__();
    if (cb_) cb_(c, config_.__level__(c));
    config_ = c;
    sim::count("reconfigure_applied");
  }
  void init() {
    config_ = C::__getDefault__();
    struct { const ros::NodeHandle& nh; void operator()(const char* n, double& v) { nh.getParam(n, v); }
             void operator()(const char* n, int& v) { nh.getParam(n, v); }
             void operator()(const char* n, bool& v) { nh.getParam(n, v); }
             void operator()(const char* n, std::string& v) { nh.getParam(n, v); } } rd{nh_};
    config_.__fromServer__(rd);
    config_.__clamp__();
    queue_ = nh_.getCallbackQueue();  // of the node that owns the server, whoever sends the request
    sim::race_release(alive_.get());  // the service is advertised under the lock its requests are served with
    sim::dynrec_register(this);
  }
  ros::NodeHandle nh_;
  ros::CallbackQueueInterface* queue_ = nullptr;
  boost::recursive_mutex own_;
  boost::recursive_mutex& mutex_;
  C config_;
  CallbackType cb_;
  boost::shared_ptr<Alive> alive_ = boost::make_shared<Alive>();
};
}  // namespace dynamic_reconfigure
#endif
