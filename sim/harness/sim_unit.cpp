// Simulations of the parts shared by the planners: the transform buffer under concurrent use (linearizability against a
// reference model) and the PX4 parameter and mission tracking of AvoidanceNode against a simulated FCU.
#include "driver.h"
#include <avoidance/avoidance_node.h>
#include <avoidance/transform_buffer.h>
#include <mavros_msgs/CompanionProcessStatus.h>
#include <mavros_msgs/Param.h>
#include <mavros_msgs/ParamGet.h>
#include <mavros_msgs/WaypointList.h>
#include <cmath>

using sim::count;
static const double T0 = 1000.0;
static double nowd() { return sim::now() / 1e9 - T0; }
static sim::ns_t nsd(double t) { return static_cast<sim::ns_t>((t + T0) * 1e9); }
template <class M>
static const M& as(const sim::AnyMsg& m) { return *static_cast<const M*>(m.get()); }
static uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2); return a * 0xff51afd7ed558ccdULL; }

// ------------------------------------------------------------------------------------------------ transform buffer
static const char* FRAMES[][2] = {{"local_origin", "fcu"}, {"fcu", "camera"}, {"local_origin", "camera"}};
struct BufSim {
  const Plan& plan;
  sim::Rng wr;
  avoidance::tf_buffer::TransformBuffer* buf = nullptr;
  uint64_t clock_ = 0;
  struct Tf { int64_t stamp; double p[3]; double q[4]; };
  struct Call {
    bool insert = false;
    Tf tf;            // inserted transform, or the answer of a lookup
    int64_t time = 0; // lookup
    bool ok = false;
    uint64_t inv = 0, ret = UINT64_MAX;
  };
  std::vector<Call*> hist[3];
  double size_s = 10;
  int64_t size_ns = 0;

  explicit BufSim(const Plan& p) : plan(p), wr(p.seed * 31 + 5) {}
  static int64_t ns_of(double t) { return static_cast<int64_t>(std::llround(t * 1e6)) * 1000; }
  static ros::Time rt(int64_t ns) { ros::Time t; t.fromNSec(static_cast<uint64_t>(ns)); return t; }

  // pose of a transform is a function of an id so that two transforms with one stamp can be told apart
  static Tf make(int64_t stamp, uint64_t id) {
    sim::Rng r(id * 7 + 3);
    Tf t;
    t.stamp = stamp;
    for (int i = 0; i < 3; i++) t.p[i] = r.range(-50, 50);
    tf::Quaternion q;
    q.setRPY(r.range(-0.5, 0.5), r.range(-0.5, 0.5), r.range(-3.1, 3.1));
    t.q[0] = q.x(); t.q[1] = q.y(); t.q[2] = q.z(); t.q[3] = q.w();
    return t;
  }
  void do_insert(int pair, int64_t stamp, uint64_t id) {
    Call* c = new Call();
    c->insert = true;
    c->tf = make(stamp, id);
    tf::StampedTransform st;
    st.stamp_ = rt(stamp);
    st.frame_id_ = FRAMES[pair][1];
    st.child_frame_id_ = FRAMES[pair][0];
    st.setOrigin(tf::Vector3(c->tf.p[0], c->tf.p[1], c->tf.p[2]));
    st.setRotation(tf::Quaternion(c->tf.q[0], c->tf.q[1], c->tf.q[2], c->tf.q[3]));
    sim::point();
    { sim::NoPreempt np; c->inv = ++clock_; hist[pair].push_back(c); }
    bool ok = buf->insertTransform(FRAMES[pair][0], FRAMES[pair][1], st);
    sim::NoPreempt np;
    c->ok = ok;
    c->ret = ++clock_;
    sim::tracef("insert %d %lld id %llu -> %d", pair, (long long)stamp, (unsigned long long)id, ok);
    count(ok ? "tf_inserted" : "tf_refused");
    sim::trace("ins", mix(static_cast<uint64_t>(stamp), ok));
  }
  void do_get(int pair, int64_t time) {
    Call* c = new Call();
    c->time = time;
    tf::StampedTransform st;
    st.setIdentity();
    sim::point();
    { sim::NoPreempt np; c->inv = ++clock_; hist[pair].push_back(c); }
    bool ok = buf->getTransform(FRAMES[pair][0], FRAMES[pair][1], rt(time), st);
    sim::NoPreempt np;
    c->ok = ok;
    if (ok) {
      c->tf.stamp = static_cast<int64_t>(st.stamp_.toNSec());
      c->tf.p[0] = st.getOrigin().x(); c->tf.p[1] = st.getOrigin().y(); c->tf.p[2] = st.getOrigin().z();
      tf::Quaternion q = st.getRotation();
      c->tf.q[0] = q.x(); c->tf.q[1] = q.y(); c->tf.q[2] = q.z(); c->tf.q[3] = q.w();
    }
    c->ret = ++clock_;
    sim::tracef("get %d %lld -> %d", pair, (long long)time, ok);
    count(ok ? "tf_answered" : "tf_unavailable");
    sim::trace("get", mix(static_cast<uint64_t>(time), ok));
  }
  // one thread: ops with p[0] == its index, in time order
  void thread(int idx) {
    for (const Op& o : plan.ops) {
      if (static_cast<int>(o.P(0)) != idx) continue;
      if (sim::now() < nsd(o.t)) sim::sleep_until(nsd(o.t));
      int pair = static_cast<int>(o.P(1)) % 3;
      if (o.kind == "ins") do_insert(pair, ns_of(o.P(2)), static_cast<uint64_t>(o.P(3)));
      else if (o.kind == "get") do_get(pair, ns_of(o.P(2)));
      else if (o.kind == "burst") {  // n operations without pause: alternate inserts and lookups around a stamp
        for (int i = 0; i < static_cast<int>(o.P(3)); i++)
          if (o.P(4) > 0) do_insert(pair, ns_of(o.P(2) + i * o.P(5, 0.01)), static_cast<uint64_t>(o.P(6) + i));
          else do_get(pair, ns_of(o.P(2) + i * o.P(5, 0.01)));
      }
    }
  }
  // ---- reference model
  typedef std::vector<const Tf*> State;  // accepted transforms, oldest first
  bool ref_insert(State& s, const Call& c) const {
    if (!s.empty() && s.back()->stamp >= c.tf.stamp) return false;
    s.push_back(&c.tf);
    size_t i = 0;
    while (c.tf.stamp - s[i]->stamp > size_ns) i++;
    s.erase(s.begin(), s.begin() + i);
    return true;
  }
  static double qdist(const double* a, const double* b) {
    double d = std::fabs(a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]);
    return 2 * std::acos(std::min(1.0, d));
  }
  // 0 no, 1 yes, consistent with the state
  bool ref_get(const State& s, const Call& c, std::string* why) const {
    bool can = !s.empty() && s.front()->stamp <= c.time && c.time <= s.back()->stamp;
    if (can && s.size() == 1) return !c.ok || close(*s[0], c, why);  // one sample only, nothing to interpolate: may be refused
    if (c.ok != can) { if (why) *why = can ? "refused although two buffered transforms bracket the time" : "answered although no buffered transforms bracket the time"; return false; }
    if (!can) return true;
    for (size_t i = 0; i + 1 < s.size(); i++) {
      if (!(s[i]->stamp <= c.time && c.time <= s[i + 1]->stamp)) continue;
      double u = static_cast<double>(c.time - s[i]->stamp) / static_cast<double>(s[i + 1]->stamp - s[i]->stamp);
      Tf e;
      e.stamp = c.time;
      for (int k = 0; k < 3; k++) e.p[k] = s[i]->p[k] * (1 - u) + s[i + 1]->p[k] * u;
      const double *a = s[i]->q, *b = s[i + 1]->q;
      double d = a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3], sg = d < 0 ? -1 : 1;
      d = std::min(1.0, std::fabs(d));
      double th = std::acos(d), sn = std::sin(th), wa = sn < 1e-6 ? 1 - u : std::sin((1 - u) * th) / sn, wb = sn < 1e-6 ? u : std::sin(u * th) / sn;
      double n = 0;
      for (int k = 0; k < 4; k++) { e.q[k] = wa * a[k] + sg * wb * b[k]; n += e.q[k] * e.q[k]; }
      for (int k = 0; k < 4; k++) e.q[k] /= std::sqrt(n);
      // antipodal rotations can be interpolated either way round
      if (d < 1e-3) { Tf f = e; for (int k = 0; k < 4; k++) f.q[k] = c.tf.q[k]; return close(f, c, why); }
      return close(e, c, why);
    }
    return true;
  }
  bool close(const Tf& e, const Call& c, std::string* why) const {
    double dp = 0;
    for (int k = 0; k < 3; k++) dp = std::max(dp, std::fabs(e.p[k] - c.tf.p[k]));
    double dq = qdist(e.q, c.tf.q);
    bool fine = dp < 1e-3 && dq < 2e-3 && c.tf.stamp == c.time;
    if (!fine && why) *why = fmt("answered %.4f %.4f %.4f (stamp %lld), interpolation gives %.4f %.4f %.4f, rotation differs by %.4f rad", c.tf.p[0], c.tf.p[1], c.tf.p[2], (long long)c.tf.stamp, e.p[0], e.p[1], e.p[2], dq);
    return fine;
  }
  // Wing and Gong: some order of the calls that respects their overlap explains all answers
  std::vector<Call*> hs;
  std::vector<char> done;
  uint64_t budget = 0;
  size_t deepest = 0;
  std::string deepest_why;
  bool search(State& s, size_t first, size_t ndone) {
    while (first < hs.size() && done[first]) first++;
    if (first == hs.size()) return true;
    if (budget == 0) return true;
    budget--;
    uint64_t limit = UINT64_MAX;
    for (size_t i = first; i < hs.size() && hs[i]->inv < limit; i++) if (!done[i]) limit = std::min(limit, hs[i]->ret);
    std::string why;
    for (size_t i = first; i < hs.size() && hs[i]->inv < limit; i++) {
      if (done[i]) continue;
      Call& c = *hs[i];
      done[i] = 1;
      if (c.insert) {
        State s2 = s;
        bool ok = ref_insert(s2, c);
        if (ok == c.ok || c.ret == UINT64_MAX) { if (search(s2, first, ndone + 1)) return true; }
        else if (why.empty()) why = fmt("insert of stamp %.6f was %s", c.tf.stamp / 1e9, c.ok ? "accepted although not newer than the newest one" : "refused although newer than the newest one");
      } else if (c.ret == UINT64_MAX) {
        if (search(s, first, ndone + 1)) return true;
      } else {
        std::string w;
        if (ref_get(s, c, &w)) { if (search(s, first, ndone + 1)) return true; }
        else if (why.empty()) why = fmt("lookup of %.6f %s", c.time / 1e9, w.c_str());
      }
      done[i] = 0;
    }
    if (ndone >= deepest && !why.empty()) { deepest = ndone; deepest_why = why; }
    return false;
  }
  void check() {
    for (int p = 0; p < 3; p++) {
      hs = hist[p];
      done.assign(hs.size(), 0);
      budget = 400000;
      deepest = 0;
      State s;
      bool overlap = false;
      for (size_t i = 1; i < hs.size(); i++) if (hs[i]->inv < hs[i - 1]->ret) overlap = true;
      if (overlap) rep().probe("c13_overlapping_histories");
      if (!search(s, 0, 0)) rep().violation("C13", "not-linearizable", fmt("frames %s to %s: no order of the %zu calls explains the answers; %s", FRAMES[p][0], FRAMES[p][1], hs.size(), deepest_why.c_str()));
      if (budget == 0) rep().probe("c13_search_cut");
      rep().probe("c13_calls", hs.size());
      for (Call* c : hs) if (!c->insert) rep().probe(c->ok ? "c13_answers" : "c13_refusals");
      uint64_t h = 1;
      for (Call* c : hs) h = mix(h, c->inv * 4 + c->ok * 2 + c->insert), rep().state(h % 100003);
    }
  }
  void run() {
    rep().crash_prop = "C13";
    size_s = plan.K("buffer_s", 10);
    size_ns = static_cast<int64_t>(size_s * 1e9);
    int n = static_cast<int>(plan.K("threads", 3));
    sim::NodeCtx* node = sim::make_node("/buffer");
    int live = n;
    sim::spawn([this, n, node, &live]() {
      buf = new avoidance::tf_buffer::TransformBuffer(static_cast<float>(size_s));
      for (int i = 0; i < n; i++) sim::spawn([this, i, &live]() { thread(i); live--; }, "user" + std::to_string(i), node);
    }, "main", node);
    sim::run(nsd(plan.K("dur", 30)));
    if (live > 0) rep().violation("C13", "stuck", "a call to the transform buffer did not return: " + sim::dump_threads());
    check();
  }
};

// ------------------------------------------------------------------------------------------------ AvoidanceNode
struct FcuParam { const char* name; bool polled; bool integer; double init; };
static const FcuParam FP[] = {{"MPC_ACC_DOWN_MAX", true, false, 10}, {"MPC_ACC_HOR", true, false, 5}, {"MPC_ACC_UP_MAX", true, false, 10}, {"MPC_XY_CRUISE", true, false, 3},
                              {"MPC_Z_VEL_MAX_DN", true, false, 1}, {"MPC_Z_VEL_MAX_UP", true, false, 3}, {"CP_DIST", true, false, 4}, {"MPC_LAND_SPEED", true, false, 0.7},
                              {"MPC_JERK_MAX", true, false, 20}, {"NAV_ACC_RAD", true, false, 2}, {"MPC_YAWRAUTO_MAX", true, false, 45},
                              {"MPC_JERK_MIN", false, false, 8}, {"MPC_TKO_SPEED", false, false, 1.5}, {"MPC_AUTO_MODE", false, true, 1}};
static const int NFP = 14;

struct NodeSim {
  const Plan& plan;
  sim::Rng wr;
  sim::NodeCtx* node = nullptr;
  avoidance::AvoidanceNode* an = nullptr;
  double dur = 90;
  double t_up = -1, t_down = -1, t_end = -1;
  // FCU
  struct Ver { double v; double t; };
  std::vector<Ver> hist[NFP];
  double push_time[NFP];
  int pushed[NFP];  // version the node got last through a push, -1 before
  bool pushing[NFP];
  std::map<const void*, std::pair<int, int>> push_of;  // message -> parameter, version
  std::vector<sim::AnyMsg> keep;
  int svc_mode = 0;
  double svc_delay = 0, svc_until = -1;
  double svc_busy_until = 0;   // an answer given while the service was unhealthy may still be under way until then
  double calm = 0;
  std::vector<std::pair<double, double>> stalls;
  int n_requests = 0;
  std::vector<double> req_times[NFP];
  // mission
  double speed = NAN;
  bool in_mission = false;
  double last_status = -1;
  int n_status = 0;

  explicit NodeSim(const Plan& p) : plan(p), wr(p.seed * 17 + 3) { for (int i = 0; i < NFP; i++) { pushed[i] = -1; pushing[i] = false; push_time[i] = -1; } }

  bool stalled(double a, double b) const { for (auto& s : stalls) if (s.first <= b && s.second >= a) return true; return false; }
  static float field(const avoidance::ModelParameters& m, int i) {
    switch (i) {
      case 0: return m.param_mpc_acc_down_max;
      case 1: return m.param_mpc_acc_hor;
      case 2: return m.param_mpc_acc_up_max;
      case 3: return m.param_mpc_xy_cruise;
      case 4: return m.param_mpc_z_vel_max_dn;
      case 5: return m.param_mpc_z_vel_max_up;
      case 6: return m.param_cp_dist;
      case 7: return m.param_mpc_land_speed;
      case 8: return m.param_mpc_jerk_max;
      case 9: return m.param_nav_acc_rad;
      case 10: return m.param_mpc_yawrauto_max;
      case 11: return m.param_mpc_jerk_min;
      case 12: return m.param_mpc_tko_speed;
      default: return static_cast<float>(m.param_mpc_auto_mode);
    }
  }
  int version(int i, float v) const {
    for (int k = static_cast<int>(hist[i].size()) - 1; k >= 0; k--) if (static_cast<float>(hist[i][k].v) == v) return k;
    return -1;
  }
  sim::ServiceResult service(const std::string& name, const void* rq, void* rs) {
    double t = nowd();
    if (name.find("param/get") == std::string::npos) return {false, 0};
    const auto& q = *static_cast<const mavros_msgs::ParamGet::Request*>(rq);
    auto& s = *static_cast<mavros_msgs::ParamGet::Response*>(rs);
    n_requests++;
    int md = svc_until > t ? svc_mode : 0, id = -1;
    for (int i = 0; i < NFP; i++) if (q.param_id == FP[i].name) id = i;
    if (id >= 0) req_times[id].push_back(t);
    s.success = false;
    s.value.real = 0;
    s.value.integer = 0;
    if (md == 1) { count("service_fail"); return {false, 20 * sim::MS}; }
    if (md == 3) {
      count("service_hang");
      if (svc_until > 1e8) return {false, -1};
      svc_busy_until = std::max(svc_busy_until, svc_until);
      return {false, nsd(svc_until) - sim::now()};
    }
    if (md == 4 && wr.chance(0.5)) { count("service_refuse"); return {true, 5 * sim::MS}; }
    if (id >= 0) { s.success = true; if (FP[id].integer) s.value.integer = static_cast<int64_t>(hist[id].back().v); else s.value.real = hist[id].back().v; }
    sim::ns_t d = 3 * sim::MS + static_cast<sim::ns_t>(wr.uni() * 10 * sim::MS);
    if (md == 2) { count("service_slow"); d = static_cast<sim::ns_t>(svc_delay * 1e9); svc_busy_until = std::max(svc_busy_until, t + svc_delay); }
    return {true, d};
  }
  void push(int i) {
    boost::shared_ptr<mavros_msgs::Param> m(new mavros_msgs::Param());
    m->header.stamp = ros::Time::now();
    m->param_id = FP[i].name;
    if (FP[i].integer) m->value.integer = static_cast<int64_t>(hist[i].back().v);
    else m->value.real = hist[i].back().v;
    boost::shared_ptr<const mavros_msgs::Param> cm = m;
    push_of[cm.get()] = std::make_pair(i, static_cast<int>(hist[i].size()) - 1);
    keep.push_back(cm);
    sim::inject("mavros/param/param_value", cm);
  }
  std::vector<sim::AnyMsg> mkeep;
  void send_mission(const Op& o) {
    // P0 index of the current item (-1: none), then per item: command, param1, param2
    boost::shared_ptr<mavros_msgs::WaypointList> m(new mavros_msgs::WaypointList());
    int cur = static_cast<int>(o.P(0)), i = 0;
    for (size_t k = 1; k + 2 < o.p.size(); k += 3, i++) {
      mavros_msgs::Waypoint w;
      w.command = static_cast<uint16_t>(o.p[k]);
      w.param1 = static_cast<float>(o.p[k + 1]);
      w.param2 = static_cast<float>(o.p[k + 2]);
      w.is_current = i == cur;
      m->waypoints.push_back(w);
    }
    boost::shared_ptr<const mavros_msgs::WaypointList> cm = m;
    mkeep.push_back(cm);
    sim::inject("mavros/mission/waypoints", cm);
  }
  void on_callback(const std::string& tpc, const sim::AnyMsg& m, bool begin) {
    if (tpc == "mavros/param/param_value") {
      auto it = push_of.find(m.get());
      if (it == push_of.end()) return;
      int i = it->second.first;
      pushing[i] = begin;
      push_time[i] = nowd();
      if (!begin) { pushed[i] = it->second.second; rep().probe("c15_pushes"); sim::tracef("pushed %s version %d", FP[i].name, pushed[i]); }
    } else if (tpc == "mavros/mission/waypoints") {
      in_mission = begin;
      if (begin) return;
      const auto& w = as<mavros_msgs::WaypointList>(m).waypoints;
      double before = speed;
      int cur = -1;
      for (size_t i = 0; i < w.size(); i++) if (w[i].is_current) { cur = static_cast<int>(i); break; }
      for (int i = 0; i <= cur; i++) if (w[i].command == 178 && w[i].param1 == 1.f && w[i].param2 > 0.f) speed = w[i].param2;
      rep().probe(speed == before ? "c16_unchanged" : "c16_changed");
      float got = an ? an->getMissionItemSpeed() : NAN;
      if (an && !(got == static_cast<float>(speed)) && !(std::isnan(got) && std::isnan(speed)))
        rep().violation("C16", "wrong-speed", fmt("mission speed %.3f after a mission list (current item %d of %zu), expected %.3f", got, cur, w.size(), speed));
      rep().state(mix(mix(3, static_cast<uint64_t>(cur + 1)), std::isnan(speed) ? 7 : static_cast<uint64_t>(speed * 10)));
    }
  }
  void on_publish(const std::string& tpc, const sim::AnyMsg& m) {
    if (tpc != "mavros/companion_process/status") return;
    n_status++;
    last_status = nowd();
  }
  // what a user of the parameters sees
  void reader() {
    sim::Rng r(plan.seed * 3 + 1);
    while (node->ok && an && t_down < 0) {
      double a = nowd();
      avoidance::ModelParameters p = an->getPX4Parameters();
      float ms = an->getMissionItemSpeed();
      double b = nowd();
      {
        sim::NoPreempt np;
        if (b - a > 0.05 && !stalled(a - 0.01, b + 0.01)) rep().violation("C15", "blocked", fmt("reading the parameters took %.3f s (parameter service mode %d)", b - a, svc_mode));
        for (int i = 0; i < NFP; i++) {
          float v = field(p, i);
          bool unset = FP[i].integer ? v == -1.f : std::isnan(v);
          int ver = version(i, v);
          if (ver < 0 && !unset) rep().violation("C15", "foreign-value", fmt("%s reads %g, a value the flight controller never had", FP[i].name, v));
          if (unset && pushed[i] >= 0 && !pushing[i]) rep().violation("C15", "push-lost", fmt("%s is unknown although the flight controller's value was received", FP[i].name));
          if (ver >= 0 && pushed[i] >= 0 && !pushing[i] && ver < pushed[i])
            rep().violation("C15", "outdated", fmt("%s reads %g, but the newer value %g was received before", FP[i].name, v, hist[i][pushed[i]].v));
          double q = quiet_since();
          if (FP[i].polled && b - q > 7 && a > t_up + 7 && unset && !stalled(q, b)) rep().violation("C15", "unknown", fmt("%s is still unknown %.1f s after the parameter service became healthy", FP[i].name, b - q));
          if (FP[i].polled && b - std::max(std::max(q, push_time[i]), hist[i].back().t) > 32.5 && a > t_up + 32.5 && !stalled(q, b)) {
            rep().probe("c15_converged");
            if (ver != static_cast<int>(hist[i].size()) - 1) rep().violation("C15", "not-refreshed", fmt("%s reads %g, the flight controller has had %g for %.1f s with a healthy parameter service", FP[i].name, v, hist[i].back().v, b - hist[i].back().t));
          }
          rep().state(mix(mix(11, static_cast<uint64_t>(i)), static_cast<uint64_t>((ver + 1) * 64 + (pushed[i] + 1))));
        }
        if (!in_mission && !(ms == static_cast<float>(speed)) && !(std::isnan(ms) && std::isnan(speed))) {
          rep().violation("C16", "changed-later", fmt("mission speed reads %.3f, the missions received give %.3f", ms, speed));
        }
        rep().probe("c15_reads");
      }
      sim::sleep_until(sim::now() + static_cast<sim::ns_t>(r.range(0.002, plan.K("read_gap", 0.6)) * 1e9));
    }
  }
  double quiet_since() const { return std::max(std::max(t_up, calm), svc_busy_until); }
  void do_op(const Op& o) {
    double t = nowd();
    count("op_" + o.kind);
    if (o.kind == "param_set") {
      int i = static_cast<int>(o.P(0)) % NFP;
      double v = o.P(1);
      if (version(i, static_cast<float>(v)) >= 0) v = v + 0.0625 * (1 + hist[i].size());  // values are never used twice
      if (FP[i].integer) { v = std::floor(o.P(1)); if (version(i, static_cast<float>(v)) >= 0) v = 100 + hist[i].size(); }
      if (version(i, static_cast<float>(v)) >= 0) return;
      hist[i].push_back({v, t});
      if (o.P(2, 1) > 0) push(i);
      else count("push_lost");
    } else if (o.kind == "push") {
      push(static_cast<int>(o.P(0)) % NFP);
    } else if (o.kind == "push_all") {
      for (int i = 0; i < NFP; i++) push(i);
    } else if (o.kind == "svc") {
      svc_mode = static_cast<int>(o.P(0));
      svc_delay = o.P(1);
      svc_until = t + o.P(2);
    } else if (o.kind == "mission") {
      send_mission(o);
    } else if (o.kind == "net") {
      sim::NetFault f;
      f.drop = o.P(2); f.dup = o.P(3); f.reorder = o.P(4);
      f.lat_max = static_cast<sim::ns_t>(o.P(5, 0.002) * 1e9);
      std::string tp = o.P(0) > 0 ? "mavros/mission/waypoints" : "mavros/param/param_value";
      sim::env().topic[tp] = f;
      sim::at(nsd(t + o.P(1)), [tp]() { sim::env().topic.erase(tp); });
    } else if (o.kind == "stall") {
      auto f = sim::fibers_of(node);
      if (f.empty()) return;
      sim::stall(f[static_cast<size_t>(o.P(0)) % f.size()], nsd(t + o.P(1)));
      stalls.push_back(std::make_pair(t, t + o.P(1) + 0.05));
    } else if (o.kind == "shutdown") {
      t_down = t;
      rep().crash_phase = "shutdown";
      if (o.P(0) > 0) sim::node_shutdown(node);
      ending = true;
      sim::queue_call(node->global, []() {});
    }
  }
  bool ending = false;
  void run() {
    rep().crash_prop = "C15";
    dur = plan.K("dur", 90);
    for (int i = 0; i < NFP; i++) hist[i].push_back({FP[i].init, -1});
    svc_mode = static_cast<int>(plan.K("svc0", 0));
    svc_delay = plan.K("svc0_delay", 1);
    svc_until = svc_mode ? plan.K("svc0_until", 1e9) : -1;
    for (const Op& o : plan.ops) {
      double e = 0;
      if (o.kind == "svc") { e = o.t + o.P(2); if (o.P(0) == 2) e += 11 * o.P(1); if (o.P(0) == 4) e += 0.2; }
      if (o.kind == "stall") e = o.t + o.P(1);
      calm = std::max(calm, e);
    }
    if (svc_mode) calm = std::max(calm, std::min(svc_until, 1e6) + (svc_mode == 2 ? svc_delay : 0));
    sim::Env& e = sim::env();
    e.def.lat_max = static_cast<sim::ns_t>(plan.K("net_lat_ms", 2) * 1e6);
    e.service = [this](const std::string& n, const void* a, void* b) { return service(n, a, b); };
    e.on_publish = [this](const std::string& tpc, sim::NodeCtx*, const sim::AnyMsg& m) { on_publish(tpc, m); };
    e.on_callback = [this](const std::string& tpc, sim::NodeCtx*, const sim::AnyMsg& m, bool b) { on_callback(tpc, m, b); };
    node = sim::make_node("/avoidance");
    sim::spawn([this]() {
      {
        ros::NodeHandle nh(""), nhp("~");
        avoidance::AvoidanceNode n(nh, nhp);
        n.init();
        an = &n;
        t_up = nowd();
        sim::Fiber* rd = sim::spawn([this]() { reader(); }, "reader", node);
        while (node->ok && !ending) node->global->callAvailable(ros::WallDuration(0.1));
        sim::join(rd);
        an = nullptr;
      }
      t_end = nowd();
      rep().probe("c15_stopped");
    }, "main", node);
    for (const Op& o : plan.ops) sim::at(nsd(o.t), [this, &o]() { do_op(o); });
    sim::run(nsd(dur));
    if (t_down >= 0 && !stalled(t_down - 3, t_down + 3)) {
      // with a live process the node waits for a service call that is under way
      double bound = 3;
      bool hang_alive = !node->ok ? false : svc_busy_until > t_down || (svc_mode == 3 && svc_until > t_down);
      if (!hang_alive) {
        if (t_end < 0 && dur - t_down > bound) rep().violation("C15", "no-shutdown", "the node did not end: " + sim::dump_threads());
        else if (t_end >= 0 && t_end - t_down > bound) rep().violation("C15", "slow-shutdown", fmt("the node needed %.1f s to end", t_end - t_down));
      }
    }
  }
};

void scenario_run(const Plan& p) {
  configure_sched(p);
  if (p.prop == "C13") (new BufSim(p))->run();
  else (new NodeSim(p))->run();
}
