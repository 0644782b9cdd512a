// Closed-loop simulation of the local planner nodelet: real nodelet, planner, waypoint generator and AvoidanceNode;
// simulated vehicle, FCU, cameras, transform tree and network.
#include "driver.h"
#include "world.h"
#include <dynamic_reconfigure/server.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/TwistStamped.h>
#include <mavros_msgs/Altitude.h>
#include <mavros_msgs/CompanionProcessStatus.h>
#include <mavros_msgs/Param.h>
#include <mavros_msgs/ParamGet.h>
#include <mavros_msgs/State.h>
#include <mavros_msgs/Trajectory.h>
#include <mavros_msgs/WaypointList.h>
#include <nodelet/loader.h>
#include <pcl/pcl_all.h>
#include <sensor_msgs/LaserScan.h>
#include <std_msgs/UInt32.h>
#include <visualization_msgs/Marker.h>
#include <visualization_msgs/MarkerArray.h>

using sim::count;
static const double T0 = 1000.0;
static double nowd() { return sim::now() / 1e9 - T0; }
static sim::ns_t nsd(double t) { return static_cast<sim::ns_t>((t + T0) * 1e9); }
static ros::Time rost(double t) { ros::Time r; r.fromNSec(static_cast<uint64_t>(nsd(t))); return r; }
static bool fin(double v) { return std::isfinite(v); }
template <class M>
static const M& as(const sim::AnyMsg& m) { return *static_cast<const M*>(m.get()); }

static const char* RECONF[] = {"max_sensor_range_", "min_sensor_range_", "pitch_cost_param_", "yaw_cost_param_", "velocity_cost_param_",
                               "obstacle_cost_param_", "tree_heuristic_weight_", "goal_z_param", "timeout_startup_", "timeout_critical_",
                               "timeout_termination_", "max_point_age_s_", "min_num_points_per_cell_", "smoothing_speed_xy_", "smoothing_speed_z_",
                               "smoothing_margin_degrees_", "children_per_node_", "n_expanded_nodes_", "tree_node_distance_"};
static const double RECONF_DEF[] = {15, 0.2, 25, 3, 6000, 8.5, 35, 3.5, 5, 0.5, 15, 20, 1, 10, 3, 40, 8, 40, 2};
static const int NRECONF = 19;
static const char* PXN[] = {"MPC_XY_CRUISE", "CP_DIST", "MPC_ACC_HOR", "MPC_JERK_MAX", "NAV_ACC_RAD", "MPC_LAND_SPEED", "MPC_YAWRAUTO_MAX",
                            "MPC_ACC_DOWN_MAX", "MPC_ACC_UP_MAX", "MPC_Z_VEL_MAX_DN", "MPC_Z_VEL_MAX_UP"};
static const char* MODES[] = {"OFFBOARD", "AUTO.MISSION", "AUTO.TAKEOFF", "AUTO.LAND", "AUTO.RTL", "AUTO.LOITER", "POSCTL", "AUTO.RTGS"};
static const char* TOPICS[] = {"mavros/local_position/pose", "mavros/local_position/velocity_local", "mavros/state", "mavros/trajectory/desired",
                               "mavros/param/param_value", "mavros/mission/waypoints", "cam0/points", "cam1/points", "cam2/points"};

struct Windows {  // time intervals in which a disturbance is active
  std::vector<std::pair<double, double>> w;
  void add(double a, double b) { w.push_back(std::make_pair(a, b)); }
  bool hit(double a, double b) const { for (auto& x : w) if (x.first <= b && x.second >= a) return true; return false; }
  double last() const { double l = -1; for (auto& x : w) l = std::max(l, x.second); return l; }
};

struct LocalSim {
  const Plan& plan;
  sim::NodeCtx* node = nullptr;
  nodelet::Loader* loader = nullptr;
  World world;
  std::vector<Cam> cams;
  sim::Rng wr;
  // vehicle
  PoseAt me;
  V3 vel;
  double yaw_rate = 0;
  PoseHist hist;
  V3 sp_pos;
  V3 sp_vel;
  double sp_yaw = 0, sp_time = -100;
  bool armed = true;
  int mode = 0;
  double dur;
  // flags
  bool ready = false, down = false;
  double t_ready = -1, t_down = -1, t_main_done = -1;
  // disturbances
  Windows stall_w, cam_off[3], cam_weird[3], pose_off, vel_bad, tf_off, svc_w, any_w, net_w, reconf_w;
  double stamp_skew[3] = {0, 0, 0}, skew_until[3] = {-1, -1, -1}, lag[3] = {0, 0, 0}, lag_until[3] = {-1, -1, -1};
  CloudKind ckind[3] = {CK_NORMAL, CK_NORMAL, CK_NORMAL};
  double ckind_until[3] = {-1, -1, -1};
  int svc_mode = 0;
  double svc_delay = 0, svc_until = 1e9;
  std::map<std::string, double> px;
  double min_timeout_term = 15, max_timeout_term = 15;
  double max_age_lo = 20, max_age_hi = 20, range_lo = 15, range_hi = 15, minr_lo = 0.2, minr_hi = 0.2;
  int minpts_hi = 1, minpts_lo = 1, n_exp_hi = 40;
  double node_dist_lo = 2, node_dist_hi = 2;
  bool smooth_off_always = false, smooth_changed = false;
  double cruise_hi = 0;
  bool cruise_unknown_possible = true;

  // ---- observations
  struct Pose { double t; V3 p; double yaw, pitch; };
  std::deque<Pose> poses;        // delivered (callback finished)
  uint64_t n_pose_begun = 0, n_setpoints = 0;
  double last_setpoint = -100;
  struct Status { double t; int s; };
  std::deque<Status> stats;
  uint64_t n_status = 0;
  std::deque<CloudRec> clouds;
  std::map<const void*, CloudRec*> by_id;
  uint64_t clouds_delivered[3] = {0, 0, 0};
  struct Iter {
    double t = 0;
    std::vector<V3> pts;
    std::vector<double> age, born;
    bool have_root = false;
    V3 root;
    std::vector<V3> path;   // far end first
    V3 goal;
    uint64_t n = 0;
    std::vector<V3> closed;
    double path_time = 0;
  };
  std::deque<Iter> iters;
  uint64_t n_iter = 0;
  int cur_color = -1;
  V3 wp_goto, wp_adapted, wp_smoothed;
  geometry_msgs::PoseStamped last_sp_msg;
  bool have_sp_msg = false;
  struct Goal { double t0, t1; V3 g; bool z_known; bool to_planner; };
  std::deque<Goal> goals;        // history of the goal as delivered; last one is current
  V3 last_item;                  // position of the last announced next item
  bool accept_topic = false;
  bool goal_z_known = true;
  bool goal_nonfinite = false;
  int expired_loops = 0;
  double calm_from = 0;
  double last_max_age_change = -100;
  uint64_t status_gap_checked = 0;

  explicit LocalSim(const Plan& p) : plan(p), wr(p.seed * 31 + 5) {}

  // ------------------------------------------------------------------ environment
  void setup_world() {
    int nb = static_cast<int>(plan.K("boxes", 3));
    sim::Rng r(static_cast<uint64_t>(plan.K("world", 1)) * 977 + 3);
    for (int i = 0; i < nb; i++) {
      Box b;
      double x = r.range(4, 24), y = r.range(-9, 9), sx = r.range(0.3, 2.0), sy = r.range(0.5, 3.0), h = r.range(2.5, 9);
      b.lo = V3(x - sx, y - sy, 0);
      b.hi = V3(x + sx, y + sy, h);
      if (b.lo.x < 3 && b.lo.y < 3 && b.hi.y > -3) b.lo.x = 3;
      world.boxes.push_back(b);
    }
    if (plan.K("wall", 0) > 0) {
      Box b;
      b.lo = V3(plan.K("wall", 0), -plan.K("wall_w", 4), 0);
      b.hi = V3(plan.K("wall", 0) + 1, plan.K("wall_w", 4), plan.K("wall_h", 8));
      world.boxes.push_back(b);
    }
    world.ground = plan.K("ground", 1) > 0;
    int nc = static_cast<int>(plan.K("ncam", 1));
    for (int i = 0; i < nc; i++) {
      Cam c;
      c.topic = "cam" + std::to_string(i) + "/points";
      c.frame = "camera_" + std::to_string(i);
      c.hfov = plan.K("hfov", 70);
      c.vfov = plan.K("vfov", 50);
      c.nx = static_cast<int>(plan.K("nx", 24));
      c.ny = static_cast<int>(plan.K("ny", 18));
      double spread = plan.K("spread", 60);
      c.yaw = nc == 1 ? plan.K("cam_yaw", 0) : (i - (nc - 1) / 2.0) * spread;
      c.pitch = plan.K("cam_pitch", 0);
      c.maxr = plan.K("cam_range", 18);
      c.off = V3(0.1, 0.05 * i, 0);
      cams.push_back(c);
      sim::tf_static("fcu", c.frame, c.mount());
    }
    me.t = 0;
    me.p = V3(plan.K("x0", 0), plan.K("y0", 0), plan.K("z0", 3));
    me.yaw = plan.K("yaw0", 0);
    me.pitch = 0;
    sp_pos = me.p;
    sp_yaw = me.yaw;
    hist.add(me);
    armed = plan.K("armed", 1) > 0;
    mode = static_cast<int>(plan.K("mode", 0));
  }
  void step_vehicle() {
    const double dt = 0.01;
    double t = nowd();
    double drift = plan.K("spin", 0);
    V3 want;
    double yr = 0;
    if (t - sp_time < 0.6 && armed) {
      V3 d = sp_pos - me.p;
      if (d.finite()) want = d * 1.0;
      if (want.norm() > 4) want = want * (4 / want.norm());
      if (fin(sp_yaw)) yr = clampd(wrap_pi(sp_yaw - me.yaw) * 2, -1.0, 1.0);
    }
    yr += drift;
    V3 wind(plan.K("wind_x", 0), plan.K("wind_y", 0), 0);
    want = want + wind;
    vel = vel + (want - vel) * (dt / 0.35);
    me.p = me.p + vel * dt;
    if (me.p.z < 0.1) me.p.z = 0.1;
    yaw_rate += (yr - yaw_rate) * (dt / 0.3);
    me.yaw = wrap_pi(me.yaw + yaw_rate * dt);
    me.pitch = clampd(vel.nxy() * 0.02 * plan.K("tilt", 0), -0.3, 0.3);
    me.t = t;
    hist.add(me);
    if (t < dur) sim::at(nsd(t + dt), [this]() { step_vehicle(); });
  }
  double vel_bad_until = -1;
  int vel_bad_kind = 0;
  double jitter(double p) { return p * (1 + 0.1 * (wr.uni() - 0.5)); }
  void tick_pose() {
    double t = nowd();
    if (!pose_off.hit(t, t)) {
      geometry_msgs::PoseStamped m;
      m.header.stamp = rost(t);
      m.header.frame_id = "local_origin";
      m.pose.position = pt(me.p);
      tf::Quaternion q;
      q.setRPY(0, me.pitch, me.yaw);
      tf::quaternionTFToMsg(q, m.pose.orientation);
      sim::send("mavros/local_position/pose", m);
    } else count("pose_withheld");
    if (t < dur) sim::at(nsd(t + jitter(1 / plan.K("pose_hz", 30))), [this]() { tick_pose(); });
  }
  void tick_vel() {
    double t = nowd();
    geometry_msgs::TwistStamped m;
    m.header.stamp = rost(t);
    m.twist.linear.x = vel.x; m.twist.linear.y = vel.y; m.twist.linear.z = vel.z;
    if (vel_bad_until > t) {  // no velocity estimate
      count("bad_velocity");
      const double nan = std::numeric_limits<double>::quiet_NaN();
      if (vel_bad_kind == 0) m.twist.linear.x = m.twist.linear.y = m.twist.linear.z = nan;
      else if (vel_bad_kind == 1) m.twist.linear.z = nan;
      else m.twist.linear.x = m.twist.linear.y = nan;
    }
    sim::send("mavros/local_position/velocity_local", m);
    if (t < dur) sim::at(nsd(t + jitter(1 / 30.0)), [this]() { tick_vel(); });
  }
  void tick_tf() {
    double t = nowd();
    if (!tf_off.hit(t, t)) sim::tf_publish("local_origin", "fcu", tf_of(me), rost(t));
    else count("tf_withheld");
    if (t < dur) sim::at(nsd(t + jitter(1 / plan.K("tf_hz", 50))), [this]() { tick_tf(); });
  }
  void tick_state() {
    double t = nowd();
    mavros_msgs::State m;
    m.header.stamp = rost(t);
    m.armed = armed;
    m.mode = MODES[mode];
    sim::send("mavros/state", m);
    if (t < dur) sim::at(nsd(t + 0.25), [this]() { tick_state(); });
  }
  void tick_cam(int i) {
    double t = nowd();
    if (cam_off[i].hit(t, t)) { count("cloud_withheld"); }
    else {
      CloudRec c;
      c.cam = i;
      c.sent = t;
      c.stamp = t;
      double skew = skew_until[i] > t ? stamp_skew[i] : 0;
      if (skew != 0) { c.stamp = t + skew; c.weird = true; count("stamp_skew"); }
      c.stamp = std::floor(c.stamp * 1e6) / 1e6;
      CloudKind k = ckind_until[i] > t ? ckind[i] : CK_NORMAL;
      if (k == CK_GARBAGE) garbage_seen = true;  // the planner's view only ever widens
      if (k != CK_NORMAL) { c.weird = true; count(k == CK_EMPTY ? "cloud_empty" : k == CK_ALLNAN ? "cloud_all_nan" : k == CK_GARBAGE ? "cloud_garbage" : "cloud_sparse"); }
      sensor_msgs::PointCloud2 m = make_cloud(cams[i], world, me, c.stamp, k, wr, &c.pts);
      boost::shared_ptr<const sensor_msgs::PointCloud2> pm(new sensor_msgs::PointCloud2(m));
      c.id = pm.get();
      while (clouds.size() > 1500) {
        auto old = by_id.find(clouds.front().id);  // the address may belong to a newer message by now
        if (old != by_id.end() && old->second == &clouds.front()) by_id.erase(old);
        clouds.pop_front();
      }
      clouds.push_back(c);
      by_id[c.id] = &clouds.back();
      double l = 0.005 + wr.uni() * plan.K("cam_latency", 0.03);
      if (lag_until[i] > t) { l += lag[i]; count("cloud_late"); }
      std::string topic = cams[i].topic;
      sim::at(nsd(t + l), [pm, topic]() { sim::inject(topic, pm); });
    }
    if (t < dur) sim::at(nsd(t + jitter(1 / plan.K("cam_hz", 10))), [this, i]() { tick_cam(i); });
  }
  sim::ServiceResult service(const std::string& name, const void* rq, void* rs) {
    double t = nowd();
    if (name.find("param/get") == std::string::npos) return {false, 0};
    const auto& q = *static_cast<const mavros_msgs::ParamGet::Request*>(rq);
    auto& s = *static_cast<mavros_msgs::ParamGet::Response*>(rs);
    int md = svc_until > t ? svc_mode : 0;
    if (md == 1) { count("service_fail"); return {false, 20 * sim::MS}; }
    if (md == 3) { count("service_hang"); hang_until = std::max(hang_until, svc_until); return {false, svc_until > 1e8 ? -1 : nsd(svc_until) - sim::now()}; }
    auto it = px.find(q.param_id);
    s.success = it != px.end();
    if (s.success) s.value.real = it->second;
    if (md == 4 && wr.chance(0.5)) { s.success = false; s.value.real = 0; count("service_refuse"); }
    sim::ns_t d = 3 * sim::MS + static_cast<sim::ns_t>(wr.uni() * 10 * sim::MS);
    if (md == 2) { count("service_slow"); d = static_cast<sim::ns_t>(svc_delay * 1e9); }
    return {true, d};
  }
  sim::Fiber* pick_thread(int idx) {
    auto f = sim::fibers_of(node);
    if (f.empty()) return nullptr;
    return f[static_cast<size_t>(idx) % f.size()];
  }
  void send_goal(const std::string& kind, const V3& g) {
    if (kind == "goal_click") {
      geometry_msgs::PoseStamped m;
      m.header.stamp = rost(nowd());
      m.pose.position = pt(g);
      m.pose.orientation.w = 1;
      sim::send("move_base_simple/goal", m);
    } else {
      visualization_msgs::MarkerArray m;
      visualization_msgs::Marker k;
      k.pose.position = pt(g);
      m.markers.push_back(k);
      sim::send("input/goal_position", m);
    }
  }
  void do_op(const Op& o) {
    if (down) return;
    double t = nowd();
    count("op_" + o.kind);
    if (o.kind == "spawn_stall") {
      sim::stall_at_spawn(static_cast<int>(o.P(0, 1)), static_cast<sim::ns_t>(o.P(1, 0.3) * 1e9), [this](sim::ns_t until) {
        count("stall_after_thread_start");
        stall_w.add(nowd() - 0.05, until / 1e9 - T0 + 0.05);
      });
    } else if (o.kind == "stall") {
      // the thread is chosen among those alive, in creation order
      sim::Fiber* f = pick_thread(static_cast<int>(o.P(0)));
      if (f) { sim::stall(f, nsd(t + o.P(1))); stall_w.add(t, t + o.P(1)); }
    } else if (o.kind == "cam_kind") {
      int i = static_cast<int>(o.P(0)) % 3;
      ckind[i] = static_cast<CloudKind>(static_cast<int>(o.P(1)) % 5);
      ckind_until[i] = t + o.P(2);
    } else if (o.kind == "cam_skew") {
      int i = static_cast<int>(o.P(0)) % 3;
      stamp_skew[i] = o.P(1);
      skew_until[i] = t + o.P(2);
    } else if (o.kind == "cam_lag") {
      int i = static_cast<int>(o.P(0)) % 3;
      lag[i] = o.P(1);
      lag_until[i] = t + o.P(2);
    } else if (o.kind == "net") {
      sim::NetFault f;
      f.drop = o.P(2); f.dup = o.P(3); f.reorder = o.P(4);
      f.lat_max = static_cast<sim::ns_t>(o.P(5, 0.002) * 1e9);
      std::string tp = TOPICS[static_cast<int>(o.P(0)) % 9];
      sim::env().topic[tp] = f;
      sim::at(nsd(t + o.P(1)), [tp]() { sim::env().topic.erase(tp); });
    } else if (o.kind == "svc") {
      svc_mode = static_cast<int>(o.P(0));
      svc_delay = o.P(1);
      svc_until = t + o.P(2);
    } else if (o.kind == "reconf") {
      std::map<std::string, double> kv;
      for (size_t i = 0; i + 1 < o.p.size(); i += 2) kv[RECONF[static_cast<int>(o.p[i]) % NRECONF]] = o.p[i + 1];
      for (auto* s : sim::dynrec_servers()) s->request(kv);
    } else if (o.kind == "goal_click" || o.kind == "goal_topic") {
      send_goal(o.kind, V3(o.P(0), o.P(1), o.P(2)));
    } else if (o.kind == "traj") {
      mavros_msgs::Trajectory m;
      m.header.stamp = rost(t);
      m.point_1.position = pt(V3(o.P(0), o.P(1), o.P(2)));
      m.point_2.position = pt(V3(o.P(3), o.P(4), o.P(5)));
      m.point_1.velocity.x = m.point_1.velocity.y = m.point_1.velocity.z = NAN;
      m.point_1.yaw = m.point_2.yaw = NAN;
      m.point_valid[0] = o.P(6, 1) > 0;
      m.point_valid[1] = o.P(7, 1) > 0;
      m.command[0] = static_cast<uint16_t>(o.P(8, 16));
      m.command[1] = static_cast<uint16_t>(o.P(9, 16));
      sim::send("mavros/trajectory/desired", m);
    } else if (o.kind == "mode") {
      mode = static_cast<int>(o.P(0)) % 8;
    } else if (o.kind == "arm") {
      armed = o.P(0) > 0;
    } else if (o.kind == "param_set") {
      std::string n = PXN[static_cast<int>(o.P(0)) % 11];
      px[n] = o.P(1);
      mavros_msgs::Param m;
      m.param_id = n;
      m.value.real = o.P(1);
      sim::send("mavros/param/param_value", m);
    } else if (o.kind == "mission") {
      mavros_msgs::WaypointList m;
      mavros_msgs::Waypoint a, b;
      a.command = 178; a.param1 = o.P(0, 1); a.param2 = o.P(1, 3); a.is_current = false;
      b.command = 16; b.is_current = true;
      m.waypoints.push_back(a);
      m.waypoints.push_back(b);
      sim::send("mavros/mission/waypoints", m);
    } else if (o.kind == "vel_bad") {
      vel_bad_until = t + o.P(0);
      vel_bad_kind = static_cast<int>(o.P(1)) % 3;
    } else if (o.kind == "wind") {
      vel = vel + V3(o.P(0), o.P(1), o.P(2));
    } else if (o.kind == "shutdown") {
      down = true;
      t_down = t;
      rep().crash_phase = "shutdown";
      rep().crash_prop = "C11";
      sim::node_shutdown(node);
    } else if (o.kind == "unload") {
      // nodelet manager asked to unload the nodelet while the process keeps running
      down = true;
      t_down = t;
      rep().crash_phase = "shutdown";
      rep().crash_prop = "C11";
      unload_req = true;
      sim::queue_call(node->global, [this]() {});
    }
    // windows are pre-registered in prescan()
  }
  bool unload_req = false;
  void prescan() {
    // time windows known in advance: the monitors only demand what holds outside them
    calm_from = 0;
    for (const Op& o : plan.ops) {
      double e = o.t;
      if (o.kind == "cam_off") { int i = static_cast<int>(o.P(0)) % 3; cam_off[i].add(o.t, o.t + o.P(1)); e += o.P(1); any_w.add(o.t, e); }
      else if (o.kind == "pose_off") { pose_off.add(o.t, o.t + o.P(0)); e += o.P(0); any_w.add(o.t, e); }
      else if (o.kind == "tf_off") { tf_off.add(o.t, o.t + o.P(0)); e += o.P(0); any_w.add(o.t, e); }
      else if (o.kind == "vel_bad") { e += o.P(0); vel_bad.add(o.t, e + 0.5); any_w.add(o.t, e); }
      else if (o.kind == "spawn_stall") e += o.P(1) + 2;
      else if (o.kind == "stall") e += o.P(1);
      else if (o.kind == "cam_kind") { e += o.P(2); cam_weird[static_cast<int>(o.P(0)) % 3].add(o.t, e + 1); any_w.add(o.t, e); }
      else if (o.kind == "cam_skew") { e += o.P(2) + std::max(0.0, o.P(1)) + 1; cam_weird[static_cast<int>(o.P(0)) % 3].add(o.t, e); any_w.add(o.t, e); }
      else if (o.kind == "cam_lag") { e += o.P(2) + o.P(1); cam_weird[static_cast<int>(o.P(0)) % 3].add(o.t, e); any_w.add(o.t, e); }
      else if (o.kind == "net") { e += o.P(1) + 0.5; net_w.add(o.t, e); any_w.add(o.t, e); }
      else if (o.kind == "svc") { if (o.P(0) > 0) { e += std::min(o.P(2), 1e6); svc_w.add(o.t, e); } }
      else if (o.kind == "reconf") {
        reconf_w.add(o.t, o.t + 0.5);
        for (size_t i = 0; i + 1 < o.p.size(); i += 2) reconf_range(static_cast<int>(o.p[i]) % NRECONF, o.p[i + 1]);
      } else if (o.kind == "param_set" && static_cast<int>(o.P(0)) % 11 == 0) cruise_hi = std::max(cruise_hi, o.P(1));
      else if (o.kind == "mission") { if (o.P(1, 3) > 0) cruise_hi = std::max(cruise_hi, o.P(1, 3)); }
      if (e < 1e5) calm_from = std::max(calm_from, e);
      else calm_from = 1e9;
    }
  }
  void reconf_range(int i, double v) {
    switch (i) {
      case 0: range_lo = std::min(range_lo, v); range_hi = std::max(range_hi, v); break;
      case 1: minr_lo = std::min(minr_lo, v); minr_hi = std::max(minr_hi, v); break;
      case 10: min_timeout_term = std::min(min_timeout_term, v); max_timeout_term = std::max(max_timeout_term, v); break;
      case 11: max_age_lo = std::min(max_age_lo, v); max_age_hi = std::max(max_age_hi, v); break;
      case 12: minpts_hi = std::max<int>(minpts_hi, v); minpts_lo = std::min<int>(minpts_lo, v); break;
      case 13: case 14: smooth_changed = true; break;
      case 7: goal_z_known = false; break;
      case 17: n_exp_hi = std::max<int>(n_exp_hi, v); break;
      case 18: node_dist_lo = std::min(node_dist_lo, v); node_dist_hi = std::max(node_dist_hi, v); break;
    }
  }

  // ------------------------------------------------------------------ observation
  bool pose_healthy(double a, double b) const {  // poses were delivered without gaps > 0.15 s in [a,b]
    if (a < 0.3) return false;
    double prev = -1;
    for (auto& p : poses) {
      if (p.t < a - 0.2) continue;
      if (p.t > b) break;
      if (prev < 0) { if (p.t > a + 0.02) return false; }
      else if (p.t - prev > 0.15) return false;
      prev = p.t;
    }
    return prev > b - 0.15;
  }
  bool calm_sched(double a, double b) const { return !stall_w.hit(a, b); }
  double iter_age(double t) const { return iters.empty() ? 1e9 : t - iters.back().t; }
  double worst_age(double a, double b) const {  // largest age of the newest planning result at any instant of [a,b]
    double w = iter_age(b);
    for (size_t i = iters.size(); i-- > 0 && iters[i].t > a;) w = std::max(w, iters[i].t - (i > 0 ? iters[i - 1].t : (n_iter > iters.size() ? iters[i].t : -1e9)));
    return w;
  }
  V3 goal_now() const { return goals.empty() ? V3() : goals.back().g; }

  void on_status(const mavros_msgs::CompanionProcessStatus& m) {
    double t = nowd();
    n_status++;
    if (m.component != 196) rep().violation("C03", "component", fmt("status with component %d", m.component));
    if (m.state != 1 && m.state != 4 && m.state != 5 && m.state != 8) rep().violation("C03", "state", fmt("status state %d is none of boot, active, critical, termination", m.state));
    if (std::fabs(m.header.stamp.toSec() - T0 - t) > 0.1 && calm_sched(t - 0.5, t)) rep().violation("C03", "stamp", fmt("status stamped %.3f s away from its publication", m.header.stamp.toSec() - T0 - t));
    double prev = stats.empty() ? t_ready : stats.back().t;
    if (!stats.empty() && t - prev > 0.2 + 0.15 && calm_sched(prev - 0.3, t))
      rep().violation("C03", "gap", fmt("no status for %.3f s (%.3f .. %.3f)", t - prev, prev, t));
    if (!stats.empty() && t - prev < 0.05 && calm_sched(prev - 1, t)) status_gap_checked++;
    stats.push_back({t, m.state});
    if (stats.size() > 300) stats.pop_front();
    // --- C01
    double start = t_ready;
    bool ph = pose_healthy(t - 1.6, t), cs = calm_sched(t - 2.5, t);
    if (ph && cs && t - start > 5 + 1.5) {
      double age = iter_age(t);
      rep().probe("c01_evaluated");
      if (age > 1.3) rep().probe("c01_stale");
      if (m.state == 4 && age > 1.3)
        rep().violation("C01", "active-without-data", fmt("status ACTIVE at %.2f s although the newest planning result is %.2f s old", t, age));
      if (m.state != 8 && age > 15 + 1.5 && t - start > 15 + 1.5)
        rep().violation("C01", "no-termination", fmt("status %d at %.2f s although the newest planning result is %.2f s old", m.state, t, age));
    }
    if (m.state == 8) {
      rep().probe("status_termination");
      double lastpose = poses.empty() ? start : poses.back().t, wait = t - lastpose;
      double age = worst_age(t - 0.6, t);
      bool by_data = age > 15 - 0.7 && t - start > 15 - 0.7;
      bool by_pose = wait > min_timeout_term - 0.7;
      if (!by_data && !by_pose && cs && ph)
        rep().violation("C01", "termination-with-data", fmt("termination at %.2f s although planning results (%.2f s old) and poses (%.2f s old) are recent", t, age, wait));
    }
    if (m.state == 5) {
      rep().probe("status_critical");
      if (ph && cs && healthy_iters(t - 1.2, t) && t - start > 2)
        rep().violation("C01", "critical-with-data", fmt("status CRITICAL at %.2f s although planning results arrive regularly", t));
    }
    // --- C05: no pose for longer than the termination time-out
    {
      double lastpose = poses.empty() ? start : poses.back().t;
      double wait = t - lastpose;
      if (wait > max_timeout_term + 0.8 && cs && n_pose_begun == poses_done) {
        rep().probe("c05_evaluated");
        if (m.state != 8) rep().violation("C05", "no-termination", fmt("status %d at %.2f s although no vehicle position arrived for %.2f s", m.state, t, wait));
      }
    }
    // ... and everything resumes once positions are back
    if (pose_off.last() > 0 && t > pose_off.last() && !pose_off.hit(t - 3, t) && pose_healthy(t - 2.5, t) && calm_sched(t - 4, t) && healthy_iters(t - 2.2, t) && t - start > 8) {
      rep().probe("c05_recovered");
      if (m.state != 4) rep().violation("C05", "no-recovery", fmt("status %d at %.2f s although positions and planning results have been back for 2 s", m.state, t));
      if (t - last_setpoint > 1.0 && !down) rep().violation("C05", "no-setpoints", fmt("no setpoint for %.2f s at %.2f s although positions and planning results have been back for 2 s", t - last_setpoint, t));
    }
    rep().state((static_cast<uint64_t>(m.state) << 8) ^ static_cast<uint64_t>(cur_color + 2) ^ (static_cast<uint64_t>(iter_age(t) < 0.5) << 16) ^ (static_cast<uint64_t>(ph) << 17) ^
                (static_cast<uint64_t>(std::min<size_t>(iters.empty() ? 0 : iters.back().path.size(), 9)) << 20) ^ (static_cast<uint64_t>(mode) << 26) ^ (static_cast<uint64_t>(svc_until > t ? svc_mode : 0) << 30));
  }
  uint64_t poses_done = 0;
  bool garbage_seen = false;
  std::deque<double> sp_times;
  double hang_until = -1;  // a parameter request stays unanswered until then
  bool healthy_iters(double a, double b) const {
    double prev = -1;
    for (auto& i : iters) {
      if (i.t < a - 0.3) continue;
      if (prev < 0) { if (i.t > a + 0.05) return false; }
      else if (i.t - prev > 0.35) return false;
      prev = i.t;
    }
    return prev > b - 0.3;
  }
  void on_setpoint(const geometry_msgs::PoseStamped& m) {
    double t = nowd();
    n_setpoints++;
    rep().probe("setpoints");
    // --- C02: at most one setpoint per position received
    if (n_setpoints > n_pose_begun) rep().violation("C02", "more-setpoints-than-poses", fmt("setpoint %llu with only %llu positions received", (unsigned long long)n_setpoints, (unsigned long long)n_pose_begun));
    // (a position may arrive between the moment the previous one was taken and its setpoint: 30 ms of slack)
    if (calm_sched(t - 3, t)) {
      size_t j = 0, have = n_pose_begun > poses_done ? static_cast<size_t>(n_pose_begun - poses_done) : 0;
      auto it = poses.rbegin();
      for (auto s = sp_times.rbegin(); s != sp_times.rend() && *s > t - 2.5; ++s) {
        j++;
        while (it != poses.rend() && it->t > *s - 0.03) { have++; ++it; }
        if (have < j) { rep().violation("C02", "reused-pose", fmt("%zu setpoints after %.3f s but only %zu positions received since, at %.3f s", j, *s, have, t)); break; }
      }
    }
    sp_times.push_back(t);
    if (sp_times.size() > 40) sp_times.pop_front();
    bool fresh = false;
    for (auto it = poses.rbegin(); it != poses.rend() && it->t > last_setpoint - 0.2; ++it) fresh = true;
    if (n_pose_begun > poses_done) fresh = true;
    if (!fresh) rep().violation("C02", "no-new-pose", fmt("setpoint at %.3f s without a position newer than the previous setpoint (%.3f s)", t, last_setpoint));
    double age = iter_age(t);
    bool cs = calm_sched(t - 2.5, t);
    if (cs && t - t_ready > 5.3 && age > 0.5 + 0.3)
      rep().violation("C02", "stale-data-setpoint", fmt("setpoint at %.2f s although the newest planning result is %.2f s old", t, age));
    if (cs && n_pose_begun == poses_done && !poses.empty() && t - poses.back().t > 1.0)
      rep().violation("C02", "old-pose", fmt("setpoint at %.3f s for a position received %.2f s earlier", t, t - poses.back().t));
    if (down && t > t_down + 3.0) rep().violation("C02", "after-shutdown", fmt("setpoint %.2f s after shutdown", t - t_down));
    last_setpoint = t;
    last_sp_msg = m;
    have_sp_msg = true;
    sp_pos = v3(m.pose.position);
    sp_yaw = tf::getYaw(m.pose.orientation);
    sp_time = t;
    if (!plan.K("poison", 0)) {
      if (!v3(m.pose.position).finite()) rep().violation("C04", "setpoint-nan", fmt("setpoint position (%g %g %g)", m.pose.position.x, m.pose.position.y, m.pose.position.z));
      const auto& q = m.pose.orientation;
      double n = q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w;
      if (!(std::fabs(n - 1) < 1e-2)) rep().violation("C04", "quaternion", fmt("setpoint orientation has norm^2 %g", n));
    }
    if (std::fabs(m.header.stamp.toSec() - T0 - t) > 0.05 && cs) rep().violation("C04", "setpoint-stamp", fmt("setpoint stamped %.3f s off", m.header.stamp.toSec() - T0 - t));
    if (m.header.frame_id != "local_origin") rep().violation("C04", "setpoint-frame", "setpoint in frame " + m.header.frame_id);
    check_c06(t);
    check_c10(t);
    if (smooth_off_always && mode != 3 && (sp_pos - wp_adapted).norm() > 1e-3 && wp_adapted.finite() && plan.K("landy", 0) == 0)
      rep().violation("C06", "not-adapted", fmt("with smoothing disabled the setpoint (%.2f %.2f %.2f) differs from the speed-limited waypoint (%.2f %.2f %.2f)", sp_pos.x, sp_pos.y, sp_pos.z, wp_adapted.x, wp_adapted.y, wp_adapted.z));
  }
  // the speeds that may be in force: changes count from their arrival, the old speed fades out (low pass of 0.9 s)
  double speed_limit = 1e9, iter_gap = 0, pose_gap = 0;  // the last time results or positions paused
  double allowed_speed(double t) {
    const double W = 8;
    double all = std::max(cruise_hi, 2.0);
    if (!calm_sched(t - W - 1, t) || iter_gap > t - W || pose_gap > t - W || iter_age(t) > 0.35 || t < W) return all;
    double best = -1, last = NAN;
    // the mission speed overrides the cruise speed once it is known
    for (const Op& o : plan.ops) {
      if (o.kind != "mission" || o.t > t || o.P(0, 1) != 1 || !(o.P(1, 3) > 0)) continue;
      bool sure = !net_w.hit(o.t - 0.1, o.t + 1);
      if (sure && o.t < t - W) { best = -1; last = o.P(1, 3); }
      else best = std::max(best, static_cast<double>(o.P(1, 3)));
    }
    if (fin(last)) {
      rep().probe("c06_mission_speed");
      return std::min(std::max(best, last), speed_limit);
    }
    if (plan.K("svc0", 0) != 0 || !svc_w.w.empty()) return std::max(best, all);
    double cr = cruise0;
    for (const Op& o : plan.ops) {
      if (o.kind != "param_set" || o.t > t || static_cast<int>(o.P(0)) % 11 != 0) continue;
      bool sure = !net_w.hit(o.t - 0.1, o.t + 1) && o.t > 4;
      if (sure && o.t < t - W) cr = o.P(1);
      else cr = std::max(cr, static_cast<double>(o.P(1)));
    }
    rep().probe("c06_cruise_speed");
    return std::min(std::max(best, cr), speed_limit);
  }
  double cruise0 = 0;
  void check_c06(double t) {
    if (plan.K("poison", 0) || plan.K("landy", 0) || !calm_sched(t - 1, t) || poses.size() < 3 || goals.empty()) return;
    // distance of the speed-limited waypoint from the vehicle: at most the allowed speed (x 1 s), never beyond the goal
    double best = 1e9, bestg = 1e9, moved = 0;
    for (size_t k = 0; k < 4 && k < poses.size(); k++) {
      const V3& p = poses[poses.size() - 1 - k].p;
      moved = std::max(moved, (p - poses.back().p).norm());
      double d = (wp_adapted - p).norm();
      best = std::min(best, d);
      for (auto g = goals.rbegin(); g != goals.rend(); ++g) {
        V3 gg = g->g;
        if (!goal_z_known || !g->z_known) gg.z = wp_adapted.z;  // height not modelled: bound the horizontal part only
        V3 ap = wp_adapted, pp = p;
        double gd = (goal_z_known && g->z_known) ? (gg - pp).norm() : 1e9;
        bestg = std::min(bestg, d - gd);
        if (g->t1 < t - 0.5) break;
        (void)ap;
      }
    }
    rep().probe("c06_checked");
    double cap = allowed_speed(t) + 0.02;
    if (best > cap) rep().violation("C06", "speed", fmt("commanded waypoint is %.2f m ahead of the vehicle, more than the allowed speed %.2f m/s", best, cap));
    if (bestg > 0.05) rep().violation("C06", "overshoot", fmt("commanded waypoint is %.2f m farther than the goal", bestg));
  }
  // reference: how far along a path a vehicle flying at speed v would be
  static bool path_valid_ref(const std::vector<V3>& p, double elapsed, double v, double margin) {
    // p[0] is the far end, p.back() the vehicle; the first leg (vehicle -> p[n-2]) is skipped by the planner
    double len = 0;
    for (size_t i = 0; i + 2 < p.size(); i++) len += (p[i] - p[i + 1]).norm();
    return elapsed * v < len + margin;
  }
  void check_c10(double t) {
    if (cur_color != 1) { expired_loops = 0; return; }
    if (iters.empty() || !calm_sched(t - 2.5, t) || down) { expired_loops = 0; return; }
    rep().probe("c10_on_path");
    if (!fin(c10_cruise_lo) || reconf_w.hit(t - 3, t)) { expired_loops = 0; return; }
    // newest generated path among the results that may have reached the setpoint generator
    bool some_valid = false;
    int seen = 0;
    double now_elapsed = 1e9;
    for (auto it = iters.rbegin(); it != iters.rend() && seen < 3; ++it) {
      if (it->path.size() < 2) continue;
      seen++;
      double gen = it->path_time;
      now_elapsed = std::min(now_elapsed, t - gen);
      if (it->path.size() == 2 || path_valid_ref(it->path, t - gen, c10_cruise_lo, 0.3 * c10_cruise_lo + 0.2)) some_valid = true;
    }
    if (seen == 0) { if (n_iter > 3) {} return; }
    if (!some_valid) {
      rep().probe("c10_expired");
      if (++expired_loops > 3) rep().violation("C10", "expired-path", fmt("still following a path at %.2f s although it was generated %.2f s ago and ends before that", t, now_elapsed));
    } else expired_loops = 0;
  }
  double c10_cruise_lo = NAN;
  void on_trajectory(const mavros_msgs::Trajectory& m) {
    double t = nowd();
    auto all_nan = [](const mavros_msgs::PositionTarget& p) {
      return std::isnan(p.position.x) && std::isnan(p.position.y) && std::isnan(p.position.z) && std::isnan(p.velocity.x) && std::isnan(p.velocity.y) &&
             std::isnan(p.velocity.z) && std::isnan(p.acceleration_or_force.x) && std::isnan(p.acceleration_or_force.y) && std::isnan(p.acceleration_or_force.z) && std::isnan(p.yaw) && std::isnan(p.yaw_rate);
    };
    rep().probe("trajectories");
    if (m.type != 0) rep().violation("C04", "type", fmt("trajectory type %d", m.type));
    if (!m.point_valid[0] || m.point_valid[1] || m.point_valid[2] || m.point_valid[3] || m.point_valid[4]) rep().violation("C04", "valid-flags", "trajectory validity flags are not 1,0,0,0,0");
    if (!all_nan(m.point_2) || !all_nan(m.point_3) || !all_nan(m.point_4) || !all_nan(m.point_5)) rep().violation("C04", "unused-points", "an unused trajectory point carries numbers");
    for (int i = 0; i < 5; i++) if (!std::isnan(m.time_horizon[i])) rep().violation("C04", "horizon", "time horizon of a waypoint trajectory is set");
    if (!std::isnan(m.point_1.acceleration_or_force.x) || !std::isnan(m.point_1.acceleration_or_force.y) || !std::isnan(m.point_1.acceleration_or_force.z)) rep().violation("C04", "acceleration", "acceleration set");
    if (std::fabs(m.header.stamp.toSec() - T0 - t) > 0.05 && calm_sched(t - 1, t)) rep().violation("C04", "stamp", "trajectory stamp");
    if (plan.K("poison", 0)) return;
    const auto& p = m.point_1;
    const double pos[3] = {p.position.x, p.position.y, p.position.z}, ve[3] = {p.velocity.x, p.velocity.y, p.velocity.z};
    for (int i = 0; i < 3; i++) {
      if (!fin(pos[i]) && !fin(ve[i])) rep().violation("C04", "no-command", fmt("axis %d has neither position nor velocity", i));
      if (std::isinf(pos[i]) || std::isinf(ve[i])) rep().violation("C04", "inf", "infinite trajectory value");
    }
    if (!fin(p.yaw) || std::fabs(p.yaw) > M_PI + 1e-3) rep().violation("C04", "yaw", fmt("trajectory yaw %g", p.yaw));
    if (have_sp_msg) {
      const auto& s = last_sp_msg.pose.position;
      const double sp[3] = {s.x, s.y, s.z};
      for (int i = 0; i < 3; i++)
        if (!(std::isnan(sp[i]) && std::isnan(pos[i])) && std::fabs(sp[i] - pos[i]) > 1e-4) rep().violation("C04", "mismatch", fmt("trajectory position axis %d %.3f differs from the setpoint %.3f", i, pos[i], sp[i]));
      if (std::fabs(wrap_pi(p.yaw - tf::getYaw(last_sp_msg.pose.orientation))) > 1e-3) rep().violation("C04", "yaw-mismatch", "trajectory yaw differs from the setpoint");
    }
  }

  // --- geometry of clouds
  static uint64_t cell_key(const V3& p, double s) {
    auto k = [&](double v) { return static_cast<uint64_t>(static_cast<int64_t>(std::floor(v / s)) + (1 << 20)) & 0x1fffff; };
    return (k(p.x) << 42) | (k(p.y) << 21) | k(p.z);
  }
  bool resolve(CloudRec& c) {
    if (c.world_ok) return true;
    PoseAt a;
    if (!hist.at(c.stamp, a)) return false;
    tf::Transform tr = tf_of(a) * cams[c.cam].mount();
    for (auto& p : c.pts) {
      tf::Vector3 v = tr * tf::Vector3(p.x, p.y, p.z);
      c.world.push_back(V3(v.x(), v.y(), v.z()));
    }
    c.world_ok = true;
    return true;
  }
  void on_cloud(const pcl::PointCloud<pcl::PointXYZI>& m) {
    double t = nowd();
    n_iter++;
    Iter it;
    it.t = t;
    it.n = n_iter;
    for (auto& p : m.points) { it.pts.push_back(V3(p.x, p.y, p.z)); it.age.push_back(p.intensity); }
    rep().probe("iterations");
    // --- C14 every configured camera must have contributed a cloud to every planning iteration
    for (size_t i = 0; i < cams.size(); i++)
      if (n_iter > clouds_delivered[i]) rep().violation("C14", "missing-camera", fmt("planning iteration %llu but camera %zu delivered only %llu clouds", (unsigned long long)n_iter, i, (unsigned long long)clouds_delivered[i]));
    if (m.header.frame_id != "local_origin" && !m.points.empty()) rep().violation("C14", "frame", "obstacle cloud in frame " + m.header.frame_id);
    check_c14(it, t);
    check_c07(it, t);
    if (iters.empty() || t - iters.back().t > 0.35) iter_gap = t;
    iters.push_back(it);
    if (iters.size() > 12) iters.pop_front();
  }
  // The planner works with the vehicle pose it had when the iteration began: any pose between the last one before the
  // previous result and the newest one. False when that pose is unknown (none received before the iteration).
  bool plan_pose(double t, V3& me_p, double& yaw, double& dpos, double& dyaw, double* pitch = nullptr, double* dpitch = nullptr) const {
    double from = iters.empty() ? -1 : iters.back().t;
    if (!iters.empty() && iters.back().t == t) from = iters.size() > 1 ? iters[iters.size() - 2].t : -1;
    if (poses.empty()) return false;
    me_p = poses.back().p;
    yaw = poses.back().yaw;
    dpos = dyaw = 0;
    if (pitch) { *pitch = poses.back().pitch; *dpitch = 0; }
    bool before = false;
    for (auto p = poses.rbegin(); p != poses.rend(); ++p) {
      dpos = std::max(dpos, (p->p - me_p).norm());
      dyaw = std::max(dyaw, std::fabs(wrap_pi(p->yaw - yaw)));
      if (pitch) *dpitch = std::max(*dpitch, std::fabs(p->pitch - *pitch));
      if (p->t < from - 0.01) { before = true; break; }
    }
    return before;
  }
  void check_c14(Iter& it, double t) {
    if (!calm_sched(t - 4, t) || tf_off.hit(t - 4, t + 0) || plan.K("poison", 0)) return;
    // every new point must be a point some camera reported, moved with the vehicle's pose at the cloud's time stamp
    std::vector<CloudRec*> cand;
    std::vector<double> tol, tol_yaw;
    for (auto c = clouds.rbegin(); c != clouds.rend(); ++c) {
      if (c->sent < t - 40) break;  // a camera's last cloud waits for the other cameras
      if (c->delivered < 0) continue;
      if (!resolve(*c)) return;
      PoseAt a, b, d;
      double dev = 0, devy = 0;
      if (hist.at(c->stamp - 0.05, a) && hist.at(c->stamp, b)) { dev = std::max(dev, (a.p - b.p).norm()); devy = std::max(devy, std::fabs(wrap_pi(a.yaw - b.yaw)) + std::fabs(a.pitch - b.pitch)); }
      if (hist.at(c->stamp, b) && hist.at(std::min(c->stamp + 0.05, t), d)) { dev = std::max(dev, (d.p - b.p).norm()); devy = std::max(devy, std::fabs(wrap_pi(d.yaw - b.yaw)) + std::fabs(d.pitch - b.pitch)); }
      // the transform buffer interpolates between samples up to about 0.1 s apart: allow for the curvature of the motion
      for (double w : {0.05, 0.1})
        if (hist.at(c->stamp - w, a) && hist.at(c->stamp, b) && hist.at(std::min(c->stamp + w, t), d)) {
          dev = std::max(dev, ((a.p + d.p) * 0.5 - b.p).norm() * 8);
          devy = std::max(devy, (std::fabs(wrap_pi(a.yaw - b.yaw) + wrap_pi(d.yaw - b.yaw)) / 2 + std::fabs((a.pitch + d.pitch) / 2 - b.pitch)) * 8);
        }
      cand.push_back(&*c);
      tol.push_back(0.12 + 0.15 * dev);
      tol_yaw.push_back(0.006 + 0.15 * devy);
    }
    uint64_t fresh = 0, bad = 0;
    V3 me_now = poses.empty() ? me.p : poses.back().p;
    V3 ex;
    double exd = 0;
    for (size_t i = 0; i < it.pts.size(); i++) {
      if (it.age[i] > 1e-6) continue;
      fresh++;
      double best = 1e9;
      for (size_t k = 0; k < cand.size(); k++) {
        for (auto& q : cand[k]->world) {
          double dx = q.x - it.pts[i].x;
          if (std::fabs(dx) > 2) continue;
          double d = (q - it.pts[i]).norm() - tol[k] - tol_yaw[k] * (q - me_now).norm();
          if (d < best) best = d;
          if (best <= 0) break;
        }
        if (best <= 0) {
          if (sim::tracing() && t - cand[k]->stamp > 5) sim::tracef("  point from a cloud of age %.3f cam %d delivered %.3f", t - cand[k]->stamp, cand[k]->cam, cand[k]->delivered);
          break;
        }
      }
      if (best > 0) {
        bad++; ex = it.pts[i]; exd = best;
        if (sim::tracing())
          for (size_t k = 0; k < cand.size(); k++)
            for (auto& q : cand[k]->world)
              if ((q - it.pts[i]).norm() < 0.6) sim::tracef("  misplaced (%.3f %.3f %.3f): candidate %.3f from cam %d stamp %.4f tol %.3f + %.4f", it.pts[i].x, it.pts[i].y, it.pts[i].z, (q - it.pts[i]).norm(), cand[k]->cam, cand[k]->stamp, tol[k], tol_yaw[k]);
      }
    }
    rep().probe("c14_points", fresh);
    if (bad) rep().violation("C14", "misplaced", fmt("%llu of %llu new obstacle points at %.2f s match no sensed point moved with the pose at its time stamp, e.g. (%.2f %.2f %.2f) off by %.2f m more than tolerated", (unsigned long long)bad, (unsigned long long)fresh, t, ex.x, ex.y, ex.z, exd));
    // completeness: every camera's obstacles must show up
    V3 me_p;
    double yaw, dpos, dyaw;
    if (minpts_hi > 1 || minpts_lo < 1 || reconf_w.hit(t - 3, t) || !plan_pose(t, me_p, yaw, dpos, dyaw) || dpos > 1.5) return;
    for (size_t i = 0; i < cams.size(); i++) {
      if (cam_weird[i].hit(t - 4, t)) continue;
      bool any = false, ok = false;
      size_t miss_best = 1e9;
      V3 missp;
      for (auto* c : cand) {
        if (c->cam != static_cast<int>(i) || c->weird) continue;
        any = true;
        size_t miss = 0;
        V3 mp;
        for (size_t q = 0; q < c->world.size(); q += 5) {
          V3 d = c->world[q] - me_p;
          double r = d.norm();
          if (r < minr_hi + 0.6 + dpos || r > range_lo - 0.6 - dpos) continue;
          bool seen = false;
          for (size_t k = 0; k < it.pts.size() && !seen; k++) {
            if (it.age[k] > 1e-6) continue;
            V3 e = it.pts[k] - me_p;
            if (e.dot(d) > std::cos(std::min(1.5, (4.5 + 25 / std::max(1.0, r)) * M_PI / 180 + 1.6 * dpos / std::max(0.5, r))) * r * e.norm()) seen = true;
          }
          if (!seen) { miss++; mp = c->world[q]; }
        }
        if (miss < miss_best) { miss_best = miss; missp = mp; }
        if (miss == 0) { ok = true; break; }
      }
      if (any) rep().probe("c14_complete");
      if (any && !ok) rep().violation("C14", "camera-ignored", fmt("at %.2f s obstacle points reported by camera %zu are missing from the planner's obstacle set, e.g. near (%.2f %.2f %.2f)", t, i, missp.x, missp.y, missp.z));
    }
  }
  // Which directions a camera is known to look at. The planner learns each camera's view from the extreme points of its
  // clouds (only ever widening it), so the learned view lies inside the hull of everything seen, and is at least as wide
  // as any cloud that was used: a view [a,b] of width >= w inside a hull [A,B] covers [B-w, A+w].
  struct View {
    double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};  // hull: azimuth from the camera's axis, elevation in the vehicle's frame (deg)
    double w[2] = {0, 0};                             // width certainly learned
    struct Span { double t, w[2]; bool weird; };
    std::deque<Span> recent;
  } view[3];
  void learn_view(const CloudRec& c, double t) {
    View& v = view[c.cam];
    tf::Transform mt = cams[c.cam].mount();
    const V3* ext[6] = {};
    double slo[2] = {1e9, 1e9}, shi[2] = {-1e9, -1e9};
    auto dir = [&](const V3& p, double* d) {
      tf::Vector3 b = mt * tf::Vector3(p.x, p.y, p.z);
      d[0] = wrap_pi(std::atan2(b.y(), b.x()) - cams[c.cam].yaw * M_PI / 180) * 180 / M_PI;
      d[1] = std::atan2(b.z(), std::hypot(b.x(), b.y())) * 180 / M_PI;
    };
    for (auto& p : c.pts) {
      const double q[3] = {p.x, p.y, p.z};
      for (int i = 0; i < 3; i++) {
        const V3*& a = ext[i];
        const V3*& b = ext[3 + i];
        if (!a || q[i] > (i == 0 ? a->x : i == 1 ? a->y : a->z)) a = &p;
        if (!b || q[i] < (i == 0 ? b->x : i == 1 ? b->y : b->z)) b = &p;
      }
      double d[2];
      dir(p, d);
      for (int i = 0; i < 2; i++) { v.lo[i] = std::min(v.lo[i], d[i]); v.hi[i] = std::max(v.hi[i], d[i]); }
    }
    for (auto* e : ext) {
      if (!e) continue;
      double d[2];
      dir(*e, d);
      for (int i = 0; i < 2; i++) { slo[i] = std::min(slo[i], d[i]); shi[i] = std::max(shi[i], d[i]); }
    }
    v.recent.push_back({t, {std::max(0.0, shi[0] - slo[0]), std::max(0.0, shi[1] - slo[1])}, c.weird});
    while (v.recent.front().t < t - 1.2) v.recent.pop_front();
  }
  void settle_view(double t) {  // called with every planning result: one of the clouds of the last second was used
    if (iters.size() < 3 || iters[iters.size() - 2].t < t - 1.0 || tf_off.hit(t - 3, t) || !calm_sched(t - 3, t)) return;
    for (size_t i = 0; i < cams.size(); i++) {
      View& v = view[i];
      double w[2] = {1e9, 1e9};
      size_t n = 0;
      bool weird = false;
      for (auto& s : v.recent) {
        n++;
        if (s.weird) weird = true;
        for (int k = 0; k < 2; k++) w[k] = std::min(w[k], s.w[k]);
      }
      if (n < 3 || weird || v.recent.front().t > t - 0.2) continue;
      for (int k = 0; k < 2; k++) v.w[k] = std::max(v.w[k], w[k]);
    }
  }
  // 1: some camera certainly looks in that direction, -1: certainly none does, 0: unknown
  int looks_at(const V3& d, double yaw, double pitch, double dpos, double dyaw, double dpitch) const {
    double r = std::max(0.5, d.nxy());
    double el = std::atan2(d.z, d.nxy()) * 180 / M_PI + pitch * 180 / M_PI;
    double m[2] = {4 + (dyaw + 1.6 * dpos / r) * 180 / M_PI + std::fabs(pitch) * 40, 4 + (dpitch + 1.6 * dpos / r) * 180 / M_PI + std::fabs(pitch) * 40};
    bool out_all = true;
    for (size_t i = 0; i < cams.size(); i++) {
      const View& v = view[i];
      double off[2] = {wrap_pi(std::atan2(d.y, d.x) - yaw - cams[i].yaw * M_PI / 180) * 180 / M_PI, el};
      bool out = false, in = true;
      for (int k = 0; k < 2; k++) {
        if (v.hi[k] < v.lo[k]) { out = true; in = false; continue; }
        if (off[k] < v.lo[k] - m[k] || off[k] > v.hi[k] + m[k]) out = true;
        if (off[k] < v.hi[k] - v.w[k] + m[k] || off[k] > v.lo[k] + v.w[k] - m[k]) in = false;
      }
      if (std::fabs(cams[i].yaw) + std::max(v.hi[0], -v.lo[0]) > 170) in = false;  // the seam at the rear
      if (in && d.nxy() > 0.8) return 1;
      if (!out || d.nxy() < 0.8) out_all = false;
    }
    return out_all ? -1 : 0;
  }
  void check_c07(Iter& it, double t) {
    if (plan.K("poison", 0)) return;
    for (size_t i = 0; i < it.pts.size(); i++) {
      if (!it.pts[i].finite()) { rep().violation("C07", "nonfinite", "non-finite obstacle point"); return; }
      if (!(it.age[i] >= 0)) { rep().violation("C07", "age-negative", fmt("obstacle age %g", it.age[i])); return; }
    }
    for (double a : it.age) it.born.push_back(t - a);
    if (poses.empty()) return;
    bool cs = calm_sched(t - 3, t);
    V3 me_p;
    double pyaw, dpos, dyaw, ppitch, dpitch;
    bool known_pose = plan_pose(t, me_p, pyaw, dpos, dyaw, &ppitch, &dpitch) && dpos < 3;
    double slack = 0.3 + dpos;
    if (cs && known_pose && pose_healthy(t - 0.5, t) && !reconf_w.hit(t - 3, t)) {
      for (size_t i = 0; i < it.pts.size(); i++) {
        double r = (it.pts[i] - me_p).norm();
        if (r > range_hi + slack) rep().violation("C07", "too-far", fmt("obstacle point %.2f m away with sensor range %.2f", r, range_hi));
        if (it.age[i] < 1e-6 && r < minr_lo - slack) rep().violation("C07", "too-near", fmt("new obstacle point at %.2f m, minimum %.2f", r, minr_lo));
      }
    }
    if (iters.empty()) return;
    const Iter& pr = iters.back();
    double dt = t - pr.t;
    std::map<uint64_t, std::vector<size_t>> idx;
    for (size_t i = 0; i < it.pts.size(); i++) idx[cell_key(it.pts[i], 0.5)].push_back(i);
    auto find_same = [&](const V3& p) -> int {
      auto f = idx.find(cell_key(p, 0.5));
      if (f == idx.end()) return -1;
      for (size_t i : f->second) if (it.pts[i].x == p.x && it.pts[i].y == p.y && it.pts[i].z == p.z) return static_cast<int>(i);
      return -1;
    };
    for (size_t i = 0; i < it.pts.size(); i++)
      if (it.age[i] > max_age_hi + std::max(dt, 0.2) + 0.5 && cs) rep().violation("C07", "over-age", fmt("remembered obstacle point of age %.2f s, maximum %.2f s", it.age[i], max_age_hi));
    // remembered points: same place, age grows with time; provenance: present in the previous set
    std::map<uint64_t, std::vector<size_t>> pidx;
    for (size_t i = 0; i < pr.pts.size(); i++) pidx[cell_key(pr.pts[i], 0.5)].push_back(i);
    for (size_t i = 0; i < it.pts.size(); i++) {
      if (it.age[i] <= 1e-6) continue;
      bool found = false;
      auto f = pidx.find(cell_key(it.pts[i], 0.5));
      if (f != pidx.end())
        for (size_t k : f->second)
          if (pr.pts[k].x == it.pts[i].x && pr.pts[k].y == it.pts[i].y && pr.pts[k].z == it.pts[i].z) {
            found = true;
            it.born[i] = pr.born[k];
            double grow = it.age[i] - pr.age[k];
            if (cs && std::fabs(grow - dt) > 0.12 + plan.K("plan_ms", 0) * 0.004) rep().violation("C07", "age-drift", fmt("remembered point aged %.3f s between planning results %.3f s apart", grow, dt));
            break;
          }
      if (!found && dt > 0.02) rep().violation("C07", "ghost", fmt("obstacle point (%.2f %.2f %.2f) of age %.2f s was not in the previous obstacle set", it.pts[i].x, it.pts[i].y, it.pts[i].z, it.age[i]));
      rep().probe("c07_remembered");
      if (found && calm_sched(it.born[i] - 1, t) && std::fabs(it.age[i] - (t - it.born[i])) > 0.2 + plan.K("plan_ms", 0) * 0.004)
        rep().violation("C07", "age-total", fmt("remembered point has age %.2f s, but was last seen %.2f s ago", it.age[i], t - it.born[i]));
    }
    settle_view(t);
    if (cs && known_pose && !garbage_seen && !tf_off.hit(t - 4, t) && dpos < 0.5) {
      for (size_t i = 0; i < it.pts.size(); i++) {
        if (it.age[i] <= 1e-6 || looks_at(it.pts[i] - me_p, pyaw, ppitch, dpos, dyaw, dpitch) != 1) continue;
        rep().violation("C07", "in-view", fmt("obstacle point (%.2f %.2f %.2f) of age %.2f s is remembered at %.2f s although a camera looks at its place", it.pts[i].x, it.pts[i].y, it.pts[i].z, it.age[i], t));
        break;
      }
      for (size_t k = 0; k < pr.pts.size(); k++)
        if (pr.age[k] > 1e-6 && looks_at(pr.pts[k] - me_p, pyaw, ppitch, dpos, dyaw, dpitch) == 1) rep().probe("c07_seen_again");
    }
    // forgetting: a young point outside every view must stay unless its direction is taken by another point
    if (!cs || !known_pose || garbage_seen || reconf_w.hit(t - 3, t) || !pose_healthy(pr.t - 0.3, t) || tf_off.hit(t - 4, t)) return;
    for (size_t k = 0; k < pr.pts.size(); k++) {
      if (pr.age[k] > max_age_lo - 0.3) continue;
      V3 d = pr.pts[k] - me_p;
      double r = d.norm();
      if (r > range_lo - 0.5 - slack || r < 0.8) continue;
      if (looks_at(d, pyaw, ppitch, dpos, dyaw, dpitch) != -1) continue;
      rep().probe("c07_must_remember");
      if (find_same(pr.pts[k]) >= 0) continue;
      bool taken = false;
      for (size_t i = 0; i < it.pts.size() && !taken; i++) {
        V3 e = it.pts[i] - me_p;
        double lim = (4.0 + 5 / std::max(0.5, std::min(r, e.norm()))) * M_PI / 180 + 1.6 * dpos / std::max(0.5, std::min(r, e.norm()));
        if (e.dot(d) > std::cos(std::min(lim, 1.2)) * r * e.norm()) taken = true;
      }
      if (!taken) rep().violation("C07", "forgotten", fmt("obstacle point (%.2f %.2f %.2f), %.1f s old, outside every camera's view and in range (%.1f m), was forgotten at %.2f s", pr.pts[k].x, pr.pts[k].y, pr.pts[k].z, pr.age[k], r, t));
    }
  }
  void on_tree(const visualization_msgs::Marker& m) {
    if (iters.empty() || plan.K("poison", 0)) return;
    Iter& it = iters.back();
    double t = nowd();
    if (t - it.t > 0.5) return;
    size_t n = m.points.size() / 2;
    if (n == 0) return;
    it.have_root = true;
    it.root = v3(m.points[0]);
    bool cfg_calm = !reconf_w.hit(t - 1.5, t);
    if (static_cast<int>(n) > n_exp_hi) rep().violation("C09", "too-many", fmt("%zu nodes expanded, limit %d", n, n_exp_hi));
    if ((v3(m.points[1]) - it.root).norm() > 1e-4) rep().violation("C09", "root", "the root of the tree is not its own origin");
    std::vector<V3> seen;
    seen.push_back(it.root);
    for (size_t i = 1; i < n; i++) {
      V3 a = v3(m.points[2 * i]), o = v3(m.points[2 * i + 1]);
      double len = (a - o).norm();
      if (!a.finite()) { rep().violation("C09", "nan", "non-finite tree node"); return; }
      if (cfg_calm && (len > node_dist_hi + 0.02 || len < node_dist_lo - 0.02)) rep().violation("C09", "edge", fmt("tree edge of length %.3f, node distance %.2f..%.2f", len, node_dist_lo, node_dist_hi));
      bool known = false;
      for (auto& s : seen) if ((s - o).norm() < 1e-3) known = true;
      if (!known) rep().violation("C09", "disconnected", "an expanded node hangs off a node that was not expanded before");
      for (auto& s : seen) if ((s - a).norm() < 0.19 && len > 0.2) rep().violation("C09", "duplicate", fmt("two tree nodes %.3f m apart", (s - a).norm()));
      if (cfg_calm && (a - it.root).norm() > range_hi + 0.02) rep().violation("C09", "beyond-range", fmt("node expanded %.2f m away, sensor range %.2f", (a - it.root).norm(), range_hi));
      seen.push_back(a);
    }
    it.closed = seen;
    rep().probe("c09_trees");
    // root = vehicle position
    if (calm_sched(t - 1.5, t) && !it.pts.empty() && pose_healthy(t - 0.5, t)) {
      double best = 1e9;
      double from = iters.size() > 1 ? iters[iters.size() - 2].t : t - 1;
      for (auto& p : poses) if (p.t > std::min(t - 0.5, from - 0.35)) best = std::min(best, (p.p - it.root).norm());
      if (best > 0.15) rep().violation("C09", "root-position", fmt("tree rooted %.2f m from every recent vehicle position", best));
    }
  }
  void on_path(const visualization_msgs::Marker& m) {
    if (iters.empty() || plan.K("poison", 0)) return;
    Iter& it = iters.back();
    double t = nowd();
    if (t - it.t > 0.5) return;
    it.path.clear();
    for (size_t i = 0; i < m.points.size(); i += 2) {
      if (i == 0) it.path.push_back(v3(m.points[0]));
      else if ((v3(m.points[i]) - it.path.back()).norm() > 1e-6) rep().violation("C09", "path-gap", "consecutive path legs do not join");
      it.path.push_back(v3(m.points[i + 1]));
    }
    bool replanned = !it.pts.empty();
    it.path_time = t;
    // an unchanged tree (no obstacles at all) keeps the old path and its time
    if (iters.size() >= 2) {
      const Iter& pr = iters[iters.size() - 2];
      bool same = pr.path.size() == it.path.size();
      for (size_t i = 0; same && i < it.path.size(); i++) if ((pr.path[i] - it.path[i]).norm() > 0) same = false;
      if (same && !replanned) it.path_time = pr.path_time;
    }
    if (it.path.empty()) return;
    bool cfg_calm = !reconf_w.hit(t - 1.5, t);
    for (size_t i = 0; i + 1 < it.path.size(); i++) {
      double len = (it.path[i] - it.path[i + 1]).norm();
      if (cfg_calm && replanned && (len > node_dist_hi + 0.02 || len < node_dist_lo - 0.02)) rep().violation("C09", "path-leg", fmt("path leg of %.3f m, node distance %.2f..%.2f", len, node_dist_lo, node_dist_hi));
    }
    if (it.have_root && replanned) {
      if ((it.path.back() - it.root).norm() > 1e-3) rep().violation("C09", "path-root", fmt("path ends %.2f m away from the vehicle", (it.path.back() - it.root).norm()));
      for (size_t i = 1; i < it.path.size(); i++) {
        bool known = false;
        for (auto& s : it.closed) if ((s - it.path[i]).norm() < 1e-3) known = true;
        if (!known) rep().violation("C09", "path-node", "an inner path node was never expanded");
      }
    }
    rep().probe("c09_paths");
  }
  void on_goal_marker(const visualization_msgs::MarkerArray& m) {
    if (iters.size() < 2 || m.markers.empty() || goals.empty()) return;
    Iter& it = iters.back();
    double t = nowd();
    if (t - it.t > 0.5) return;
    V3 g = v3(m.markers[0].pose.position);
    it.goal = g;
    if (goal_nonfinite || plan.K("poison", 0)) return;
    // goals whose delivery finished before the previous planning result was published must be in force
    double before = iters[iters.size() - 2].t - 0.01;
    bool ok = false;
    const Goal* must = nullptr;
    for (auto r = goals.rbegin(); r != goals.rend(); ++r) {
      if (!r->to_planner) { ok = true; break; }
      if (std::fabs(r->g.x - g.x) < 1e-3 && std::fabs(r->g.y - g.y) < 1e-3 && (!r->z_known || !goal_z_known || std::fabs(r->g.z - g.z) < 1e-3)) { ok = true; break; }
      if (r->t1 < before) { must = &*r; break; }
    }
    rep().probe("c17_checked");
    if (!ok && must) rep().violation("C17", "stale-goal", fmt("planner works towards (%.2f %.2f %.2f) at %.2f s although goal (%.2f %.2f %.2f) was received by %.2f s", g.x, g.y, g.z, t, must->g.x, must->g.y, must->g.z, must->t1));
  }
  void on_scan(const sensor_msgs::LaserScan& m) {
    double t = nowd();
    rep().probe("c08_scans");
    if (m.ranges.size() != 60) { rep().violation("C08", "bins", fmt("%zu bins", m.ranges.size())); return; }
    if (std::fabs(m.angle_increment - 6 * M_PI / 180) > 1e-4) rep().violation("C08", "increment", fmt("angle increment %g", m.angle_increment));
    if (cp_negative_since >= 0 && cp_negative_since < t - 1.0 && calm_sched(t - 2, t)) rep().violation("C08", "disabled", fmt("obstacle distances sent at %.2f s although collision prevention was switched off at %.2f s", t, cp_negative_since));
    if (iters.empty() || plan.K("poison", 0)) return;
    Iter& it = iters.back();
    if (t - it.t > 0.5 || reconf_w.hit(t - 2, t)) return;
    if (range_lo != range_hi || minr_lo != minr_hi) return;
    double maxr = range_hi, minr = minr_hi;
    if (std::fabs(m.range_max - maxr) > 1e-3 || std::fabs(m.range_min - minr) > 1e-3) rep().violation("C08", "limits", fmt("range limits %.2f %.2f", m.range_min, m.range_max));
    if (it.pts.empty() || !it.have_root) {
      if (it.pts.empty())
        for (int i = 0; i < 60; i++) if (!std::isnan(m.ranges[i]) && m.ranges[i] < maxr) { rep().violation("C08", "phantom", "an obstacle is reported although the obstacle set is empty"); break; }
      return;
    }
    // independent reference: mean distance per 6 degree cell, minimum over the cells within 10 degrees (+ the cell above) and 1 m of the vehicle's height
    std::map<std::pair<int, int>, std::vector<double>> cells;
    std::set<int> border_az;
    bool border_el = false;
    for (auto& p : it.pts) {
      V3 d = p - it.root;
      double e = std::atan2(d.z, d.nxy()) * 180 / M_PI, z = std::atan2(d.x, d.y) * 180 / M_PI;
      double fe = (e + 90) / 6, fz = (z + 180) / 6;
      int ie = static_cast<int>(clampd(std::floor(fe), 0, 29)), iz = static_cast<int>(clampd(std::floor(fz), 0, 59));
      if (std::fabs(fz - std::round(fz)) < 2e-3) { int b = static_cast<int>(std::round(fz)); border_az.insert((b + 60) % 60); border_az.insert((b + 59) % 60); }
      if (std::fabs(fe - std::round(fe)) < 2e-3) { border_az.insert(iz); }
      cells[std::make_pair(ie, iz)].push_back(d.norm());
    }
    (void)border_el;
    V3 me_p;
    double pyaw, dpos, dyaw;
    bool known_pose = plan_pose(it.t, me_p, pyaw, dpos, dyaw);
    for (int i = 0; i < 60; i++) {
      int j = (i + 30) % 60;
      double r = m.ranges[i];
      double zc = (j * 6 + 3 - 180);             // azimuth of the bin's centre, clockwise from north (+y)
      double yaw_enu = 90 - zc;
      double best_in = -1e9;  // degrees inside the nearest camera's nominal view (negative: outside)
      for (auto& c : cams) {
        double off = std::fabs(wrap_pi((yaw_enu - c.yaw) * M_PI / 180 - pyaw)) * 180 / M_PI - dyaw * 180 / M_PI;
        best_in = std::max(best_in, c.hfov / 2 - off);
      }
      if (best_in < -12 && known_pose && !garbage_seen && calm_sched(t - 1, t) && !std::isnan(r)) rep().violation("C08", "unseen-reported", fmt("bin %d, %.0f degrees outside every camera's view, reports %.2f m", i, -best_in, r));
      if (known_pose && !garbage_seen && calm_sched(t - 3, t) && !tf_off.hit(t - 4, t)) {
        bool seen = false;
        for (size_t c = 0; c < cams.size(); c++) {
          const View& v = view[c];
          if (v.hi[0] < v.lo[0]) continue;
          double off = wrap_pi((yaw_enu - cams[c].yaw) * M_PI / 180 - pyaw) * 180 / M_PI, mg = 2 + dyaw * 180 / M_PI;
          if (std::fabs(cams[c].yaw) + std::max(v.hi[0], -v.lo[0]) < 170 && off > v.hi[0] - v.w[0] + mg && off < v.lo[0] + v.w[0] - mg &&
              v.hi[1] - v.w[1] < -3 && v.lo[1] + v.w[1] > 6) seen = true;  // the scan's plane must be in view as well
        }
        if (seen) rep().probe("c08_seen_bins");
        if (seen && std::isnan(r)) { if (sim::tracing()) for (size_t c = 0; c < cams.size(); c++) sim::tracef("  bin %d yaw %.1f cam %zu off %.1f hull %.1f %.1f w %.1f el %.1f %.1f w %.1f", i, pyaw * 57.3, c, wrap_pi((yaw_enu - cams[c].yaw) * M_PI / 180 - pyaw) * 180 / M_PI, view[c].lo[0], view[c].hi[0], view[c].w[0], view[c].lo[1], view[c].hi[1], view[c].w[1]); rep().violation("C08", "seen-not-reported", fmt("bin %d lies inside a camera's view at %.2f s but is reported as not seen", i, t));}
      }
      if (std::isnan(r)) continue;
      if (!(r >= minr - 1e-3 && r <= maxr + 0.011)) rep().violation("C08", "range", fmt("bin %d reports %.2f m, limits %.2f..%.2f", i, r, minr, maxr));
      if (border_az.count(j)) continue;
      double ref = 0;
      bool uncertain = false;
      for (int e = 13; e <= 16; e++) {
        auto f = cells.find(std::make_pair(e, j));
        if (f == cells.end()) continue;
        double mean = 0;
        for (double v : f->second) mean += v;
        mean /= static_cast<double>(f->second.size());
        double h = std::fabs(mean * std::sin((e * 6 + 3 - 90) * M_PI / 180));
        if (std::fabs(h - 1.0) < 0.01) uncertain = true;
        if (h < 1.0 && (ref == 0 || mean < ref)) ref = mean;
      }
      if (uncertain || std::fabs(ref - minr) < 1e-3) continue;
      double want = ref > minr ? ref : maxr + 0.01;
      rep().probe("c08_bins");
      if (std::fabs(want - r) > 0.02) rep().violation("C08", "value", fmt("bin %d reports %.3f m, the obstacle set says %.3f m (t=%.2f)", i, r, want, t));
    }
  }
  double cp_negative_since = -1;

  void on_publish(const std::string& topic, const sim::AnyMsg& m) {
    if (topic == "mavros/companion_process/status") on_status(as<mavros_msgs::CompanionProcessStatus>(m));
    else if (topic == "mavros/setpoint_position/local") on_setpoint(as<geometry_msgs::PoseStamped>(m));
    else if (topic == "mavros/trajectory/generated") on_trajectory(as<mavros_msgs::Trajectory>(m));
    else if (topic == "local_pointcloud") on_cloud(as<pcl::PointCloud<pcl::PointXYZI>>(m));
    else if (topic == "complete_tree") on_tree(as<visualization_msgs::Marker>(m));
    else if (topic == "tree_path") on_path(as<visualization_msgs::Marker>(m));
    else if (topic == "goal_position") on_goal_marker(as<visualization_msgs::MarkerArray>(m));
    else if (topic == "mavros/obstacle/send") on_scan(as<sensor_msgs::LaserScan>(m));
    else if (topic == "original_waypoint") wp_goto = v3(as<visualization_msgs::Marker>(m).pose.position);
    else if (topic == "adapted_waypoint") wp_adapted = v3(as<visualization_msgs::Marker>(m).pose.position);
    else if (topic == "smoothed_waypoint") wp_smoothed = v3(as<visualization_msgs::Marker>(m).pose.position);
    else if (topic == "current_setpoint") {
      const auto& c = as<visualization_msgs::Marker>(m).color;
      cur_color = c.r > 0.5 && c.g > 0.5 ? 0 : c.g > 0.5 ? 1 : c.r > 0.5 ? 3 : 2;  // loiter, path, altitude, direct
      rep().probe(cur_color == 0 ? "state_loiter" : cur_color == 1 ? "state_path" : cur_color == 2 ? "state_direct" : "state_altitude");
    }
  }
  double goal_begin = 0;
  void on_callback(const std::string& topic, const sim::AnyMsg& m, bool begin) {
    double t = nowd();
    if (topic == "mavros/local_position/pose") {
      if (begin) n_pose_begun++;
      else {
        poses_done++;
        const auto& p = as<geometry_msgs::PoseStamped>(m);
        if (poses.empty() || t - poses.back().t > 0.15) pose_gap = t;
        const auto& o = p.pose.orientation;
        poses.push_back({t, v3(p.pose.position), tf::getYaw(o), std::asin(clampd(2 * (o.w * o.y - o.z * o.x), -1, 1))});
        if (poses.size() > 300) poses.pop_front();
      }
    } else if (topic.compare(0, 3, "cam") == 0) {
      auto f = by_id.find(m.get());
      if (begin && f != by_id.end()) {
        if (f->second->delivered < 0) f->second->delivered = t;
        f->second->n_delivered++;
        learn_view(*f->second, t);
      }
      if (begin) clouds_delivered[topic[3] - '0']++;
    } else if (topic == "move_base_simple/goal" || topic == "input/goal_position") {
      if (begin) { goal_begin = t; return; }
      Goal g;
      g.t0 = goal_begin;
      g.t1 = t;
      g.to_planner = true;
      if (topic == "move_base_simple/goal") { g.g = v3(as<geometry_msgs::PoseStamped>(m).pose.position); g.z_known = false; }
      else {
        const auto& a = as<visualization_msgs::MarkerArray>(m);
        if (!accept_topic || a.markers.empty()) return;
        g.g = v3(a.markers[0].pose.position);
        g.z_known = true;
      }
      push_goal(g);
    } else if (topic == "mavros/trajectory/desired") {
      if (begin) { goal_begin = t; return; }
      const auto& a = as<mavros_msgs::Trajectory>(m);
      V3 n = v3(a.point_2.position);
      bool upd = (n - last_item).norm() > 0.01 || !fin(goal_now().x) || !fin(goal_now().y);
      if (std::fabs((n - last_item).norm() - 0.01) < 1e-4) goal_nonfinite = true;  // on the threshold: rounding decides
      if (a.point_valid[0] && upd) push_goal({goal_begin, t, v3(a.point_1.position), true, true});
      if (a.point_valid[1]) {
        last_item = n;
        if (a.command[1] == 65535) push_goal({goal_begin, t, n, true, false});
      }
    } else if (topic == "mavros/param/param_value" && !begin) {
      const auto& a = as<mavros_msgs::Param>(m);
      if (a.param_id == "CP_DIST") cp_negative_since = a.value.real < 0 ? t : -1;
    }
  }
  void push_goal(const Goal& g) {
    if (!g.g.finite()) goal_nonfinite = true;
    goals.push_back(g);
    if (goals.size() > 40) goals.pop_front();
  }

  // ------------------------------------------------------------------ run
  void run() {
    dur = plan.K("dur", 12);
    setup_world();
    node = sim::make_node("/local_planner_nodelet");
    auto dpar = [&](const std::string& n, double v, bool isbool = false) {
      XmlRpc::XmlRpcValue x;
      x.t = isbool ? XmlRpc::XmlRpcValue::TypeBoolean : XmlRpc::XmlRpcValue::TypeDouble;
      x.d = v;
      node->params["/local_planner_nodelet/" + n] = x;
    };
    XmlRpc::XmlRpcValue ct;
    ct.t = XmlRpc::XmlRpcValue::TypeArray;
    for (auto& c : cams) ct.v.push_back("/" + c.topic);
    node->params["/local_planner_nodelet/pointcloud_topics"] = ct;
    V3 g0(plan.K("goal_x", 15), plan.K("goal_y", 0), plan.K("goal_z", 3));
    dpar("goal_x_param", g0.x);
    dpar("goal_y_param", g0.y);
    dpar("goal_z_param", g0.z);
    accept_topic = plan.K("accept_topic", 1) > 0;
    dpar("accept_goal_input_topic", accept_topic, true);
    for (int i = 0; i < NRECONF; i++) {
      double v = plan.K(RECONF[i], i == 7 ? g0.z : RECONF_DEF[i]);
      if (plan.k.count(RECONF[i])) { XmlRpc::XmlRpcValue x; x.t = (i == 12 || i == 16 || i == 17) ? XmlRpc::XmlRpcValue::TypeInt : XmlRpc::XmlRpcValue::TypeDouble; x.d = v; node->params[std::string("/local_planner_nodelet/") + RECONF[i]] = x; }
    }
    range_lo = range_hi = plan.K(RECONF[0], 15);
    minr_lo = minr_hi = plan.K(RECONF[1], 0.2);
    min_timeout_term = max_timeout_term = plan.K(RECONF[10], 15);
    max_age_lo = max_age_hi = plan.K(RECONF[11], 20);
    minpts_lo = minpts_hi = static_cast<int>(plan.K(RECONF[12], 1));
    n_exp_hi = static_cast<int>(plan.K(RECONF[17], 40));
    node_dist_lo = node_dist_hi = plan.K(RECONF[18], 2);
    smooth_off_always = plan.K(RECONF[13], 10) < 0.01 || plan.K(RECONF[14], 3) < 0.01;
    static const double PXD[] = {3, 4, 5, 20, 2, 0.7, 45, 10, 10, 1, 3};
    for (int i = 0; i < 11; i++) px[PXN[i]] = plan.K(std::string("px_") + PXN[i], PXD[i]);
    cruise_hi = cruise0 = px["MPC_XY_CRUISE"];
    push_goal({-1, -1, g0, true, true});
    prescan();
    if (smooth_changed) smooth_off_always = false;
    {
      bool cruise_fixed = true;
      for (auto& o : plan.ops) if (o.kind == "param_set" || o.kind == "mission" || (o.kind == "reconf")) cruise_fixed = false;
      double a = px["MPC_ACC_HOR"], j = px["MPC_JERK_MAX"], b = 2 * a * a / j, c = -2 * a * range_hi;
      double lim = (-b + std::sqrt(b * b - 4 * c)) / 2;
      bool lim_fixed = plan.K("svc0", 0) == 0;
      for (auto& o : plan.ops) if (o.kind == "svc" || (o.kind == "param_set" && static_cast<int>(o.P(0)) % 11 != 0)) lim_fixed = false;
      if (lim_fixed) speed_limit = lim;
      if (cruise_fixed && plan.K("svc0", 0) == 0) c10_cruise_lo = std::min(px["MPC_XY_CRUISE"], lim);
      for (auto& o : plan.ops) if (o.kind == "svc") c10_cruise_lo = NAN;
    }
    svc_mode = static_cast<int>(plan.K("svc0", 0));
    svc_until = plan.K("svc0_until", 1e9);
    svc_delay = plan.K("svc0_delay", 1);
    sim::Env& e = sim::env();
    e.def.lat_max = static_cast<sim::ns_t>(plan.K("net_lat_ms", 2) * 1e6);
    e.service = [this](const std::string& n, const void* a, void* b) { return service(n, a, b); };
    e.on_publish = [this](const std::string& tpc, sim::NodeCtx*, const sim::AnyMsg& m) { on_publish(tpc, m); };
    e.on_callback = [this](const std::string& tpc, sim::NodeCtx*, const sim::AnyMsg& m, bool b) { on_callback(tpc, m, b); };
    double pms = plan.K("plan_ms", 0);
    if (pms > 0) e.on_log = [pms](int level, const std::string& s) { if (s.find("Planning started") != std::string::npos) sim::sleep_until(sim::now() + static_cast<sim::ns_t>(pms * 1e6)); (void)level; };
    rep().crash_prop = "C12";
    rep().crash_also = []() { return std::vector<std::string>{"C03"}; };
    // feeds
    sim::at(nsd(0.01), [this]() { step_vehicle(); });
    sim::at(nsd(plan.K("pose_start", 0.02)), [this]() { tick_pose(); });
    sim::at(nsd(0.03), [this]() { tick_vel(); });
    sim::at(nsd(0.005), [this]() { tick_tf(); });
    sim::at(nsd(0.04), [this]() { tick_state(); });
    for (size_t i = 0; i < cams.size(); i++) sim::at(nsd(plan.K("cam_start", 0.1) + 0.013 * i), [this, i]() { tick_cam(static_cast<int>(i)); });
    for (const Op& o : plan.ops) sim::at(nsd(o.t), [this, &o]() { do_op(o); });
    // the process
    sim::spawn([this]() {
      loader = new nodelet::Loader();
      nodelet::M_string rm;
      nodelet::V_string av;
      bool ok = loader->load("/local_planner_nodelet", "LocalPlannerNodelet", rm, av);
      if (!ok) { rep().violation("C12", "load", "nodelet did not load"); return; }
      if (!down) t_ready = nowd();
      ready = true;
      while (node->ok && !unload_req) node->global->callAvailable(ros::WallDuration(0.1));
      if (unload_req) loader->unload("/local_planner_nodelet");
      delete loader;
      loader = nullptr;
      t_main_done = nowd();
    }, "main", node);
    sim::run(nsd(dur));
    finish();
  }
  void finish() {
    double t = dur;
    if (down) {
      double bound = plan.K("shutdown_bound", 12);
      // the transport holds a request that PX4 never answers until the whole process goes down
      if (unload_req && hang_until > t_down) bound += hang_until - t_down;
      if (t_main_done >= 0) {
        rep().probe("shutdown_completed");
        rep().probe("shutdown_ms", static_cast<uint64_t>((t_main_done - t_down) * 1000));
        if (t_main_done - t_down > bound) rep().violation("C11", "slow-shutdown", fmt("process needed %.2f s to shut down", t_main_done - t_down));
      } else if (t - t_down > bound) rep().violation("C11", "no-shutdown", fmt("process still running %.2f s after shutdown was requested: %s", t - t_down, sim::dump_threads().c_str()));
      return;
    }
    if (t_ready < 0 && dur > 5) { rep().violation("C12", "no-start", "node did not finish its start-up: " + sim::dump_threads()); return; }
    if (stats.empty() ? (dur - t_ready > 1) : (t - stats.back().t > 0.35 && calm_sched(stats.back().t - 0.3, t)))
      rep().violation("C03", "gap", fmt("no status between %.3f and %.3f", stats.empty() ? t_ready : stats.back().t, t));
    // C12: progress within a bounded time once faults stop
    double q = std::max(calm_from, stall_w.last());
    if (!cams.empty() && t - q >= 9 && t_ready >= 0 && t - t_ready > 9 && plan.K("no_liveness", 0) == 0) {
      rep().probe("c12_recovery_checked");
      double from = t - 2.5;
      int it = 0;
      for (auto& i : iters) if (i.t > from) it++;
      bool act = true;
      for (auto& s : stats) if (s.t > from && s.s != 4) act = false;
      double since = t - last_setpoint;
      if (it < 6 && iters.size() < 12) rep().violation("C12", "no-planning", fmt("only %d planning results in the last 2.5 s although all inputs have been healthy for %.1f s: %s", it, t - q, sim::dump_threads().c_str()));
      else if (!act) rep().violation("C12", "not-active", fmt("not ACTIVE although all inputs have been healthy for %.1f s", t - q));
      else if (since > 0.5) rep().violation("C12", "no-setpoints", fmt("no setpoint for %.2f s although all inputs have been healthy for %.1f s: %s", since, t - q, sim::dump_threads().c_str()));
    }
    double clr = 1e9;
    (void)clr;
  }
};

void scenario_run(const Plan& p) {
  configure_sched(p);
  LocalSim* s = new LocalSim(p);
  s->run();
}
