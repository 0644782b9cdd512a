// Closed-loop simulation of autonomous landing: the real safe_landing_planner_node and waypoint_generator_node processes
// (their own main functions) with a simulated vehicle, FCU, downward camera, terrain, transform tree and network.
#include "driver.h"
#include "world.h"
#include <dynamic_reconfigure/server.h>
#include <geometry_msgs/PoseStamped.h>
#include <mavros_msgs/CompanionProcessStatus.h>
#include <mavros_msgs/State.h>
#include <mavros_msgs/Trajectory.h>
#include <pcl/pcl_all.h>
#include <safe_landing_planner/SLPGridMsg.h>
#include <std_msgs/MultiArrayDimension.h>
#include <visualization_msgs/Marker.h>
#include <visualization_msgs/MarkerArray.h>

int slp_node_main(int argc, char** argv);
int waypoint_generator_node_main(int argc, char** argv);

using sim::count;
static const double T0 = 1000.0;
static double nowd() { return sim::now() / 1e9 - T0; }
static sim::ns_t nsd(double t) { return static_cast<sim::ns_t>((t + T0) * 1e9); }
static ros::Time rost(double t) { ros::Time r; r.fromNSec(static_cast<uint64_t>(nsd(t))); return r; }
static bool fin(double v) { return std::isfinite(v); }
template <class M>
static const M& as(const sim::AnyMsg& m) { return *static_cast<const M*>(m.get()); }

static const char* MODES[] = {"AUTO.MISSION", "AUTO.LAND", "OFFBOARD", "POSCTL", "AUTO.RTL", "AUTO.LOITER", "AUTO.TAKEOFF"};
static const char* CAM_TOPIC = "camera/depth/points";
static const char* TOPICS[] = {"mavros/local_position/pose", "mavros/state", "mavros/trajectory/desired", "camera/depth/points", "grid_slp"};
static const char* SLP_P[] = {"n_points_threshold", "std_dev_threshold", "smoothing_size", "mean_diff_thr", "max_n_mean_diff_cells", "min_n_land_cells",
                              "grid_size", "cell_size", "alpha", "timeout_critical", "timeout_termination"};
static const double SLP_D[] = {1, 0.2, 1, 0.1, 3, 6, 10, 0.5, 0.9, 0.5, 15};
static const char* WG_P[] = {"can_land_thr", "loiter_height", "smoothing_land_cell", "beta", "vertical_range_error", "spiral_width"};
static const double WG_D[] = {0.4, 5, 3, 0.9, 0.5, 2};
static bool is_int_param(const std::string& n) { return n == "smoothing_size" || n == "max_n_mean_diff_cells" || n == "min_n_land_cells" || n == "smoothing_land_cell"; }

struct Windows {
  std::vector<std::pair<double, double>> w;
  void add(double a, double b) { w.push_back(std::make_pair(a, b)); }
  bool hit(double a, double b) const { for (auto& x : w) if (x.first <= b && x.second >= a) return true; return false; }
  double last() const { double l = -1; for (auto& x : w) l = std::max(l, x.second); return l; }
};
static uint32_t hash2(int a, int b, uint32_t s) {
  uint32_t h = static_cast<uint32_t>(a) * 73856093u ^ static_cast<uint32_t>(b) * 19349663u ^ s * 83492791u;
  h ^= h >> 13; h *= 0x5bd1e995u; h ^= h >> 15; h *= 0x27d4eb2du; h ^= h >> 13;
  return h;
}

struct SlpSim {
  const Plan& plan;
  sim::Rng wr;
  double dur = 20;
  // ---- processes
  struct Proc {
    sim::NodeCtx* node = nullptr;
    double t_start = -1, t_down = -1, t_end = -1;
    bool crashed = false;
  };
  std::vector<Proc*> slps, wgs;
  Proc* slp() { return slps.empty() ? nullptr : slps.back(); }
  Proc* wg() { return wgs.empty() ? nullptr : wgs.back(); }
  bool syn = false;  // grids come from the harness, no planner process
  // ---- world
  struct Haz { double x, y, r; };
  std::vector<Haz> spots;   // hazards on flat ground, or flat pads in rough ground
  int terrain_kind = 0;     // 0 flat, 1 rough everywhere, 2 rough with flat pads, 3 flat with rough spots, 4 slope
  double base = 0, amp = 3, slope = 0;
  uint32_t tseed = 1;
  tf::Transform mount;
  // ---- vehicle
  PoseAt me;
  V3 vel;
  double yaw_rate = 0;
  PoseHist hist;
  mavros_msgs::Trajectory cmd;
  double cmd_time = -100;
  bool armed = true;
  int mode = 0;
  V3 drift;
  // ---- what the FCU asks for
  V3 fp1, fp2, fvel;
  int fcmd = 21;
  bool fval0 = true, fval1 = true;
  bool traj_on = true;
  double fyaw = 0.3, fyawrate = 0.0625;
  // ---- disturbances
  Windows stall_w, cam_off, cam_weird, pose_off, tf_off, net_w, reconf_w, any_w, slp_gone, cmd_off;
  double lag = 0, lag_until = -1, skew = 0, skew_until = -1;
  CloudKind ck = CK_NORMAL;
  double ck_until = -1;
  double calm_from = 0;
  std::map<std::string, double> slp_cfg, wg_cfg;
  bool wg_reconf = false, slp_reconf = false;

  explicit SlpSim(const Plan& p) : plan(p), wr(p.seed * 131 + 7) {}

  // ------------------------------------------------------------------ world
  bool rough_at(double x, double y) const {
    bool in = false;
    for (auto& s : spots) if (std::hypot(x - s.x, y - s.y) < s.r) in = true;
    return terrain_kind == 1 || (terrain_kind == 2 && !in) || (terrain_kind == 3 && in);
  }
  double terrain(double x, double y) const {
    double z = base + (terrain_kind == 4 ? slope * x : 0);
    if (rough_at(x, y)) z += amp * (hash2(static_cast<int>(std::floor(x / 0.11)), static_cast<int>(std::floor(y / 0.11)), tseed) % 1000) / 1000.0;
    return z;
  }
  bool hazard_near(double x, double y, double r) const {
    int n = 8;
    for (int i = -n; i <= n; i++)
      for (int j = -n; j <= n; j++) {
        double dx = r * i / n, dy = r * j / n;
        if (dx * dx + dy * dy <= r * r && rough_at(x + dx, y + dy)) return true;
      }
    return false;
  }
  void setup() {
    sim::Rng r(static_cast<uint64_t>(plan.K("world", 1)) * 499 + 11);
    terrain_kind = static_cast<int>(plan.K("terrain", 0));
    tseed = static_cast<uint32_t>(plan.K("world", 1));
    base = plan.K("base", 0);
    amp = plan.K("amp", 3);
    slope = plan.K("slope", 0);
    int ns = static_cast<int>(plan.K("spots", 3));
    double lx = plan.K("land_x", 4), ly = plan.K("land_y", 0), spread = plan.K("spot_spread", 6);
    for (int i = 0; i < ns; i++) { Haz h; h.x = lx + r.range(-spread, spread); h.y = ly + r.range(-spread, spread); h.r = r.range(plan.K("spot_min", 0.6), plan.K("spot_max", 2.5)); spots.push_back(h); }
    tf::Quaternion q;
    q.setRPY(0, 3.14159265358979, 1.57079632679);
    mount = tf::Transform(q, tf::Vector3(0, 0, plan.K("cam_dz", 0)));
    sim::tf_static("fcu", "camera_link", mount);
    me.t = 0;
    me.p = V3(plan.K("x0", 0), plan.K("y0", 0), plan.K("z0", 5));
    me.yaw = plan.K("yaw0", 0);
    me.pitch = 0;
    hist.add(me);
    mode = static_cast<int>(plan.K("mode", 0));
    armed = plan.K("armed", 1) > 0;
    fp1 = V3(lx, ly, plan.K("land_z", 5));
    fp2 = V3(lx, ly, plan.K("land2_z", 0));
    fcmd = static_cast<int>(plan.K("cmd", 21));
    double fv = plan.K("fcu_vel", 0);
    fvel = fv > 0 ? V3(0.5, -0.25, 0.125) : V3(NAN, NAN, NAN);
    if (plan.K("no_yaw", 0) > 0) fyaw = NAN;
    drift = V3(plan.K("drift_x", 0), plan.K("drift_y", 0), 0);
  }
  void step_vehicle() {
    const double dt = 0.01;
    double t = nowd();
    V3 want;
    bool follow = armed && mode <= 1 && t - cmd_time < 0.8 && cmd.point_valid[0];
    double yr = 0;
    if (follow) {
      auto& p = cmd.point_1;
      double pp[3] = {p.position.x, p.position.y, p.position.z}, vv[3] = {p.velocity.x, p.velocity.y, p.velocity.z}, cc[3] = {me.p.x, me.p.y, me.p.z}, o[3];
      for (int i = 0; i < 3; i++) o[i] = fin(pp[i]) ? clampd((pp[i] - cc[i]) * 1.2, -3, 3) : fin(vv[i]) ? vv[i] : 0;
      want = V3(o[0], o[1], o[2]);
      if (fin(p.yaw)) yr = clampd(wrap_pi(p.yaw - me.yaw) * 2, -1.0, 1.0);
    }
    want = want + drift;
    vel = vel + (want - vel) * (dt / 0.25);
    me.p = me.p + vel * dt;
    double floor_z = base + (terrain_kind == 4 ? slope * me.p.x : 0) + 0.1;
    if (me.p.z < floor_z) { me.p.z = floor_z; if (vel.z < 0) vel.z = 0; }
    yaw_rate += (yr - yaw_rate) * (dt / 0.25);
    me.yaw = wrap_pi(me.yaw + yaw_rate * dt);
    me.pitch = clampd(vel.nxy() * 0.03 * plan.K("tilt", 0), -0.3, 0.3);
    me.t = t;
    hist.add(me);
    if (t < dur) sim::at(nsd(t + dt), [this]() { step_vehicle(); });
  }
  double jitter(double p) { return p * (1 + 0.1 * (wr.uni() - 0.5)); }
  void tick_pose() {
    double t = nowd();
    if (!pose_off.hit(t, t)) {
      geometry_msgs::PoseStamped m;
      m.header.stamp = rost(t);
      m.header.frame_id = "local_origin";
      m.pose.position = pt(me.p);
      tf::Quaternion q;
      q.setRPY(0, me.pitch, me.yaw);
      tf::quaternionTFToMsg(q, m.pose.orientation);
      sim::send(TOPICS[0], m);
    } else count("pose_withheld");
    if (t < dur) sim::at(nsd(t + jitter(1 / plan.K("pose_hz", 30))), [this]() { tick_pose(); });
  }
  void tick_tf() {
    double t = nowd();
    if (!tf_off.hit(t, t)) sim::tf_publish("local_origin", "fcu", tf_of(me), rost(me.t));
    else count("tf_withheld");
    if (t < dur) sim::at(nsd(t + jitter(1 / plan.K("tf_hz", 50))), [this]() { tick_tf(); });
  }
  void tick_state() {
    double t = nowd();
    mavros_msgs::State m;
    m.header.stamp = rost(t);
    m.armed = armed;
    m.mode = MODES[mode];
    sim::send(TOPICS[1], m);
    if (t < dur) sim::at(nsd(t + 0.25), [this]() { tick_state(); });
  }
  void send_traj() {
    mavros_msgs::Trajectory m;
    m.header.stamp = rost(nowd());
    m.type = 0;
    auto blank = [](mavros_msgs::PositionTarget& p) {
      p.position.x = p.position.y = p.position.z = NAN;
      p.velocity.x = p.velocity.y = p.velocity.z = NAN;
      p.acceleration_or_force.x = p.acceleration_or_force.y = p.acceleration_or_force.z = NAN;
      p.yaw = p.yaw_rate = NAN;
    };
    blank(m.point_1); blank(m.point_2); blank(m.point_3); blank(m.point_4); blank(m.point_5);
    m.point_1.position = pt(fp1);
    m.point_1.velocity.x = fvel.x; m.point_1.velocity.y = fvel.y; m.point_1.velocity.z = fvel.z;
    m.point_2.position = pt(fp2);
    m.point_2.yaw = fyaw;
    m.point_2.yaw_rate = fyawrate;
    m.point_1.yaw = fyaw;
    m.point_valid[0] = fval0;
    m.point_valid[1] = fval1;
    m.command[0] = 16;
    m.command[1] = static_cast<uint16_t>(fcmd);
    sim::send(TOPICS[2], m);
  }
  void tick_traj() {
    double t = nowd();
    if (!cmd_off.hit(t, t)) send_traj();
    if (t < dur) sim::at(nsd(t + jitter(1 / plan.K("traj_hz", 4))), [this]() { tick_traj(); });
  }
  struct CloudRec2 {
    double stamp, sent;
    bool weird;
    std::vector<V3> world;  // ground truth, local_origin
    int delivered = 0, used = 0;
    const void* id;
  };
  std::deque<CloudRec2> clouds;
  void tick_cam() {
    double t = nowd();
    if (cam_off.hit(t, t)) count("cloud_withheld");
    else {
      CloudKind k = ck_until > t ? ck : CK_NORMAL;
      if (k != CK_NORMAL) count(k == CK_EMPTY ? "cloud_empty" : k == CK_ALLNAN ? "cloud_all_nan" : k == CK_GARBAGE ? "cloud_garbage" : "cloud_sparse");
      double stamp = me.t;  // the pose the picture is taken from
      CloudRec2 c;
      c.weird = k == CK_GARBAGE;
      if (skew_until > t) { stamp += skew + 0.0033; c.weird = true; count("stamp_skew"); }
      stamp = std::floor((stamp + 1000.0) * 1e6) / 1e6 - 1000.0;
      c.stamp = stamp;
      c.sent = t;
      auto pm = boost::shared_ptr<sensor_msgs::PointCloud2>(new sensor_msgs::PointCloud2());
      sensor_msgs::PointCloud2& m = *pm;
      m.header.stamp.fromNSec(static_cast<uint64_t>(std::llround((stamp + 1000.0) * 1e6)) * 1000);
      m.header.frame_id = "camera_link";
      const char* names[] = {"x", "y", "z"};
      for (int i = 0; i < 3; i++) { sensor_msgs::PointField f; f.name = names[i]; f.offset = 4 * i; f.datatype = 7; f.count = 1; m.fields.push_back(f); }
      m.point_step = 16;
      int n = k == CK_EMPTY ? 0 : static_cast<int>(plan.K("pts", 26));
      m.height = n; m.width = n; m.row_step = 16 * n;
      m.is_dense = false;
      m.data.resize(static_cast<size_t>(m.row_step) * n);
      tf::Transform tcam = tf_of(me) * mount, inv = tcam.inverse();
      double rim = plan.K("rim", 0), rim_x = static_cast<float>(static_cast<float>(me.p.x) + static_cast<float>(slp_cfg["grid_size"]) / 2.f);
      double h = std::max(0.3, me.p.z - base), half = std::min(h * std::tan(plan.K("fov", 100) * M_PI / 360), plan.K("max_half", 8));
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
          double x = me.p.x + ((i + wr.uni()) / n - 0.5) * 2 * half, y = me.p.y + ((j + wr.uni()) / n - 0.5) * 2 * half;
          if (rim > 0 && wr.chance(rim)) x = rim_x + (wr.uni() - 0.6) * 6e-6;  // next to the last representable position inside the grid
          double z = terrain(x, y);
          tf::Vector3 pc = inv * tf::Vector3(x, y, z);
          float f[3] = {static_cast<float>(pc.x()), static_cast<float>(pc.y()), static_cast<float>(pc.z())};
          bool drop = k == CK_ALLNAN || (k == CK_SPARSE && !wr.chance(0.1)) || wr.chance(plan.K("nan_frac", 0.05));
          if (drop) f[0] = f[1] = f[2] = NAN;
          if (k == CK_GARBAGE && wr.chance(0.3)) { static const float bad[] = {INFINITY, -INFINITY, NAN, 1e30f, -1e30f, 0.f, 1e-30f}; for (float& v : f) v = bad[wr.below(7)]; }
          size_t o = static_cast<size_t>(i) * m.row_step + static_cast<size_t>(j) * 16;
          for (int q = 0; q < 3; q++) put_f(m.data, o + 4 * q, f[q]);
          if (fin(f[0]) && fin(f[1]) && fin(f[2])) c.world.push_back(V3(x, y, z));
        }
      c.id = pm.get();
      clouds.push_back(c);
      while (clouds.size() > 400) clouds.pop_front();
      keep.push_back(pm);
      while (keep.size() > 420) keep.pop_front();
      double l = 0.005 + wr.uni() * plan.K("cam_latency", 0.03);
      if (lag_until > t) { l += lag; count("cloud_late"); }
      boost::shared_ptr<const sensor_msgs::PointCloud2> cm = pm;
      sim::at(nsd(t + l), [cm]() { sim::inject(CAM_TOPIC, cm); });
    }
    if (t < dur) sim::at(nsd(t + jitter(1 / plan.K("cam_hz", 10))), [this]() { tick_cam(); });
  }
  std::deque<boost::shared_ptr<const void>> keep;
  // ---- grids made by the harness
  uint32_t syn_seq = 0;
  double syn_size = 10, syn_cell = 0.5;
  void tick_grid() {
    double t = nowd();
    if (slp_gone.hit(t, t)) count("grid_withheld");
    else {
      safe_landing_planner::SLPGridMsg g;
      g.header.stamp = rost(t);
      g.header.frame_id = "local_origin";
      g.header.seq = ++syn_seq;
      g.grid_size = static_cast<float>(syn_size);
      g.cell_size = static_cast<float>(syn_cell);
      int n = static_cast<int>(std::ceil(static_cast<float>(syn_size) / static_cast<float>(syn_cell)));
      auto lay = [n](std_msgs::MultiArrayLayout& l) {
        l.dim.resize(2);
        l.dim[0].label = "height"; l.dim[0].size = n; l.dim[0].stride = n * n;
        l.dim[1].label = "width"; l.dim[1].size = n; l.dim[1].stride = n;
        l.data_offset = 0;
      };
      lay(g.mean.layout); lay(g.std_dev.layout); lay(g.counter.layout); lay(g.land.layout);
      double noise = plan.K("grid_noise", 0.0);
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
          double x = me.p.x - syn_size / 2 + (i + 0.5) * syn_cell, y = me.p.y - syn_size / 2 + (j + 0.5) * syn_cell, h = syn_cell / 2;
          bool bad = rough_at(x, y) || rough_at(x - h, y - h) || rough_at(x + h, y + h) || rough_at(x - h, y + h) || rough_at(x + h, y - h);
          if (noise > 0 && wr.chance(noise)) bad = !bad;
          g.mean.data.push_back(base + (bad ? amp / 2 : 0));
          g.std_dev.data.push_back(bad ? amp * 0.3 : 0.01);
          g.counter.data.push_back(10);
          g.land.data.push_back(bad ? 0 : 1);
        }
      g.curr_pos_index.x = g.curr_pos_index.y = n / 2;
      sim::send("grid_slp", g);
    }
    if (t < dur) sim::at(nsd(t + jitter(1 / plan.K("grid_hz", 10))), [this]() { tick_grid(); });
  }
  // ---- raw grids for the replay mode
  uint32_t raw_seq = 0;
  std::deque<safe_landing_planner::SLPGridMsg> raw_sent;
  safe_landing_planner::SLPGridMsg raw_prev;
  // replay mode: each published grid is the low-passed sequence of replayed grids
  void check_replay(const safe_landing_planner::SLPGridMsg& m) {
    double t = nowd();
    const safe_landing_planner::SLPGridMsg before = raw_prev;
    raw_prev = m;
    if (slp_iter_in_proc <= 3 || before.mean.data.size() != m.mean.data.size() || before.cell_size != m.cell_size || !calm_sched(t - 1.5, t) || net_w.hit(t - 2, t) || reconf_w.hit(t - 2, t)) return;
    float al = static_cast<float>(slp_cfg["alpha"]);
    size_t same = 0;
    bool ok = false;
    for (auto& r : raw_sent) {
      if (r.mean.data.size() != m.mean.data.size() || r.cell_size != m.cell_size) continue;
      same++;
      bool eq = true;
      for (size_t k = 0; k < m.mean.data.size() && eq; k++) {
        double me = al * before.mean.data[k] + (1 - al) * r.mean.data[k];
        double va = al * before.std_dev.data[k] * before.std_dev.data[k] + (1 - al) * r.std_dev.data[k] * r.std_dev.data[k];
        if (std::fabs(me - m.mean.data[k]) > 1e-3 || std::fabs(va - m.std_dev.data[k] * m.std_dev.data[k]) > 1e-3 || m.counter.data[k] != r.counter.data[k]) eq = false;
      }
      if (eq) ok = true;
    }
    if (same < raw_sent.size() || same < 8) return;  // just resized
    rep().probe("c19_replay");
    if (!ok) rep().violation("C19", "replay", fmt("t=%.2f: the published grid is not the smoothed sequence of replayed grids", t));
  }
  double raw_size = 10, raw_cell = 0.5;
  void tick_raw() {
    double t = nowd();
    safe_landing_planner::SLPGridMsg g;
    g.header.stamp = rost(t);
    g.header.seq = ++raw_seq;
    g.grid_size = static_cast<float>(raw_size);
    g.cell_size = static_cast<float>(raw_cell);
    int n = static_cast<int>(std::ceil(static_cast<float>(raw_size) / static_cast<float>(raw_cell)));
    for (auto* l : {&g.mean.layout, &g.std_dev.layout, &g.counter.layout, &g.land.layout}) {
      l->dim.resize(2);
      l->dim[0].size = n; l->dim[0].stride = n * n; l->dim[1].size = n; l->dim[1].stride = n;
    }
    for (int i = 0; i < n * n; i++) { g.mean.data.push_back(wr.uni()); g.std_dev.data.push_back(wr.uni() * 0.4); g.counter.data.push_back(wr.below(5)); g.land.data.push_back(0); }
    raw_sent.push_back(g);
    while (raw_sent.size() > 8) raw_sent.pop_front();
    sim::send("raw_grid_slp", g);
    if (t < dur) sim::at(nsd(t + 0.1), [this]() { tick_raw(); });
  }

  // ------------------------------------------------------------------ processes
  void set_params(sim::NodeCtx* n, const char* const* names, int cnt, const std::map<std::string, double>& cfg) {
    for (int i = 0; i < cnt; i++) {
      XmlRpc::XmlRpcValue x;
      x.t = is_int_param(names[i]) ? XmlRpc::XmlRpcValue::TypeInt : XmlRpc::XmlRpcValue::TypeDouble;
      x.d = cfg.at(names[i]);
      n->params[n->name + "/" + names[i]] = x;
    }
  }
  void start_slp() {
    Proc* p = new Proc();
    p->node = sim::make_node("/safe_landing_planner_node");
    XmlRpc::XmlRpcValue ct;
    ct.t = XmlRpc::XmlRpcValue::TypeString;
    ct.s = std::string("/") + CAM_TOPIC;
    p->node->params["/safe_landing_planner_node/pointcloud_topics"] = ct;
    if (plan.K("rosbag", 0) > 0) { XmlRpc::XmlRpcValue x; x.t = XmlRpc::XmlRpcValue::TypeBoolean; x.d = 1; p->node->params["/safe_landing_planner_node/play_rosbag"] = x; }
    set_params(p->node, SLP_P, 11, slp_cfg);
    p->t_start = nowd();
    slps.push_back(p);
    slp_reset();
    sim::spawn([p]() {
      char name[] = "safe_landing_planner_node";
      char* av[] = {name, nullptr};
      slp_node_main(1, av);
      p->t_end = nowd();
    }, "slp", p->node);
  }
  void start_wg() {
    Proc* p = new Proc();
    p->node = sim::make_node("/waypoint_generator_node");
    set_params(p->node, WG_P, 6, wg_cfg);
    p->t_start = nowd();
    wgs.push_back(p);
    wg_reset();
    sim::spawn([p]() {
      char name[] = "waypoint_generator_node";
      char* av[] = {name, nullptr};
      waypoint_generator_node_main(1, av);
      p->t_end = nowd();
    }, "wg", p->node);
  }
  void down(Proc* p, bool crash) {
    if (!p || p->t_down >= 0) return;
    p->t_down = nowd();
    if (crash) {
      // the process is gone from one instant to the next: nothing of it runs any more
      p->crashed = true;
      p->node->ok = false;
      for (auto* f : sim::fibers_of(p->node)) sim::stall(f, nsd(1e8));
    } else {
      rep().crash_phase = "shutdown";
      sim::node_shutdown(p->node);
    }
  }
  void do_op(const Op& o) {
    double t = nowd();
    count("op_" + o.kind);
    if (o.kind == "spawn_stall") {
      sim::stall_at_spawn(static_cast<int>(o.P(0, 1)), static_cast<sim::ns_t>(o.P(1, 0.3) * 1e9), [this](sim::ns_t until) {
        count("stall_after_thread_start");
        stall_w.add(nowd() - 0.05, until / 1e9 - T0 + 0.05);
      });
    } else if (o.kind == "stall") {
      Proc* p = o.P(2, 0) > 0 ? wg() : slp();
      if (!p || p->crashed) return;
      auto f = sim::fibers_of(p->node);
      if (!f.empty()) sim::stall(f[static_cast<size_t>(o.P(0)) % f.size()], nsd(t + o.P(1)));
    } else if (o.kind == "cam_kind") { ck = static_cast<CloudKind>(static_cast<int>(o.P(0)) % 5); ck_until = t + o.P(1); }
    else if (o.kind == "cam_skew") { skew = o.P(0); skew_until = t + o.P(1); }
    else if (o.kind == "cam_lag") { lag = o.P(0); lag_until = t + o.P(1); }
    else if (o.kind == "net") {
      sim::NetFault f;
      f.drop = o.P(2); f.dup = o.P(3); f.reorder = o.P(4);
      f.lat_max = static_cast<sim::ns_t>(o.P(5, 0.002) * 1e9);
      std::string tp = TOPICS[static_cast<int>(o.P(0)) % 5];
      sim::env().topic[tp] = f;
      sim::at(nsd(t + o.P(1)), [tp]() { sim::env().topic.erase(tp); });
    } else if (o.kind == "reconf_slp" || o.kind == "reconf_wg") {
      Proc* rp = o.kind == "reconf_slp" ? slp() : wg();
      if (!rp || rp->t_down >= 0 || t - rp->t_start < 0.3) return;  // nobody there (yet) to take the request
      const char* const* names = o.kind == "reconf_slp" ? SLP_P : WG_P;
      int cnt = o.kind == "reconf_slp" ? 11 : 6;
      std::map<std::string, double> kv;
      for (size_t i = 0; i + 1 < o.p.size(); i += 2) kv[names[static_cast<int>(o.p[i]) % cnt]] = o.p[i + 1];
      auto& cfg = o.kind == "reconf_slp" ? slp_cfg : wg_cfg;
      for (auto& x : kv) cfg[x.first] = x.second;
      for (auto* s : sim::dynrec_servers()) s->request(kv);  // each node ignores the parameters it does not have
    } else if (o.kind == "mode") mode = static_cast<int>(o.P(0)) % 7;
    else if (o.kind == "arm") armed = o.P(0) > 0;
    else if (o.kind == "wp") {
      fp1 = V3(o.P(0), o.P(1), o.P(2));
      fp2 = V3(o.P(3), o.P(4), o.P(5));
      fcmd = static_cast<int>(o.P(6, 16));
      fval0 = o.P(7, 1) > 0;
      fval1 = o.P(8, 1) > 0;
      if (o.P(9, 0) > 0) send_traj();
    } else if (o.kind == "drift") drift = V3(o.P(0), o.P(1), o.P(2));
    else if (o.kind == "slp_down") down(slp(), o.P(0) > 0);
    else if (o.kind == "slp_up") { if (!syn && slp() && slp()->t_down >= 0) start_slp(); }
    else if (o.kind == "wg_down") down(wg(), o.P(0) > 0);
    else if (o.kind == "wg_up") { if (wg() && wg()->t_down >= 0) start_wg(); }
    else if (o.kind == "seq_reset") syn_seq = 0;  // a planner that has been running for long was restarted
    else if (o.kind == "regrid_hold") { regrid_after = static_cast<int>(o.P(0)); regrid_size = o.P(1); regrid_cell = o.P(2); }  // while the area is observed
    else if (o.kind == "regrid") { syn_size = o.P(0); syn_cell = o.P(1); raw_size = o.P(0); raw_cell = o.P(1); }
  }
  void prescan() {
    for (const Op& o : plan.ops) {
      double e = o.t;
      if (o.kind == "cam_off") { e += o.P(0); cam_off.add(o.t, e); any_w.add(o.t, e); }
      else if (o.kind == "pose_off") { e += o.P(0); pose_off.add(o.t, e); any_w.add(o.t, e); }
      else if (o.kind == "tf_off") { e += o.P(0); tf_off.add(o.t, e); any_w.add(o.t, e); }
      else if (o.kind == "traj_off") { e += o.P(0); cmd_off.add(o.t, e); }
      else if (o.kind == "grid_off") { e += o.P(0); slp_gone.add(o.t, e); any_w.add(o.t, e); }
      else if (o.kind == "spawn_stall") e += o.P(1) + 2;
      else if (o.kind == "stall") { e += o.P(1); stall_w.add(o.t, e); }
      else if (o.kind == "cam_kind") { e += o.P(1); cam_weird.add(o.t, e + 0.5); any_w.add(o.t, e); }
      else if (o.kind == "cam_skew") { e += o.P(1) + std::max(0.0, o.P(0)) + 1; cam_weird.add(o.t, e); any_w.add(o.t, e); }
      else if (o.kind == "cam_lag") { e += o.P(0) + o.P(1); cam_weird.add(o.t, e); any_w.add(o.t, e); }
      else if (o.kind == "net") { e += o.P(1) + std::max(0.5, o.P(5)); net_w.add(o.t, e); any_w.add(o.t, e); }
      else if (o.kind == "reconf_slp") { slp_reconf = true; e += 0.5; reconf_w.add(o.t, e); }
      else if (o.kind == "reconf_wg") { wg_reconf = true; e += 0.5; reconf_w.add(o.t, e); }
      else if (o.kind == "slp_down" || o.kind == "slp_up") { e += 0.5; any_w.add(o.t, e); }
      calm_from = std::max(calm_from, e);
    }
  }
  bool calm_sched(double a, double b) const { return !stall_w.hit(a, b); }
  const char* cp(const char* dflt) const { (void)dflt; return dflt; }

  // ================================================================== safe_landing_planner_node
  double slp_last_grid = -1, slp_last_status = -1, slp_prev_grid = -1;
  uint64_t n_grids = 0;
  std::deque<double> grid_times;
  V3 slp_pose;
  bool slp_pose_any = false;
  struct RefGrid {
    bool known = false;
    int n = 0;
    double size = 0, cell = 0;
    std::vector<double> mean, var, unk;  // unk: bound on the part of a cell's history that is unknown
    std::vector<int> cnt_lo, cnt_hi;
    double z_hi = 0;
  };
  RefGrid ref, ref_prev;
  bool have_points = false;
  int slp_iter_in_proc = 0;
  double last_reconf_done = -1;
  void slp_reset() {
    slp_last_grid = slp_last_status = slp_prev_grid = -1;
    ref = ref_prev = RefGrid();
    slp_pose = V3();
    slp_pose_any = false;
    have_points = false;
    slp_iter_in_proc = 0;
  }
  void on_slp_status(const mavros_msgs::CompanionProcessStatus& m) {
    double t = nowd();
    Proc* p = slp();
    if (!p || p->t_down >= 0) return;
    if (m.component != 196) rep().violation("C20", "component", fmt("status with component %d", m.component));
    if (m.state != 1 && m.state != 4 && m.state != 5 && m.state != 8) rep().violation("C20", "state", fmt("status state %d", m.state));
    if (std::fabs(m.header.stamp.toSec() - T0 - t) > 0.1 && calm_sched(t - 0.5, t)) rep().violation("C20", "stamp", "status not stamped with the current time");
    status_gap(t);
    slp_last_status = t;
    rep().probe(m.state == 4 ? "slp_active" : m.state == 5 ? "slp_critical" : m.state == 8 ? "slp_termination" : "slp_boot");
    if (plan.K("rosbag", 0) > 0 || slp_reconf) return;
    double crit = slp_cfg["timeout_critical"], term = slp_cfg["timeout_termination"], s = p->t_start;
    double age = t - std::max(slp_last_grid, s);
    // the status may still show the result of the iteration that ended an outage
    double prev_gap = slp_last_grid >= 0 && t - slp_last_grid < 0.5 ? slp_last_grid - std::max(slp_prev_grid, s) : 0;
    if (!calm_sched(t - 3, t)) return;
    if (age > 0.05) rep().probe("c20_evaluated");
    if (age > std::max(crit, 0.3) + 0.35 && m.state != 5 && m.state != 8) rep().violation("C20", "stale-not-critical", fmt("state %d although the newest landing grid is %.2f s old (critical after %.1f s)", m.state, age, crit));
    if (age > term + 0.35 && m.state != 8) rep().violation("C20", "stale-not-terminated", fmt("state %d although the newest landing grid is %.2f s old (termination after %.1f s)", m.state, age, term));
    double worst = std::max(std::max(age, prev_gap), t - s < 1 ? 0.0 : 0.0);
    if (crit > 0.45 && term > 0.45 && worst < std::min(crit, term) - 0.1 && (m.state == 5 || m.state == 8)) rep().violation("C20", "false-alarm", fmt("state %d although landing grids arrive regularly (newest %.2f s old, gap before it %.2f s)", m.state, age, prev_gap));
    if (worst < term - 0.1 && m.state == 8) rep().violation("C20", "false-termination", fmt("termination although the newest landing grid is only %.2f s old", age));
  }
  void status_gap(double t) {
    Proc* p = slp();
    if (!p || p->t_down >= 0) return;
    double prev = slp_last_status >= 0 ? slp_last_status : p->t_start;
    if (t - prev > 0.55 && calm_sched(prev - 0.3, t)) rep().violation("C20", "gap", fmt("no status from the landing planner for %.2f s (%.2f..%.2f)", t - prev, prev, t));
  }
  void tick_watch() {
    double t = nowd();
    if (!syn) status_gap(t);
    if (t < dur) sim::at(nsd(t + 0.1), [this]() { tick_watch(); });
  }
  // the point cloud that went into the grid, as the node shows it
  void on_points(const pcl::PointCloud<pcl::PointXYZI>& c) {
    double t = nowd();
    Proc* p = slp();
    if (!p || p->t_down >= 0 || plan.K("rosbag", 0) > 0) return;
    slp_iter_in_proc++;
    double stamp = c.header.stamp / 1e6 - 1000.0;
    CloudRec2* rec = nullptr;
    for (auto& q : clouds) if (std::fabs(q.stamp - stamp) < 2e-6) rec = &q;
    if (!rec) {
      if (!c.points.empty()) rep().violation("C19", "unknown-cloud", fmt("a landing grid was computed at %.2f s from a cloud that no camera sent", t));
      if (c.header.stamp != 0 || !c.points.empty()) rep().violation("C21", "unknown-cloud", fmt("a landing grid was computed from a cloud stamped %.4f that no camera sent", stamp));
    } else {
      rec->used++;
      rep().probe("c21_grids");
      if (rec->used > std::max(1, rec->delivered)) rep().violation("C21", "cloud-reused", fmt("the cloud of t=%.3f was delivered %d time(s) but %d landing grids were computed from it", rec->stamp, rec->delivered, rec->used));
    }
    // ---- geometry: exactly the points of that cloud that lie over the grid, in the local frame
    double size = static_cast<float>(slp_cfg["grid_size"]), cell = static_cast<float>(slp_cfg["cell_size"]);
    bool cfg_ok = !reconf_w.hit(std::min(t - 1.5, grid_times.size() > 2 ? grid_times[grid_times.size() - 3] : -1.0), t);
    if (rec && !rec->weird && cfg_ok && !tf_off.hit(rec->sent - 0.5, rec->sent + 0.5) && slp_pose_any) {
      double minx = slp_pose.x - size / 2, maxx = slp_pose.x + size / 2, miny = slp_pose.y - size / 2, maxy = slp_pose.y + size / 2;
      // motion between transform samples bounds the error of an honest transformation
      double tol = 0.04 + plan.K("tilt", 0) * 0.1;
      auto ptol = [&](const V3& w) { return tol * std::max(1.0, (w - slp_pose).norm() / 8); };  // an angle error grows with the distance
      size_t in = 0, border = 0;
      for (auto& w : rec->world) {
        double d = std::min(std::min(w.x - minx, maxx - w.x), std::min(w.y - miny, maxy - w.y));
        if (std::fabs(d) < ptol(w)) border++;
        else if (d > 0) in++;
      }
      if (c.points.size() < in || c.points.size() > in + border)
        rep().violation("C19", "points", fmt("%zu points were put into the grid, the cloud has %zu (+%zu at the rim) above it (t=%.2f)", c.points.size(), in, border, t));
      // order is preserved, so walk both lists
      size_t a = 0, bad = 0;
      for (auto& q : c.points) {
        bool hit = false;
        for (; a < rec->world.size(); a++) {
          V3& w = rec->world[a];
          double e = ptol(w);
          if (std::fabs(w.x - q.x) < e && std::fabs(w.y - q.y) < e && std::fabs(w.z - q.z) < e) { hit = true; a++; break; }
        }
        if (!hit) {
          bad++;
          if (sim::tracing()) {
            double bd = 1e9; V3 bw;
            for (auto& w : rec->world) { double d = std::hypot(std::hypot(w.x - q.x, w.y - q.y), w.z - q.z); if (d < bd) { bd = d; bw = w; } }
            sim::tracef("misplaced point %.4f %.4f %.4f, nearest true point %.4f %.4f %.4f", q.x, q.y, q.z, bw.x, bw.y, bw.z);
          }
          break;
        }
      }
      if (bad) rep().violation("C19", "points-misplaced", fmt("a point of the grid is not a point of the cloud transformed to the local frame (t=%.2f)", t));
      rep().probe("c19_geometry");
    }
    // ---- reference statistics
    ref_prev = ref;
    RefGrid g;
    g.size = size; g.cell = cell;
    g.n = static_cast<int>(std::ceil(static_cast<float>(size) / static_cast<float>(cell)));
    size_t nn = static_cast<size_t>(g.n) * g.n;
    double alpha = static_cast<float>(slp_cfg["alpha"]);
    std::vector<double> s(nn, 0), s2(nn, 0), zlo(nn, 1e30), zhi(nn, -1e30);
    std::vector<int> c0(nn, 0), cb(nn, 0);
    bool weird = false;
    float fx = static_cast<float>(slp_pose.x) - static_cast<float>(size) / 2.f, fy = static_cast<float>(slp_pose.y) - static_cast<float>(size) / 2.f;
    for (auto& q : c.points) {
      if (std::fabs(q.z) > 1e4) weird = true;
      double u = (static_cast<double>(q.x) - fx) / cell, v = (static_cast<double>(q.y) - fy) / cell;
      int i = static_cast<int>(std::floor(u)), j = static_cast<int>(std::floor(v));
      bool bd = std::fabs(u - std::round(u)) < 1e-4 || std::fabs(v - std::round(v)) < 1e-4;
      if (bd) {
        for (int di = -1; di <= 1; di++) for (int dj = -1; dj <= 1; dj++) { int a = i + di, b = j + dj; if (a >= 0 && b >= 0 && a < g.n && b < g.n) cb[a * g.n + b]++; }
        continue;
      }
      if (i < 0 || j < 0 || i >= g.n || j >= g.n) continue;
      size_t k = static_cast<size_t>(i) * g.n + j;
      c0[k]++; s[k] += q.z; s2[k] += static_cast<double>(q.z) * q.z;
    }
    bool same = ref.known && ref.n == g.n && ref.size == g.size && ref.cell == g.cell;
    bool fresh = slp_iter_in_proc == 1;
    g.known = cfg_ok && !weird && (same || fresh);
    if (!cfg_ok) g.known = false;
    g.mean.resize(nn); g.var.resize(nn); g.unk.assign(nn, 0); g.cnt_lo = c0; g.cnt_hi = c0;
    for (size_t k = 0; k < nn; k++) {
      double m = c0[k] ? s[k] / c0[k] : 0, vv = c0[k] ? std::max(0.0, s2[k] / c0[k] - m * m) : 0;
      double pm = same ? ref.mean[k] : 0, pv = same ? ref.var[k] : 0, pu = same ? ref.unk[k] : 0;
      g.mean[k] = alpha * pm + (1 - alpha) * m;
      g.var[k] = alpha * pv + (1 - alpha) * vv;
      g.unk[k] = alpha * pu + (cb[k] ? (1 - alpha) * 100 : 0);
      g.cnt_hi[k] += cb[k];
    }
    // after a reconfiguration the history is unknown until it has faded
    if (!g.known && cfg_ok && !weird) {
      g.known = true;
      for (size_t k = 0; k < nn; k++) g.unk[k] = 1e4 * (alpha >= 1 ? 1 : 1);
    }
    ref = g;
    have_points = true;
  }
  void on_grid(const safe_landing_planner::SLPGridMsg& m) {
    double t = nowd();
    Proc* p = slp();
    if (!p || p->t_down >= 0) return;
    slp_prev_grid = slp_last_grid;
    slp_last_grid = t;
    grid_times.push_back(t);
    while (grid_times.size() > 200) grid_times.pop_front();
    n_grids++;
    rep().probe("slp_grids");
    // ---- shape
    size_t n0 = m.mean.layout.dim.size() == 2 ? m.mean.layout.dim[0].size : 0;
    size_t want = static_cast<size_t>(std::ceil(static_cast<float>(m.grid_size) / static_cast<float>(m.cell_size)));
    if (n0 != want || m.mean.data.size() != want * want || m.land.data.size() != want * want || m.std_dev.data.size() != want * want || m.counter.data.size() != want * want || m.mean.layout.dim[1].size != want) {
      rep().violation("C19", "shape", fmt("grid message for %.1f m / %.2f m has %zu rows and %zu cells", m.grid_size, m.cell_size, n0, m.mean.data.size()));
      return;
    }
    for (auto l : m.land.data) if (l != 0 && l != 1) { rep().violation("C19", "land-value", "a landable flag is neither 0 nor 1"); break; }
    if (plan.K("rosbag", 0) > 0) { slp_iter_in_proc++; check_replay(m); return; }
    if (!have_points) return;
    // the node publishes the grid of the iteration before the current one; either is accepted
    std::string why1, why2;
    if (matches(m, ref_prev, why1) || matches(m, ref, why2)) return;
    rep().violation("C19", "statistics", fmt("t=%.2f: published grid differs from the statistics of its points: %s", t, why1.c_str()));
  }
  bool matches(const safe_landing_planner::SLPGridMsg& m, const RefGrid& g, std::string& why) {
    double t = nowd();
    double t3 = grid_times.size() > 3 ? grid_times[grid_times.size() - 4] : -1;  // the published grid is one iteration old
    if (reconf_w.hit(std::min(t - 1.5, t3), t)) return true;
    if (!g.known) {
      if (slp_iter_in_proc <= 1) return true;
      if (slp_reconf) return true;
      return ref_weird(g);
    }
    int n = g.n;
    if (ref.n != ref_prev.n || ref.cell != ref_prev.cell) return true;  // just resized
    if (static_cast<int>(m.mean.layout.dim[0].size) != n || std::fabs(m.cell_size - g.cell) > 1e-6) {
      if (slp_iter_in_proc <= 2) return true;
      why = fmt("size %u", m.mean.layout.dim[0].size);
      return false;
    }
    if (std::fabs(m.grid_size - static_cast<float>(slp_cfg["grid_size"])) > 1e-4) { why = fmt("grid size %.3f, configured %.3f", m.grid_size, slp_cfg["grid_size"]); return false; }
    // the grid is centred at the vehicle
    double mid = std::floor(m.grid_size / 2 / m.cell_size);
    if (std::fabs(m.curr_pos_index.x - mid) > 1 || std::fabs(m.curr_pos_index.y - mid) > 1) { why = fmt("vehicle in cell %.0f %.0f instead of %.0f", m.curr_pos_index.x, m.curr_pos_index.y, mid); return false; }
    double thr_n = slp_cfg["n_points_threshold"], thr_s = static_cast<float>(slp_cfg["std_dev_threshold"]), thr_d = static_cast<float>(slp_cfg["mean_diff_thr"]);
    int pad = static_cast<int>(slp_cfg["smoothing_size"]), maxd = static_cast<int>(slp_cfg["max_n_mean_diff_cells"]), minl = static_cast<int>(slp_cfg["min_n_land_cells"]);
    size_t nn = static_cast<size_t>(n) * n, unknown = 0;
    std::vector<int> lo(nn), hi(nn);
    for (size_t k = 0; k < nn; k++) {
      double tm = 2e-3 + 1e-4 * std::fabs(g.mean[k]), tv = 3e-3 + 1e-3 * g.var[k];
      bool u = g.unk[k] > 1e-4;
      if (u) unknown++;
      if (!u) {
        if (std::fabs(m.mean.data[k] - g.mean[k]) > tm) { why = fmt("cell %zu,%zu mean %.4f, its points say %.4f", k / n, k % n, m.mean.data[k], g.mean[k]); return false; }
        double v = m.std_dev.data[k] * m.std_dev.data[k];
        if (std::isnan(v) ? g.var[k] > tv : std::fabs(v - g.var[k]) > tv) { why = fmt("cell %zu,%zu variance %.5f, its points say %.5f", k / n, k % n, v, g.var[k]); return false; }
      }
      if (m.counter.data[k] < g.cnt_lo[k] || m.counter.data[k] > g.cnt_hi[k]) { why = fmt("cell %zu,%zu counts %d points instead of %d", k / n, k % n, static_cast<int>(m.counter.data[k]), g.cnt_lo[k]); return false; }
      double sd = std::sqrt(std::max(0.0, g.var[k]));
      bool sure_yes = !u && g.cnt_lo[k] >= thr_n && sd < thr_s - 0.02, sure_no = g.cnt_hi[k] < thr_n || (!u && sd > thr_s + 0.02);
      lo[k] = sure_yes; hi[k] = !sure_no;
    }
    rep().probe("c19_stats");
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        size_t k = static_cast<size_t>(i) * n + j;
        int l = static_cast<int>(m.land.data[k]);
        bool yes_possible, no_possible;
        if (pad <= 0) { yes_possible = hi[k]; no_possible = !lo[k]; }
        else {
          int al = 0, ah = 0, dl = 0, dh = 0;
          for (int a = -pad; a <= pad; a++)
            for (int b = -pad; b <= pad; b++) {
              int x = i + a, y = j + b;
              bool in = x >= 0 && y >= 0 && x < n && y < n;
              size_t q = in ? static_cast<size_t>(x) * n + y : 0;
              if (in) { al += lo[q]; ah += hi[q]; }
              bool unk = g.unk[k] > 1e-4 || (in && g.unk[q] > 1e-4);
              double d = std::fabs(g.mean[k] - (in ? g.mean[q] : 0));
              if (x == i && y == j) { d = 0; unk = false; }
              if (unk) dh++;
              else { double e = 5e-3 + 2e-4 * std::fabs(g.mean[k]); if (d > thr_d + e) { dl++; dh++; } else if (d > thr_d - e) dh++; }
            }
          yes_possible = ah > minl && dl <= maxd;
          no_possible = !(al > minl && dh <= maxd);
        }
        if (l == 1) rep().probe("c19_landable");
        if (l == 1 && !yes_possible) { why = fmt("cell %d,%d is marked landable against its statistics", i, j); return false; }
        if (l == 0 && !no_possible) { why = fmt("cell %d,%d is marked not landable although every criterion holds", i, j); return false; }
      }
    return true;
  }
  bool ref_weird(const RefGrid&) { return true; }

  // ================================================================== waypoint_generator_node: shadow of its inputs
  struct GridIn {
    bool any = false;
    uint32_t seq = 0;
    int n = 0;
    double cell = 0, size = 0;
    std::vector<int> land;
    std::vector<double> mean;
  } gin;
  V3 wpos, wpos_grid;
  double wyaw = 0;
  bool wpos_any = false, ctx_land = false, pend_reset = false, hazy = false;
  V3 acc_p1, acc_vel, gv;
  bool goal_xy_nan = true, acc_any = false;
  bool got_update = false;      // an FCU waypoint was taken over since the last output
  enum Out { O_NONE, O_GOTO, O_ALT, O_HOLD, O_LAND, O_OTHER };
  struct Iter {
    double t;
    Out o;
    mavros_msgs::Trajectory m;
  };
  bool out_pending = false;
  mavros_msgs::Trajectory out_msg;
  Out prev_out = O_NONE;
  mavros_msgs::Trajectory prev_msg;
  uint64_t n_iters = 0;
  // landing attempt
  bool touched_since_accept = false, hold_since_accept = false;
  int start_seq = 0;
  std::vector<double> ema;
  int ema_n = 0, hold_grids = 0;
  bool attempt_ok = false;     // the reference knows everything about this attempt
  bool evaluated = false;      // the verdict iteration was seen
  V3 eval_pos;
  int eval_n = 0;
  double eval_cell = 0;
  std::vector<double> eval_ema;
  V3 last_goto;
  V3 hold_pos, land_pos;
  double t_first_land = -1, land_started = -1;
  bool anchor_set = false;
  V3 anchor;
  std::vector<V3> expl;
  bool expl_unsure = false;
  int n_land = 0;
  bool non_land_seen = false;
  bool yr_known = false;
  void wg_reset() {
    gin = GridIn();
    wpos = V3(NAN, NAN, NAN);
    wpos_any = ctx_land = pend_reset = hazy = yr_known = false;
    goal_xy_nan = true; acc_any = false; got_update = false;
    gv = V3();
    out_pending = false;
    prev_out = O_NONE;
    attempt_ok = evaluated = false;
    anchor_set = false; expl.clear(); expl_unsure = false;
    touched_since_accept = hold_since_accept = false;
    ema.clear();
  }
  static bool ex(double a, double b, double tol) { return (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= tol; }
  static Out classify(const mavros_msgs::Trajectory& m) {
    auto& p = m.point_1;
    bool xy = fin(p.position.x) && fin(p.position.y), z = fin(p.position.z), yr = fin(p.yaw_rate);
    if (xy && z && yr) return O_GOTO;
    if (xy && !z && yr) return O_ALT;
    if (xy && z && !yr) return O_HOLD;
    if (xy && !z && !yr) return O_LAND;
    return O_OTHER;
  }
  void on_generated(const mavros_msgs::Trajectory& m) {
    cmd = m;
    cmd_time = nowd();
    if (out_pending) rep().violation("C29", "twice", "two trajectories in one iteration of the landing waypoint generator");
    out_pending = true;
    out_msg = m;
    // ---- C29 well-formed
    auto& p = m.point_1;
    rep().probe("c29_messages");
    if (m.type != 0) rep().violation("C29", "type", fmt("trajectory type %d", m.type));
    for (int i = 1; i < 5; i++) if (m.point_valid[i]) rep().violation("C29", "valid", fmt("unused point %d is marked valid", i + 1));
    const mavros_msgs::PositionTarget* un[] = {&m.point_2, &m.point_3, &m.point_4, &m.point_5};
    for (auto* u : un) {
      double v[] = {u->position.x, u->position.y, u->position.z, u->velocity.x, u->velocity.y, u->velocity.z, u->acceleration_or_force.x, u->acceleration_or_force.y, u->acceleration_or_force.z, u->yaw, u->yaw_rate};
      for (double d : v) if (!std::isnan(d)) rep().violation("C29", "unused", "an unused trajectory point carries numbers");
    }
    for (int i = 0; i < 5; i++) if (!std::isnan(m.time_horizon[i])) rep().violation("C29", "horizon", "a time horizon carries a number");
    double acc[] = {p.acceleration_or_force.x, p.acceleration_or_force.y, p.acceleration_or_force.z};
    for (double d : acc) if (!std::isnan(d)) rep().violation("C29", "acceleration", "the trajectory carries an acceleration");
    double pp[] = {p.position.x, p.position.y, p.position.z}, vv[] = {p.velocity.x, p.velocity.y, p.velocity.z};
    bool all = true;
    for (int i = 0; i < 3; i++) {
      if (std::isinf(pp[i]) || std::isinf(vv[i])) rep().violation("C29", "infinite", "infinite setpoint");
      if (!fin(pp[i]) && !fin(vv[i])) all = false;
    }
    // a setpoint that leaves an axis open must not be marked valid, one that covers every axis must be
    if (m.point_valid[0] && !all) rep().violation("C29", "open-axis", fmt("valid setpoint without position or velocity on every axis: pos %.2f %.2f %.2f vel %.2f %.2f %.2f", pp[0], pp[1], pp[2], vv[0], vv[1], vv[2]));
    if (!m.point_valid[0] && all) rep().violation("C29", "not-valid", fmt("complete setpoint marked invalid: pos %.2f %.2f %.2f vel %.2f %.2f %.2f", pp[0], pp[1], pp[2], vv[0], vv[1], vv[2]));
  }
  // end of one iteration (its goal marker is the last thing it publishes)
  void on_iteration() {
    double t = nowd();
    n_iters++;
    Proc* p = wg();
    Out o = out_pending ? classify(out_msg) : O_NONE;
    const mavros_msgs::Trajectory m = out_msg;
    out_pending = false;
    static const char* names[] = {"it_none", "it_goto", "it_alt", "it_hold", "it_land", "it_other"};
    rep().probe(names[o]);
    rep().state(static_cast<uint64_t>(o) * 7 + static_cast<uint64_t>(prev_out) * 64 + (ctx_land ? 1 : 0) + expl.size() * 1000 + (hold_grids < 40 ? hold_grids : 40) * 100000ull);
    bool known = p && p->t_down < 0 && gin.any && !hazy && wpos_any && acc_any && yr_known;
    if (!known) { finish_iter(o, m); attempt_ok = false; return; }
    V3 mp = v3(m.point_1.position), mv = v3(m.point_1.velocity);
    bool reset_now = pend_reset;
    pend_reset = false;
    // ---------------- C22
    if (!ctx_land) {
      rep().probe("c22_nonland_iterations");
      if (o == O_ALT || o == O_HOLD || o == O_LAND)
        rep().violation("C22", o == O_LAND ? "land-without-land-waypoint" : o == O_ALT ? "descent-without-land-waypoint" : "hold-without-land-waypoint",
                        fmt("t=%.2f: the landing sequence goes on (%s) although neither the mission item nor the mode asks for a landing", t, names[o]));
      if (o == O_GOTO && !hold_since_accept) {
        bool pos = ex(mp.x, acc_p1.x, 1e-3) && ex(mp.y, acc_p1.y, 1e-3) && ex(mp.z, acc_p1.z, 1e-3);
        bool velo = ex(mv.x, acc_vel.x, 1e-3) && ex(mv.y, acc_vel.y, 1e-3) && ex(mv.z, acc_vel.z, 1e-3);
        rep().probe("c22_goto_checked");
        if (!pos || !velo) rep().violation("C22", "not-the-waypoint", fmt("t=%.2f: commanded (%.2f %.2f %.2f | %.2f %.2f %.2f), the flight controller's waypoint is (%.2f %.2f %.2f | %.2f %.2f %.2f)", t, mp.x, mp.y, mp.z, mv.x, mv.y, mv.z, acc_p1.x, acc_p1.y, acc_p1.z, acc_vel.x, acc_vel.y, acc_vel.z));
      }
    }
    if (o == O_GOTO) {
      if (!ex(mv.z, acc_vel.z, 1e-3) && !std::isnan(mv.z)) rep().violation("C22", "leftover-velocity", fmt("t=%.2f: vertical velocity %.2f left over from the altitude change is still commanded", t, mv.z));
    }
    if (o == O_OTHER) {
      // only before any waypoint is known
      if (fin(acc_p1.x) && fin(acc_p1.y) && fin(acc_p1.z)) rep().violation("C22", "no-position", fmt("t=%.2f: setpoint without horizontal position: %.2f %.2f %.2f", t, mp.x, mp.y, mp.z));
    }
    if (reset_now && (o == O_ALT || o == O_HOLD || o == O_LAND)) rep().violation("C22", "no-reset", fmt("t=%.2f: %s goes on after the vehicle was disarmed or taken out of the landing modes", t, names[o]));
    if (reset_now) { rep().probe("c22_reset"); attempt_ok = false; evaluated = false; }
    if (!ctx_land) { anchor_set = false; expl.clear(); expl_unsure = false; }

    // ---------------- landing sequence
    double h80 = NAN;
    bool h_ok = percentile(h80);
    if (o == O_ALT) {
      double d = std::fabs(wpos.z - h80), lh = static_cast<float>(wg_cfg["loiter_height"]);
      if (h_ok && !wg_reconf && std::fabs(d - lh) > 0.02) {
        double dir = d < lh ? 1 : -1;
        rep().probe("c18_altitude_checked");
        if (!(mv.z * dir > 0)) rep().violation("C18", "wrong-direction", fmt("t=%.2f: %s although the vehicle is %.2f m above the landing area and the loiter height is %.2f m", t, mv.z < 0 ? "descends" : "climbs", d, lh));
      }
      alt_reached = !h_ok || wg_reconf || std::fabs(d - lh) < static_cast<float>(wg_cfg["vertical_range_error"]) + 1e-3;
      start_seq = static_cast<int>(gin.seq);
      ema.assign(gin.land.size(), 0.0);
      ema_n = gin.n;
      hold_grids = 0;
      attempt_ok = true;
      evaluated = false;
      touched_since_accept = true;
    }
    if (o == O_HOLD) {
      hold_since_accept = true;
      if (prev_out != O_HOLD) {
        hold_pos = mp;
        evaluated = false;
        if ((V3(mp.x, mp.y, mp.z) - wpos).norm() > 1e-3) rep().violation("C18", "hold-elsewhere", fmt("t=%.2f: loiter position is %.2f m away from the vehicle", t, (mp - wpos).norm()));
        if (prev_out != O_ALT) attempt_ok = false;
        else if (!alt_reached) rep().violation("C18", "wrong-height", fmt("t=%.2f: observes the landing area although the loiter height above it is not reached", t));
      } else if ((mp - hold_pos).norm() > 1e-3) rep().violation("C18", "hold-moves", fmt("t=%.2f: the loiter position moved by %.2f m while the landing area is being observed", t, (mp - hold_pos).norm()));
      if (ema_n != gin.n) { ema.assign(gin.land.size(), 0.0); ema_n = gin.n; }
      int ds = std::abs(static_cast<int>(gin.seq) - start_seq);  // the sequence starts again with the landing planner
      if (evaluated && prev_out == O_HOLD) {
        // the verdict is in
      } else if (ds <= 20) {
        double b = static_cast<float>(wg_cfg["beta"]);
        for (size_t i = 0; i < ema.size(); i++) ema[i] = b * ema[i] + (1 - b) * gin.land[i];
        hold_grids++;
        if (regrid_after >= 0 && hold_grids >= regrid_after) { syn_size = raw_size = regrid_size; syn_cell = raw_cell = regrid_cell; regrid_after = -1; count("regrid"); }
      } else evaluated = true;
      eval_pos = wpos;
      eval_n = gin.n;
      eval_cell = gin.cell;
      eval_ema = ema;
      if (evaluated) rep().probe("c18_verdicts");
    }
    if (o == O_GOTO) {
      if (prev_out == O_HOLD && !got_update && !reset_now && ctx_land) {
        // a decision was taken: either towards a landing spot or (first back to the loiter position) on to exploration
        if (!evaluated && attempt_ok && !wg_reconf) rep().violation("C18", "early-verdict", fmt("t=%.2f: decision after only %d grids", t, static_cast<int>(gin.seq) - start_seq));
        if (!anchor_set) { anchor = hold_pos; anchor_pending = true; }
      }
      if (prev_out == O_GOTO && ctx_land && hold_since_accept && !got_update && (mp - last_goto).norm() > 1e-3) on_explore(mp, t);
      else if (got_update) expl_unsure = true;
      last_goto = mp;
    }
    if (o == O_LAND) {
      if (prev_out != O_LAND) on_land_start(mp, mv, t);
      else {
        if (std::hypot(mp.x - land_pos.x, mp.y - land_pos.y) > 1e-3) rep().violation("C18", "land-moves", fmt("t=%.2f: the landing position moved by %.2f m during the descent", t, std::hypot(mp.x - land_pos.x, mp.y - land_pos.y)));
      }
      if (!(mv.z < 0)) rep().violation("C18", "land-climbs", fmt("t=%.2f: vertical velocity %.2f while landing", t, mv.z));
      rep().probe("c18_land_iterations");
    }
    finish_iter(o, m);
  }
  bool anchor_pending = false;
  void finish_iter(Out o, const mavros_msgs::Trajectory& m) {
    if (o != O_NONE) prev_msg = m;
    prev_out = o;
    got_update = false;
  }
  bool percentile(double& h) {
    int slc = static_cast<int>(wg_cfg["smoothing_land_cell"]);
    if (!gin.any || slc > (gin.n - 1) / 2 || slc < 1) return false;
    std::vector<double> v;
    int c = gin.n / 2;
    for (int i = c - slc; i <= c + slc; i++) for (int j = c - slc; j <= c + slc; j++) v.push_back(static_cast<float>(gin.mean[i * gin.n + j]));
    std::sort(v.begin(), v.end());
    size_t k = static_cast<size_t>(std::lround(0.8 * v.size()));
    h = v[std::min(k, v.size() - 1)];
    return true;
  }
  void on_explore(const V3& g, double t) {
    rep().probe("c22_explored");
    if (!anchor_set) { anchor_set = true; anchor = hold_pos; }
    int slc = static_cast<int>(wg_cfg["smoothing_land_cell"]);
    bool sure = !wg_reconf && !raw_or_regrid && !expl_unsure && slc > 0 && slc <= (gin.n - 1) / 2 && attempt_known();
    double step = static_cast<float>(wg_cfg["spiral_width"]) * 2.0 * slc * gin.cell * (1 + static_cast<double>(expl.size() / 8));
    if (sure) {
      double dx = g.x - anchor.x, dy = g.y - anchor.y, tol = 0.02;
      auto on = [&](double d) { return std::fabs(d) < tol || std::fabs(std::fabs(d) - step) < tol; };
      if (!on(dx) || !on(dy) || std::max(std::fabs(dx), std::fabs(dy)) < step - tol || std::fabs(g.z - anchor.z) > tol)
        rep().violation("C22", "spiral", fmt("t=%.2f: exploration point %zu is at (%.2f %.2f %.2f) from the anchor, the ring is %.2f m wide", t, expl.size(), dx, dy, g.z - anchor.z, step));
      for (auto& e : expl) if ((e - g).norm() < tol) rep().violation("C22", "revisit", fmt("t=%.2f: exploration point %zu was visited before", t, expl.size()));
    }
    expl.push_back(g);
  }
  bool attempt_known() const { return true; }
  void on_land_start(const V3& mp, const V3&, double t) {
    n_land++;
    land_pos = mp;
    if (t_first_land < 0) t_first_land = t;
    rep().probe("c18_landings");
    if (!ctx_land) return;  // reported above
    if (std::hypot(mp.x - wpos.x, mp.y - wpos.y) > 1e-3) rep().violation("C18", "land-elsewhere", fmt("t=%.2f: lands %.2f m away from where the vehicle is", t, std::hypot(mp.x - wpos.x, mp.y - wpos.y)));
    if (prev_out != O_GOTO || !evaluated) {
      rep().violation("C18", "land-without-verdict", fmt("t=%.2f: descends to land without having observed a landing area (previous step %d)", t, static_cast<int>(prev_out)));
      return;
    }
    double d = std::hypot(mp.x - last_goto.x, mp.y - last_goto.y);
    if (d > 0.5 + 0.02) rep().violation("C18", "land-off-target", fmt("t=%.2f: lands %.2f m away from the chosen spot", t, d));
    int slc = static_cast<int>(wg_cfg["smoothing_land_cell"]);
    if (attempt_ok && !wg_reconf && slc <= (eval_n - 1) / 2) {
      // some patch of the observed grid around the chosen spot must be landable in every cell
      double cx = (last_goto.x - eval_pos.x) / eval_cell + eval_n / 2, cy = (last_goto.y - eval_pos.y) / eval_cell + eval_n / 2;
      double slack = 0.6 + (hold_pos - eval_pos).nxy() / eval_cell, thr = static_cast<float>(wg_cfg["can_land_thr"]);
      bool ok = false;
      double best_bad = 1e9;
      for (int i = static_cast<int>(std::floor(cx - slack)); i <= static_cast<int>(std::ceil(cx + slack)); i++)
        for (int j = static_cast<int>(std::floor(cy - slack)); j <= static_cast<int>(std::ceil(cy + slack)); j++) {
          if (std::fabs(i - cx) > slack || std::fabs(j - cy) > slack) continue;
          if (i - slc < 0 || j - slc < 0 || i + slc >= eval_n || j + slc >= eval_n) continue;
          int bad = 0;
          for (int a = -slc; a <= slc; a++)
            for (int b = -slc; b <= slc; b++) {
              if (std::hypot(a, b) >= slc + 0.5) continue;
              if (!(eval_ema[(i + a) * eval_n + j + b] > thr - 1e-4)) bad++;
            }
          if (!bad) ok = true;
          best_bad = std::min(best_bad, static_cast<double>(bad));
        }
      rep().probe("c18_patch_checked");
      if (!ok) rep().violation("C18", "unsafe-patch", fmt("t=%.2f: lands on a patch of which %.0f cells were not landable in the observed grids", t, best_bad));
    }
    // ground truth
    double cell = eval_cell, r = (slc - 1.5) * cell - 0.45;
    bool pipeline_ok = !pose_off.hit(t - 12, t) && !tf_off.hit(t - 12, t) && !cam_weird.hit(t - 12, t) && !wg_reconf && !slp_reconf && !net_w.hit(t - 12, t) && calm_sched(t - 12, t) && plan.K("grid_noise", 0) == 0 && plan.K("tilt", 0) == 0 && !raw_or_regrid && slp_cfg["std_dev_threshold"] <= 0.2 && slp_cfg["n_points_threshold"] >= 1;
    if (pipeline_ok && r > 0.2 && std::fabs(plan.K("drift_x", 0)) + std::fabs(plan.K("drift_y", 0)) < 0.05) {
      rep().probe("c18_truth_checked");
      if (hazard_near(mp.x, mp.y, r)) rep().violation("C18", "landed-on-hazard", fmt("t=%.2f: lands at (%.2f %.2f), rough ground lies within %.2f m", t, mp.x, mp.y, r));
    }
  }
  bool raw_or_regrid = false, alt_reached = false;
  int regrid_after = -1;
  double regrid_size = 0, regrid_cell = 0;

  // ------------------------------------------------------------------ hooks
  bool is_slp(sim::NodeCtx* n) { return slp() && n == slp()->node; }
  bool is_wg(sim::NodeCtx* n) { return wg() && n == wg()->node; }
  void on_publish(const std::string& topic, sim::NodeCtx* from, const sim::AnyMsg& m) {
    if (is_slp(from)) {
      if (topic == "mavros/companion_process/status") on_slp_status(as<mavros_msgs::CompanionProcessStatus>(m));
      else if (topic == "grid_pointcloud") on_points(as<pcl::PointCloud<pcl::PointXYZI>>(m));
      else if (topic == "grid_slp") on_grid(as<safe_landing_planner::SLPGridMsg>(m));
    } else if (is_wg(from)) {
      if (topic == "mavros/trajectory/generated") on_generated(as<mavros_msgs::Trajectory>(m));
      else if (topic == "goal_position") on_iteration();
    }
  }
  void on_callback(const std::string& topic, sim::NodeCtx* to, const sim::AnyMsg& m, bool begin) {
    if (is_slp(to)) {
      if (topic == TOPICS[0] && !begin) { slp_pose = v3(as<geometry_msgs::PoseStamped>(m).pose.position); slp_pose_any = true; }
      if (topic == CAM_TOPIC && begin) for (auto& c : clouds) if (c.id == m.get()) c.delivered++;
      return;
    }
    if (!is_wg(to) || begin) return;
    if (topic == TOPICS[0]) { wpos = v3(as<geometry_msgs::PoseStamped>(m).pose.position); wpos_any = true; }
    else if (topic == "grid_slp") {
      const auto& g = as<safe_landing_planner::SLPGridMsg>(m);
      gin.any = true;
      gin.seq = g.header.seq;
      gin.n = g.mean.layout.dim[0].size;
      gin.cell = g.cell_size;
      gin.size = g.grid_size;
      gin.land.assign(g.land.data.begin(), g.land.data.end());
      gin.mean.assign(g.mean.data.begin(), g.mean.data.end());
    } else if (topic == TOPICS[1]) {
      const auto& s = as<mavros_msgs::State>(m);
      if (s.mode == "AUTO.LAND") ctx_land = true;
      else if (s.mode != "AUTO.MISSION") { ctx_land = false; pend_reset = true; }
      if (!s.armed) { ctx_land = false; pend_reset = true; }
    } else if (topic == TOPICS[2]) {
      const auto& a = as<mavros_msgs::Trajectory>(m);
      V3 n = v3(a.point_2.position);
      double d = (n - gv).norm();
      if (std::fabs(d - 0.01) < 1e-4) hazy = true;
      bool upd = d > 0.01 || goal_xy_nan;
      if (upd && a.point_valid[0]) {
        acc_p1 = v3(a.point_1.position);
        acc_vel = v3(a.point_1.velocity);
        bool was = ctx_land;
        ctx_land = a.command[1] == 21;
        if (was) { pend_reset = true; anchor_set = false; expl.clear(); expl_unsure = false; }  // whatever was under way belongs to the previous waypoint
        acc_any = true;
        goal_xy_nan = !(fin(acc_p1.x) && fin(acc_p1.y));
        got_update = true;
        touched_since_accept = hold_since_accept = false;
      }
      if (a.point_valid[1]) { gv = n; yr_known = true; }
    }
  }

  // ------------------------------------------------------------------ run
  void run() {
    dur = plan.K("dur", 20);
    syn = plan.K("syn", 0) > 0;
    for (int i = 0; i < 11; i++) slp_cfg[SLP_P[i]] = plan.K(SLP_P[i], SLP_D[i]);
    for (int i = 0; i < 6; i++) wg_cfg[WG_P[i]] = plan.K(WG_P[i], WG_D[i]);
    syn_size = raw_size = plan.K("grid_size", 10);
    syn_cell = raw_cell = plan.K("cell_size", 0.5);
    for (auto& o : plan.ops) if (o.kind == "regrid" || o.kind == "regrid_hold") raw_or_regrid = true;
    syn_seq = static_cast<uint32_t>(plan.K("seq0", 0));
    setup();
    prescan();
    sim::Env& e = sim::env();
    e.def.lat_max = static_cast<sim::ns_t>(plan.K("net_lat_ms", 2) * 1e6);
    e.on_publish = [this](const std::string& tpc, sim::NodeCtx* n, const sim::AnyMsg& m) { on_publish(tpc, n, m); };
    e.on_callback = [this](const std::string& tpc, sim::NodeCtx* n, const sim::AnyMsg& m, bool b) { on_callback(tpc, n, m, b); };
    rep().crash_prop = "C23";
    rep().crash_also = [this]() {
      std::vector<std::string> r{"C28"};
      if (Proc* p = slp())
        for (sim::Fiber* f : sim::fibers_of(p->node)) if (f == sim::cur()) { r.push_back("C20"); r.push_back("C21"); }
      return r;
    };
    sim::at(nsd(0.01), [this]() { step_vehicle(); });
    sim::at(nsd(plan.K("pose_start", 0.02)), [this]() { tick_pose(); });
    sim::at(nsd(0.005), [this]() { tick_tf(); });
    sim::at(nsd(0.04), [this]() { tick_state(); });
    sim::at(nsd(plan.K("traj_start", 0.06)), [this]() { tick_traj(); });
    if (syn) sim::at(nsd(plan.K("cam_start", 0.1)), [this]() { tick_grid(); });
    else if (plan.K("rosbag", 0) > 0) sim::at(nsd(plan.K("cam_start", 0.1)), [this]() { tick_raw(); });
    else sim::at(nsd(plan.K("cam_start", 0.1)), [this]() { tick_cam(); });
    sim::at(nsd(0.5), [this]() { tick_watch(); });
    for (const Op& o : plan.ops) sim::at(nsd(o.t), [this, &o]() { do_op(o); });
    if (!syn) start_slp();
    if (plan.K("no_wg", 0) == 0) start_wg();
    sim::run(nsd(dur));
    finish();
  }
  void finish() {
    double t = dur;
    for (auto* v : {&slps, &wgs})
      for (Proc* p : *v) {
        if (p->t_down < 0 || p->crashed) continue;
        const char* nm = v == &slps ? "safe_landing_planner_node" : "waypoint_generator_node";
        // the thread that has to finish may have been stalled by the simulation
        double bound = 3 + (stall_w.hit(p->t_down - 3, p->t_down + 3) ? 4 : 0);
        if (p->t_end < 0 && t - p->t_down > bound) rep().violation("C23", "no-shutdown", fmt("%s still running %.1f s after its shutdown was requested: %s", nm, t - p->t_down, sim::dump_threads().c_str()));
        else if (p->t_end >= 0) {
          rep().probe("c23_shutdowns");
          if (p->t_end - p->t_down > bound) rep().violation("C23", "slow-shutdown", fmt("%s needed %.1f s to shut down", nm, p->t_end - p->t_down));
        }
      }
    for (auto* v : {&slps, &wgs})
      for (Proc* p : *v)
        if (p->t_down < 0 && p->t_end >= 0) rep().violation("C23", "ended", fmt("%s ended by itself at %.2f s", v == &slps ? "safe_landing_planner_node" : "waypoint_generator_node", p->t_end));
    double q = std::max(calm_from, stall_w.last());
    bool slp_alive = !syn && slp() && slp()->t_down < 0, wg_alive = wg() && wg()->t_down < 0;
    if (slp_alive && t - std::max(q, slp()->t_start) > 5 && plan.K("cam_start", 0.1) < t - 5) {
      int n = 0;
      for (double g : grid_times) if (g > t - 2.5) n++;
      rep().probe("c21_recovery_checked");
      if (n < 6) rep().violation("C21", "no-grids", fmt("only %d landing grids in the last 2.5 s although the inputs have been healthy for %.1f s: %s", n, t - q, sim::dump_threads().c_str()));
      if (wg_alive && t - q > 5 && t - wg()->t_start > 5 && n_iters == 0) rep().violation("C21", "not-connected", "landing grids are produced but the waypoint generator receives none");
    }
    // a mission or mode that asks for the landing must have been in force, and its item sent again after any interruption
    double last_mode = -1, last_wp = 0;
    bool asked = true;
    for (const Op& o : plan.ops) {
      if (o.kind == "mode") { last_mode = std::max(last_mode, o.t); if (o.t >= last_mode) asked = o.P(0) < 2; }
      if (o.kind == "arm") asked = false;
      if (o.kind == "wp") last_wp = std::max(last_wp, o.t);
    }
    if (!asked || (last_mode >= 0 && last_wp < last_mode + 0.5)) return;
    if (plan.K("must_land", 0) > 0 && wg_alive && (syn || slp_alive) && t - std::max(q, std::max(last_wp, last_mode)) > 40) {
      rep().probe("c28_checked");
      if (n_land == 0) rep().violation("C28", "no-landing", fmt("suitable ground everywhere, healthy inputs for %.1f s, but no landing was started (iterations %llu, last step %d, vehicle at %.1f %.1f %.1f)", t - q, static_cast<unsigned long long>(n_iters), static_cast<int>(prev_out), me.p.x, me.p.y, me.p.z));
      else rep().probe("c28_landed");
    }
  }
};

void scenario_run(const Plan& p) {
  configure_sched(p);
  SlpSim* s = new SlpSim(p);
  s->run();
}
