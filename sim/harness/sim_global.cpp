// Closed-loop simulation of the global planner process (its own main function) with a simulated vehicle, FCU, mapping
// server, depth camera, transform tree and network.
#include "driver.h"
#include "world.h"
#include <dynamic_reconfigure/server.h>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/TwistStamped.h>
#include <mavros_msgs/CompanionProcessStatus.h>
#include <mavros_msgs/Trajectory.h>
#include <nav_msgs/Path.h>
#include <octomap_msgs/Octomap.h>
#include <unordered_map>
#include <unordered_set>

int global_planner_node_main(int argc, char** argv);

using sim::count;
static const double T0 = 1000.0;
static double nowd() { return sim::now() / 1e9 - T0; }
static sim::ns_t nsd(double t) { return static_cast<sim::ns_t>((t + T0) * 1e9); }
static ros::Time rost(double t) { ros::Time r; r.fromNSec(static_cast<uint64_t>(nsd(t))); return r; }
static bool fin(double v) { return std::isfinite(v); }
static bool fin(const V3& v) { return v.finite(); }
template <class M>
static const M& as(const sim::AnyMsg& m) { return *static_cast<const M*>(m.get()); }
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }

static const char* NODE = "/global_planner_node";
static const char* T_POSE = "mavros/local_position/pose";
static const char* T_VEL = "mavros/local_position/velocity";
static const char* T_TRAJ = "mavros/trajectory/desired";
static const char* T_MAP = "octomap_full";
static const char* T_GOAL = "move_base_simple/goal";
static const char* T_CLICK = "clicked_point";
static const char* T_CAM = "camera/depth/points";
static const char* TOPICS[] = {T_POSE, T_VEL, T_TRAJ, T_MAP, T_GOAL, T_CLICK, T_CAM};
static const char* GP_P[] = {"min_altitude_", "max_altitude_", "max_cell_risk_", "smooth_factor_", "vert_to_hor_cost_", "risk_factor_", "neighbor_risk_flow_", "explore_penalty_",
                             "up_cost_", "down_cost_", "search_time_", "min_overestimate_factor_", "max_overestimate_factor_", "risk_threshold_risk_based_speedup_",
                             "default_speed_", "max_speed_", "max_iterations_", "goal_must_be_free_", "use_current_yaw_", "use_risk_heuristics_", "use_speedup_heuristics_",
                             "use_risk_based_speedup_", "clicked_goal_alt_", "clicked_goal_radius_", "simplify_iterations_", "simplify_margin_", "default_node_type_"};
static const double GP_D[] = {1, 10, 0.2, 20, 3, 500, 1, 0.005, 5, 1, 0.5, 1.03, 2, 0.5, 1, 3, 2000, 1, 1, 1, 1, 1, 3.5, 1, 1, 1.01, 2};
static const double GP_MIN[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0.1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
static const double GP_MAX[] = {10, 50, 1, 100, 10, 1000, 1, 0.01, 10, 10, 1, 1.5, 5, 1, 10, 10, 10000, 1, 1, 1, 1, 1, 10, 10, 100, 2, 2};
static const int NGP = 27;
static const char* NODE_TYPES[] = {"Node", "NodeWithoutSmooth", "SpeedNode"};
static const double PRIOR[] = {1.0, 0.2, 0.1333, 0.1, 0.0833, 0.05, 0.033, 0.025, 0.0166, 0.0125, 0.001};

struct Windows {
  std::vector<std::pair<double, double>> w;
  void add(double a, double b) { w.push_back(std::make_pair(a, b)); }
  bool hit(double a, double b) const { for (auto& x : w) if (x.first <= b && x.second >= a) return true; return false; }
  double last() const { double l = -1; for (auto& x : w) l = std::max(l, x.second); return l; }
};

struct C3 {
  int x = 0, y = 0, z = 0;
  C3() {}
  C3(int a, int b, int c) : x(a), y(b), z(c) {}
  explicit C3(const V3& p) : x(static_cast<int>(std::floor(p.x))), y(static_cast<int>(std::floor(p.y))), z(static_cast<int>(std::floor(p.z))) {}
  V3 pos() const { return V3(x + 0.5, y + 0.5, z + 0.5); }
  bool operator==(const C3& o) const { return x == o.x && y == o.y && z == o.z; }
  bool operator!=(const C3& o) const { return !(*this == o); }
  C3 operator-(const C3& o) const { return C3(x - o.x, y - o.y, z - o.z); }
  double len() const { return std::sqrt(static_cast<double>(x) * x + static_cast<double>(y) * y + static_cast<double>(z) * z); }
  uint64_t key() const { return (static_cast<uint64_t>(x + 32768) << 40) | (static_cast<uint64_t>(y + 32768) << 20) | static_cast<uint64_t>(z + 32768); }
};
static double manh(const V3& a, const V3& b) { return std::fabs(a.x - b.x) + std::fabs(a.y - b.y) + std::fabs(a.z - b.z); }
typedef std::unordered_map<uint64_t, float> Vox;

struct GpSim {
  const Plan& plan;
  sim::Rng wr;
  double dur = 30;
  sim::NodeCtx* node = nullptr;
  double t_start = 0.3, t_down = -1, t_end = -1;
  std::map<std::string, double> cfg;
  // ---- world
  World world;
  double res = 1.0;
  Vox known;            // what the mapping server knows
  boost::shared_ptr<Vox> published;
  bool known_dirty = true;
  // ---- vehicle
  PoseAt me;
  V3 vel;
  PoseHist hist;
  V3 sp;
  double sp_time = -100, sp_yaw = 0;
  // ---- FCU
  V3 fgoal;
  bool fgoal_on = false;
  V3 vel_err;
  double vel_err_until = -1;
  int map_kind = 0;
  double map_kind_until = -1;
  CloudKind ck = CK_NORMAL;
  double ck_until = -1;
  Windows stall_w, map_off, pose_off, tf_off, cam_off, net_w, reconf_w, any_w, weird_w;
  double slow = 0;      // upper bound on the virtual duration of one planning cycle

  explicit GpSim(const Plan& p) : plan(p), wr(p.seed * 101 + 5) {}

  // ------------------------------------------------------------------ world
  void setup() {
    sim::Rng r(static_cast<uint64_t>(plan.K("world", 1)) * 733 + 29);
    res = plan.K("res", 1.0);
    int nb = static_cast<int>(plan.K("boxes", 3));
    me.t = 0;
    me.p = V3(plan.K("x0", 0.5), plan.K("y0", 0.5), plan.K("z0", 3.5));
    me.yaw = plan.K("yaw0", 0);
    me.pitch = 0;
    hist.add(me);
    V3 g(plan.K("goal_x", 12), plan.K("goal_y", 0), plan.K("goal_z", 3.5));
    for (int i = 0; i < nb; i++) {
      double f = r.range(0.25, 0.8);
      V3 c = me.p + (g - me.p) * f + V3(r.range(-5, 5), r.range(-5, 5), 0);
      double sx = r.range(0.6, 2), sy = r.range(0.6, 2), h = r.range(2, plan.K("box_h", 9));
      Box b;
      b.lo = V3(c.x - sx, c.y - sy, 0);
      b.hi = V3(c.x + sx, c.y + sy, h);
      if (box_ok(b, me.p, g)) world.boxes.push_back(b);
    }
    int walls = static_cast<int>(plan.K("walls", 0));
    for (int i = 0; i < walls; i++) {
      double f = 0.3 + 0.4 * (i + 0.5) / walls;
      V3 c = me.p + (g - me.p) * f;
      double w = r.range(3, plan.K("wall_w", 8)), h = r.range(3, plan.K("wall_h", 9));
      V3 d = g - me.p;
      Box b;
      if (std::fabs(d.x) > std::fabs(d.y)) { b.lo = V3(c.x - 0.5, c.y - w, 0); b.hi = V3(c.x + 0.5, c.y + w, h); }
      else { b.lo = V3(c.x - w, c.y - 0.5, 0); b.hi = V3(c.x + w, c.y + 0.5, h); }
      if (box_ok(b, me.p, g)) world.boxes.push_back(b);
    }
    if (plan.K("roof", 0) > 0) { Box b; b.lo = V3(me.p.x - 3, me.p.y - 3, plan.K("roof", 0)); b.hi = V3(me.p.x + 3, me.p.y + 3, plan.K("roof", 0) + 1); world.boxes.push_back(b); }
    if (plan.K("goal_roof", 0) > 0) { Box b; b.lo = V3(g.x - 2, g.y - 2, plan.K("goal_roof", 0)); b.hi = V3(g.x + 2, g.y + 2, plan.K("goal_roof", 0) + 1); world.boxes.push_back(b); }
    if (plan.K("goal_box", 0) > 0) { Box b; b.lo = g - V3(1.5, 1.5, 3); b.hi = g + V3(1.5, 1.5, 1.5); if (b.lo.z < 0) b.lo.z = 0; world.boxes.push_back(b); }
    world.ground = false;
    fgoal = g;
    tf::Quaternion q;
    q.setRPY(0, 0, 0);
    sim::tf_static("fcu", "camera_link", tf::Transform(q, tf::Vector3(0.1, 0, 0)));
    if (plan.K("full_map", 1) > 0) for (auto& b : world.boxes) learn(b);
  }
  static bool box_ok(const Box& b, const V3& a, const V3& g) {
    auto far = [&b](const V3& p) {
      double dx = std::max(std::max(b.lo.x - p.x, p.x - b.hi.x), 0.0), dy = std::max(std::max(b.lo.y - p.y, p.y - b.hi.y), 0.0);
      return std::hypot(dx, dy) > 2.6;
    };
    return far(a) && far(g);
  }
  uint64_t vkey(double x, double y, double z) const {
    auto k = [this](double v) { return static_cast<uint64_t>(static_cast<int>(std::floor(v / res)) + 32768); };
    return (k(x) << 40) | (k(y) << 20) | k(z);
  }
  void learn(const Box& b, const V3* from = nullptr, double range = 0) {
    double unc = plan.K("uncertain", 0);
    for (double x = std::floor(b.lo.x / res) * res + res / 2; x < b.hi.x; x += res)
      for (double y = std::floor(b.lo.y / res) * res + res / 2; y < b.hi.y; y += res)
        for (double z = std::floor(b.lo.z / res) * res + res / 2; z < b.hi.z; z += res) {
          if (from && (V3(x, y, z) - *from).norm() > range) continue;
          uint64_t k = vkey(x, y, z);
          if (known.count(k)) continue;
          uint32_t h = static_cast<uint32_t>(k * 2654435761u >> 16);
          known[k] = unc > 0 && (h % 100) < unc * 100 ? -0.05f - 0.3f * ((h >> 8) % 100) / 100 : static_cast<float>(plan.K("hit_lo", 3.5));
          known_dirty = true;
        }
  }
  void explore() {
    if (plan.K("full_map", 1) <= 0) for (auto& b : world.boxes) learn(b, &me.p, plan.K("map_range", 9));
    int free = static_cast<int>(plan.K("free", 0));
    for (int i = 0; i < free; i++) {
      V3 p = me.p + V3(wr.range(-5, 5), wr.range(-5, 5), wr.range(-3, 3));
      if (p.z < 0.1 || world.clearance(p) < 1.8) continue;
      uint64_t k = vkey(p.x, p.y, p.z);
      if (!known.count(k)) { known[k] = -static_cast<float>(wr.range(0.2, 3)); known_dirty = true; }
    }
  }
  void step_vehicle() {
    const double dt = 0.01;
    double t = nowd();
    V3 want;
    double yr = 0;
    if (t - sp_time < 0.6 && fin(sp) && plan.K("follow", 1) > 0) {
      want = (sp - me.p) * 0.95;
      double n = want.norm(), mx = plan.K("v_max", 4);
      if (n > mx) want = want * (mx / n);
      yr = clampd(wrap_pi(sp_yaw - me.yaw) * 2, -1.0, 1.0);
    }
    vel = vel + (want - vel) * (dt / 0.3);
    me.p = me.p + vel * dt;
    me.yaw = wrap_pi(me.yaw + yr * dt);
    me.t = t;
    hist.add(me);
    if (t < dur) sim::at(nsd(t + dt), [this]() { step_vehicle(); });
  }
  double jitter(double p) { return p * (1 + 0.1 * (wr.uni() - 0.5)); }
  struct PoseRec { const void* id; V3 p; double yaw, begin = -1, end = -1; };
  struct VelRec { const void* id; V3 v; double begin = -1, end = -1; };
  std::deque<PoseRec> poses;
  std::deque<VelRec> vels;
  std::deque<sim::AnyMsg> keep;
  void hold(const sim::AnyMsg& m) { keep.push_back(m); if (keep.size() > 3000) keep.pop_front(); }
  void tick_pose() {
    double t = nowd();
    if (!pose_off.hit(t, t)) {
      boost::shared_ptr<geometry_msgs::PoseStamped> m(new geometry_msgs::PoseStamped());
      m->header.stamp = rost(t);
      m->header.frame_id = "local_origin";
      m->pose.position = pt(me.p);
      tf::Quaternion q;
      q.setRPY(0, 0, me.yaw);
      tf::quaternionTFToMsg(q, m->pose.orientation);
      boost::shared_ptr<const geometry_msgs::PoseStamped> cm = m;
      PoseRec r;
      r.id = m.get(); r.p = me.p; r.yaw = me.yaw;
      poses.push_back(r);
      if (poses.size() > 900) poses.pop_front();
      hold(cm);
      was_sent(0);
      sim::inject(T_POSE, cm);
      boost::shared_ptr<geometry_msgs::TwistStamped> v(new geometry_msgs::TwistStamped());
      v->header.stamp = rost(t);
      V3 vv = vel_err_until > t ? vel_err : vel;
      v->twist.linear.x = vv.x; v->twist.linear.y = vv.y; v->twist.linear.z = vv.z;
      boost::shared_ptr<const geometry_msgs::TwistStamped> cv = v;
      VelRec w;
      w.id = v.get(); w.v = vv;
      vels.push_back(w);
      if (vels.size() > 900) vels.pop_front();
      hold(cv);
      was_sent(1);
      sim::inject(T_VEL, cv);
    } else count("pose_withheld");
    if (t < dur) sim::at(nsd(t + jitter(1 / plan.K("pose_hz", 30))), [this]() { tick_pose(); });
  }
  void tick_tf() {
    double t = nowd();
    if (!tf_off.hit(t, t)) {
      tf::Quaternion q;
      q.setRPY(0, 0, me.yaw);
      sim::tf_publish("local_origin", "fcu", tf::Transform(q, tf::Vector3(me.p.x, me.p.y, me.p.z)), rost(me.t));
    } else count("tf_withheld");
    if (t < dur) sim::at(nsd(t + jitter(1 / plan.K("tf_hz", 50))), [this]() { tick_tf(); });
  }
  // ---- goals
  enum GoalKind { G_FCU, G_RVIZ, G_INVALID, G_NAN };
  struct GoalRec { const void* id; int kind; V3 g; };
  std::deque<GoalRec> goal_msgs;
  void send_fcu(const V3& g, bool valid, bool stream) {
    boost::shared_ptr<mavros_msgs::Trajectory> m(new mavros_msgs::Trajectory());
    m->header.stamp = rost(nowd());
    auto blank = [](mavros_msgs::PositionTarget& p) {
      p.position.x = p.position.y = p.position.z = NAN;
      p.velocity.x = p.velocity.y = p.velocity.z = NAN;
      p.acceleration_or_force.x = p.acceleration_or_force.y = p.acceleration_or_force.z = NAN;
      p.yaw = p.yaw_rate = NAN;
    };
    blank(m->point_1); blank(m->point_2); blank(m->point_3); blank(m->point_4); blank(m->point_5);
    m->point_1.position = pt(me.p);
    m->point_2.position = pt(g);
    m->point_valid[0] = true;
    m->point_valid[1] = valid;
    boost::shared_ptr<const mavros_msgs::Trajectory> cm = m;
    goal_msgs.push_back({m.get(), !valid ? G_INVALID : fin(g) ? G_FCU : G_NAN, g});
    if (goal_msgs.size() > 400) goal_msgs.pop_front();
    hold(cm);
    was_sent(2);
    sim::inject(T_TRAJ, cm);
    (void)stream;
  }
  void send_rviz(const V3& g) {
    boost::shared_ptr<geometry_msgs::PoseStamped> m(new geometry_msgs::PoseStamped());
    m->header.frame_id = "local_origin";
    m->header.stamp = rost(nowd());
    m->pose.position = pt(V3(g.x, g.y, 0));
    m->pose.orientation.w = 1;
    boost::shared_ptr<const geometry_msgs::PoseStamped> cm = m;
    goal_msgs.push_back({m.get(), fin(g.x) && fin(g.y) ? G_RVIZ : G_NAN, g});
    hold(cm);
    was_sent(4);
    sim::inject(T_GOAL, cm);
  }
  void tick_traj() {
    double t = nowd();
    if (fgoal_on) send_fcu(fgoal, true, true);
    if (t < dur) sim::at(nsd(t + jitter(1 / plan.K("traj_hz", 4))), [this]() { tick_traj(); });
  }
  // ---- maps
  struct MapRec { const void* id; boost::shared_ptr<Vox> vox; bool good; double begin = -1, end = -1; size_t nspot = 0; };
  std::deque<MapRec> maps;
  std::vector<int8_t> map_data;
  void tick_map() {
    double t = nowd();
    if (map_off.hit(t, t)) count("map_withheld");
    else {
      explore();
      int kind = map_kind_until > t ? map_kind : 0;
      boost::shared_ptr<octomap_msgs::Octomap> m(new octomap_msgs::Octomap());
      m->header.stamp = rost(t);
      m->header.frame_id = "local_origin";
      m->id = "OcTree";
      m->binary = false;
      m->resolution = res;
      MapRec r;
      r.good = true;
      if (kind == 1) { m->data.resize(7); r.good = false; count("map_undecodable"); }
      else if (kind == 2) { m->id = "ColorOcTree"; r.good = false; count("map_other_type"); }
      else if (kind == 3) { r.vox.reset(new Vox()); count("map_empty"); }
      else if (kind == 4) { m->id = ""; r.good = false; count("map_no_type"); }
      else {
        if (known_dirty || !published) {
          published.reset(new Vox(known));
          known_dirty = false;
          map_data.clear();
          std::vector<std::pair<uint64_t, float>> v(known.begin(), known.end());
          std::sort(v.begin(), v.end());
          for (auto& e : v) {
            float f[4] = {static_cast<float>((static_cast<double>((e.first >> 40) & 0xfffff) - 32768 + 0.5) * res), static_cast<float>((static_cast<double>((e.first >> 20) & 0xfffff) - 32768 + 0.5) * res),
                          static_cast<float>((static_cast<double>(e.first & 0xfffff) - 32768 + 0.5) * res), e.second};
            const int8_t* b = reinterpret_cast<const int8_t*>(f);
            map_data.insert(map_data.end(), b, b + 16);
          }
        }
        r.vox = published;
        m->data = map_data;
      }
      r.id = m.get();
      maps.push_back(r);
      if (maps.size() > 400) maps.pop_front();
      boost::shared_ptr<const octomap_msgs::Octomap> cm = m;
      hold(cm);
      was_sent(3);
      sim::inject(T_MAP, cm);
    }
    if (t < dur) sim::at(nsd(t + jitter(1 / plan.K("map_hz", 3))), [this]() { tick_map(); });
  }
  // ---- camera
  struct CloudRec2 { const void* id; uint64_t hash; std::vector<V3> pts; double begin = -1, end = -1; int forwarded = 0; bool weird; };
  std::deque<CloudRec2> clouds;
  void tick_cam() {
    double t = nowd();
    if (cam_off.hit(t, t)) count("cloud_withheld");
    else {
      CloudKind k = ck_until > t ? ck : CK_NORMAL;
      if (k != CK_NORMAL) count(k == CK_EMPTY ? "cloud_empty" : k == CK_ALLNAN ? "cloud_all_nan" : k == CK_GARBAGE ? "cloud_garbage" : "cloud_sparse");
      Cam c;
      c.frame = "camera_link";
      c.nx = 10; c.ny = 8; c.maxr = 9;
      CloudRec2 r;
      r.weird = k == CK_GARBAGE;
      boost::shared_ptr<sensor_msgs::PointCloud2> m(new sensor_msgs::PointCloud2(make_cloud(c, world, me, me.t, k, wr, &r.pts)));
      r.id = m.get();
      boost::shared_ptr<const sensor_msgs::PointCloud2> cm = m;
      clouds.push_back(r);
      if (clouds.size() > 200) clouds.pop_front();
      hold(cm);
      was_sent(6);
      sim::inject(T_CAM, cm);
    }
    if (t < dur) sim::at(nsd(t + jitter(1 / plan.K("cam_hz", 5))), [this]() { tick_cam(); });
  }

  // ------------------------------------------------------------------ reference risk
  struct Ref {
    const Vox* vox;
    double res, flow, penalty;
    int radius;
    const std::unordered_set<uint64_t>* spotted;   // nullptr: nothing is known to be spotted
    bool all_spotted;
    mutable std::unordered_map<uint64_t, double> cache;
    static double prior(int z) { double zp = std::round(z + 0.5); if (zp < 0) return PRIOR[0]; int i = static_cast<int>(zp); return i > 10 ? 0.001 : PRIOR[i]; }
    double single(const C3& c) const {
      if (c.z < 1 || !vox) return 1.0;
      V3 p = c.pos();
      auto k = [this](double v) { return static_cast<uint64_t>(static_cast<int>(std::floor(v / res)) + 32768); };
      auto it = vox->find((k(p.x) << 40) | (k(p.y) << 20) | k(p.z));
      double a = prior(c.z);
      if (it == vox->end()) return penalty * a;
      double b = 1. - 1. / (1. + std::exp(static_cast<double>(it->second)));
      double occ = a * b, fr = (1 - a) * (1 - b), post = occ / (occ + fr + 0.0001);
      if (it->second > 0 || all_spotted || (spotted && spotted->count(c.key()))) return post;
      return penalty * post;
    }
    double risk(const C3& c) const {
      auto it = cache.find(c.key());
      if (it != cache.end()) return it->second;
      double r = single(c);
      for (int x = -radius; x <= radius; x++) {
        int yr = static_cast<int>(std::ceil(std::sqrt(static_cast<double>(radius * radius - x * x))));
        for (int y = -yr; y <= yr; y++) {
          // the rim beyond the radius may count or not
          int q2 = radius * radius - x * x - y * y;
          if (q2 < 0 && !all_spotted) continue;
          int zr = static_cast<int>(std::ceil(std::sqrt(static_cast<double>(std::max(0, q2)))));
          for (int z = -zr; z <= zr; z++) r += flow * single(C3(c.x + x, c.y + y, c.z + z));
        }
      }
      cache[c.key()] = r;
      return r;
    }
    double segment(const C3& a, const C3& b) const {
      C3 d = b - a;
      int steps = 2 * std::max(std::abs(d.x), std::max(std::abs(d.y), std::abs(d.z)));
      if (!steps) return 0;
      std::unordered_set<uint64_t> seen;
      double sum = 0;
      V3 pa = a.pos(), pb = b.pos();
      V3 st = V3((pb.x - pa.x) / steps, (pb.y - pa.y) / steps, (pb.z - pa.z) / steps);
      for (int i = 1; i <= steps; i++)
        for (int k = 0; k < 4; k++) {
          C3 c(V3(pa.x + st.x * i + (k < 2 ? 0.1 : -0.1), pa.y + st.y * i + (k % 2 ? -0.1 : 0.1), pa.z + st.z * i));
          if (seen.insert(c.key()).second) sum += risk(c);
        }
      return sum / seen.size() * d.len();
    }
  };
  std::deque<boost::shared_ptr<Ref>> refs;  // reused while nothing changes
  std::unordered_set<uint64_t> spotted_all;
  std::vector<uint64_t> spotted_order;
  // maps that may be the one in force at any time in [a, b]
  std::vector<const MapRec*> maps_in_force(double a, double b) const {
    std::vector<const MapRec*> out;
    double base_t = -1;
    for (auto& m : maps) if (m.good && m.end >= 0 && m.end <= a) base_t = std::max(base_t, m.end);
    for (auto& m : maps) {
      if (!m.good || m.begin < 0 || m.begin > b) continue;
      double e = m.end < 0 ? 1e9 : m.end;
      if (base_t < 0 || e >= base_t - 0.21 - (m.end < 0 ? 0 : m.end - m.begin) - 1e-6) out.push_back(&m);
    }
    return out;
  }
  boost::shared_ptr<Ref> ref_for(const MapRec* m, int mode) {   // mode 0: least risk, 1: greatest risk
    static const std::unordered_set<uint64_t> none;
    for (auto& r : refs) if (r->vox == m->vox.get() && r->all_spotted == (mode == 1) && r->flow == cfg["neighbor_risk_flow_"] && r->penalty == cfg["explore_penalty_"]) return r;
    boost::shared_ptr<Ref> r(new Ref());
    r->vox = m->vox.get();
    r->res = res;
    r->flow = cfg["neighbor_risk_flow_"];
    r->penalty = cfg["explore_penalty_"];
    r->radius = static_cast<int>(std::ceil(plan.K("robot_radius", 0.5) / res));
    r->spotted = nullptr;
    r->all_spotted = mode == 1;
    refs.push_back(r);
    held_vox.push_back(m->vox);
    if (refs.size() > 12) { refs.pop_front(); held_vox.pop_front(); }
    return r;
  }
  std::deque<boost::shared_ptr<Vox>> held_vox;

  // ------------------------------------------------------------------ oracles
  bool calm_sched(double a, double b) const { return !stall_w.hit(a, b); }
  bool reconf_near(double a, double b) const { return reconf_w.hit(a, b); }
  // poses that may be the newest one at some time in [a, b]
  template <class R>
  std::vector<const R*> newest_in(const std::deque<R>& d, double a, double b) const {
    std::vector<const R*> out;
    const R* last = nullptr;
    for (auto& r : d) {
      if (r.begin < 0 || r.begin > b) continue;
      if (r.end >= 0 && r.end <= a) { if (!last || r.end >= last->end) last = &r; continue; }
      out.push_back(&r);
    }
    if (last) out.insert(out.begin(), last);
    return out;
  }
  typedef std::vector<C3> CPath;
  struct PathRec { CPath c; double t; };
  CPath last_full, last_simple;
  double last_cycle_end = -1;
  int path_no = 0;         // 0: the next path is a full one, 1: simplified
  uint64_t n_full = 0, n_simple = 0;
  int same_illegal = 0;
  int cycle_fail = 0;
  double t_full = -1, t_simple = -1, t_smooth2 = -1;
  int smooth_no = 0;
  // waypoints the setpoint may lead to
  struct Track { CPath c; double t; size_t kmin = 1; };
  Track tr_old, tr_full, tr_simple;
  bool have_old = false, have_full = false, have_simple = false;
  V3 hold_point;
  V3 last_target;
  bool started = false;
  double first_pose_end = -1;
  double last_sp = -1;
  // goals
  bool goal_known = false;
  V3 goal;                 // external goal in force
  double goal_radius = 1, goal_t = -1;
  std::vector<std::pair<V3, double>> temps;   // temporary goals since the goal was set, and their radius
  std::vector<C3> stops;
  int cycles_since_goal = 0;
  bool reached = false;

  bool to_cells(const nav_msgs::Path& p, CPath& c, const char* what) {
    c.clear();
    for (auto& q : p.poses) {
      V3 v = v3(q.pose.position);
      if (!fin(v)) { rep().violation("C24", "not-finite", fmt("%s contains a pose at (%g %g %g)", what, v.x, v.y, v.z)); return false; }
      double yaw_n = q.pose.orientation.x * q.pose.orientation.x + q.pose.orientation.y * q.pose.orientation.y + q.pose.orientation.z * q.pose.orientation.z + q.pose.orientation.w * q.pose.orientation.w;
      if (!(std::fabs(yaw_n - 1) < 1e-3)) { rep().violation("C24", "orientation", fmt("%s contains an orientation of squared norm %g", what, yaw_n)); return false; }
      C3 k(v);
      if ((k.pos() - v).norm() > 1e-6) { rep().violation("C24", "off-grid", fmt("%s contains (%.3f %.3f %.3f), which is no cell centre", what, v.x, v.y, v.z)); return false; }
      c.push_back(k);
    }
    return true;
  }
  std::string str(const CPath& p) const { std::string s; for (auto& c : p) s += fmt("(%d %d %d) ", c.x, c.y, c.z); return s; }
  // window in which the planner may have read its inputs for the path published now
  double window(double t) const { return std::max(last_cycle_end, t - 0.12 - slow); }
  enum Leg { LEGAL, ILLEGAL, UNKNOWN };
  // is some map of the window consistent with the planner considering this path legal?
  Leg legality(const CPath& p, double a, double b, bool cells_rule, std::string* why) {
    auto ms = maps_in_force(a, b);
    if (ms.empty()) return UNKNOWN;
    double mx = cfg["max_cell_risk_"];
    for (auto* m : ms) {
      auto r = ref_for(m, 0);
      bool ok = true;
      for (size_t i = 2; i < p.size() && ok; i++) {
        double v = cells_rule ? r->risk(p[i]) : r->segment(p[i - 1], p[i]);
        if (cells_rule ? v > mx + 1e-9 && i + 1 < p.size() : !(v < mx + 1e-9)) { ok = false; if (why) *why = fmt("(%d %d %d)-(%d %d %d) has risk %.4f", p[i - 1].x, p[i - 1].y, p[i - 1].z, p[i].x, p[i].y, p[i].z, v); }
      }
      if (ok) return LEGAL;
    }
    return ILLEGAL;
  }
  bool own_cell_free(double a, double b) {
    auto ms = maps_in_force(a, b);
    for (auto* m : ms) {
      auto r = ref_for(m, 1);
      for (auto* q : newest_in(poses, a, b)) if (r->single(C3(q->p)) > 0.45) return false;
    }
    return !ms.empty();
  }
  void on_full(const nav_msgs::Path& msg) {
    double t = nowd();
    CPath c;
    n_full++;
    have_old = true;
    tr_old = have_simple ? tr_simple : tr_full;
    if (!have_simple && !have_full) have_old = false;
    bool ok = to_cells(msg, c, "the path");
    bool same = ok && c == last_full;
    tr_full = Track();
    tr_full.c = c;
    tr_full.t = t;
    have_full = true;
    t_full = t;
    t_smooth2 = -1;
    if (ok && !c.empty()) check_full(c, same, t);
    if (same && n_full > 1) cycle_fail++;
    else cycle_fail = 0;
    last_full = c;
    rep().state(mix(mix(17, c.size()), static_cast<uint64_t>(same) * 2 + (cycle_fail > 1)));
  }
  void check_full(const CPath& c, bool same, double t) {
    double a = window(t), b = t;
    bool quiet = calm_sched(std::min(a, t - 1.2), b) && !reconf_near(t - 2.5, b);
    rep().probe(same ? "c24_repeated" : "c24_paths");
    // the altitude limit
    int top = static_cast<int>(cfg["max_altitude_"]);
    if (quiet) {
      int own = -1000;
      for (auto* q : newest_in(poses, a - 0.5, b)) own = std::max(own, static_cast<int>(std::floor(q->p.z)));
      if (c.size() > 1) own = std::max(own, c[1].z);
      if (!same)
        for (size_t i = 2; i < c.size(); i++)
          if (c[i].z > std::max(top, own)) { rep().violation("C24", "too-high", fmt("t=%.2f: waypoint %zu of the path is at height %.1f, allowed are %d (vehicle at %d)", t, i, c[i].pos().z, top, own)); break; }
    }
    if (c.size() == 1) {
      bool near = false;
      for (auto* q : newest_in(poses, t - 1.3 - slow, b)) if (C3(q->p) == c[0]) near = true;
      rep().probe("c24_stop_paths");
      if (!near && !same && quiet && first_pose_end >= 0 && first_pose_end < a) rep().violation("C26", "stop-elsewhere", fmt("t=%.2f: a path of a single cell (%d %d %d) that is not the vehicle's", t, c[0].x, c[0].y, c[0].z));
      return;
    }
    std::string why;
    if (same) {
      Leg l = legality(c, a - 0.3, b, false, &why);
      if (l == ILLEGAL) l = legality(c, a - 0.3, b, true, nullptr);
      if (l == ILLEGAL && quiet && own_cell_free(t - 1.5 - slow, b)) {
        if (++same_illegal >= 4) rep().violation("C24", "keeps-blocked-path", fmt("t=%.2f: the same path was published %d times although it is blocked: %s", t, same_illegal, why.c_str()));
      } else same_illegal = 0;
      return;
    }
    same_illegal = 0;
    // a new path: starts where the vehicle is
    if (quiet) {
      bool start_ok = false;
      auto ps = newest_in(poses, a, b);
      auto vs = newest_in(vels, a, b);
      V3 zero;
      double st = cfg["search_time_"];
      double bestd = 1e9;
      for (auto* p : ps) {
        auto one = [&](const V3& v) {
          C3 s(p->p + v * st), par = cfg["use_current_yaw_"] > 0 ? C3(p->p - v * st) : s;
          bestd = std::min(bestd, (c[1] - s).len() + (c[0] - par).len());
          if (s == c[1] && (par == c[0] || s == c[0])) start_ok = true;  // the search at the maximum altitude starts without a direction
          if (plan.K("any_parent", 0) > 0 && s == c[1]) start_ok = true;
        };
        if (vs.empty()) one(zero);
        for (auto* v : vs) one(v->v);
      }
      rep().probe("c24_start_checked");
      if (!start_ok && !ps.empty()) rep().violation("C24", "start", fmt("t=%.2f: the new path starts at (%d %d %d), coming from (%d %d %d), which does not fit the vehicle at (%.2f %.2f %.2f) flying (%.2f %.2f %.2f)", t, c[1].x, c[1].y, c[1].z, c[0].x, c[0].y, c[0].z, ps.back()->p.x, ps.back()->p.y, ps.back()->p.z, vs.empty() ? 0. : vs.back()->v.x, vs.empty() ? 0. : vs.back()->v.y, vs.empty() ? 0. : vs.back()->v.z));
      // contiguous
      double r = cfg["default_node_type_"] > 1.5 ? 5.0 : 1.8;  // only the speed search takes longer steps
      if (r < 2) rep().probe("c24_unit_steps");
      for (size_t i = 2; i < c.size(); i++) {
        C3 d = c[i] - c[i - 1], e = c[i - 1] - c[i - 2];
        if (d.len() >= r + 1e-9 && (r < 2 || !(d == e))) { rep().violation("C24", "gap", fmt("t=%.2f: the path jumps from (%d %d %d) to (%d %d %d)", t, c[i - 1].x, c[i - 1].y, c[i - 1].z, c[i].x, c[i].y, c[i].z)); break; }
      }
      // free of mapped obstacles
      Leg l = legality(c, a, b, false, &why);
      bool twod = false;
      if (l == ILLEGAL) { l = legality(c, a, b, true, nullptr); twod = l == LEGAL; for (size_t i = 2; i < c.size() && twod; i++) { C3 d = c[i] - c[i - 1]; if (std::abs(d.x) > 1 || std::abs(d.y) > 1 || std::abs(d.z) > 1) { l = ILLEGAL; twod = false; } } }
      rep().probe(l == UNKNOWN ? "c24_no_map" : twod ? "c24_cell_rule" : "c24_legal");
      if (l == ILLEGAL) rep().violation("C24", "through-obstacle", fmt("t=%.2f: the path leads through mapped obstacles: %s (limit %.3f); path %s", t, why.c_str(), cfg["max_cell_risk_"], str(c).c_str()));
      check_end(c, t, a, b);
    } else {
      // not judged, but where the planner gave up is remembered
      const C3& e = c.back();
      for (auto* q : newest_in(poses, t - 2.5 - slow, b)) if (C3(q->p) == e) { stops.push_back(e); break; }
    }
  }
  bool near_goal(const C3& e, const V3& g, double radius) const { return manh(e.pos(), C3(g).pos()) < radius / 2 + 1e-9 || e == C3(g); }
  V3 start_pos;
  void check_end(const CPath& c, double t, double a, double b) {
    const C3& e = c.back();
    V3 g = goal_known ? goal : start_pos;
    bool to_goal = near_goal(e, g, goal_known ? goal_radius : 1), to_temp = false, to_stop = false;
    for (auto& q : temps) if (near_goal(e, q.first, q.second)) to_temp = true;
    for (auto& s : stops) if (s == e) to_stop = true;
    // stopped: the goal is the cell the vehicle was in when the planner gave up
    if (!to_goal && !to_temp && !to_stop) {
      for (auto* q : newest_in(poses, t - 1.3 - slow, b)) if (C3(q->p) == e) to_stop = true;
      if (to_stop) { stops.push_back(e); rep().probe("c26_stopped"); }
    }
    rep().probe(to_goal ? "c26_to_goal" : to_temp ? "c26_to_temporary_goal" : to_stop ? "c26_to_stop" : "c26_elsewhere");
    if (goal_t > a - 0.02) return;  // the goal has just changed
    if (!to_goal && !to_temp && !to_stop)
      rep().violation("C26", "wrong-goal", fmt("t=%.2f: the path leads to (%d %d %d), the goal given is (%.2f %.2f %.2f)", t, e.x, e.y, e.z, g.x, g.y, g.z));
    if (to_goal && cfg["goal_must_be_free_"] > 0 && manh(e.pos(), C3(g).pos()) < 1e-9) {
      bool surely = true;
      auto ms = maps_in_force(a, b);
      for (auto* m : ms) if (!(ref_for(m, 0)->risk(C3(g)) > cfg["max_cell_risk_"] + 1e-9)) surely = false;
      if (ms.empty()) surely = false;
      if (surely && !(C3(g) == c[1])) rep().violation("C26", "to-blocked-goal", fmt("t=%.2f: a path to the goal (%.1f %.1f %.1f), which is blocked", t, g.x, g.y, g.z));
    }
  }
  void on_simple(const nav_msgs::Path& msg) {
    double t = nowd();
    CPath c;
    n_simple++;
    bool ok = to_cells(msg, c, "the simplified path");
    tr_simple = Track();
    tr_simple.c = c;
    tr_simple.t = t;
    have_simple = true;
    t_simple = t;
    t_smooth2 = -1;
    last_simple = c;
    if (!ok) return;
    const CPath& f = last_full;
    bool quiet = calm_sched(t_full - 1.2, t) && !reconf_near(t - 2.5, t);
    if (f.size() < 3) {
      if (c != f && quiet) rep().violation("C24", "simplified-differs", fmt("t=%.2f: a path of %zu cells is simplified to %zu cells", t, f.size(), c.size()));
      return;
    }
    rep().probe("c24_simplified");
    // the vertices come from the full path, in order, and both ends stay
    size_t j = 0;
    bool sub = true;
    size_t n = c.size();
    if (n < 3 || c[0] != f[0] || c[1] != f[1] || c[n - 1] != f.back() || c[n - 2] != f.back()) sub = false;
    std::vector<size_t> at;
    for (size_t i = 0; sub && i + 1 < n; i++) {
      while (j < f.size() && f[j] != c[i]) j++;
      if (j == f.size()) { sub = false; break; }
      at.push_back(j);
      // stay on this vertex for repeated cells
      if (i + 2 < n && c[i + 1] != c[i]) j++;
      else if (i + 2 < n && j + 1 < f.size() && f[j + 1] == c[i]) j++;
    }
    if (!sub) { rep().violation("C24", "simplified-vertices", fmt("t=%.2f: the simplified path %s does not follow the path %s", t, str(c).c_str(), str(f).c_str())); return; }
    if (!quiet) return;
    if (cycle_fail > 0) return;
    // shortened edges must be free as well
    auto ms = maps_in_force(window(t), t);
    if (ms.empty()) return;
    std::string why;
    bool any = false;
    for (auto* m : ms) {
      auto r = ref_for(m, 0);
      bool good = true;
      for (size_t i = 2; i + 1 < n && good; i++) {
        bool orig = at[i] == at[i - 1] + 1 || at[i] == at[i - 1];
        if (orig) continue;
        rep().probe("c24_shortcuts");
        double v = r->segment(c[i - 1], c[i]);
        if (!(v < cfg["max_cell_risk_"] + 1e-9)) { good = false; why = fmt("(%d %d %d)-(%d %d %d) has risk %.4f", c[i - 1].x, c[i - 1].y, c[i - 1].z, c[i].x, c[i].y, c[i].z, v); }
      }
      if (good) { any = true; break; }
    }
    if (!any) rep().violation("C24", "shortcut-through-obstacle", fmt("t=%.2f: simplifying the path leads it through mapped obstacles: %s (limit %.3f)", t, why.c_str(), cfg["max_cell_risk_"]));
  }
  void on_path(const nav_msgs::Path& p) {
    if (path_no == 0) on_full(p);
    else on_simple(p);
    path_no ^= 1;
  }
  void on_smooth(const nav_msgs::Path& p) {
    double t = nowd();
    for (auto& q : p.poses) if (!fin(v3(q.pose.position))) { rep().violation("C24", "not-finite", fmt("t=%.2f: the smoothed path is not finite", t)); break; }
    if (path_no == 0 && n_simple) { t_smooth2 = t; last_cycle_end = t; check_cycle(t); }
  }
  double prev_cycle = -1;
  void check_cycle(double t) {
    if (prev_cycle >= 0 && calm_sched(prev_cycle - 0.5, t) && t - prev_cycle > 1.5 + 2 * slow && t_down < 0)
      rep().violation("C27", "planning-stopped", fmt("t=%.2f: %.2f s between planning cycles", t, t - prev_cycle));
    prev_cycle = t;
    cycles_since_goal++;
  }
  // candidates for the speed: at the cells of the poses, for the maps of the window
  void speed_range(double a, double b, double& lo, double& hi) {
    double d = cfg["default_speed_"], m = cfg["max_speed_"], thr = cfg["risk_threshold_risk_based_speedup_"];
    if (cfg["use_speedup_heuristics_"] <= 0) { lo = hi = d; return; }
    lo = 1e9; hi = -1e9;
    auto f = [&](double r) { double s = std::sqrt(r); return s >= thr ? d : d + (m - d) * (1 - s); };
    auto put = [&](double v) { lo = std::min(lo, v); hi = std::max(hi, v); };
    auto ms = maps_in_force(a, b);
    bool early = ms.empty() || maps.empty() || ms.front()->end < 0 || ms.front()->begin > a;
    if (early) put(d);  // without a map everything is a risk
    for (auto* q : newest_in(poses, a, b)) {
      C3 c(q->p);
      if (fabs(q->p.x) > 30000 || fabs(q->p.y) > 30000 || fabs(q->p.z) > 30000) { put(d); put(m); continue; }
      for (auto* mm : ms) { put(f(ref_for(mm, 0)->risk(c))); put(f(ref_for(mm, 1)->risk(c))); }
    }
    if (lo > hi) { lo = std::min(d, m); hi = std::max(d, m); }
  }
  std::deque<std::pair<double, mavros_msgs::Trajectory>> gens;
  geometry_msgs::PoseStamped last_sp_msg;
  bool sp_pending = false;
  // does some waypoint of the track explain the setpoint?
  bool explains(Track& tr, const V3& out, const std::vector<const PoseRec*>& ps, double lo, double hi, double* err) {
    size_t best = 0;
    bool found = false;
    if (tr.c.size() == 1) { if (toward(tr.c[0].pos(), out, ps, lo, hi, err)) found = true; return found; }
    for (size_t k = std::max<size_t>(1, tr.kmin); k < tr.c.size(); k++) {
      if (toward(tr.c[k].pos(), out, ps, lo, hi, err)) { found = true; best = k; break; }
      // the next waypoint may only be taken after coming close to this one
      bool close = false;
      double sp_max = std::max(cfg["default_speed_"], cfg["max_speed_"]);
      for (auto& q : poses) if (q.begin >= 0 && (q.end < 0 || q.end >= tr.t - 0.02) && (q.p - tr.c[k].pos()).norm() < sp_max + 1e-6) { close = true; break; }
      if (!close) break;
    }
    if (found) tr.kmin = best;
    return found;
  }
  static bool toward(const V3& w, const V3& out, const std::vector<const PoseRec*>& ps, double lo, double hi, double* err) {
    for (auto* q : ps) {
      V3 v = w - q->p, o = out - q->p;
      double d = v.norm(), l = o.norm();
      double e;
      if (d < 1.0) e = (o - v).norm();
      else {
        V3 u = v * (1 / d);
        double s = clampd(l, lo, hi);
        e = (o - u * s).norm();
      }
      if (err && e < *err) *err = e;
      if (e < 2e-3) return true;
    }
    return false;
  }
  void on_setpoint(const geometry_msgs::PoseStamped& m) {
    double t = nowd();
    V3 out = v3(m.pose.position);
    rep().probe("setpoints");
    last_sp_msg = m;
    sp_pending = true;
    if (plan.K("offboard", 1) > 0) { sp = out; sp_time = t; sp_yaw = tf::getYaw(m.pose.orientation); }
    if (first_pose_begin < 0) { rep().violation("C25", "without-position", fmt("t=%.2f: a setpoint (%.2f %.2f %.2f) before any position was received", t, out.x, out.y, out.z)); return; }
    if (!fin(out)) { rep().violation("C25", "not-finite", fmt("t=%.2f: setpoint (%g %g %g)", t, out.x, out.y, out.z)); last_sp = t; return; }
    if (m.header.frame_id != "local_origin") rep().violation("C25", "frame", fmt("t=%.2f: setpoint in frame '%s'", t, m.header.frame_id.c_str()));
    if (last_sp >= 0 && t - last_sp > 0.32 && calm_sched(last_sp - 0.05, t)) rep().violation("C25", "gap", fmt("t=%.2f: %.2f s without a setpoint", t, t - last_sp));
    last_sp = t;
    double w = 0.03;
    if (!calm_sched(t - 1, t) || reconf_near(t - 1.5, t) || first_pose_end < 0) return;
    auto ps = newest_in(poses, t - w, t);
    double lo, hi, err = 1e9;
    speed_range(t - 0.3 - slow, t, lo, hi);
    lo -= 1e-6; hi += 1e-6;
    bool ok = false;
    if (t_smooth2 >= 0 && have_simple && t_smooth2 < t - w) ok = explains(tr_simple, out, ps, lo, hi, &err);
    else {
      if (!ok && have_simple && t_simple >= t_full) ok = explains(tr_simple, out, ps, lo, hi, &err);
      if (!ok && have_full) ok = explains(tr_full, out, ps, lo, hi, &err);
      if (!ok && have_old) ok = explains(tr_old, out, ps, lo, hi, &err);
    }
    // nothing to follow yet, or a path without a leg: the previous waypoint stays
    bool none = !have_simple || (t_smooth2 < 0 && n_simple <= 1) || (t_smooth2 >= t - w && n_simple <= 1);
    if (!ok && (none || last_simple.empty())) ok = toward(start_pos, out, ps, lo, hi, &err);
    rep().probe("c25_checked");
    if (hi > lo + 0.05) rep().probe("c25_speed_varied");
    if (!ok) {
      std::string tr = have_simple ? str(tr_simple.c) : "-";
      if (t_smooth2 < 0 || t_smooth2 >= t - w) tr += fmt("/ new %s(%zu) / old %s(%zu)", str(tr_full.c).c_str(), tr_full.kmin, str(tr_old.c).c_str(), tr_old.kmin);
      rep().violation("C25", "off-path", fmt("t=%.2f: setpoint (%.2f %.2f %.2f) with the vehicle at (%.2f %.2f %.2f) leads to no waypoint of the path %s (next is %zu; error %.3f m; speed %.2f..%.2f)", t, out.x, out.y, out.z,
                                             ps.empty() ? NAN : ps.back()->p.x, ps.empty() ? NAN : ps.back()->p.y, ps.empty() ? NAN : ps.back()->p.z, tr.c_str(), tr_simple.kmin, err, lo, hi));
    }
  }
  void on_generated(const mavros_msgs::Trajectory& m) {
    double t = nowd();
    if (plan.K("offboard", 1) <= 0) { sp = v3(m.point_1.position); sp_time = t; sp_yaw = m.point_1.yaw; }
    auto same = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); };
    const auto& s = last_sp_msg.pose.position;
    if (!sp_pending) return;
    sp_pending = false;
    rep().probe("c25_trajectories");
    auto& p = m.point_1.position;
    if (!same(p.x, s.x) || !same(p.y, s.y) || !same(p.z, s.z)) rep().violation("C25", "outputs-differ", fmt("t=%.2f: the mission output (%.2f %.2f %.2f) differs from the offboard output (%.2f %.2f %.2f)", t, p.x, p.y, p.z, s.x, s.y, s.z));
    if (!std::isnan(m.point_1.velocity.x) || !std::isnan(m.point_1.velocity.y) || !std::isnan(m.point_1.velocity.z)) rep().violation("C25", "velocity", fmt("t=%.2f: the trajectory commands a velocity", t));
    if (!m.point_valid[0] || m.point_valid[1] || m.point_valid[2] || m.point_valid[3] || m.point_valid[4]) rep().violation("C25", "validity", fmt("t=%.2f: valid points %d%d%d%d%d", t, m.point_valid[0], m.point_valid[1], m.point_valid[2], m.point_valid[3], m.point_valid[4]));
    double y = tf::getYaw(last_sp_msg.pose.orientation);
    if (std::fabs(wrap_pi(m.point_1.yaw - y)) > 1e-3) rep().violation("C25", "yaw", fmt("t=%.2f: yaw %.3f in the mission output, %.3f in the offboard output", t, m.point_1.yaw, y));
    if (!fin(m.point_1.yaw)) rep().violation("C25", "yaw", fmt("t=%.2f: yaw is not finite", t));
  }
  // ---- goals as published
  std::deque<std::pair<double, V3>> global_goals;
  V3 pend_temp;
  bool pend = false;
  double pend_t = 0;
  void resolve_temp() {
    if (!pend) return;
    pend = false;
    // a temporary goal lies half-way on the newest path; its radius is a quarter of the number of cells
    double rad = last_full_len / 4;
    temps.push_back(std::make_pair(pend_temp, std::max(1.0, std::floor(rad))));
    rep().probe("c26_temporary_goals");
  }
  double last_full_len = 400;
  void on_temp_goal(const geometry_msgs::PointStamped& m) { resolve_temp(); pend = true; pend_temp = v3(m.point); pend_t = nowd(); }
  void on_global_goal(const geometry_msgs::PointStamped& m) {
    double t = nowd();
    V3 g = v3(m.point);
    pend = false;
    rep().probe("c26_goals_announced");
    if (in_goal_cb) { announced = true; if (C3(g) != C3(cb_goal)) rep().violation("C26", "announced-goal", fmt("t=%.2f: goal (%.1f %.1f %.1f) was given, (%.1f %.1f %.1f) is announced", t, cb_goal.x, cb_goal.y, cb_goal.z, g.x, g.y, g.z)); return; }
    // the planner returns to the mission goal after a temporary one
    V3 want = goal_known ? goal : start_pos;
    bool stop_goal = false;
    for (auto& s : stops) if (s == C3(g)) stop_goal = true;
    for (auto& q : temps) if (C3(q.first) == C3(g)) stop_goal = true;
    for (auto& q : poses) if (q.begin >= 0 && (q.end < 0 || q.end >= goal_t - 0.2) && C3(q.p) == C3(g)) stop_goal = true;  // it gave up here before a detour
    if (C3(g) != C3(want) && !stop_goal && t - goal_t > 0.05) rep().violation("C26", "other-goal", fmt("t=%.2f: the planner turns to (%.1f %.1f %.1f), the goal given is (%.1f %.1f %.1f)", t, g.x, g.y, g.z, want.x, want.y, want.z));
  }
  bool in_goal_cb = false, announced = false;
  V3 cb_goal;
  void goal_callback(const GoalRec& r, bool begin) {
    if (r.kind == G_INVALID || r.kind == G_NAN) {
      if (begin) { announced = false; cb_goal = V3(1e6, 1e6, 1e6); in_goal_cb = true; }
      else { in_goal_cb = false; rep().probe("c26_ignored_goals"); }
      return;
    }
    V3 g = r.g;
    if (r.kind == G_RVIZ) g.z = cfg["clicked_goal_alt_"];
    if (begin) { in_goal_cb = true; announced = false; cb_goal = g; return; }
    in_goal_cb = false;
    bool diff = !goal_known || C3(goal) != C3(g) || goal_radius != (r.kind == G_RVIZ ? cfg["clicked_goal_radius_"] : 1.0);
    double t = nowd();
    if (diff || announced) {
      goal_radius = r.kind == G_RVIZ ? cfg["clicked_goal_radius_"] : 1.0;
      goal_known = true;
      if (diff) { reached = false; goal_first_t = t; }
      goal = g;
      goal_t = t;
      temps.clear();
      stops.clear();
      cycles_since_goal = 0;
      rep().probe(diff ? "c26_new_goals" : "c26_same_goal");
    }
  }
  double goal_first_t = -1;
  // ---- status
  double last_status = -1, first_status = -1;
  double map_begin = -1, map_end = -1;  // newest usable map
  struct Acc { double begin, end; };
  std::deque<Acc> accs;
  void on_status(const mavros_msgs::CompanionProcessStatus& m) {
    double t = nowd();
    if (m.component != 196) rep().violation("C30", "component", fmt("t=%.2f: component %d", t, m.component));
    if (m.state != 1 && m.state != 4 && m.state != 5 && m.state != 8) rep().violation("C30", "state", fmt("t=%.2f: state %d", t, m.state));
    rep().probe(m.state == 1 ? "status_boot" : m.state == 4 ? "status_active" : m.state == 5 ? "status_critical" : "status_termination");
    if (last_status >= 0 && t - last_status > 0.45 && calm_sched(last_status - 0.1, t)) rep().violation("C30", "gap", fmt("t=%.2f: %.2f s without a status", t, t - last_status));
    if (first_status < 0 && m.state != 1) first_status = t;
    last_status = t;
    if (t_down >= 0) return;
    // start-up: never an alarm before the time-outs have passed since the start
    if (m.state == 8 && t - t_start < 15) { rep().violation("C30", "early-termination", fmt("flight termination %.2f s after the start", t - t_start)); return; }
    if (m.state == 5 && t - t_start < 5) { rep().violation("C30", "early-critical", fmt("critical %.2f s after the start", t - t_start)); return; }
    double w = 0.16;
    if (!calm_sched(t - 0.8, t)) return;
    rep().probe("c30_evaluated");
    double amin = 1e9, amax = 0;
    // the newest map that counts was received at most 0.2 s before the newest usable map
    double e = -1, b = -1;
    bool inside = false;
    for (auto& m2 : maps) {
      if (!m2.good || m2.begin < 0) continue;
      if (m2.begin <= t) e = std::max(e, m2.end < 0 ? t : m2.end);
      if (m2.end >= 0 && m2.end <= t - w) b = std::max(b, m2.begin);
      if (m2.end < 0) inside = true;
    }
    amin = e < 0 ? 1e9 : std::max(0.0, t - w - e);
    amax = b < 0 ? 1e9 : t - b + 0.21;
    (void)inside;
    double up = t - t_start, up_late = first_status < 0 ? 0 : t - first_status;  // the node counts from a moment in between
    bool may_active = amin <= 0.5 || up_late < 5 + 0.5;
    bool may_crit = amax > 0.5, may_term = amax > 15;
    bool must_term = amin > 15 && up_late > 15 + 1;
    if (amin > 15 && up_late > 15 + 1) may_active = false;
    if (m.state == 4 && !may_active) rep().violation("C30", "active-without-map", fmt("t=%.2f: ACTIVE although the newest map is %.2f s old", t, amin));
    if (m.state == 5 && !may_crit) rep().violation("C30", "critical-with-map", fmt("t=%.2f: CRITICAL although a map was received %.2f s ago", t, amax));
    if (m.state == 8 && !may_term) rep().violation("C30", "termination-with-map", fmt("t=%.2f: TERMINATION although a map was received %.2f s ago", t, amax));
    if (m.state != 8 && must_term) rep().violation("C30", "no-termination", fmt("t=%.2f: state %d although the newest map is %.2f s old", t, m.state, amin));
    if (m.state == 1 && up > 2 && calm_sched(0, t)) rep().violation("C30", "boot", fmt("t=%.2f: still booting after %.1f s", t, up));
    rep().state(mix(mix(91, m.state), static_cast<uint64_t>(std::min(amin, 20.0) * 2)));
  }
  // ---- clouds
  std::deque<const void*> cloud_order;
  const CloudRec2* in_cloud = nullptr;
  void on_forward(const sensor_msgs::PointCloud2& m) {
    double t = nowd();
    if (!in_cloud) { rep().violation("C31", "from-nowhere", fmt("t=%.2f: a cloud is forwarded outside the processing of a cloud", t)); return; }
    rep().probe("c31_forwarded");
    CloudRec2* c = const_cast<CloudRec2*>(in_cloud);
    if (++c->forwarded > 1) rep().violation("C31", "twice", fmt("t=%.2f: a cloud is forwarded more than once", t));
    const auto& o = *static_cast<const sensor_msgs::PointCloud2*>(c->id);
    if (m.header.stamp != o.header.stamp || m.header.frame_id != o.header.frame_id || m.data != o.data || m.width != o.width || m.height != o.height || m.point_step != o.point_step || m.row_step != o.row_step)
      rep().violation("C31", "changed", fmt("t=%.2f: the forwarded cloud differs from the one received", t));
  }

  // ------------------------------------------------------------------ hooks
  double first_pose_begin = -1;
  void on_publish(const std::string& tp, sim::NodeCtx* from, const sim::AnyMsg& m) {
    if (from != node) return;
    if (tp == "global_temp_path") { if (path_no == 0) last_full_len = static_cast<double>(as<nav_msgs::Path>(m).poses.size()); resolve_temp(); on_path(as<nav_msgs::Path>(m)); }
    else if (tp == "smooth_path") on_smooth(as<nav_msgs::Path>(m));
    else if (tp == "mavros/setpoint_position/local") on_setpoint(as<geometry_msgs::PoseStamped>(m));
    else if (tp == "mavros/trajectory/generated") on_generated(as<mavros_msgs::Trajectory>(m));
    else if (tp == "global_temp_goal") on_temp_goal(as<geometry_msgs::PointStamped>(m));
    else if (tp == "global_goal") on_global_goal(as<geometry_msgs::PointStamped>(m));
    else if (tp == "mavros/companion_process/status") on_status(as<mavros_msgs::CompanionProcessStatus>(m));
    else if (tp == "cloud_in") on_forward(as<sensor_msgs::PointCloud2>(m));
  }
  // is the node connected to its inputs at all? (messages sent while nothing was wrong, and messages received)
  int sent_ok[7] = {0}, received[7] = {0};
  void was_sent(int i) {
    double t = nowd();
    if (t_down < 0 && t > t_start + 2 && t < dur - 1 && calm_sched(t - 1, t + 0.8) && !net_w.hit(t - 0.2, t + 0.8) && !tf_off.hit(t - 7, t + 0.8)) sent_ok[i]++;
  }
  void check_connected() {
    static const char* P[] = {"C25", "C24", "C26", "C30", "C26", "", "C31"};
    static const int N[] = {10, 10, 1, 2, 1, 1, 3};
    for (int i = 0; i < 7; i++)
      if (P[i][0] && sent_ok[i] >= N[i] && !received[i]) rep().violation(P[i], "not-connected", fmt("none of %d messages on %s was received by the node", sent_ok[i], TOPICS[i]));
  }
  void on_callback(const std::string& tp, sim::NodeCtx* to, const sim::AnyMsg& m, bool begin) {
    if (to != node) return;
    for (int i = 0; i < 7; i++) if (tp == TOPICS[i]) received[i]++;
    double t = nowd();
    if (tp == T_POSE) {
      if (first_pose_begin < 0) first_pose_begin = t;
      if (!begin && first_pose_end < 0) first_pose_end = t;
      for (auto it = poses.rbegin(); it != poses.rend(); ++it) if (it->id == m.get()) { (begin ? it->begin : it->end) = t; break; }
    } else if (tp == T_VEL) {
      for (auto it = vels.rbegin(); it != vels.rend(); ++it) if (it->id == m.get()) { (begin ? it->begin : it->end) = t; break; }
    } else if (tp == T_MAP) {
      for (auto it = maps.rbegin(); it != maps.rend(); ++it) if (it->id == m.get()) { (begin ? it->begin : it->end) = t; break; }
    } else if (tp == T_TRAJ || tp == T_GOAL) {
      for (auto it = goal_msgs.rbegin(); it != goal_msgs.rend(); ++it) if (it->id == m.get()) { goal_callback(*it, begin); break; }
    } else if (tp == T_CAM) {
      for (auto it = clouds.rbegin(); it != clouds.rend(); ++it)
        if (it->id == m.get()) {
          (begin ? it->begin : it->end) = t;
          in_cloud = begin ? &*it : nullptr;
          if (begin) it->forwarded = 0;  // the network may deliver it twice
          if (!begin) {
            rep().probe("c31_clouds");
            if (!it->forwarded && !tf_off.hit(it->begin - 0.3, t) && calm_sched(it->begin - 0.2, t) && t_down < 0) rep().violation("C31", "lost", fmt("t=%.2f: a cloud was not forwarded to the mapping server although the transforms were available", t));
          }
          break;
        }
    }
  }
  // ------------------------------------------------------------------ faults
  void do_op(const Op& o) {
    double t = nowd();
    count("op_" + o.kind);
    if (o.kind == "goal") {
      int how = static_cast<int>(o.P(3));
      V3 g(o.P(0), o.P(1), o.P(2));
      if (how == 0) { fgoal = g; fgoal_on = plan.K("stream", 1) > 0; send_fcu(g, true, false); }
      else if (how == 1) { fgoal_on = false; send_rviz(g); }
      else if (how == 2) send_fcu(g, false, false);
      else if (how == 3) send_fcu(V3(g.x, g.y, NAN), true, false);
      else if (how == 4) send_fcu(V3(NAN, NAN, NAN), true, false);
      else if (how == 5) send_rviz(V3(NAN, g.y, 0));
    } else if (o.kind == "click") {
      geometry_msgs::PointStamped m;
      m.header.frame_id = "local_origin";
      m.point = pt(V3(o.P(0), o.P(1), o.P(2)));
      sim::send(T_CLICK, m);
    } else if (o.kind == "box") {
      Box b;
      V3 c(o.P(0), o.P(1), o.P(2)), s(o.P(3, 1), o.P(4, 1), o.P(5, 1));
      b.lo = c - s; b.hi = c + s;
      if (b.lo.z < 0) b.lo.z = 0;
      world.boxes.push_back(b);
      if (plan.K("full_map", 1) > 0) learn(b);
    } else if (o.kind == "wall_ahead") {
      // a wall appears across the way, at some distance in front of the vehicle
      V3 d = sp - me.p;
      double n = d.nxy();
      V3 u = n > 0.1 ? V3(d.x / n, d.y / n, 0) : V3(std::cos(me.yaw), std::sin(me.yaw), 0);
      V3 c = me.p + u * o.P(0, 3);
      Box b;
      double w = o.P(1, 4), h = o.P(2, 8);
      if (std::fabs(u.x) > std::fabs(u.y)) { b.lo = V3(c.x - 0.5, c.y - w, 0); b.hi = V3(c.x + 0.5, c.y + w, h); }
      else { b.lo = V3(c.x - w, c.y - 0.5, 0); b.hi = V3(c.x + w, c.y + 0.5, h); }
      world.boxes.push_back(b);
      if (plan.K("full_map", 1) > 0) learn(b);
    } else if (o.kind == "clear") { world.boxes.clear(); known.clear(); known_dirty = true; }
    else if (o.kind == "map_kind") { map_kind = static_cast<int>(o.P(0)); map_kind_until = t + o.P(1); }
    else if (o.kind == "cam_kind") { ck = static_cast<CloudKind>(static_cast<int>(o.P(0)) % 5); ck_until = t + o.P(1); }
    else if (o.kind == "vel") { vel_err = V3(o.P(0), o.P(1), o.P(2)); vel_err_until = t + o.P(3, 0.5); }
    else if (o.kind == "jump") { me.p = me.p + V3(o.P(0), o.P(1), o.P(2)); hist.add(me); }
    else if (o.kind == "place") { me.p = V3(o.P(0), o.P(1), o.P(2)); vel = V3(); hist.add(me); }
    else if (o.kind == "net") {
      sim::NetFault f;
      f.drop = o.P(2); f.dup = o.P(3); f.reorder = o.P(4);
      f.lat_max = static_cast<sim::ns_t>(o.P(5, 0.002) * 1e9);
      std::string tpn = TOPICS[static_cast<int>(o.P(0)) % 7];
      sim::env().topic[tpn] = f;
      sim::at(nsd(t + o.P(1)), [tpn]() { sim::env().topic.erase(tpn); });
    } else if (o.kind == "spawn_stall") {
      sim::stall_at_spawn(static_cast<int>(o.P(0, 1)), static_cast<sim::ns_t>(o.P(1, 0.3) * 1e9), [this](sim::ns_t until) {
        count("stall_after_thread_start");
        stall_w.add(nowd() - 0.05, until / 1e9 - T0 + 0.05);
      });
    } else if (o.kind == "stall") {
      if (t_down >= 0 && !node->ok) return;
      auto f = sim::fibers_of(node);
      if (!f.empty()) sim::stall(f[static_cast<size_t>(o.P(0)) % f.size()], nsd(t + o.P(1)));
    } else if (o.kind == "reconf") {
      int i = static_cast<int>(o.P(0)) % NGP;
      double v = clampd(o.P(1), GP_MIN[i], GP_MAX[i]);
      cfg[GP_P[i]] = v;
      for (auto* s : sim::dynrec_servers()) s->request({{GP_P[i], v}});
    } else if (o.kind == "shutdown") {
      if (t_down >= 0) return;
      t_down = t;
      rep().crash_phase = "shutdown";
      sim::node_shutdown(node);
    }
  }
  double calm_from = 0;
  void prescan() {
    for (const Op& o : plan.ops) {
      double e = o.t;
      if (o.kind == "spawn_stall") e = o.t + o.P(1) + 2;
      else if (o.kind == "stall") { e = o.t + o.P(1) + 0.05; stall_w.add(o.t, e); }
      else if (o.kind == "map_off") { e = o.t + o.P(0); map_off.add(o.t, e); }
      else if (o.kind == "pose_off") { e = o.t + o.P(0); pose_off.add(o.t, e); }
      else if (o.kind == "tf_off") { e = o.t + o.P(0); tf_off.add(o.t, e); }
      else if (o.kind == "cam_off") { e = o.t + o.P(0); cam_off.add(o.t, e); }
      else if (o.kind == "net") { e = o.t + o.P(1) + o.P(5, 0); net_w.add(o.t, e); }
      else if (o.kind == "reconf") { e = o.t + 0.5; reconf_w.add(o.t, e); }
      else if (o.kind == "map_kind" || o.kind == "cam_kind") e = o.t + o.P(1);
      else if (o.kind == "vel") e = o.t + o.P(3, 0.5);
      calm_from = std::max(calm_from, e);
    }
  }
  void tick_watch() {
    double t = nowd();
    if (goal_known && !reached && manh(C3(goal).pos(), me.p) < 1.0 + goal_radius) { reached = true; rep().probe("c26_reached"); reached_t = t; }
    if (t_down < 0 && first_pose_end >= 0 && last_sp < std::max(first_pose_end, t - 0.6) - 0.6 && t - first_pose_end > 0.6 && calm_sched(t - 0.8, t) && t - t_start > 1.5)
      rep().violation("C25", "no-setpoints", fmt("t=%.2f: no setpoint since %.2f: %s", t, last_sp, sim::dump_threads().c_str()));
    if (t_down < 0 && t - std::max(prev_cycle, t_start) > 3 + 2 * slow && calm_sched(t - 3 - 2 * slow, t))
      rep().violation("C27", "planning-stopped", fmt("t=%.2f: no planning cycle since %.2f: %s", t, prev_cycle, sim::dump_threads().c_str()));
    rep().state(mix(mix(7, static_cast<uint64_t>(std::floor(me.p.x / 3)) * 91 + static_cast<uint64_t>(std::floor(me.p.y / 3))), static_cast<uint64_t>(std::floor(me.p.z / 2))));
    if (t < dur) sim::at(nsd(t + 0.1), [this]() { tick_watch(); });
  }
  double reached_t = -1;
  void run() {
    dur = plan.K("dur", 30);
    slow = plan.K("slow", 0.3);
    for (int i = 0; i < NGP; i++) cfg[GP_P[i]] = clampd(plan.K(GP_P[i], GP_D[i]), GP_MIN[i], GP_MAX[i]);
    cfg["default_node_type_"] = clampd(std::floor(plan.K("default_node_type_", GP_D[26])), 0, 2);
    t_start = plan.K("t_start", 0.3);
    start_pos = V3(plan.K("start_x", 0.5), plan.K("start_y", 0.5), plan.K("start_z", 3.5));
    setup();
    prescan();
    sim::Env& e = sim::env();
    e.def.lat_max = static_cast<sim::ns_t>(plan.K("net_lat_ms", 2) * 1e6);
    e.on_publish = [this](const std::string& tpc, sim::NodeCtx* n, const sim::AnyMsg& m) { on_publish(tpc, n, m); };
    e.on_callback = [this](const std::string& tpc, sim::NodeCtx* n, const sim::AnyMsg& m, bool b) { on_callback(tpc, n, m, b); };
    rep().crash_prop = "C27";
    rep().crash_also = []() { return std::vector<std::string>{"C30"}; };
    sim::at(nsd(0.01), [this]() { step_vehicle(); });
    sim::at(nsd(plan.K("pose_start", 0.02)), [this]() { tick_pose(); });
    sim::at(nsd(0.005), [this]() { tick_tf(); });
    sim::at(nsd(plan.K("map_start", 0.1)), [this]() { tick_map(); });
    if (plan.K("cam", 1) > 0) sim::at(nsd(0.15), [this]() { tick_cam(); });
    sim::at(nsd(0.2), [this]() { tick_traj(); });
    sim::at(nsd(0.5), [this]() { tick_watch(); });
    for (const Op& o : plan.ops) sim::at(nsd(o.t), [this, &o]() { do_op(o); });
    node = sim::make_node(NODE);
    auto par = [this](const char* n, double v, XmlRpc::XmlRpcValue::Type ty) { XmlRpc::XmlRpcValue x; x.t = ty; x.d = v; node->params[std::string(NODE) + "/" + n] = x; };
    auto pars = [this](const char* n, const std::string& v) { XmlRpc::XmlRpcValue x; x.t = XmlRpc::XmlRpcValue::TypeString; x.s = v; node->params[std::string(NODE) + "/" + n] = x; };
    par("start_pos_x", start_pos.x, XmlRpc::XmlRpcValue::TypeDouble);
    par("start_pos_y", start_pos.y, XmlRpc::XmlRpcValue::TypeDouble);
    par("start_pos_z", start_pos.z, XmlRpc::XmlRpcValue::TypeDouble);
    par("robot_radius", plan.K("robot_radius", 0.5), XmlRpc::XmlRpcValue::TypeDouble);
    pars("frame_id", "local_origin");
    pars("default_node_type_", NODE_TYPES[static_cast<int>(cfg["default_node_type_"])]);
    if (plan.K("camera_frame", 1) > 0) pars("camera_frame_id", "/camera_link");
    {
      XmlRpc::XmlRpcValue x;
      x.t = XmlRpc::XmlRpcValue::TypeArray;
      x.v.push_back(std::string("/") + T_CAM);
      node->params[std::string(NODE) + "/pointcloud_topics"] = x;
    }
    for (int i = 0; i + 1 < NGP; i++) {
      bool b = i >= 17 && i <= 21, n = i == 0 || i == 1 || i == 16 || i == 24;
      par(GP_P[i], cfg[GP_P[i]], b ? XmlRpc::XmlRpcValue::TypeBoolean : n ? XmlRpc::XmlRpcValue::TypeInt : XmlRpc::XmlRpcValue::TypeDouble);
    }
    sim::at(nsd(t_start), [this]() {
      sim::spawn([this]() {
        char name[] = "global_planner_node";
        char* av[] = {name, nullptr};
        global_planner_node_main(1, av);
        t_end = nowd();
      }, "main", node);
    });
    sim::run(nsd(dur));
    finish();
  }
  void finish() {
    double t = dur;
    check_connected();
    if (t_down >= 0) {
      double bound = 3 + 2 * slow + (stall_w.hit(t_down - 3, t_down + 3) ? 4 : 0) + (tf_off.hit(t_down - 6, t_down + 1) ? 5.5 : 0);
      if (t_end < 0 && t - t_down > bound) rep().violation("C27", "no-shutdown", fmt("still running %.1f s after the shutdown was requested: %s", t - t_down, sim::dump_threads().c_str()));
      else if (t_end >= 0) { rep().probe("c27_shutdowns"); if (t_end - t_down > bound) rep().violation("C27", "slow-shutdown", fmt("needed %.1f s to shut down", t_end - t_down)); }
    } else if (t_end >= 0) rep().violation("C27", "ended", fmt("ended by itself at %.2f s", t_end));
    if (t_down < 0 && plan.K("must_reach", 0) > 0 && goal_known) {
      double q = std::max(std::max(calm_from, stall_w.last()), std::max(goal_first_t, t_start + 1));
      double need = plan.K("must_reach", 0);
      double m0 = 1e9;  // without a map every goal counts as occupied, and the vehicle stays
      for (auto& m : maps) if (m.good && m.end >= 0) m0 = std::min(m0, m.end);
      if (t - q > need && m0 < goal_first_t - 0.05) {
        rep().probe("c26_reach_checked");
        if (!reached) rep().violation("C26", "not-reached", fmt("the goal (%.1f %.1f %.1f) was given at %.1f and the inputs have been healthy since %.1f, but at %.1f the vehicle is at (%.1f %.1f %.1f); newest path %s", goal.x, goal.y, goal.z, goal_first_t, calm_from, t, me.p.x, me.p.y, me.p.z, str(last_full).c_str()));
      }
    }
  }
};

void scenario_run(const Plan& p) {
  configure_sched(p);
  (new GpSim(p))->run();
}
