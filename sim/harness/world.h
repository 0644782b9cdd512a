// Shared simulated world: boxes, a ground plane, cameras, pose history.
#ifndef SIM_WORLD_H
#define SIM_WORLD_H
#include <sensor_msgs/PointCloud2.h>
#include <sim/simros.h>
#include <tf/tf.h>
#include <cmath>
#include <deque>
#include <vector>

struct V3 {
  double x = 0, y = 0, z = 0;
  V3() {}
  V3(double a, double b, double c) : x(a), y(b), z(c) {}
  V3 operator+(const V3& o) const { return V3(x + o.x, y + o.y, z + o.z); }
  V3 operator-(const V3& o) const { return V3(x - o.x, y - o.y, z - o.z); }
  V3 operator*(double s) const { return V3(x * s, y * s, z * s); }
  double norm() const { return std::sqrt(x * x + y * y + z * z); }
  double nxy() const { return std::sqrt(x * x + y * y); }
  double dot(const V3& o) const { return x * o.x + y * o.y + z * o.z; }
  bool finite() const { return std::isfinite(x) && std::isfinite(y) && std::isfinite(z); }
};
inline V3 v3(const geometry_msgs::Point& p) { return V3(p.x, p.y, p.z); }
inline V3 v3(const geometry_msgs::Vector3& p) { return V3(p.x, p.y, p.z); }
inline geometry_msgs::Point pt(const V3& v) { geometry_msgs::Point p; p.x = v.x; p.y = v.y; p.z = v.z; return p; }
inline double wrap_pi(double a) { while (a > M_PI) a -= 2 * M_PI; while (a < -M_PI) a += 2 * M_PI; return a; }
inline double clampd(double v, double a, double b) { return v < a ? a : v > b ? b : v; }

struct PoseAt { double t; V3 p; double yaw, pitch; };
inline tf::Transform tf_of(const PoseAt& s) {
  tf::Quaternion q;
  q.setRPY(0, s.pitch, s.yaw);
  return tf::Transform(q, tf::Vector3(s.p.x, s.p.y, s.p.z));
}
struct PoseHist {
  std::deque<PoseAt> h;
  void add(const PoseAt& s) { h.push_back(s); if (h.size() > 6000) h.pop_front(); }
  bool at(double t, PoseAt& o) const {
    if (h.empty() || t < h.front().t - 1e-6 || t > h.back().t + 0.011) return false;
    size_t lo = 0, hi = h.size() - 1;
    if (t >= h.back().t) { o = h.back(); return true; }
    while (hi - lo > 1) { size_t m = (lo + hi) / 2; (h[m].t <= t ? lo : hi) = m; }
    if (h[hi].t <= t) lo = hi;
    const PoseAt &a = h[lo], &b = h[std::min(lo + 1, h.size() - 1)];
    double r = b.t > a.t ? clampd((t - a.t) / (b.t - a.t), 0, 1) : 0;
    o.t = t;
    o.p = a.p + (b.p - a.p) * r;
    o.yaw = a.yaw + wrap_pi(b.yaw - a.yaw) * r;
    o.pitch = a.pitch + (b.pitch - a.pitch) * r;
    return true;
  }
};

struct Box { V3 lo, hi; };
struct World {
  std::vector<Box> boxes;
  bool ground = true;
  std::function<double(double, double)> terrain;  // optional height field, used for downward cameras
  double cast(const V3& o, const V3& d, double maxr) const {
    double best = maxr + 1;
    if (ground && !terrain && d.z < -1e-6) { double t = -o.z / d.z; if (t > 0 && t < best) best = t; }
    if (terrain) {
      // march down the ray, refine by bisection
      double step = 0.1, prev = 0;
      for (double t = step; t < best; t += step) {
        V3 p = o + d * t;
        if (p.z < terrain(p.x, p.y)) {
          double a = prev, b = t;
          for (int i = 0; i < 12; i++) { double m = (a + b) / 2; V3 q = o + d * m; (q.z < terrain(q.x, q.y) ? b : a) = m; }
          best = b;
          break;
        }
        prev = t;
      }
    }
    for (const Box& b : boxes) {
      double t0 = 0, t1 = best;
      const double oo[3] = {o.x, o.y, o.z}, dd[3] = {d.x, d.y, d.z}, l[3] = {b.lo.x, b.lo.y, b.lo.z}, h[3] = {b.hi.x, b.hi.y, b.hi.z};
      bool hit = true;
      for (int i = 0; i < 3 && hit; i++) {
        if (std::fabs(dd[i]) < 1e-9) { if (oo[i] < l[i] || oo[i] > h[i]) hit = false; continue; }
        double a = (l[i] - oo[i]) / dd[i], c = (h[i] - oo[i]) / dd[i];
        if (a > c) std::swap(a, c);
        t0 = std::max(t0, a);
        t1 = std::min(t1, c);
        if (t0 > t1) hit = false;
      }
      if (hit && t0 > 0.02 && t0 < best) best = t0;
    }
    return best > maxr ? NAN : best;
  }
  double clearance(const V3& p) const {
    double best = 1e9;
    for (const Box& b : boxes) {
      double dx = std::max(std::max(b.lo.x - p.x, p.x - b.hi.x), 0.0), dy = std::max(std::max(b.lo.y - p.y, p.y - b.hi.y), 0.0),
             dz = std::max(std::max(b.lo.z - p.z, p.z - b.hi.z), 0.0);
      best = std::min(best, std::sqrt(dx * dx + dy * dy + dz * dz));
    }
    return best;
  }
};

struct Cam {
  std::string topic, frame;
  double yaw = 0, pitch = 0, hfov = 70, vfov = 50;  // degrees, relative to the vehicle
  int nx = 24, ny = 18;
  double maxr = 18;
  V3 off{0.1, 0, 0};
  tf::Transform mount() const {
    tf::Quaternion q;
    q.setRPY(0, pitch * M_PI / 180, yaw * M_PI / 180);
    return tf::Transform(q, tf::Vector3(off.x, off.y, off.z));
  }
};
struct CloudRec {
  int cam;
  double stamp, sent;
  double delivered = -1;
  int n_delivered = 0;
  std::vector<V3> pts;       // finite points, camera frame
  bool world_ok = false;
  std::vector<V3> world;     // expected in local_origin, computed on demand
  bool weird = false;        // contains faults
  const void* id = nullptr;
};

enum CloudKind { CK_NORMAL, CK_EMPTY, CK_ALLNAN, CK_GARBAGE, CK_SPARSE };
inline void put_f(std::vector<uint8_t>& d, size_t o, float v) { memcpy(&d[o], &v, 4); }
inline sensor_msgs::PointCloud2 make_cloud(const Cam& c, const World& w, const PoseAt& at, double stamp, CloudKind kind, sim::Rng& rng, std::vector<V3>* pts) {
  sensor_msgs::PointCloud2 m;
  m.header.stamp.fromNSec(static_cast<uint64_t>((stamp + 1000.0) * 1e6) * 1000);
  m.header.frame_id = c.frame;
  const char* names[] = {"x", "y", "z"};
  for (int i = 0; i < 3; i++) {
    sensor_msgs::PointField f;
    f.name = names[i];
    f.offset = 4 * i;
    f.datatype = 7;
    f.count = 1;
    m.fields.push_back(f);
  }
  m.point_step = 16;
  m.height = c.ny;
  m.width = c.nx;
  if (kind == CK_EMPTY) { m.height = 0; m.width = 0; m.row_step = 0; m.is_dense = true; return m; }
  m.row_step = m.point_step * m.width;
  m.data.resize(m.row_step * m.height);
  m.is_dense = false;
  tf::Transform t = tf_of(at) * c.mount();
  for (int r = 0; r < c.ny; r++)
    for (int q = 0; q < c.nx; q++) {
      double az = ((q + 0.5) / c.nx - 0.5) * c.hfov * M_PI / 180, el = ((r + 0.5) / c.ny - 0.5) * c.vfov * M_PI / 180;
      tf::Vector3 d(std::cos(el) * std::cos(az), std::cos(el) * std::sin(az), std::sin(el));
      tf::Vector3 g = t.getBasis() * d, o = t.getOrigin();
      double range = w.cast(V3(o.x(), o.y(), o.z()), V3(g.x(), g.y(), g.z()), c.maxr);
      float x = NAN, y = NAN, z = NAN;
      if (kind == CK_ALLNAN) range = NAN;
      if (kind == CK_SPARSE && !rng.chance(0.1)) range = NAN;
      if (std::isfinite(range)) { x = d.x() * range; y = d.y() * range; z = d.z() * range; }
      if (kind == CK_GARBAGE && rng.chance(0.3)) {
        static const float bad[] = {INFINITY, -INFINITY, NAN, 1e30f, -1e30f, 0.f, 1e-30f};
        x = bad[rng.below(7)]; y = bad[rng.below(7)]; z = bad[rng.below(7)];
      }
      size_t off = static_cast<size_t>(r) * m.row_step + static_cast<size_t>(q) * m.point_step;
      put_f(m.data, off, x); put_f(m.data, off + 4, y); put_f(m.data, off + 8, z);
      if (pts && std::isfinite(x) && std::isfinite(y) && std::isfinite(z)) pts->push_back(V3(x, y, z));
    }
  return m;
}
#endif
