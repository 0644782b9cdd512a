#ifndef SIM_PCL_H
#define SIM_PCL_H
#include <sensor_msgs/Image.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/point_cloud2_iterator.h>
#include <sim/simros.h>
#include <std_msgs/Header.h>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/StdVector>
#include <cmath>
namespace pcl {
struct PCLHeader {
  uint32_t seq = 0;
  uint64_t stamp = 0;
  std::string frame_id;
};
struct EIGEN_ALIGN16 PointXYZ {
  union { float data[4]; struct { float x, y, z; }; };
  PointXYZ() { x = y = z = 0.f; data[3] = 1.f; }
  PointXYZ(float a, float b, float c) { x = a; y = b; z = c; data[3] = 1.f; }
  PointXYZ(const PointXYZ& p) { x = p.x; y = p.y; z = p.z; data[3] = 1.f; }
  PointXYZ& operator=(const PointXYZ& p) { x = p.x; y = p.y; z = p.z; data[3] = 1.f; return *this; }
  Eigen::Map<Eigen::Vector3f> getVector3fMap() { return Eigen::Map<Eigen::Vector3f>(data); }
  Eigen::Map<const Eigen::Vector3f> getVector3fMap() const { return Eigen::Map<const Eigen::Vector3f>(data); }
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
struct EIGEN_ALIGN16 PointXYZI {
  union { float data[4]; struct { float x, y, z; }; };
  union { struct { float intensity; }; float data_c[4]; };
  PointXYZI() { x = y = z = 0.f; data[3] = 1.f; intensity = 0.f; }
  explicit PointXYZI(float i) { x = y = z = 0.f; data[3] = 1.f; intensity = i; }
  PointXYZI(const PointXYZI& p) { x = p.x; y = p.y; z = p.z; data[3] = 1.f; intensity = p.intensity; }
  PointXYZI& operator=(const PointXYZI& p) { x = p.x; y = p.y; z = p.z; data[3] = 1.f; intensity = p.intensity; return *this; }
  Eigen::Map<Eigen::Vector3f> getVector3fMap() { return Eigen::Map<Eigen::Vector3f>(data); }
  Eigen::Map<const Eigen::Vector3f> getVector3fMap() const { return Eigen::Map<const Eigen::Vector3f>(data); }
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
template <class H> inline void hash_pt(H& h, const PointXYZ& p) { h.add(p.x); h.add(p.y); h.add(p.z); }
template <class H> inline void hash_pt(H& h, const PointXYZI& p) { h.add(p.x); h.add(p.y); h.add(p.z); h.add(p.intensity); }
inline bool isFinite(const PointXYZ& p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z); }
inline bool isFinite(const PointXYZI& p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z); }
template <class P>
class PointCloud {
 public:
  typedef P PointType;
  typedef std::vector<P, Eigen::aligned_allocator<P>> VectorType;
  typedef boost::shared_ptr<PointCloud<P>> Ptr;
  typedef boost::shared_ptr<const PointCloud<P>> ConstPtr;
  typedef typename VectorType::iterator iterator;
  typedef typename VectorType::const_iterator const_iterator;
  PCLHeader header;
  VectorType points;
  uint32_t width = 0, height = 0;
  bool is_dense = true;
  Eigen::Vector4f sensor_origin_ = Eigen::Vector4f::Zero();
  Eigen::Quaternionf sensor_orientation_ = Eigen::Quaternionf::Identity();
  PointCloud() {}
  PointCloud(uint32_t w, uint32_t h, const P& v = P()) : points(w * h, v), width(w), height(h) {}
  PointCloud& operator+=(const PointCloud& o) {
    if (o.header.stamp > header.stamp) header.stamp = o.header.stamp;
    points.insert(points.end(), o.points.begin(), o.points.end());
    width = points.size(); height = 1;
    is_dense = is_dense && o.is_dense;
    return *this;
  }
  PointCloud operator+(const PointCloud& o) const { PointCloud r = *this; r += o; return r; }
  bool empty() const { return points.empty(); }
  size_t size() const { return points.size(); }
  iterator begin() { return points.begin(); }
  iterator end() { return points.end(); }
  const_iterator begin() const { return points.begin(); }
  const_iterator end() const { return points.end(); }
  const P& operator[](size_t i) const { return points[i]; }
  P& operator[](size_t i) { return points[i]; }
  const P& at(size_t i) const { return points.at(i); }
  P& at(size_t i) { return points.at(i); }
  const P& front() const { return points.front(); }
  const P& back() const { return points.back(); }
  P& front() { return points.front(); }
  P& back() { return points.back(); }
  void reserve(size_t n) { points.reserve(n); }
  void resize(size_t n) { points.resize(n); if (width * height != n) { width = n; height = 1; } }
  void push_back(const P& p) { points.push_back(p); width = points.size(); height = 1; }
  template <class... A> void emplace_back(A&&... a) { points.emplace_back(std::forward<A>(a)...); width = points.size(); height = 1; }
  iterator erase(iterator a) { iterator i = points.erase(a); width = points.size(); height = 1; return i; }
  iterator erase(iterator a, iterator b) { iterator i = points.erase(a, b); width = points.size(); height = 1; return i; }
  template <class It> void insert(iterator pos, It a, It b) { points.insert(pos, a, b); width = points.size(); height = 1; }
  void clear() { points.clear(); width = 0; height = 0; }
  void swap(PointCloud& o) { std::swap(header, o.header); points.swap(o.points); std::swap(width, o.width); std::swap(height, o.height); std::swap(is_dense, o.is_dense); }
  bool isOrganized() const { return height > 1; }
  Ptr makeShared() const { return Ptr(new PointCloud(*this)); }
  template <class H> void sim_hash(H& h) const { h.add(header.stamp); h.add(header.frame_id); h.add(static_cast<uint64_t>(points.size())); for (auto& p : points) hash_pt(h, p); }
  static const char* sim_type() { return "sensor_msgs/PointCloud2"; }
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
template <class P>
void removeNaNFromPointCloud(const PointCloud<P>& in, PointCloud<P>& out, std::vector<int>& index) {
  if (&in != &out) { out.header = in.header; out.points.resize(in.points.size()); }
  index.resize(in.points.size());
  size_t j = 0;
  for (size_t i = 0; i < in.points.size(); ++i) {
    if (!isFinite(in.points[i])) continue;
    out.points[j] = in.points[i];
    index[j] = static_cast<int>(i);
    j++;
  }
  if (j != in.points.size()) { out.points.resize(j); index.resize(j); }
  out.height = 1; out.width = j; out.is_dense = true;
}
}  // namespace pcl
namespace pcl_conversions {
inline void fromPCL(const uint64_t& s, ros::Time& t) { t.fromNSec(s * 1000ull); }
inline void toPCL(const ros::Time& t, uint64_t& s) { s = t.toNSec() / 1000ull; }
inline ros::Time fromPCL(const uint64_t& s) { ros::Time t; fromPCL(s, t); return t; }
inline uint64_t toPCL(const ros::Time& t) { uint64_t s; toPCL(t, s); return s; }
inline void fromPCL(const pcl::PCLHeader& h, std_msgs::Header& o) { fromPCL(h.stamp, o.stamp); o.seq = h.seq; o.frame_id = h.frame_id; }
inline std_msgs::Header fromPCL(const pcl::PCLHeader& h) { std_msgs::Header o; fromPCL(h, o); return o; }
inline void toPCL(const std_msgs::Header& h, pcl::PCLHeader& o) { toPCL(h.stamp, o.stamp); o.seq = h.seq; o.frame_id = h.frame_id; }
inline pcl::PCLHeader toPCL(const std_msgs::Header& h) { pcl::PCLHeader o; toPCL(h, o); return o; }
}
namespace pcl {
void read_fields(const sensor_msgs::PointCloud2& m, int off[4]);
template <class P> inline void set_i(P&, float) {}
inline void set_i(PointXYZI& p, float v) { p.intensity = v; }
template <class P>
void fromROSMsg(const sensor_msgs::PointCloud2& m, PointCloud<P>& c) {
  pcl_conversions::toPCL(m.header, c.header);
  c.width = m.width; c.height = m.height; c.is_dense = m.is_dense;
  int off[4];
  read_fields(m, off);
  c.points.clear();
  c.points.resize(static_cast<size_t>(m.width) * m.height);
  for (size_t r = 0, k = 0; r < m.height; r++)
    for (size_t i = 0; i < m.width; i++, k++) {
      const uint8_t* b = m.data.data() + r * m.row_step + i * m.point_step;
      if (off[0] >= 0) memcpy(&c.points[k].x, b + off[0], 4);
      if (off[1] >= 0) memcpy(&c.points[k].y, b + off[1], 4);
      if (off[2] >= 0) memcpy(&c.points[k].z, b + off[2], 4);
      if (off[3] >= 0) { float v; memcpy(&v, b + off[3], 4); set_i(c.points[k], v); }
    }
}
template <class P>
void toROSMsg(const PointCloud<P>& c, sensor_msgs::PointCloud2& m) {
  pcl_conversions::fromPCL(c.header, m.header);
  m.height = 1; m.width = c.points.size(); m.is_dense = c.is_dense; m.point_step = 16; m.row_step = 16 * m.width;
  m.fields.resize(3);
  const char* n[] = {"x", "y", "z"};
  for (int i = 0; i < 3; i++) { m.fields[i].name = n[i]; m.fields[i].offset = 4 * i; m.fields[i].datatype = 7; m.fields[i].count = 1; }
  m.data.resize(m.row_step);
  for (size_t i = 0; i < c.points.size(); i++) memcpy(&m.data[16 * i], c.points[i].data, 12);
}
}
#endif
