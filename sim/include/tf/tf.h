#ifndef SIM_TF_H
#define SIM_TF_H
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/Quaternion.h>
#include <geometry_msgs/TransformStamped.h>
#include <geometry_msgs/Vector3Stamped.h>
#include <geometry_msgs/TwistStamped.h>
#include <geometry_msgs/QuaternionStamped.h>
#include <sensor_msgs/PointCloud2.h>
#include <sim/simros.h>
#include <cmath>
typedef double tfScalar;
namespace tf {
class Vector3 {
 public:
  tfScalar m_floats[4];
  Vector3() { m_floats[0] = m_floats[1] = m_floats[2] = m_floats[3] = 0; }
  Vector3(const tfScalar& x, const tfScalar& y, const tfScalar& z) { setValue(x, y, z); }
  void setValue(tfScalar x, tfScalar y, tfScalar z) { m_floats[0] = x; m_floats[1] = y; m_floats[2] = z; m_floats[3] = 0; }
  void setZero() { setValue(0, 0, 0); }
  const tfScalar& x() const { return m_floats[0]; }
  const tfScalar& y() const { return m_floats[1]; }
  const tfScalar& z() const { return m_floats[2]; }
  const tfScalar& getX() const { return m_floats[0]; }
  const tfScalar& getY() const { return m_floats[1]; }
  const tfScalar& getZ() const { return m_floats[2]; }
  void setX(tfScalar v) { m_floats[0] = v; }
  void setY(tfScalar v) { m_floats[1] = v; }
  void setZ(tfScalar v) { m_floats[2] = v; }
  tfScalar& operator[](int i) { return m_floats[i]; }
  const tfScalar& operator[](int i) const { return m_floats[i]; }
  tfScalar dot(const Vector3& o) const { return x() * o.x() + y() * o.y() + z() * o.z(); }
  tfScalar length2() const { return dot(*this); }
  tfScalar length() const { return std::sqrt(length2()); }
  tfScalar distance(const Vector3& o) const;
  Vector3 cross(const Vector3& v) const { return Vector3(y() * v.z() - z() * v.y(), z() * v.x() - x() * v.z(), x() * v.y() - y() * v.x()); }
  Vector3 lerp(const Vector3& v, const tfScalar& t) const { return Vector3(x() + (v.x() - x()) * t, y() + (v.y() - y()) * t, z() + (v.z() - z()) * t); }
  Vector3& normalize() { tfScalar l = length(); for (int i = 0; i < 3; i++) m_floats[i] /= l; return *this; }
  Vector3 normalized() const { Vector3 r = *this; r.normalize(); return r; }
  Vector3& operator+=(const Vector3& o) { for (int i = 0; i < 3; i++) m_floats[i] += o.m_floats[i]; return *this; }
  Vector3& operator-=(const Vector3& o) { for (int i = 0; i < 3; i++) m_floats[i] -= o.m_floats[i]; return *this; }
  Vector3& operator*=(tfScalar s) { for (int i = 0; i < 3; i++) m_floats[i] *= s; return *this; }
  bool operator==(const Vector3& o) const { return x() == o.x() && y() == o.y() && z() == o.z(); }
};
inline Vector3 operator+(const Vector3& a, const Vector3& b) { return Vector3(a.x() + b.x(), a.y() + b.y(), a.z() + b.z()); }
inline Vector3 operator-(const Vector3& a, const Vector3& b) { return Vector3(a.x() - b.x(), a.y() - b.y(), a.z() - b.z()); }
inline Vector3 operator-(const Vector3& a) { return Vector3(-a.x(), -a.y(), -a.z()); }
inline Vector3 operator*(const Vector3& a, tfScalar s) { return Vector3(a.x() * s, a.y() * s, a.z() * s); }
inline Vector3 operator*(tfScalar s, const Vector3& a) { return a * s; }
inline Vector3 operator/(const Vector3& a, tfScalar s) { return Vector3(a.x() / s, a.y() / s, a.z() / s); }
inline tfScalar Vector3::distance(const Vector3& o) const { return (*this - o).length(); }
typedef Vector3 Point;
class Quaternion {
 public:
  tfScalar v[4];
  Quaternion() { v[0] = v[1] = v[2] = 0; v[3] = 1; }
  Quaternion(const tfScalar& x, const tfScalar& y, const tfScalar& z, const tfScalar& w) { setValue(x, y, z, w); }
  Quaternion(const Vector3& axis, const tfScalar& a) { tfScalar s = std::sin(a * 0.5) / axis.length(); setValue(axis.x() * s, axis.y() * s, axis.z() * s, std::cos(a * 0.5)); }
  void setValue(tfScalar x, tfScalar y, tfScalar z, tfScalar w) { v[0] = x; v[1] = y; v[2] = z; v[3] = w; }
  void setRPY(tfScalar r, tfScalar p, tfScalar y) {
    tfScalar cy = std::cos(y / 2), sy = std::sin(y / 2), cp = std::cos(p / 2), sp = std::sin(p / 2), cr = std::cos(r / 2), sr = std::sin(r / 2);
    setValue(sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy);
  }
  const tfScalar& x() const { return v[0]; }
  const tfScalar& y() const { return v[1]; }
  const tfScalar& z() const { return v[2]; }
  const tfScalar& w() const { return v[3]; }
  const tfScalar& getX() const { return v[0]; }
  const tfScalar& getY() const { return v[1]; }
  const tfScalar& getZ() const { return v[2]; }
  const tfScalar& getW() const { return v[3]; }
  tfScalar dot(const Quaternion& o) const { return v[0] * o.v[0] + v[1] * o.v[1] + v[2] * o.v[2] + v[3] * o.v[3]; }
  tfScalar length2() const { return dot(*this); }
  tfScalar length() const { return std::sqrt(length2()); }
  Quaternion& normalize() { tfScalar l = length(); for (auto& a : v) a /= l; return *this; }
  Quaternion normalized() const { Quaternion q = *this; return q.normalize(); }
  Quaternion inverse() const { return Quaternion(-v[0], -v[1], -v[2], v[3]); }
  Quaternion operator*(tfScalar s) const { return Quaternion(v[0] * s, v[1] * s, v[2] * s, v[3] * s); }
  Quaternion operator+(const Quaternion& o) const { return Quaternion(v[0] + o.v[0], v[1] + o.v[1], v[2] + o.v[2], v[3] + o.v[3]); }
  Quaternion operator-() const { return Quaternion(-v[0], -v[1], -v[2], -v[3]); }
  tfScalar getAngle() const { return 2.0 * std::acos(v[3]); }
  tfScalar angleShortestPath(const Quaternion& q) const {
    tfScalar s = std::sqrt(length2() * q.length2());
    if (dot(q) < 0) return std::acos(std::max(-1.0, std::min(1.0, dot(-q) / s))) * 2.0;
    return std::acos(std::max(-1.0, std::min(1.0, dot(q) / s))) * 2.0;
  }
  Quaternion slerp(const Quaternion& q, const tfScalar& t) const {
    tfScalar theta = angleShortestPath(q) / 2.0;
    if (theta != 0.0) {
      tfScalar d = 1.0 / std::sin(theta), s0 = std::sin((1.0 - t) * theta), s1 = std::sin(t * theta);
      if (dot(q) < 0) return Quaternion((v[0] * s0 - q.v[0] * s1) * d, (v[1] * s0 - q.v[1] * s1) * d, (v[2] * s0 - q.v[2] * s1) * d, (v[3] * s0 - q.v[3] * s1) * d);
      return Quaternion((v[0] * s0 + q.v[0] * s1) * d, (v[1] * s0 + q.v[1] * s1) * d, (v[2] * s0 + q.v[2] * s1) * d, (v[3] * s0 + q.v[3] * s1) * d);
    }
    return *this;
  }
};
inline Quaternion operator*(const Quaternion& a, const Quaternion& b) {
  return Quaternion(a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(), a.w() * b.y() + a.y() * b.w() + a.z() * b.x() - a.x() * b.z(),
                    a.w() * b.z() + a.z() * b.w() + a.x() * b.y() - a.y() * b.x(), a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z());
}
class Matrix3x3 {
 public:
  Vector3 r[3];
  Matrix3x3() { r[0].setX(1); r[1].setY(1); r[2].setZ(1); }
  explicit Matrix3x3(const Quaternion& q) { setRotation(q); }
  void setIdentity() { *this = Matrix3x3(); }
  void setRotation(const Quaternion& q) {
    tfScalar s = 2.0 / q.length2();
    tfScalar xs = q.x() * s, ys = q.y() * s, zs = q.z() * s, wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs, xx = q.x() * xs,
             xy = q.x() * ys, xz = q.x() * zs, yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    r[0] = Vector3(1 - (yy + zz), xy - wz, xz + wy);
    r[1] = Vector3(xy + wz, 1 - (xx + zz), yz - wx);
    r[2] = Vector3(xz - wy, yz + wx, 1 - (xx + yy));
  }
  const Vector3& operator[](int i) const { return r[i]; }
  Vector3& operator[](int i) { return r[i]; }
  void getRPY(tfScalar& roll, tfScalar& pitch, tfScalar& yaw, unsigned = 1) const {
    if (std::fabs(r[2].x()) >= 1) {
      yaw = 0;
      tfScalar d = std::atan2(r[2].y(), r[2].z());
      pitch = r[2].x() < 0 ? M_PI / 2 : -M_PI / 2;
      roll = d;
    } else {
      pitch = -std::asin(r[2].x());
      roll = std::atan2(r[2].y() / std::cos(pitch), r[2].z() / std::cos(pitch));
      yaw = std::atan2(r[1].x() / std::cos(pitch), r[0].x() / std::cos(pitch));
    }
  }
  void getEulerYPR(tfScalar& y, tfScalar& p, tfScalar& ro, unsigned = 1) const { getRPY(ro, p, y); }
  void getRotation(Quaternion& q) const {
    tfScalar tr = r[0].x() + r[1].y() + r[2].z(), t[4];
    if (tr > 0) {
      tfScalar s = std::sqrt(tr + 1.0); t[3] = s * 0.5; s = 0.5 / s;
      t[0] = (r[2].y() - r[1].z()) * s; t[1] = (r[0].z() - r[2].x()) * s; t[2] = (r[1].x() - r[0].y()) * s;
    } else {
      int i = r[0].x() < r[1].y() ? (r[1].y() < r[2].z() ? 2 : 1) : (r[0].x() < r[2].z() ? 2 : 0), j = (i + 1) % 3, k = (i + 2) % 3;
      tfScalar s = std::sqrt(r[i][i] - r[j][j] - r[k][k] + 1.0);
      t[i] = s * 0.5; s = 0.5 / s;
      t[3] = (r[k][j] - r[j][k]) * s; t[j] = (r[j][i] + r[i][j]) * s; t[k] = (r[k][i] + r[i][k]) * s;
    }
    q.setValue(t[0], t[1], t[2], t[3]);
  }
  Matrix3x3 transpose() const { Matrix3x3 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.r[i][j] = r[j][i]; return m; }
};
inline Vector3 operator*(const Matrix3x3& m, const Vector3& v) { return Vector3(m[0].dot(v), m[1].dot(v), m[2].dot(v)); }
inline Matrix3x3 operator*(const Matrix3x3& a, const Matrix3x3& b) {
  Matrix3x3 m, t = b.transpose();
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.r[i][j] = a[i].dot(t[j]);
  return m;
}
class Transform {
 public:
  Transform() {}
  explicit Transform(const Quaternion& q, const Vector3& c = Vector3(0, 0, 0)) : b_(q), o_(c) {}
  explicit Transform(const Matrix3x3& b, const Vector3& c = Vector3(0, 0, 0)) : b_(b), o_(c) {}
  Vector3 operator()(const Vector3& v) const { return b_ * v + o_; }
  Vector3 operator*(const Vector3& v) const { return (*this)(v); }
  Transform operator*(const Transform& t) const { return Transform(b_ * t.b_, (*this)(t.o_)); }
  Vector3& getOrigin() { return o_; }
  const Vector3& getOrigin() const { return o_; }
  Matrix3x3& getBasis() { return b_; }
  const Matrix3x3& getBasis() const { return b_; }
  Quaternion getRotation() const { Quaternion q; b_.getRotation(q); return q; }
  void setOrigin(const Vector3& v) { o_ = v; }
  void setBasis(const Matrix3x3& m) { b_ = m; }
  void setRotation(const Quaternion& q) { b_.setRotation(q); }
  void setIdentity() { *this = Transform(); }
  static Transform getIdentity() { return Transform(); }
  Transform inverse() const { Matrix3x3 t = b_.transpose(); return Transform(t, t * -o_); }
 private:
  Matrix3x3 b_;
  Vector3 o_;
};
typedef Transform Pose;
template <class T>
class Stamped : public T {
 public:
  ros::Time stamp_;
  std::string frame_id_;
  Stamped() : frame_id_("NO_ID_STAMPED_DEFAULT_CONSTRUCTION") {}
  Stamped(const T& t, const ros::Time& s, const std::string& f) : T(t), stamp_(s), frame_id_(f) {}
  void setData(const T& t) { *static_cast<T*>(this) = t; }
};
class StampedTransform : public Transform {
 public:
  ros::Time stamp_;
  std::string frame_id_, child_frame_id_;
  StampedTransform() {}
  StampedTransform(const Transform& t, const ros::Time& s, const std::string& f, const std::string& c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {}
  void setData(const Transform& t) { *static_cast<Transform*>(this) = t; }
};
class TransformException : public std::runtime_error {
 public:
  explicit TransformException(const std::string& s) : std::runtime_error(s) {}
};
class LookupException : public TransformException { public: explicit LookupException(const std::string& s) : TransformException(s) {} };
class ConnectivityException : public TransformException { public: explicit ConnectivityException(const std::string& s) : TransformException(s) {} };
class ExtrapolationException : public TransformException { public: explicit ExtrapolationException(const std::string& s) : TransformException(s) {} };
class InvalidArgument : public TransformException { public: explicit InvalidArgument(const std::string& s) : TransformException(s) {} };

inline double getYaw(const Quaternion& q) { double r, p, y; Matrix3x3(q).getRPY(r, p, y); return y; }
inline double getYaw(const geometry_msgs::Quaternion& q) { return getYaw(Quaternion(q.x, q.y, q.z, q.w)); }
inline Quaternion createQuaternionFromRPY(double r, double p, double y) { Quaternion q; q.setRPY(r, p, y); return q; }
inline Quaternion createQuaternionFromYaw(double y) { return createQuaternionFromRPY(0, 0, y); }
inline Quaternion createIdentityQuaternion() { return Quaternion(0, 0, 0, 1); }
inline void quaternionTFToMsg(const Quaternion& q, geometry_msgs::Quaternion& m) { m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w(); }
inline void quaternionMsgToTF(const geometry_msgs::Quaternion& m, Quaternion& q) { q = Quaternion(m.x, m.y, m.z, m.w); }
inline geometry_msgs::Quaternion createQuaternionMsgFromYaw(double y) { geometry_msgs::Quaternion m; quaternionTFToMsg(createQuaternionFromYaw(y), m); return m; }
inline geometry_msgs::Quaternion createQuaternionMsgFromRollPitchYaw(double r, double p, double y) { geometry_msgs::Quaternion m; quaternionTFToMsg(createQuaternionFromRPY(r, p, y), m); return m; }
inline void pointTFToMsg(const Vector3& v, geometry_msgs::Point& m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }
inline void pointMsgToTF(const geometry_msgs::Point& m, Vector3& v) { v = Vector3(m.x, m.y, m.z); }
inline void vector3TFToMsg(const Vector3& v, geometry_msgs::Vector3& m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }
inline void vector3MsgToTF(const geometry_msgs::Vector3& m, Vector3& v) { v = Vector3(m.x, m.y, m.z); }
inline void poseMsgToTF(const geometry_msgs::Pose& m, Transform& t) { t = Transform(Quaternion(m.orientation.x, m.orientation.y, m.orientation.z, m.orientation.w), Vector3(m.position.x, m.position.y, m.position.z)); }
inline void poseTFToMsg(const Transform& t, geometry_msgs::Pose& m) { quaternionTFToMsg(t.getRotation(), m.orientation); pointTFToMsg(t.getOrigin(), m.position); }

class Transformer {
 public:
  static constexpr double DEFAULT_CACHE_TIME = 10.0;
  virtual ~Transformer() {}
  bool canTransform(const std::string& target, const std::string& source, const ros::Time& t, std::string* err = nullptr) const;
  void lookupTransform(const std::string& target, const std::string& source, const ros::Time& t, StampedTransform& out) const;
  bool waitForTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration& timeout,
                        const ros::Duration& poll = ros::Duration(0.01), std::string* err = nullptr) const;
  int getLatestCommonTime(const std::string& target, const std::string& source, ros::Time& t, std::string* err) const;
  bool frameExists(const std::string& f) const;
  void clear() {}
  void transformVector(const std::string& target, const ros::Time& t, const geometry_msgs::Vector3Stamped& in, const std::string& fixed, geometry_msgs::Vector3Stamped& out) const;
  void transformPose(const std::string& target, const geometry_msgs::PoseStamped& in, geometry_msgs::PoseStamped& out) const;
  void transformPoint(const std::string& target, const geometry_msgs::PointStamped& in, geometry_msgs::PointStamped& out) const;
  void transformVector(const std::string& target, const geometry_msgs::Vector3Stamped& in, geometry_msgs::Vector3Stamped& out) const;
};
class TransformListener : public Transformer {
 public:
  explicit TransformListener(ros::Duration max_cache = ros::Duration(10.0), bool spin_thread = true) { (void)max_cache; (void)spin_thread; }
  TransformListener(const ros::NodeHandle&, ros::Duration = ros::Duration(10.0), bool = true) {}
};
}  // namespace tf
namespace sim {
// the environment's transform tree, as received by the listeners
void tf_publish(const std::string& parent, const std::string& child, const tf::Transform& t, const ros::Time& stamp);
void tf_static(const std::string& parent, const std::string& child, const tf::Transform& t);
void tf_forget(const std::string& child);
}
#endif
