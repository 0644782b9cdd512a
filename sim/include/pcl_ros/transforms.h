#ifndef SIM_PCL_ROS_TF_H
#define SIM_PCL_ROS_TF_H
#include <pcl/pcl_all.h>
#include <tf/tf.h>
namespace pcl_ros {
template <class P>
void transformPointCloud(const pcl::PointCloud<P>& in, pcl::PointCloud<P>& out, const tf::Transform& t) {
  // as pcl_ros: rotation and translation applied in single precision; non finite points are left untouched
  const tf::Matrix3x3& b = t.getBasis();
  Eigen::Matrix3f R;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R(i, j) = static_cast<float>(b[i][j]);
  Eigen::Vector3f o(t.getOrigin().x(), t.getOrigin().y(), t.getOrigin().z());
  if (&in != &out) out = in;
  for (auto& p : out.points) {
    if (!in.is_dense && !pcl::isFinite(p)) continue;
    Eigen::Vector3f v(p.x, p.y, p.z);
    v = R * v + o;
    p.x = v.x(); p.y = v.y(); p.z = v.z();
  }
}
template <class P>
bool transformPointCloud(const std::string& target, const pcl::PointCloud<P>& in, pcl::PointCloud<P>& out, const tf::TransformListener& l) {
  if (in.header.frame_id == target) { out = in; return true; }
  tf::StampedTransform t;
  try {
    l.lookupTransform(target, in.header.frame_id, pcl_conversions::fromPCL(in.header.stamp), t);
  } catch (tf::LookupException&) { return false; } catch (tf::ExtrapolationException&) { return false; }
  transformPointCloud(in, out, t);
  out.header.frame_id = target;
  return true;
}
void transformPointCloud(const std::string& target, const tf::Transform& t, const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out);
bool transformPointCloud(const std::string& target, const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out, const tf::TransformListener& l);
}
#endif
