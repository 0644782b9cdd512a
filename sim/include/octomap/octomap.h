#ifndef SIM_OCTOMAP_H
#define SIM_OCTOMAP_H
#include <stdint.h>
#include <cmath>
#include <string>
#include <unordered_map>
#include <vector>
namespace octomap {
inline float logodds(double p) { return static_cast<float>(std::log(p / (1 - p))); }
inline double probability(double l) { return 1. - (1. / (1. + std::exp(l))); }
struct point3d {
  float d[3];
  point3d(float x = 0, float y = 0, float z = 0) { d[0] = x; d[1] = y; d[2] = z; }
  float x() const { return d[0]; }
  float y() const { return d[1]; }
  float z() const { return d[2]; }
};
class OcTreeNode {
 public:
  explicit OcTreeNode(float v = 0) : value(v) {}
  float getValue() const { return value; }
  float getLogOdds() const { return value; }
  double getOccupancy() const { return probability(value); }
  void setLogOdds(float v) { value = v; }
 private:
  float value;
};
class AbstractOcTree {
 public:
  virtual ~AbstractOcTree() {}
  virtual double getResolution() const = 0;
  virtual std::string getTreeType() const = 0;
};
class OcTree : public AbstractOcTree {
 public:
  typedef OcTreeNode NodeType;
  explicit OcTree(double r) : res_(r) {}
  double getResolution() const override { return res_; }
  std::string getTreeType() const override { return "OcTree"; }
  unsigned getTreeDepth() const { return 16; }
  size_t size() const { return lev_[0].size(); }
  size_t memoryUsage() const { return 64 * lev_[0].size(); }
  // node search at a depth (0 = finest, as in octomap where 0 means the lowest level); inner nodes hold the maximum of their children
  OcTreeNode* search(double x, double y, double z, unsigned depth = 0) const {
    unsigned up = depth == 0 ? 0 : 16 - depth;
    if (up > 15 || !in_range(x) || !in_range(y) || !in_range(z)) return nullptr;
    auto it = lev_[up].find(key(x, y, z, up));
    return it == lev_[up].end() ? nullptr : const_cast<OcTreeNode*>(&it->second);
  }
  OcTreeNode* search(const point3d& p, unsigned depth = 0) const { return search(p.x(), p.y(), p.z(), depth); }
  void put(double x, double y, double z, float lo) {
    for (unsigned up = 0; up < 6; up++) {
      auto r = lev_[up].insert(std::make_pair(key(x, y, z, up), OcTreeNode(lo)));
      if (!r.second && (up == 0 || r.first->second.getLogOdds() < lo)) r.first->second.setLogOdds(lo);
    }
  }
  bool isNodeOccupied(const OcTreeNode* n) const { return n->getLogOdds() >= 0; }
  bool isNodeOccupied(const OcTreeNode& n) const { return n.getLogOdds() >= 0; }

 private:
  bool in_range(double v) const { return std::isfinite(v) && std::fabs(v / res_) < 32767; }
  uint64_t key(double x, double y, double z, unsigned up) const {
    auto k = [&](double v) { return static_cast<uint64_t>(static_cast<int>(std::floor(v / res_)) + 32768) >> up; };
    return (k(x) << 40) | (k(y) << 20) | k(z);
  }
  double res_;
  std::unordered_map<uint64_t, OcTreeNode> lev_[16];
};
class ColorOcTree : public AbstractOcTree {
 public:
  double getResolution() const override { return 1; }
  std::string getTreeType() const override { return "ColorOcTree"; }
};
}
#endif
