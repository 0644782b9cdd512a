#ifndef SIM_PC2_ITER_H
#define SIM_PC2_ITER_H
#include <sensor_msgs/PointCloud2.h>
#include <cstdarg>
#include <stdexcept>
namespace sensor_msgs {
inline int sizeOfPointField(int t) { static const int s[] = {0, 1, 1, 2, 2, 4, 4, 4, 8}; return s[t]; }
class PointCloud2Modifier {
 public:
  explicit PointCloud2Modifier(PointCloud2& m) : m_(m) {}
  size_t size() const { return m_.point_step ? m_.data.size() / m_.point_step : 0; }
  void resize(size_t n) { m_.data.resize(n * m_.point_step); m_.height = 1; m_.width = n; m_.row_step = n * m_.point_step; }
  void reserve(size_t n) { m_.data.reserve(n * m_.point_step); }
  void clear() { m_.data.clear(); m_.height = 1; m_.width = 0; m_.row_step = 0; }
  void setPointCloud2FieldsByString(int n, ...) {
    m_.fields.clear();
    va_list ap; va_start(ap, n);
    uint32_t off = 0;
    for (int i = 0; i < n; i++) {
      std::string f = va_arg(ap, char*);
      if (f == "xyz") { add("x", off); add("y", off); add("z", off); off += 4; }
      else if (f == "rgb" || f == "rgba") { add(f, off); off += 12; }
    }
    va_end(ap);
    m_.point_step = off; m_.row_step = m_.width * off; m_.data.resize(m_.height * m_.row_step);
  }
  void setPointCloud2Fields(int n, ...) {
    m_.fields.clear();
    va_list ap; va_start(ap, n);
    uint32_t off = 0;
    for (int i = 0; i < n; i++) {
      std::string name = va_arg(ap, char*); int count = va_arg(ap, int); int type = va_arg(ap, int);
      PointField f; f.name = name; f.offset = off; f.count = count; f.datatype = type; m_.fields.push_back(f);
      off += count * sizeOfPointField(type);
    }
    va_end(ap);
    m_.point_step = off; m_.row_step = m_.width * off; m_.data.resize(m_.height * m_.row_step);
  }
 private:
  void add(const std::string& n, uint32_t& off) { PointField f; f.name = n; f.offset = off; f.datatype = 7; f.count = 1; m_.fields.push_back(f); off += 4; }
  PointCloud2& m_;
};
template <class T>
class PointCloud2Iterator {
 public:
  PointCloud2Iterator(PointCloud2& m, const std::string& f) : step_(m.point_step) { int o = off(m, f); p_ = m.data.data() + o; e_ = m.data.data() + m.data.size() + o; }
  PointCloud2Iterator end() const { PointCloud2Iterator r = *this; r.p_ = e_; return r; }
  T& operator*() const { return *reinterpret_cast<T*>(p_); }
  T& operator[](size_t i) const { return reinterpret_cast<T*>(p_)[i]; }
  PointCloud2Iterator& operator++() { p_ += step_; return *this; }
  PointCloud2Iterator operator+(int i) const { PointCloud2Iterator r = *this; r.p_ += i * step_; return r; }
  PointCloud2Iterator& operator+=(int i) { p_ += i * step_; return *this; }
  bool operator!=(const PointCloud2Iterator& o) const { return p_ != o.p_; }
  bool operator==(const PointCloud2Iterator& o) const { return p_ == o.p_; }
 private:
  static int off(const PointCloud2& m, const std::string& f) {
    for (auto& x : m.fields) if (x.name == f) return x.offset;
    throw std::runtime_error("Field " + f + " does not exist");
  }
  int step_; uint8_t *p_, *e_;
};
template <class T>
class PointCloud2ConstIterator {
 public:
  PointCloud2ConstIterator(const PointCloud2& m, const std::string& f) : it_(const_cast<PointCloud2&>(m), f) {}
  PointCloud2ConstIterator end() const { PointCloud2ConstIterator r = *this; r.it_ = it_.end(); return r; }
  const T& operator*() const { return *it_; }
  const T& operator[](size_t i) const { return it_[i]; }
  PointCloud2ConstIterator& operator++() { ++it_; return *this; }
  bool operator!=(const PointCloud2ConstIterator& o) const { return it_ != o.it_; }
  bool operator==(const PointCloud2ConstIterator& o) const { return it_ == o.it_; }
 private:
  PointCloud2Iterator<T> it_;
};
}
#endif
