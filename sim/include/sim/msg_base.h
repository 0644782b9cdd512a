#ifndef SIM_MSG_BASE_H
#define SIM_MSG_BASE_H
#include <sim/time.h>
#include <string.h>
#include <boost/array.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <cmath>
#include <string>
#include <ctime>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <type_traits>
#include <vector>
namespace sim {
struct MsgHash {
  uint64_t h = 1469598103934665603ULL;
  void raw(uint64_t v) { h ^= v; h *= 1099511628211ULL; h ^= h >> 31; }
  void add(uint8_t v) { raw(v); }
  void add(int8_t v) { raw(static_cast<uint8_t>(v)); }
  void add(uint16_t v) { raw(v); }
  void add(int16_t v) { raw(static_cast<uint16_t>(v)); }
  void add(uint32_t v) { raw(v); }
  void add(int32_t v) { raw(static_cast<uint32_t>(v)); }
  void add(uint64_t v) { raw(v); }
  void add(int64_t v) { raw(static_cast<uint64_t>(v)); }
  void add(float v) { uint32_t b; if (std::isnan(v)) b = 0x7fc00000; else memcpy(&b, &v, 4); raw(b); }
  void add(double v) { uint64_t b; if (std::isnan(v)) b = 0x7ff8000000000000ULL; else memcpy(&b, &v, 8); raw(b); }
  void add(const std::string& s) { raw(s.size()); for (char c : s) raw(static_cast<uint8_t>(c)); }
  void add(const ros::Time& t) { raw(t.toNSec()); }
  void add(const ros::Duration& t) { raw(static_cast<uint64_t>(t.toNSec())); }
  template <class T>
  void add(const std::vector<T>& v) { raw(v.size()); for (size_t i = 0; i < v.size(); i++) add(v[i]); }
  template <class T, size_t N>
  void add(const boost::array<T, N>& v) { for (size_t i = 0; i < N; i++) add(v[i]); }
  template <class T>
  auto add(const T& m) -> decltype(m.sim_hash(*this)) { m.sim_hash(*this); }
};
}  // namespace sim
#endif
