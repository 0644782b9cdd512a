#ifndef SIM_TIME_H
#define SIM_TIME_H
#include <stdint.h>
#include <cmath>
#include <iostream>
#include <limits>
#include <stdexcept>
namespace ros {
struct Exception : public std::runtime_error {
  explicit Exception(const std::string& s) : std::runtime_error(s) {}
};
struct TimeNotInitializedException : public Exception {
  TimeNotInitializedException() : Exception("Cannot use ros::Time::now() before ros::init") {}
};
template <class D>
struct DurationBase {
  int32_t sec, nsec;
  DurationBase() : sec(0), nsec(0) {}
  DurationBase(int32_t s, int32_t ns) : sec(0), nsec(0) { fromNSec(static_cast<int64_t>(s) * 1000000000LL + ns); }
  explicit DurationBase(double t) : sec(0), nsec(0) { fromSec(t); }
  int64_t toNSec() const { return static_cast<int64_t>(sec) * 1000000000LL + nsec; }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  D& fromNSec(int64_t t) {
    int64_t s = t / 1000000000LL, n = t % 1000000000LL;
    if (n < 0) { n += 1000000000LL; s--; }
    if (s > std::numeric_limits<int32_t>::max() || s < std::numeric_limits<int32_t>::min())
      throw std::runtime_error("Duration is out of dual 32-bit range");
    sec = static_cast<int32_t>(s); nsec = static_cast<int32_t>(n);
    return *static_cast<D*>(this);
  }
  D& fromSec(double d) {
    if (!std::isfinite(d)) throw std::runtime_error("Duration is out of dual 32-bit range");
    double s = std::floor(d);
    if (s > 2147483647.0 || s < -2147483648.0) throw std::runtime_error("Duration is out of dual 32-bit range");
    int64_t n = static_cast<int64_t>(std::floor((d - s) * 1e9 + 0.5));
    return fromNSec(static_cast<int64_t>(s) * 1000000000LL + n);
  }
  bool isZero() const { return sec == 0 && nsec == 0; }
  D operator+(const D& o) const { D r; r.fromNSec(toNSec() + o.toNSec()); return r; }
  D operator-(const D& o) const { D r; r.fromNSec(toNSec() - o.toNSec()); return r; }
  D operator-() const { D r; r.fromNSec(-toNSec()); return r; }
  D operator*(double s) const { return D(toSec() * s); }
  D operator/(double s) const { return D(toSec() / s); }
  D& operator+=(const D& o) { return fromNSec(toNSec() + o.toNSec()); }
  D& operator-=(const D& o) { return fromNSec(toNSec() - o.toNSec()); }
  D& operator*=(double s) { return fromSec(toSec() * s); }
  bool operator==(const D& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const D& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const D& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const D& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const D& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const D& o) const { return toNSec() >= o.toNSec(); }
};
struct Rate;
struct Duration : public DurationBase<Duration> {
  Duration() {}
  Duration(int32_t s, int32_t ns) : DurationBase<Duration>(s, ns) {}
  explicit Duration(double t) : DurationBase<Duration>(t) {}
  explicit Duration(const Rate&);
  bool sleep() const;
};
struct WallDuration : public DurationBase<WallDuration> {
  WallDuration() {}
  WallDuration(int32_t s, int32_t ns) : DurationBase<WallDuration>(s, ns) {}
  explicit WallDuration(double t) : DurationBase<WallDuration>(t) {}
  bool sleep() const;
};
template <class T, class D>
struct TimeBase {
  uint32_t sec, nsec;
  TimeBase() : sec(0), nsec(0) {}
  TimeBase(uint32_t s, uint32_t ns) : sec(s), nsec(ns) { fromNSec(static_cast<uint64_t>(s) * 1000000000ULL + ns); }
  explicit TimeBase(double t) : sec(0), nsec(0) { fromSec(t); }
  uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000ULL + nsec; }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  T& fromNSec(uint64_t t) {
    uint64_t s = t / 1000000000ULL;
    if (s > std::numeric_limits<uint32_t>::max()) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = static_cast<uint32_t>(s); nsec = static_cast<uint32_t>(t % 1000000000ULL);
    return *static_cast<T*>(this);
  }
  T& fromSec(double t) {
    if (!(t >= 0) || t > 4294967295.0) throw std::runtime_error("Time is out of dual 32-bit range");
    double s = std::floor(t);
    return fromNSec(static_cast<uint64_t>(s) * 1000000000ULL + static_cast<uint64_t>(std::floor((t - s) * 1e9 + 0.5)));
  }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool is_zero() const { return isZero(); }
  D operator-(const T& o) const { D d; d.fromNSec(static_cast<int64_t>(toNSec()) - static_cast<int64_t>(o.toNSec())); return d; }
  T operator+(const D& d) const { return shift(d.toNSec()); }
  T operator-(const D& d) const { return shift(-d.toNSec()); }
  T& operator+=(const D& d) { *this = shift(d.toNSec()); return *static_cast<T*>(this); }
  T& operator-=(const D& d) { *this = shift(-d.toNSec()); return *static_cast<T*>(this); }
  TimeBase& operator=(const T& o) { sec = o.sec; nsec = o.nsec; return *this; }
  TimeBase(const TimeBase& o) : sec(o.sec), nsec(o.nsec) {}
  TimeBase& operator=(const TimeBase& o) { sec = o.sec; nsec = o.nsec; return *this; }
  bool operator==(const T& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const T& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const T& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const T& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const T& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const T& o) const { return toNSec() >= o.toNSec(); }

 private:
  T shift(int64_t d) const {
    int64_t n = static_cast<int64_t>(toNSec()) + d;
    if (n < 0) throw std::runtime_error("Time is out of dual 32-bit range");
    T r; r.fromNSec(static_cast<uint64_t>(n)); return r;
  }
};
struct Time : public TimeBase<Time, Duration> {
  Time() {}
  Time(uint32_t s, uint32_t ns) : TimeBase<Time, Duration>(s, ns) {}
  explicit Time(double t) : TimeBase<Time, Duration>(t) {}
  Time(const Time&) = default;
  Time& operator=(const Time&) = default;
  static Time now();
  static void init() {}
  static void shutdown() {}
  static bool isValid() { return true; }
  static bool isSystemTime() { return true; }
  static bool isSimTime() { return false; }
  static bool waitForValid() { return true; }
  static bool waitForValid(const WallDuration&) { return true; }
  static bool sleepUntil(const Time& end);
  static void setNow(const Time&) {}
};
struct WallTime : public TimeBase<WallTime, WallDuration> {
  WallTime() {}
  WallTime(uint32_t s, uint32_t ns) : TimeBase<WallTime, WallDuration>(s, ns) {}
  explicit WallTime(double t) : TimeBase<WallTime, WallDuration>(t) {}
  WallTime(const WallTime&) = default;
  WallTime& operator=(const WallTime&) = default;
  static WallTime now();
  static bool sleepUntil(const WallTime& end);
};
typedef WallTime SteadyTime;
static const Time TIME_MIN(0, 1);
static const Time TIME_MAX(4294967295u, 999999999u);
struct Rate {
  explicit Rate(double f) : expected_(1.0 / f), start_(Time::now()) {}
  explicit Rate(const Duration& d) : expected_(d), start_(Time::now()) {}
  bool sleep();
  void reset() { start_ = Time::now(); }
  Duration expectedCycleTime() const { return expected_; }
  Duration cycleTime() const { return actual_; }
 private:
  Duration expected_, actual_;
  Time start_;
};
inline Duration::Duration(const Rate& r) { *this = r.expectedCycleTime(); }
typedef Rate WallRate;
inline std::ostream& operator<<(std::ostream& o, const Time& t) { return o << t.toSec(); }
inline std::ostream& operator<<(std::ostream& o, const WallTime& t) { return o << t.toSec(); }
inline std::ostream& operator<<(std::ostream& o, const Duration& t) { return o << t.toSec(); }
inline std::ostream& operator<<(std::ostream& o, const WallDuration& t) { return o << t.toSec(); }
}  // namespace ros
#endif
