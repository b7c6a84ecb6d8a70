// Stand-in for roscpp: time is a counter set by the harness, parameters come from tables filled by the harness, publishers
// record what is sent, subscribers and services are registered nowhere (the harness calls the callbacks itself).
#ifndef SXROS_CORE_H
#define SXROS_CORE_H
#define BOOST_SP_DISABLE_THREADS
#define BOOST_BIND_GLOBAL_PLACEHOLDERS
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <boost/array.hpp>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/version.hpp>

namespace ros
{
template <class D>
struct DurationBase
{
  int64_t ns = 0;
  DurationBase() {}
  explicit DurationBase(double s) : ns(static_cast<int64_t>(std::floor(s * 1e9 + 0.5))) {}
  DurationBase(int32_t s, int32_t n) : ns(s * 1000000000LL + n) {}
  static D make(int64_t v) { D d; d.ns = v; return d; }
  double toSec() const { return static_cast<double>(ns) * 1e-9; }
  int64_t toNSec() const { return ns; }
  D& fromSec(double s) { ns = static_cast<int64_t>(std::floor(s * 1e9 + 0.5)); return static_cast<D&>(*this); }
  bool isZero() const { return ns == 0; }
  D operator+(const D& o) const { return make(ns + o.ns); }
  D operator-(const D& o) const { return make(ns - o.ns); }
  D operator-() const { return make(-ns); }
  D operator*(double s) const { return D(toSec() * s); }
  D& operator+=(const D& o) { ns += o.ns; return static_cast<D&>(*this); }
  D& operator-=(const D& o) { ns -= o.ns; return static_cast<D&>(*this); }
  bool operator==(const D& o) const { return ns == o.ns; }
  bool operator!=(const D& o) const { return ns != o.ns; }
  bool operator<(const D& o) const { return ns < o.ns; }
  bool operator>(const D& o) const { return ns > o.ns; }
  bool operator<=(const D& o) const { return ns <= o.ns; }
  bool operator>=(const D& o) const { return ns >= o.ns; }
};
struct Rate;
struct Duration : DurationBase<Duration>
{
  using DurationBase::DurationBase;
  Duration() {}
  inline explicit Duration(const Rate&);
  bool sleep() const;
};
struct WallDuration : DurationBase<WallDuration>
{
  using DurationBase::DurationBase;
  WallDuration() {}
  bool sleep() const { return true; }
};
template <class T, class D>
struct TimeBase
{
  int64_t ns = 0;
  TimeBase() {}
  explicit TimeBase(double s) : ns(static_cast<int64_t>(std::floor(s * 1e9 + 0.5))) {}
  TimeBase(uint32_t s, uint32_t n) : ns(s * 1000000000LL + n) {}
  static T make(int64_t v) { T t; t.ns = v; return t; }
  double toSec() const { return static_cast<double>(ns) * 1e-9; }
  uint64_t toNSec() const { return ns; }
  T& fromNSec(uint64_t n) { ns = n; return static_cast<T&>(*this); }
  bool isZero() const { return ns == 0; }
  D operator-(const T& o) const { return D::make(ns - o.ns); }
  T operator+(const D& d) const { return make(ns + d.ns); }
  T operator-(const D& d) const { return make(ns - d.ns); }
  T& operator+=(const D& d) { ns += d.ns; return static_cast<T&>(*this); }
  T& operator-=(const D& d) { ns -= d.ns; return static_cast<T&>(*this); }
  bool operator==(const T& o) const { return ns == o.ns; }
  bool operator!=(const T& o) const { return ns != o.ns; }
  bool operator<(const T& o) const { return ns < o.ns; }
  bool operator>(const T& o) const { return ns > o.ns; }
  bool operator<=(const T& o) const { return ns <= o.ns; }
  bool operator>=(const T& o) const { return ns >= o.ns; }
};
struct Time : TimeBase<Time, Duration>
{
  using TimeBase::TimeBase;
  Time() {}
  static inline int64_t& clock() { static int64_t c = 1000000000000LL; return c; }
  static Time now() { return make(clock()); }
  static bool isSimTime() { return true; }
  static bool waitForValid() { return true; }
  static void init() {}
};
inline bool Duration::sleep() const { Time::clock() += ns; return true; }
inline std::ostream& operator<<(std::ostream& o, const Time& t) { return o << t.toSec(); }
inline std::ostream& operator<<(std::ostream& o, const Duration& t) { return o << t.toSec(); }
struct WallTime : TimeBase<WallTime, WallDuration>
{
  using TimeBase::TimeBase;
  WallTime() {}
  static WallTime now() { return make(Time::clock()); }
};
struct Rate
{
  Duration d;
  explicit Rate(double hz) : d(1.0 / hz) {}
  bool sleep() { return d.sleep(); }
  Duration expectedCycleTime() const { return d; }
};
typedef Rate WallRate;
inline Duration::Duration(const Rate& r) { ns = r.d.ns; }
struct TimerEvent { Time last_expected, last_real, current_expected, current_real; };
struct Timer
{
  Duration period; bool running = false;
  void setPeriod(const Duration& p, bool = true) { period = p; }
  void start() { running = true; }
  void stop() { running = false; }
  bool isValid() const { return true; }
};
typedef Timer WallTimer;
typedef TimerEvent WallTimerEvent;
struct TransportHints { TransportHints& tcpNoDelay(bool = true) { return *this; } TransportHints& reliable() { return *this; } };
typedef boost::shared_ptr<void> VoidPtr;
typedef boost::shared_ptr<void const> VoidConstPtr;
struct Subscriber { std::string topic; void shutdown() {} std::string getTopic() const { return topic; } uint32_t getNumPublishers() const { return 1; } operator void*() const { return nullptr; } };
struct ServiceServer {};
struct ServiceClient
{
  template <class T> bool call(T&) { return false; }
  bool waitForExistence() { return true; }
};
}  // namespace ros
namespace sxros
{
template <class M>
struct Sent { std::string topic; M msg; };
template <class M>
inline std::vector<Sent<M>>& sent() { static std::vector<Sent<M>> v; return v; }
template <class T>
inline std::map<std::string, T>& params() { static std::map<std::string, T> m; return m; }
inline std::map<std::string, bool>& extraKeys() { static std::map<std::string, bool> m; return m; }
inline bool& okFlag() { static bool b = true; return b; }
}
namespace ros
{
struct Publisher
{
  std::string topic;
  uint32_t subscribers = 0;
  template <class M> void publish(const M& m) const { sxros::sent<M>().push_back(sxros::Sent<M>{topic, m}); }
  template <class M> void publish(const boost::shared_ptr<M>& m) const { publish(*m); }
  template <class M> void publish(const boost::shared_ptr<M const>& m) const { publish(*m); }
  uint32_t getNumSubscribers() const { return subscribers; }
  std::string getTopic() const { return topic; }
  void shutdown() {}
};
struct AdvertiseOptions {};
namespace this_node
{
inline std::string getName() { return "/node"; }
inline std::string getNamespace() { return "/"; }
}
struct NodeHandle
{
  std::string ns;
  NodeHandle() {}
  NodeHandle(const std::string& n) : ns(n) {}
  NodeHandle(const NodeHandle&, const std::string& n) : ns(n) {}
  std::string getNamespace() const { return ns; }
  std::string getUnresolvedNamespace() const { return ns; }
  std::string resolveName(const std::string& n, bool = true) const { return n; }
  bool hasParam(const std::string& k) const
  {
    return sxros::params<double>().count(k) || sxros::params<float>().count(k) || sxros::params<int>().count(k) ||
           sxros::params<bool>().count(k) || sxros::params<std::string>().count(k) || sxros::extraKeys().count(k);
  }
  template <class T> bool param(const std::string& k, T& v, const T& d) const
  {
    auto i = sxros::params<T>().find(k);
    if (i == sxros::params<T>().end()) { v = d; return false; }
    v = i->second;
    return true;
  }
  template <class T> T param(const std::string& k, const T& d) const { T v; param(k, v, d); return v; }
  template <class T> bool getParam(const std::string& k, T& v) const
  {
    auto i = sxros::params<T>().find(k);
    if (i == sxros::params<T>().end()) return false;
    v = i->second;
    return true;
  }
  template <class T> void setParam(const std::string& k, const T& v) const { sxros::params<T>()[k] = v; }
  template <class M> Publisher advertise(const std::string& t, uint32_t, bool = false) { Publisher p; p.topic = t; return p; }
  template <class... A> Subscriber subscribe(const std::string& t, uint32_t, A...) { Subscriber s; s.topic = t; return s; }
  template <class M, class... A> Subscriber subscribe(const std::string& t, uint32_t, A...) { Subscriber s; s.topic = t; return s; }
  template <class... A> ServiceServer advertiseService(const std::string&, A...) { return ServiceServer(); }
  template <class S> ServiceClient serviceClient(const std::string&, bool = false) { return ServiceClient(); }
  template <class... A> Timer createTimer(const Duration& d, A...) { Timer t; t.period = d; t.running = true; return t; }
  template <class... A> Timer createWallTimer(const WallDuration& d, A...) { Timer t; t.period = Duration::make(d.ns); t.running = true; return t; }
};
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
inline void spin() {}
inline void spinOnce() {}
inline bool ok() { return sxros::okFlag(); }
inline void shutdown() { sxros::okFlag() = false; }
inline bool isShuttingDown() { return !ok(); }
struct AsyncSpinner { explicit AsyncSpinner(int) {} void start() {} void stop() {} };
namespace init_options { enum { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 }; }
namespace console
{
namespace levels { enum Level { Debug, Info, Warn, Error, Fatal }; }
inline bool set_logger_level(const std::string&, levels::Level) { return true; }
inline void notifyLoggerLevelsChanged() {}
}
namespace names { inline std::string append(const std::string& a, const std::string& b) { return a + "/" + b; } }
}  // namespace ros
#define ROSCONSOLE_DEFAULT_NAME "ros"
namespace sxros
{
template <class... A> inline void use(const A&...) {}
}
#define SXROS_LOG(...) do { if (false) sxros::use(__VA_ARGS__); } while (false)
#define SXROS_LOG_S(s) do { if (false) std::cerr << s; } while (false)
#define ROS_DEBUG(...) SXROS_LOG(__VA_ARGS__)
#define ROS_INFO(...) SXROS_LOG(__VA_ARGS__)
#define ROS_WARN(...) SXROS_LOG(__VA_ARGS__)
#define ROS_ERROR(...) SXROS_LOG(__VA_ARGS__)
#define ROS_FATAL(...) SXROS_LOG(__VA_ARGS__)
#define ROS_INFO_ONCE(...) SXROS_LOG(__VA_ARGS__)
#define ROS_WARN_ONCE(...) SXROS_LOG(__VA_ARGS__)
#define ROS_ERROR_ONCE(...) SXROS_LOG(__VA_ARGS__)
#define ROS_INFO_THROTTLE(...) SXROS_LOG(__VA_ARGS__)
#define ROS_WARN_THROTTLE(...) SXROS_LOG(__VA_ARGS__)
#define ROS_ERROR_THROTTLE(...) SXROS_LOG(__VA_ARGS__)
#define ROS_INFO_STREAM(s) SXROS_LOG_S(s)
#define ROS_WARN_STREAM(s) SXROS_LOG_S(s)
#define ROS_ERROR_STREAM(s) SXROS_LOG_S(s)
#define ROS_DEBUG_STREAM(s) SXROS_LOG_S(s)
#define ROS_ASSERT(c) do { if (!(c)) std::abort(); } while (false)
#endif
