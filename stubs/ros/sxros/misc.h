// Stand-ins for dynamic_reconfigure, diagnostic_updater, actionlib, message_filters, XmlRpc, topic_tools, laser_geometry
#ifndef SXROS_MISC_H
#define SXROS_MISC_H
#include <sxros/pcl.h>
#include <boost/thread/recursive_mutex.hpp>
namespace dynamic_reconfigure
{
template <class C>
struct Server
{
  typedef boost::function<void(C&, uint32_t)> CallbackType;
  CallbackType cb;
  Server() {}
  template <class... A> explicit Server(A&&...) {}
  void setCallback(const CallbackType& c) { cb = c; C d = C::__getDefault__(); if (sxros::okFlag()) cb(d, ~0u); }
  void updateConfig(const C&) {}
};
}
namespace diagnostic_updater
{
struct DiagnosticStatusWrapper : diagnostic_msgs::DiagnosticStatus
{
  void summary(unsigned char l, const std::string& s) { level = l; message = s; }
  template <class T> void add(const std::string& k, const T&) { diagnostic_msgs::KeyValue v; v.key = k; values.push_back(v); }
  void addf(const std::string& k, const char*, ...) { diagnostic_msgs::KeyValue v; v.key = k; values.push_back(v); }
};
struct Updater
{
  int forced = 0;
  Updater() {}
  void setHardwareID(const std::string&) {}
  template <class... A> void add(const std::string&, A...) {}
  void update() {}
  void force_update() { ++forced; }
};
}
namespace actionlib
{
template <class A>
struct SimpleActionServer
{
  typedef typename A::Goal Goal; typedef typename A::Feedback Feedback; typedef typename A::Result Result;
  // action state as seen by a client; the harness drives it
  bool active = false, available = false, preempt = false; boost::shared_ptr<const Goal> next, cur;
  int succeeded = 0, aborted = 0, preempted = 0; std::vector<Feedback> feedback; std::string last_text;
  template <class... X> SimpleActionServer(X&&...) {}
  void start() {}
  bool isActive() { return active; }
  bool isNewGoalAvailable() { return available; }
  bool isPreemptRequested() { return preempt; }
  boost::shared_ptr<const Goal> acceptNewGoal() { available = false; active = true; preempt = false; cur = next; return cur; }
  void setSucceeded(const Result& = Result(), const std::string& t = "") { if (!active) std::abort(); active = false; ++succeeded; last_text = t; }
  void setAborted(const Result& = Result(), const std::string& t = "") { if (!active) std::abort(); active = false; ++aborted; last_text = t; }
  void setPreempted(const Result& = Result(), const std::string& t = "") { if (!active) std::abort(); active = false; ++preempted; last_text = t; }
  void publishFeedback(const Feedback& f) { feedback.push_back(f); }
  template <class F> void registerGoalCallback(F) {}
  template <class F> void registerPreemptCallback(F) {}
};
struct SimpleClientGoalState
{
  enum StateEnum { PENDING, ACTIVE, RECALLED, REJECTED, PREEMPTED, ABORTED, SUCCEEDED, LOST } state_ = LOST;
  SimpleClientGoalState(StateEnum s) : state_(s) {}
  bool operator==(StateEnum s) const { return state_ == s; }
  bool operator!=(StateEnum s) const { return state_ != s; }
  bool isDone() const { return state_ >= RECALLED; }
  std::string toString() const { return ""; }
};
template <class A>
struct SimpleActionClient
{
  std::vector<typename A::Goal> goals; SimpleClientGoalState::StateEnum state = SimpleClientGoalState::LOST;
  template <class... X> SimpleActionClient(X&&...) {}
  bool waitForServer(const ros::Duration& = ros::Duration()) { return true; }
  bool isServerConnected() { return true; }
  template <class... X> void sendGoal(const typename A::Goal& g, X...) { goals.push_back(g); state = SimpleClientGoalState::PENDING; }
  void cancelAllGoals() {}
  SimpleClientGoalState getState() { return SimpleClientGoalState(state); }
};
}
namespace message_filters
{
template <class M> struct Subscriber { template <class... A> explicit Subscriber(A&&...) {} template <class... A> void subscribe(A&&...) {} };
template <class P> struct Synchronizer { template <class... A> explicit Synchronizer(A&&...) {} template <class... A> void registerCallback(A&&...) {} };
namespace sync_policies { template <class A, class B> struct ApproximateTime { explicit ApproximateTime(uint32_t) {} }; }
}
namespace XmlRpc
{
struct XmlRpcException { std::string m; explicit XmlRpcException(const std::string& s = "") : m(s) {} const std::string& getMessage() const { return m; } };
struct XmlRpcValue
{
  enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
  Type t = TypeInvalid; int i = 0; bool b = false; double d = 0; std::string s; std::vector<XmlRpcValue> a; std::vector<std::pair<std::string, XmlRpcValue>> m;
  XmlRpcValue() {}
  XmlRpcValue(int v) : t(TypeInt), i(v) {}
  XmlRpcValue(bool v) : t(TypeBoolean), b(v) {}
  XmlRpcValue(double v) : t(TypeDouble), d(v) {}
  XmlRpcValue(const std::string& v) : t(TypeString), s(v) {}
  XmlRpcValue(const char* v) : t(TypeString), s(v) {}
  Type getType() const { return t; }
  bool valid() const { return t != TypeInvalid; }
  int size() const { return t == TypeArray ? a.size() : t == TypeStruct ? m.size() : t == TypeString ? s.size() : throw XmlRpcException("type error"); }
  void setSize(int n) { t = TypeArray; a.resize(n); }
  bool hasMember(const std::string& n) const { for (auto& e : m) if (e.first == n) return true; return false; }
  void need(Type x) const { if (t != x) throw XmlRpcException("type error"); }
  operator int&() { need(TypeInt); return i; }
  operator bool&() { need(TypeBoolean); return b; }
  operator double&() { need(TypeDouble); return d; }
  operator std::string&() { need(TypeString); return s; }
  XmlRpcValue& operator[](int n) { if (t == TypeInvalid) t = TypeArray; need(TypeArray); if (static_cast<int>(a.size()) <= n) a.resize(n + 1); return a[n]; }
  const XmlRpcValue& operator[](int n) const { need(TypeArray); return a.at(n); }
  XmlRpcValue& operator[](const std::string& k)
  {
    if (t == TypeInvalid) t = TypeStruct;
    need(TypeStruct);
    for (auto& e : m) if (e.first == k) return e.second;
    m.push_back(std::make_pair(k, XmlRpcValue()));
    return m.back().second;
  }
  XmlRpcValue& operator[](const char* k) { return (*this)[std::string(k)]; }
  std::string toXml() const { return ""; }
};
}
namespace topic_tools
{
struct ShapeShifter
{
  SXMSG(ShapeShifter)
  int id = 0; std::string type;
  ros::Publisher advertise(ros::NodeHandle& nh, const std::string& t, uint32_t q, bool latch = false) const { return nh.advertise<ShapeShifter>(t, q, latch); }
};
}
namespace laser_geometry
{
namespace channel_option { enum ChannelOption { None = 0, Intensity = 1, Index = 2, Distance = 4, Timestamp = 8, Viewpoint = 16, Default = 3 }; }
struct LaserProjection
{
  void projectLaser(const sensor_msgs::LaserScan& s, sensor_msgs::PointCloud2& c, double cutoff = -1.0, int = 0)
  {
    c.header = s.header;
    std::vector<float> xs, ys;
    for (size_t i = 0; i < s.ranges.size(); ++i)
    {
      const float r = s.ranges[i];
      const double cut = cutoff < 0 ? s.range_max : std::min(cutoff, static_cast<double>(s.range_max));
      if (r < cut && r >= s.range_min)
      {
        const double a = s.angle_min + i * s.angle_increment;
        xs.push_back(r * std::cos(a)); ys.push_back(r * std::sin(a));
      }
    }
    sensor_msgs::PointCloud2Modifier m(c);
    m.setPointCloud2FieldsByString(1, "xyz"); m.resize(xs.size());
    sensor_msgs::PointCloud2Iterator<float> x(c, "x"), y(c, "y"), z(c, "z");
    for (size_t i = 0; i < xs.size(); ++i, ++x, ++y, ++z) { *x = xs[i]; *y = ys[i]; *z = 0; }
  }
  template <class B> void transformLaserScanToPointCloud(const std::string& f, const sensor_msgs::LaserScan& s, sensor_msgs::PointCloud2& c, B& b, double cutoff = -1.0, int o = 0)
  {
    sensor_msgs::PointCloud2 l;
    projectLaser(s, l, cutoff, o);
    c = b.transform(l, f);
  }
};
}
#endif
