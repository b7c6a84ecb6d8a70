// Odometry corrected by an IMU
#include "pre.h"
#include <sxros/misc.h>
#include <tf2/utils.h>
#define private public
#define protected public
#define main sx_main
#include <track_odometry/src/track_odometry.cpp>
#undef main
#undef private
#undef protected
#include "sx.h"
typedef nav_msgs::Odometry Odom;
static std::vector<sxros::Sent<Odom>>& odoms() { return sxros::sent<Odom>(); }
static std::vector<sxros::Sent<geometry_msgs::TransformStamped>>& sentTfs() { return sxros::sent<geometry_msgs::TransformStamped>(); }
static double ab(double a) { return a < 0 ? -a : a; }
static bool near(double a, double b) { return ab(a - b) < 1e-4; }
static tf2::Quaternion rpy(double r, double p, double y)
{
  tf2::Quaternion q;
  q.setRPY(r, p, y);
  return q;
}
// the ways the IMU may be mounted: its axes on the robot
static tf2::Quaternion mount(int k)
{
  const double h = std::sqrt(0.5);
  switch (k)
  {
    case 0: return tf2::Quaternion(0, 0, 0, 1);
    case 1: return tf2::Quaternion(0, 0, h, h);        // turned left
    case 2: return tf2::Quaternion(1, 0, 0, 0);        // upside down
    case 3: return tf2::Quaternion(0, h, 0, h);        // looking down
    default: return tf2::Quaternion(0.5, 0.5, 0.5, 0.5);
  }
}
struct Node
{
  std::unique_ptr<TrackOdometryNode> n;
  tf2::Quaternion m;
  int64_t t = 1000000000;
  explicit Node(int k = 0)
    : m(mount(k))
  {
    n.reset(new TrackOdometryNode);
    if (n->base_link_id_.empty())
      n->base_link_id_ = "base_link";
    sxros::tfs().clear();
    sxros::setTf(sxros::makeTf("base_link", "imu_link", 0.3, -0.1, 0.5, m));
  }
  // what the IMU tells when the robot has this attitude and turns so: its own attitude is that of the robot seen along its axes
  sensor_msgs::Imu::Ptr imu(const tf2::Quaternion& q, double wx, double wy, double wz)
  {
    sensor_msgs::Imu::Ptr i(new sensor_msgs::Imu);
    i->header.frame_id = "imu_link";
    i->header.stamp.ns = t;
    i->orientation = tf2::toMsg(m.inverse() * q * m);
    const tf2::Vector3 w = tf2::Transform(m.inverse()) * tf2::Vector3(wx, wy, wz);
    i->angular_velocity.x = w.x();
    i->angular_velocity.y = w.y();
    i->angular_velocity.z = w.z();
    return i;
  }
  Odom::Ptr odom(double x, double y, double yaw, double v, double w)
  {
    Odom::Ptr o(new Odom);
    o->header.frame_id = "odom";
    o->child_frame_id = "base_link";
    o->header.stamp.ns = t;
    o->pose.pose.position.x = x;
    o->pose.pose.position.y = y;
    o->pose.pose.orientation.z = std::sin(yaw / 2);
    o->pose.pose.orientation.w = std::cos(yaw / 2);
    o->twist.twist.linear.x = v;
    o->twist.twist.angular.z = w;
    return o;
  }
};
static bool isFinite(double a) { return a - a == 0; }

// The heading and the turning of the IMU, the way of the odometry
extern "C" void h_pose()
{
  const int k = sx_param("mount", 0), tf = sx_param("tf", 1), z = sx_param("z", 0);
  const double yaws[] = {0, 0.7, -2, 3};
  const double iyaw = yaws[sx_param("iyaw", 1)], oyaw = yaws[sx_param("oyaw", 2)];
  sxros::params<bool>()["publish_tf"] = tf;
  sxros::params<double>()["tf_tolerance"] = 0.25;
  Node s(k);
  const double d = sx_f64("d", -10, 10);
  const tf2::Quaternion q = rpy(sx_param("roll", 0) * 0.1, sx_param("pitch", 0) * 0.1, iyaw);
  s.n->cbOdomImu(s.odom(1, 2, oyaw - sx_param("turn", 0) * 0.3, 0.3, 0), s.imu(q, 0.1, 0.2, 0));
  sx_check(odoms().empty() && sentTfs().empty(), "nothing is published before there is a way");
  s.t += 100000000;
  Odom::Ptr o = s.odom(1 + d * std::cos(oyaw), 2 + d * std::sin(oyaw), oyaw, 0.4, 0);
  if (z)   // forwards and up, as a legged or tracked robot may tell
    o->pose.pose.position.z = d * 0.5;
  s.n->cbOdomImu(o, s.imu(q, 0.1, 0.2, 0.004));
  sx_check(odoms().size() == 1 && sentTfs().size() == (tf ? 1u : 0u), "one odometry, and one transform if asked for");
  const Odom& r = odoms().back().msg;
  const tf2::Vector3 way = tf2::Transform(q) * tf2::Vector3(d, 0, z ? d * 0.5 : 0);
  sx_check(near(r.pose.pose.position.x, 1 + way.x()) & near(r.pose.pose.position.y, 2 + way.y()) & near(r.pose.pose.position.z, way.z()), "the way of the odometry along the heading of the IMU");
  sx_check(near(ab(r.pose.pose.orientation.x * q.x() + r.pose.pose.orientation.y * q.y() + r.pose.pose.orientation.z * q.z() + r.pose.pose.orientation.w * q.w()), 1), "the attitude is that of the IMU");
  sx_check(near(r.twist.twist.angular.x, 0.1) & near(r.twist.twist.angular.y, 0.2) & near(r.twist.twist.angular.z, 0.004), "the angular velocities of the IMU on the axes of the robot");
  sx_check(r.twist.twist.linear.x == 0.4, "the velocity of the odometry");
  sx_check(r.header.frame_id == "odom" && r.child_frame_id == "base_link" && r.header.stamp.ns == s.t + 250000000, "frames and time");
  if (tf)
  {
    const geometry_msgs::TransformStamped& u = sentTfs().back().msg;
    sx_check((u.transform.translation.x == r.pose.pose.position.x) & (u.transform.translation.y == r.pose.pose.position.y) & (u.transform.translation.z == r.pose.pose.position.z), "the transform is that of the odometry");
    sx_check((u.transform.rotation.z == r.pose.pose.orientation.z) & (u.transform.rotation.w == r.pose.pose.orientation.w) & (u.transform.rotation.x == r.pose.pose.orientation.x), "the rotation is that of the odometry");
    sx_check(u.header.frame_id == "odom" && u.child_frame_id == "base_link" && u.header.stamp.ns == r.header.stamp.ns, "frames and time of the transform");
  }
  sx_reach("pose");
}

// The attitude for every heading of the robot
extern "C" void h_attitude()
{
  Node s(sx_param("mount", 0));
  const double part = sx_param("part", 0), yaw = part == 0 ? sx_f64("yaw", 0.3, 3.1) : part == 1 ? -sx_f64("yaw", 0.3, 3.1) : 0, c = std::cos(yaw / 2), si = std::sin(yaw / 2);
  const tf2::Quaternion q(0, 0, si, c);
  s.n->cbImu(s.imu(q, 0, 0, 0.1));
  sx_check(s.n->has_imu_, "the measurement is used");
  const geometry_msgs::Quaternion r = s.n->imu_.orientation;
  sx_check(near(ab(r.x * q.x() + r.y * q.y() + r.z * q.z() + r.w * q.w()), 1), "the attitude is that of the IMU on the axes of the robot");
  sx_reach("attitude");
}

// Slip: driven ways shrink (or grow) as the IMU turns less (or more) than the odometry
extern "C" void h_slip()
{
  const int kf = sx_param("kf", 1), neg = sx_param("neg", 0), n = sx_param("n", 5);
  sxros::params<bool>()["use_kf"] = kf;
  sxros::params<bool>()["enable_negative_slip"] = neg;
  Node s(0);
  const tf2::Quaternion q(0, 0, 0, 1);
  const int which = sx_param("which", 0);
  // as much as the odometry tells of one radian per second, or any speed with an IMU that agrees or turns half as fast
  const double w = which == 0 ? (sx_param("left", 1) ? 1.0 : -1.0) : which == 3 ? sx_f64("w", -0.0149, 0.0149) : (sx_param("left", 1) ? 1.0 : -1.0) * sx_f64("w", 0.0151, 2);
  const double wi = which == 0 ? sx_f64("wi", -2, 2) : which == 1 ? w : w / 2;   // which 3: turning no more than the noise
  s.n->cbOdomImu(s.odom(0, 0, 0, 0.3, w), s.imu(q, 0, 0, wi));
  double last = 0;
  for (int k = 1; k <= n; ++k)
  {
    s.t += 20000000;
    s.n->cbOdomImu(s.odom(k, 0, 0, 0.3, w), s.imu(q, 0, 0, wi));
    const double x = odoms().back().msg.pose.pose.position.x, step = x - last;
    last = x;
    sx_check(isFinite(x), "finite positions");
    if (which == 0)
    {
      const double ratio = wi * w < 0 && !neg ? 1 : wi / w;
      sx_check((step >= (ratio < 1 ? ratio : 1) - 1e-3) & (step <= (ratio > 1 ? ratio : 1) + 1e-3), "the way is between that of the odometry and that with all the slip");
      if (!kf || k == n)
        sx_check(ab(step - ratio) < (kf ? 0.03 * ab(1 - ratio) + 1e-3 : 1e-6), "the way shrinks as the turn does");
    }
    else if (which == 1)
      sx_check(ab(step - 1) < 1e-3, "no slip when odometry and IMU agree");
    else
      sx_check(ab(step - (which == 2 ? 0.5 : 1)) < 1e-3, "the way shrinks as the turn does, unless the turn is within the noise");
  }
  sx_reach("slip");
}

// Straight on, the estimate is forgotten
extern "C" void h_straight()
{
  Node s(0);
  const tf2::Quaternion q(0, 0, 0, 1);
  s.n->cbOdomImu(s.odom(0, 0, 0, 0.3, 1), s.imu(q, 0, 0, 0.6));
  for (int k = 1; k <= 3; ++k)
  {
    s.t += 20000000;
    s.n->cbOdomImu(s.odom(k, 0, 0, 0.3, 1), s.imu(q, 0, 0, 0.6));
  }
  double last = odoms().back().msg.pose.pose.position.x, step0 = 0;
  const double w = sx_f64("w", -0.005, 0.005);
  for (int k = 4; k <= 8; ++k)
  {
    s.t += 200000000;
    s.n->cbOdomImu(s.odom(k, 0, 0, 0.3, w), s.imu(q, 0, 0, sx_param("wi", 0) * 0.001));
    const double x = odoms().back().msg.pose.pose.position.x, step = x - last;
    last = x;
    sx_check(isFinite(x), "finite positions");
    sx_check((step >= step0) & (step <= 1 + 1e-9), "the slip is forgotten, bit by bit");
    sx_check(k < 8 || step > 0.85, "the slip is forgotten in time");
    step0 = step;
  }
  sx_reach("straight");
}

// A pause of any length does neither overshoot nor blow up anything
extern "C" void h_gap()
{
  const int which = sx_param("which", 0);
  if (which == 0)
    sxros::params<double>()["z_filter_timeconst"] = 0.5;
  else
    sxros::params<double>()["predict_filter_tc"] = 2.0;
  Node s(0);
  const tf2::Quaternion q(0, 0, 0, 1);
  s.n->cbOdomImu(s.odom(0, 0, 0, 0.3, which ? 1 : 0), s.imu(q, 0, 0, which ? 0.6 : 0));
  s.t += 20000000;
  s.n->cbOdomImu(s.odom(1, 0, 0, 0.3, which ? 1 : 0), s.imu(q, 0, 0, which ? 0.6 : 0));
  if (which == 0)
  {
    std_msgs::Float32::Ptr z(new std_msgs::Float32);
    z->data = 1.5f;
    s.n->cbResetZ(z);
  }
  const double before = odoms().back().msg.pose.pose.position.x;
  const int64_t dt = sx_int("dt", 0, 10000000) * 1000LL;
  s.t += dt;
  s.n->cbOdomImu(s.odom(2, 0, 0, 0.3, 0), s.imu(q, 0, 0, 0));
  const double z = odoms().back().msg.pose.pose.position.z, step = odoms().back().msg.pose.pose.position.x - before;
  if (which == 0)
  {
    sx_check((z >= -1e-9) & (z <= 1.5 + 1e-9), "the height goes to zero and not past it");
    sx_check((dt > 100000000) | (ab(z - 1.5 * (1 - dt * 1e-9 / 0.5)) < 0.04), "the time constant of the height");
  }
  else
    sx_check((step >= 0.59) & (step <= 1 + 1e-9), "the slip is forgotten and not reversed");
  sx_reach("gap");
}

// Without the IMU nothing is published, and no way is lost
extern "C" void h_lost()
{
  Node s(0);
  const tf2::Quaternion q(0, 0, 0, 1);
  const double a = sx_f64("a", -5, 5);
  const int when = sx_param("when", 0);
  if (when == 0)
    sxros::tfs().clear();
  s.n->cbOdomImu(s.odom(0, 0, 0, 0.3, 0), s.imu(q, 0, 0, 0));
  s.t += 20000000;
  if (when == 1)
  {
    s.n->cbOdomImu(s.odom(0.5, 0, 0, 0.3, 0), s.imu(q, 0, 0, 0));
    sxros::tfs().clear();
  }
  const size_t n = odoms().size(), m = sentTfs().size();
  for (int k = 0; k < 3; ++k)
  {
    s.t += 20000000;
    s.n->cbOdomImu(s.odom(a * (k + 1) / 3, 0, 0, 0.3, 0), s.imu(q, 0, 0, 0));
  }
  sx_check(odoms().size() == n && sentTfs().size() == m, "nothing is published without the IMU");
  sxros::setTf(sxros::makeTf("base_link", "imu_link", 0, 0, 0, s.m));
  s.t += 20000000;
  s.n->cbOdomImu(s.odom(a + 0.5, 0, 0, 0.3, 0), s.imu(q, 0, 0, 0));
  sx_check(odoms().size() == n + 1, "published again");
  sx_check(ab(odoms().back().msg.pose.pose.position.x - (a + 0.5)) < 1e-6, "the way in between is not lost");
  sx_reach("lost");
}

// Height given from outside; no odometry at all
extern "C" void h_other()
{
  const tf2::Quaternion q = rpy(0, 0, 0.5);
  if (sx_param("which", 0) == 0)
  {
    Node s(0);
    const float z = sx_f32("z", -5, 5);
    s.n->cbOdomImu(s.odom(0, 0, 0, 0.3, 0), s.imu(q, 0, 0, 0));
    s.t += 20000000;
    s.n->cbOdomImu(s.odom(1, 0, 0, 0.3, 0), s.imu(q, 0, 0, 0));
    std_msgs::Float32::Ptr m(new std_msgs::Float32);
    m->data = z;
    s.n->cbResetZ(m);
    for (int k = 2; k < 5; ++k)
    {
      s.t += 20000000;
      s.n->cbOdomImu(s.odom(k, 0, 0, 0.3, 0), s.imu(q, 0, 0, 0));
      sx_check(near(odoms().back().msg.pose.pose.position.z, z), "the height given stays");
    }
    sx_reach("height");
    return;
  }
  sxros::params<bool>()["without_odom"] = true;
  Node s(sx_param("mount", 1));
  const double wz = sx_f64("wz", -2, 2);
  ros::TimerEvent e;
  for (int k = 0; k < 4; ++k)
  {
    s.t += 20000000;
    ros::Time::clock() = s.t;
    s.n->cbImu(s.imu(q, 0, 0, wz));
    s.n->cbTimer(e);
  }
  sx_check(odoms().size() == 3, "odometry from the IMU alone");
  const Odom& r = odoms().back().msg;
  sx_check((r.pose.pose.position.x == 0) & (r.pose.pose.position.y == 0) & (r.pose.pose.position.z == 0), "the robot stays where it is");
  sx_check(near(r.twist.twist.angular.z, wz), "and turns as the IMU says");
  sx_check(near(ab(r.pose.pose.orientation.z * q.z() + r.pose.pose.orientation.w * q.w()), 1), "with its attitude");
  sx_reach("height");
}
