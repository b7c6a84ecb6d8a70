// Following a path: the commands and the status of the trajectory tracker node
#include "pre.h"
#include <sxros/misc.h>
#include <tf2/utils.h>
#define private public
#define protected public
#define main sx_main
#include <trajectory_tracker/src/trajectory_tracker.cpp>
#undef main
#undef private
#undef protected
#include "sx.h"
using trajectory_tracker::TrackerNode;
using trajectory_tracker::TrajectoryTrackerConfig;
typedef trajectory_tracker_msgs::TrajectoryTrackerStatus Status;
typedef geometry_msgs::Twist Twist;
static std::vector<sxros::Sent<Twist>>& cmds() { return sxros::sent<Twist>(); }
static std::vector<sxros::Sent<Status>>& stats() { return sxros::sent<Status>(); }
static double ab(double a) { return a < 0 ? -a : a; }
static double norm(double a)
{
  while (a > M_PI)
    a -= 2 * M_PI;
  while (a < -M_PI)
    a += 2 * M_PI;
  return a;
}
struct Pt { double x, y, yaw, v; };
static geometry_msgs::Pose pose(double x, double y, double yaw)
{
  geometry_msgs::Pose p;
  p.position.x = x;
  p.position.y = y;
  p.orientation.z = std::sin(yaw / 2);
  p.orientation.w = std::cos(yaw / 2);
  return p;
}
struct Node
{
  std::unique_ptr<TrackerNode> n;
  TrajectoryTrackerConfig c;
  int64_t t = 0;
  double dt = 0.1;
  Twist last;
  explicit Node(const TrajectoryTrackerConfig& cfg = TrajectoryTrackerConfig())
    : c(cfg)
  {
    sxros::params<bool>()["use_odom"] = true;
    n.reset(new TrackerNode);
    n->cbParameter(c, 0);
    t = 1000000000;
  }
  void path(const std::vector<Pt>& ps, bool vel = false)
  {
    if (vel)
    {
      trajectory_tracker_msgs::PathWithVelocity::Ptr m(new trajectory_tracker_msgs::PathWithVelocity);
      m->header.frame_id = "map";
      m->poses.resize(ps.size());
      for (size_t i = 0; i < ps.size(); ++i)
        m->poses[i].pose = pose(ps[i].x, ps[i].y, ps[i].yaw), m->poses[i].linear_velocity.x = ps[i].v;
      n->cbPath<trajectory_tracker_msgs::PathWithVelocity>(m);
    }
    else
    {
      nav_msgs::Path::Ptr m(new nav_msgs::Path);
      m->header.frame_id = "map";
      m->poses.resize(ps.size());
      for (size_t i = 0; i < ps.size(); ++i)
        m->poses[i].pose = pose(ps[i].x, ps[i].y, ps[i].yaw);
      n->cbPath<nav_msgs::Path>(m);
    }
  }
  // one odometry message; the pose in the map is that in the odometry moved by the frame
  Status step(const geometry_msgs::Pose& p, double v = 0, double w = 0, double delay = 0)
  {
    t += std::llround(dt * 1e9);
    ros::Time::clock() = t + std::llround(delay * 1e9);
    nav_msgs::Odometry::Ptr o(new nav_msgs::Odometry);
    o->header.frame_id = "odom";
    o->child_frame_id = "base_link";
    o->header.stamp.ns = t;
    o->pose.pose = p;
    o->twist.twist.linear.x = v;
    o->twist.twist.angular.z = w;
    const size_t a = cmds().size(), b = stats().size();
    n->cbOdometry(o);
    sx_check(cmds().size() == a + 1 && cmds().back().topic == "cmd_vel" && stats().size() == b + 1, "one command and one status for every odometry");
    last = cmds().back().msg;
    return stats().back().msg;
  }
  void first()
  {
    t += 100000000;
    nav_msgs::Odometry::Ptr o(new nav_msgs::Odometry);
    o->header.frame_id = "odom";
    o->child_frame_id = "base_link";
    o->header.stamp.ns = t;
    o->pose.pose = pose(0, 0, 0);
    n->cbOdometry(o);
  }
};
static void frame(int k = 0)
{
  const double h = std::sqrt(0.5);
  sxros::tfs().clear();
  if (k == 0)
    sxros::setTf(sxros::makeTf("map", "odom", 0, 0, 0, tf2::Quaternion(0, 0, 0, 1)));
  else
    sxros::setTf(sxros::makeTf("map", "odom", 1, -2, 0, tf2::Quaternion(0, 0, h, h)));
}
// a pose in the map, as the odometry gives it
static geometry_msgs::Pose at(int k, double x, double y, double yaw)
{
  return k == 0 ? pose(x, y, yaw) : pose(y + 2, -(x - 1), yaw - M_PI / 2);
}
static std::vector<Pt> line(int n, double step = 0.5, double v = 0.3)
{
  std::vector<Pt> p;
  for (int i = 0; i < n; ++i)
    p.push_back(Pt{i * step, 0, 0, v});
  return p;
}
static bool zero(const Twist& t) { return (t.linear.x == 0) & (t.angular.z == 0); }

// Commands stay within the limits of speed and acceleration wherever the robot is
extern "C" void h_limits()
{
  const int tf = sx_param("tf", 0), kind = sx_param("path", 0), vel = sx_param("vel", 0);
  frame(tf);
  Node s;
  s.first();
  std::vector<Pt> ps = line(5);
  if (kind == 1)
    ps = {{0, 0, 0, 0.3}, {0.5, 0, 0, 0.3}, {1, 0, 0, 0.3}, {1, 0, 1.2, 0.3}, {1.2, 0.5, 1.2, 0.3}};
  if (kind == 2)
    ps = {{0, 0, 0, 0.3}, {0.5, 0, 0, 0.3}, {1, 0, 0, 0.3}, {0.5, 0, 0, 0.2}, {0, 0, 0, 0.2}};
  if (kind == 3)
    ps = {{0, 0, 0, 0.3}, {0.5, 0.1, 0.4, 0.3}, {0.9, 0.4, 0.8, 0.3}, {1.1, 0.8, 1.2, 0.2}, {1.2, 1.3, 1.5, 0.2}};
  s.path(ps, vel);
  const double yaws[] = {0, 0.5, -1, 3};
  const double yaw = yaws[sx_param("yaw", 0)];
  const double vmax = vel ? 0.3 : s.c.max_vel, e = 1e-5;
  double v = 0, w = 0;
  const double x = sx_f64("x", -4, 6), y = sx_param("y", 0) * 0.1;
  const int steps = sx_param("steps", 3), free = sx_param("free", 2);
  for (int k = 0; k < steps; ++k)
  {
    const Status st = s.step(k == free ? at(tf, x, y, yaw) : at(tf, 0.1 + 0.1 * k, 0, 0), v, w);
    const double nv = s.last.linear.x, nw = s.last.angular.z;
    sx_check((nv <= vmax + e) & (-nv <= vmax + e) & (nw <= s.c.max_angvel + e) & (-nw <= s.c.max_angvel + e), "speeds within the limits");
    sx_check(((nv <= v + s.c.max_acc * s.dt + e) & (nv >= v - s.c.max_acc * s.dt - e)) | zero(s.last), "acceleration within the limit, unless the robot is stopped");
    sx_check(((nw <= w + s.c.max_angacc * s.dt + e) & (nw >= w - s.c.max_angacc * s.dt - e)) | zero(s.last), "angular acceleration within the limit, unless the robot is stopped");
    sx_check((st.status != Status::NO_PATH && st.status != Status::FAR_FROM_PATH) || zero(s.last), "no motion without a path or far from it");
    v = nv;
    w = nw;
  }
  sx_reach("limits");
}

// Far from the path the robot stops, near it drives along it and turns towards it
extern "C" void h_side()
{
  const int tf = sx_param("tf", 0), back = sx_param("back", 0);
  frame(tf);
  Node s;
  s.first();
  std::vector<Pt> ps = line(7);
  if (back)
    for (auto& p : ps)
      p.yaw = M_PI;
  s.path(ps);
  const double y = sx_f64("y", -4, 4), x = 1.3;
  const Status st = s.step(at(tf, x, y, back ? M_PI : 0));
  const Twist c = s.last;
  if (ab(y) > s.c.dist_stop + 1e-3)
  {
    sx_check(st.status == Status::FAR_FROM_PATH && zero(c), "the robot stops far from the path");
    sx_reach("far");
    return;
  }
  if (ab(y) < s.c.dist_stop - 1e-3)
  {
    sx_check(st.status == Status::FOLLOWING, "the robot follows the path");
    sx_check(back ? c.linear.x < 0 : c.linear.x > 0, "in the direction of the path");
    sx_check((y < 1e-3 || c.angular.z < 0) && (y > -1e-3 || c.angular.z > 0), "the robot turns towards the path");
    sx_check(ab(st.distance_remains - (3 - x)) < 1e-3, "the distance that remains");
    sx_reach("near");
  }
}
extern "C" void h_heading()
{
  const int tf = sx_param("tf", 0), back = sx_param("back", 0);
  frame(tf);
  Node s;
  s.first();
  std::vector<Pt> ps = line(7);
  if (back)
    for (auto& p : ps)
      p.yaw = M_PI;   // the same way, driving backwards
  s.path(ps);
  const double yaws[] = {0.2, -0.2, 0.6, -0.6, 1.2, -1.2, 2.5, -2.5, 3.1};
  const double e = yaws[sx_param("yaw", 0)];
  const double x = sx_f64("x", 0.6, 2.4);
  const Status st = s.step(at(tf, x, 0, e + (back ? M_PI : 0)));
  sx_check(st.status == Status::FOLLOWING, "the robot follows the path");
  sx_check(s.last.angular.z * e < 0, "the robot turns into the direction of the path");
  sx_check(ab(norm(st.angle_remains - e)) < 1e-3 || ab(norm(st.angle_remains + e)) < 1e-3, "the angle that remains");
  if (ab(e) > s.c.rotate_ang + 1e-3)
  {
    sx_check(s.last.linear.x == 0, "with a large error of heading the robot turns first");
    sx_reach("turn first");
  }
  else
  {
    sx_check(back ? s.last.linear.x < 0 : s.last.linear.x > 0, back ? "backwards on a path with headings against its direction" : "forwards along the path");
    sx_reach("along");
  }
}

// The goal: reported when the robot is there, and only then
extern "C" void h_goal()
{
  const int tf = sx_param("tf", 0);
  frame(tf);
  TrajectoryTrackerConfig c;
  const int lim = sx_param("lim", 0);
  if (lim)
    c.goal_tolerance_lin_vel = c.goal_tolerance_ang_vel = 0.05;
  c.path_step = sx_param("step", 1);
  const int back = sx_param("back", 0);   // driving there backwards, and told exactly where the robot is
  if (back)
    c.look_forward = 0;
  Node s(c);
  s.first();
  std::vector<Pt> ps = line(5);
  if (back)
    for (auto& p : ps)
      p.yaw = M_PI;
  s.path(ps);
  const double yaws[] = {0, 0.04, 0.09, 0.12, -0.2, 3.1};
  const double yaw = yaws[sx_param("yaw", 0)];
  const double x = sx_f64("x", 0.8, 3);
  const double v = sx_param("v", 0) * 0.1, w = sx_param("w", 0) * 0.1, delay = sx_param("delay", 0) * 0.05;
  Status st;
  for (int k = 0; k < 2; ++k)
    st = s.step(at(tf, x, 0, back ? yaw + M_PI : yaw), back ? -v : v, w, delay);
  const double px = x + v * delay;   // the robot drives towards the goal
  const double pyaw = yaw + w * delay;   // the heading of the robot by now
  const double e = 1e-3;
  const bool there = (v == 0 || back) && w == 0 && ab(x - 2) < c.goal_tolerance_dist - e && (v == 0 || ab(px - 2) < c.goal_tolerance_dist - e) && ab(yaw) < c.goal_tolerance_ang - e;
  const bool elsewhere = ab(x - 2) > c.goal_tolerance_dist + e || ab(yaw) > c.goal_tolerance_ang + e || ab(pyaw) > c.goal_tolerance_ang + e;
  const bool moving = lim && (v > 0.05 || w > 0.05);
  if (elsewhere || moving)
  {
    sx_check(st.status != Status::GOAL, "no goal is reported elsewhere, with another heading or while moving too fast");
    sx_reach("elsewhere");
  }
  else if (there)
  {
    sx_check(st.status == Status::GOAL, "the goal is reported");
    if (ab(x - 2) < c.stop_tolerance_dist - e && ab(px - 2) < c.stop_tolerance_dist - e && ab(yaw) < c.stop_tolerance_ang - e)
      sx_check(zero(s.last), "the robot stands at the goal");
    sx_reach("there");
  }
}

// Stopping in time: the speed allows to stop in the distance that is left
extern "C" void h_brake()
{
  const int tf = sx_param("tf", 0), part = sx_param("part", 0);
  frame(tf);
  Node s;
  s.c.look_forward = 0;
  s.n->cbParameter(s.c, 0);
  s.first();
  std::vector<Pt> ps = line(5);
  if (part == 1)   // the robot has to stop for the way back
    ps = {{0, 0, 0, 0}, {1, 0, 0, 0}, {2, 0, 0, 0}, {1, 0, 0, 0}, {0, 0, 0, 0}};
  if (part == 2)   // or for a turn
    ps = {{0, 0, 0, 0}, {1, 0, 0, 0}, {2, 0, 0, 0}, {2, 0, 1.57, 0}, {2, 1, 1.57, 0}};
  s.path(ps);
  const double x = sx_f64("x", 0.2, 1.95), left = 2 - x;
  for (int k = 0; k < 6; ++k)
    s.step(at(tf, 0.05 * k, 0, 0));
  double v = s.last.linear.x;
  const Status st = s.step(at(tf, x, 0, 0), v);
  const double a = s.c.max_acc, now = s.last.linear.x;
  sx_check((now * now <= 2 * a * left + 1e-3) | (now <= v - a * s.dt + 1e-4), "the robot can stop where it must, or brakes as hard as it may");
  sx_check((left <= s.c.stop_tolerance_dist + 1e-3) | (now > 0), "the robot goes on until it is there");
  sx_check((left >= s.c.stop_tolerance_dist - 1e-3) | (now < v), "the robot stops there");
  sx_check(part == 0 || st.status == Status::FOLLOWING, "no goal on the way");
  sx_reach("brake");
}

// Parts of a path are followed one after another: there and back, with a turn
extern "C" void h_parts()
{
  const int tf = sx_param("tf", 0), kind = sx_param("kind", 0);
  frame(tf);
  Node s;
  s.c.look_forward = 0;
  s.n->cbParameter(s.c, 0);
  s.first();
  std::vector<Pt> ps;
  if (kind == 0)
    ps = {{0, 0, 0, 0}, {0.5, 0, 0, 0}, {1, 0, 0, 0}, {0.5, 0, 0, 0}, {0, 0, 0, 0}};
  else
    ps = {{0, 0, 0, 0}, {0.5, 0, 0, 0}, {1, 0, 0, 0}, {1, 0, 3.1, 0}, {0.5, 0, M_PI, 0}, {0, 0, M_PI, 0}};
  s.path(ps);
  const double x = sx_f64("x", 0.02, 0.98);
  const int where = sx_param("where", 0);
  Status st = s.step(at(tf, 0, 0, 0));
  sx_check(st.status == Status::FOLLOWING, "the path begins at its goal and has yet to be followed");
  if (where == 0)
  {
    st = s.step(at(tf, x, 0, 0));
    sx_check(st.status == Status::FOLLOWING, "no goal on the first part");
    if (x < 1 - s.c.stop_tolerance_dist - 1e-3)
    {
      sx_check(s.last.linear.x > 0, "forwards on the first part");
      sx_reach("first part");
    }
    return;
  }
  for (int k = 1; k <= 4; ++k)
    st = s.step(at(tf, 0.25 * k, 0, 0));
  sx_check(st.status == Status::FOLLOWING, "no goal after the first part");
  if (kind == 0)
  {
    for (int k = 0; k < 8; ++k)
      st = s.step(at(tf, 0.99, 0, 0));
    for (int k = 0; k < 2; ++k)
      st = s.step(at(tf, x, 0, 0));
    if (x > s.c.stop_tolerance_dist + 1e-3 && x < 0.9)
    {
      sx_check(s.last.linear.x < 0, "backwards on the way back");
      sx_reach("way back");
    }
    if (x > s.c.goal_tolerance_dist + 1e-3)
      sx_check(st.status == Status::FOLLOWING, "no goal before the end of the way back");
    if (x < s.c.goal_tolerance_dist - 1e-3)
      sx_check(st.status == Status::GOAL, "the goal at the end of the way back");
    return;
  }
  // turning at the end of the first part: any heading in between
  const double yaws[] = {0.3, 1.2, 2};
  for (int k = 0; k < 3; ++k)
  {
    for (int i = 0; i < 6; ++i)
      st = s.step(at(tf, 1, 0.001, yaws[k]));
    sx_check(st.status == Status::FOLLOWING, "no goal before the turn");
    sx_check(s.last.linear.x == 0, "the robot turns on the spot");
    sx_check(s.last.angular.z > 0, "towards the heading of the next part");
  }
  for (int k = 0; k < 4; ++k)
    st = s.step(at(tf, 1, 0, 3.1));
  for (int k = 0; k < 2; ++k)
    st = s.step(at(tf, x, 0, M_PI));
  if (x > s.c.stop_tolerance_dist + 1e-3)
  {
    sx_check(s.last.linear.x > 0, "forwards after the turn");
    sx_reach("way back");
  }
  sx_check((st.status == Status::GOAL) == (x < s.c.goal_tolerance_dist) || ab(x - s.c.goal_tolerance_dist) < 1e-3, "the goal at the end");
}

// No path, no transform, no odometry: the robot stands still and says so
extern "C" void h_nopath()
{
  const int why = sx_param("why", 0);
  frame(0);
  Node s;
  s.first();
  const double x = sx_f64("x", -2, 2), y = sx_param("y", 0) * 0.5;
  if (why != 0)
  {
    s.path(line(5));
    for (int k = 0; k < 3; ++k)
      s.step(at(0, 0.1 * k, 0, 0));
    sx_check(s.last.linear.x > 0, "following the path");
  }
  if (why == 2)
    s.path({});
  if (why == 3)
  {
    auto ps = line(5);
    ps[3].v = -0.1;
    s.path(ps, true);
  }
  if (why == 4)
    sxros::tfs().clear();
  if (why == 1 || why == 5)
  {
    const size_t a = cmds().size(), b = stats().size();
    if (why == 1)
    {
      s.n->cbOdomTimeout(ros::TimerEvent());
      sx_check(stats().size() == b + 1 && stats().back().msg.status == Status::NO_PATH, "a loss of odometry is reported");
    }
    else
      s.n.reset();
    sx_check(cmds().size() == a + 1 && zero(cmds().back().msg), "the robot stands");
    if (why == 1)
    {
      // from standstill again
      s.step(at(0, 0.5, 0, 0));
      sx_check(s.last.linear.x > 0 && s.last.linear.x <= s.c.max_acc * s.dt + 1e-5, "after that it starts from standstill");
    }
    return sx_reach("nothing");
  }
  const Status st = s.step(at(0, x, y, 0.3));
  sx_check(st.status == Status::NO_PATH && zero(s.last), "the robot stands");
  // and starts from standstill again
  frame(0);
  s.path(line(5));
  s.step(at(0, 0.5, 0, 0));
  sx_check(s.last.linear.x > 0 && s.last.linear.x <= s.c.max_acc * s.dt + 1e-5, "after that it starts from standstill");
  sx_reach("nothing");
}

// The speed: that of the path where it gives one, else the configured or the commanded one
extern "C" void h_speed()
{
  frame(0);
  Node s;
  s.first();
  const int vel = sx_param("vel", 0), cmd = sx_param("cmd", 0);
  auto ps = line(9);
  const double v = sx_f64("v", 0.05, 2);
  for (auto& p : ps)
    p.v = v;
  s.path(ps, vel);
  if (cmd)
  {
    std_msgs::Float32::Ptr m(new std_msgs::Float32);
    m->data = vel ? 0.1f : static_cast<float>(v);
    s.n->cbSpeed(m);
  }
  const double want = vel || cmd ? v : s.c.max_vel;
  for (int k = 0; k < 4; ++k)
    s.step(at(0, 1 + 0.02 * k, 0, 0));
  sx_check(s.last.linear.x <= want + 1e-5, "the speed is not above that asked for");
  const double can = 4 * s.c.max_acc * s.dt;
  sx_check(ab(s.last.linear.x - (want < can ? want : can)) < 1e-4, "the robot gets up to the speed asked for");
  sx_reach("speed");
}

// Settings changed on the way
extern "C" void h_reconfigure()
{
  frame(0);
  Node s;
  s.first();
  s.path(line(sx_param("n", 9)));
  for (int k = 0; k < 4; ++k)
    s.step(at(0, 0.9 * k, 0, 0));
  s.c.path_step = sx_fork(sx_int("step", 1, 5));
  s.n->cbParameter(s.c, 0);
  const double x = sx_f64("x", 2, 3);
  const Status st = s.step(at(0, x, 0, 0));
  sx_check(st.status == Status::FOLLOWING, "the path is followed on");
  sx_reach("reconfigured");
}

// A new path is followed from its beginning, however far the one before it was done
extern "C" void h_newpath()
{
  const int tf = sx_param("tf", 0), n = sx_param("n", 7), same = sx_param("same", 0);
  frame(tf);
  Node s;
  s.c.look_forward = 0;
  s.n->cbParameter(s.c, 0);
  s.first();
  s.path(line(n));
  for (int k = 0; k < 7; ++k)
    s.step(at(tf, 0.5 * k, 0, 0));
  if (same)
    s.path({{3, 0, 0, 0}, {2.5, 0, 0, 0}, {2, 0, 0, 0}, {1.5, 0, 0, 0}, {1, 0, 0, 0}, {0.5, 0, 0, 0}, {0, 0, 0, 0}});   // back along the same way
  else
    s.path({{2.5, 0, 0, 0}, {3, 0, 0, 0}, {3.5, 0, 0, 0}, {3.5, 0.5, 1.57, 0}, {3.5, 1, 1.57, 0}, {3.5, 1.5, 1.57, 0}, {3.5, 2, 1.57, 0}});
  const double x = sx_f64("x", 2.55, 2.95);
  Status st;
  for (int k = 0; k < 10; ++k)
    st = s.step(at(tf, x, 0, 0));
  sx_check(st.status == Status::FOLLOWING, "a new path is followed");
  sx_check(same ? s.last.linear.x < 0 : s.last.linear.x > 0, "in its direction");
  sx_check(ab(st.distance_remains - (same ? x : 3.5 - x + 2)) < 1e-3, "all of it remains");
  sx_reach("new path");
}

// Curves: the robot turns with them, and with the option for it drives so that it can turn that fast
extern "C" void h_curve()
{
  const int side = sx_param("side", 0) ? -1 : 1, i = sx_param("i", 3);
  const double dirs[] = {0, M_PI};
  const int back = sx_param("back", 0), lim = sx_param("lim", 1);
  frame(0);
  Node s;
  s.c.look_forward = 0;
  s.c.limit_vel_by_avel = lim;
  s.c.max_angvel = 0.5;
  s.n->cbParameter(s.c, 0);
  s.first();
  std::vector<Pt> ps;
  const double r = 0.5, st = 0.2;
  for (int k = 0; k < 14; ++k)
    ps.push_back(Pt{r * std::sin(st * k), side * r * (1 - std::cos(st * k)), side * st * k + dirs[back], 0});
  s.path(ps);
  const double t = sx_f64("t", 0.05, 0.95);
  for (int k = 0; k < 8; ++k)
  {
    const int a = i, b = i + 1;
    const double u = k < 6 ? 0.1 * k + 0.05 : t;
    s.step(at(0, ps[a].x + u * (ps[b].x - ps[a].x), ps[a].y + u * (ps[b].y - ps[a].y), side * st * (a + 0.5) + dirs[back]));
  }
  const double v = back ? -s.last.linear.x : s.last.linear.x;
  sx_check(v > 0.1, "along the curve");
  sx_check(s.last.angular.z * side > 0.1, "turning with it");
  if (lim)
  {
    sx_check(v <= 0.5 * r * 1.05, "not faster than the robot can turn with the curve");
    sx_check(v >= 0.5 * r * 0.95, "not slower than needed");
  }
  else
    sx_check(v >= s.c.max_vel - 1e-3, "at full speed");
  sx_reach("curve");
}
