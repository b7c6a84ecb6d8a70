// Velocity limiting in front of obstacles (safety_limiter)
#include "pre.h"
#include <sxros/misc.h>
#define private public
#define protected public
#define main sx_main
#include <safety_limiter/src/safety_limiter.cpp>
#undef main
#undef private
#undef protected
#include "sx.h"

using safety_limiter::SafetyLimiterNode;
using safety_limiter::SafetyLimiterConfig;
typedef geometry_msgs::Twist Twist;
static std::vector<sxros::Sent<Twist>>& out() { return sxros::sent<Twist>(); }
static const double X0 = -0.3, X1 = 0.2, Y0 = 0.25;   // footprint [X0,X1] x [-Y0,Y0]

static SafetyLimiterConfig config()
{
  SafetyLimiterConfig c;
  c.freq = 10; c.lin_vel = 0.5; c.lin_acc = 1.0; c.ang_vel = 0.8; c.ang_acc = 1.6; c.dt = 0.1; c.d_margin = 0.1; c.yaw_margin = 0.1;
  c.d_escape = 0; c.yaw_escape = 0; c.z_range_min = -0.5; c.z_range_max = 0.5; c.max_linear_vel = 1.0; c.max_angular_vel = 1.5; c.cloud_timeout = 0.8;
  c.disable_timeout = 0.1; c.hold = 0.3;
  return c;
}
static std::unique_ptr<SafetyLimiterNode> make(const SafetyLimiterConfig& c)
{
  XmlRpc::XmlRpcValue f;
  const double p[4][2] = {{X1, Y0}, {X1, -Y0}, {X0, -Y0}, {X0, Y0}};
  for (int i = 0; i < 4; ++i)
  {
    f[i][0] = XmlRpc::XmlRpcValue(p[i][0]);
    f[i][1] = XmlRpc::XmlRpcValue(p[i][1]);
  }
  sxros::params<XmlRpc::XmlRpcValue>()["footprint"] = f;
  sxros::extraKeys()["footprint"] = true;
  auto n = std::unique_ptr<SafetyLimiterNode>(new SafetyLimiterNode);
  n->cbParameter(c, 0);
  return n;
}
struct Pt { float x, y, z; };
static sensor_msgs::PointCloud2::Ptr cloud(const std::vector<Pt>& ps, const char* frame = "base_link")
{
  sensor_msgs::PointCloud2::Ptr m(new sensor_msgs::PointCloud2);
  m->header.frame_id = frame;
  m->header.stamp = ros::Time::now();
  sensor_msgs::PointCloud2Modifier d(*m);
  d.setPointCloud2FieldsByString(1, "xyz");
  d.resize(ps.size());
  sensor_msgs::PointCloud2Iterator<float> x(*m, "x"), y(*m, "y"), z(*m, "z");
  for (const auto& p : ps) { *x = p.x; *y = p.y; *z = p.z; ++x; ++y; ++z; }
  return m;
}
static Twist twist(double vx, double vy, double w) { Twist t; t.linear.x = vx; t.linear.y = vy; t.angular.z = w; return t; }
static void frames(int k)
{
  const double h = std::sqrt(0.5);
  if (k == 0) sxros::setTf(sxros::makeTf("odom", "base_link", 0, 0, 0, tf2::Quaternion(0, 0, 0, 1)));
  if (k == 1) sxros::setTf(sxros::makeTf("odom", "base_link", 1, -0.5, 0, tf2::Quaternion(0, 0, 0, 1)));
  if (k == 2) sxros::setTf(sxros::makeTf("odom", "base_link", 2, 1, 0, tf2::Quaternion(0, 0, h, h)));
}

// Driving straight towards an obstacle anywhere ahead: the allowed speed lets the robot stop in front of it
extern "C" void h_straight()
{
  const int dir = sx_param("dir", 0);
  const auto c = config();
  frames(sx_param("tf", 0));
  auto n = make(c);
  static const double vels[] = {0.5, 0.3, -0.5, -0.2};
  const double v = vels[dir];
  n->twist_ = twist(v, 0, 0);
  const double y = 0.05 * sx_param("y", 0);
  const float ahead = sx_f32("ahead", -0.25f, 2.0f);                // distance of the obstacle from the leading edge
  const float x = v > 0 ? static_cast<float>(X1) + ahead : static_cast<float>(X0) - ahead;
  n->cbCloud(cloud({{x, static_cast<float>(y), 0.1f}}));
  const double r = n->predict(n->twist_);
  sx_check(r >= 0 && r <= 1e3, "the ratio is a number");
  const double used = std::min(1.0, r) * std::fabs(v);
  const double len = v > 0 ? X1 - X0 : X1 - X0;
  (void)len;
  if (std::fabs(y) < Y0 - 0.01)
  {
    if (ahead < -1e-3 && ahead > -0.5 + 1e-3) { sx_check(r == 0, "no motion into an obstacle that is already touched"); sx_reach("touching"); return; }
    if (ahead > 1e-3)
    {
      const double room = ahead - c.d_margin;
      // stopping distance at the allowed speed, compared without the square root
      if (room <= 0) sx_check(used <= 1e-3, "no motion with the margin used up");
      else sx_check(used * used <= 2 * c.lin_acc * room + 1e-3, "the robot can stop before the obstacle");
      const double horizon = std::fabs(v) * (1.5 * c.ang_vel / c.ang_acc + 0.2);
      if (ahead < horizon - 3 * std::fabs(v) * c.dt && ahead < 0.1 + v * v / (2 * c.lin_acc)) { sx_check(r < 1, "an obstacle within braking distance limits the speed"); sx_reach("limited"); }
      if (ahead > 0.8 * std::fabs(v) / 0.5 + 0.3) { sx_check(r == 1, "a far obstacle does not limit the speed"); sx_reach("free"); }
    }
  }
  else if (std::fabs(y) > Y0 + 0.01)
  {
    sx_check(r == 1, "an obstacle beside the way does not limit the speed");
    sx_reach("beside");
  }
}

// the same cloud seen twice gives the same limit, and obstacles outside the height range do not count
extern "C" void h_repeat()
{
  const auto c = config();
  frames(sx_param("tf", 0));
  auto n = make(c);
  n->twist_ = twist(0.5, 0, 0);
  const float x = sx_f32("x", -1.0f, 2.0f), z = sx_f32("z", -1.0f, 1.0f);
  sx_assume(std::fabs(std::fabs(z) - 0.5f) > 1e-3f);
  n->cbCloud(cloud({{x, 0.07f, z}, {-1.5f, 0.0f, 0.0f}}));
  const double r1 = n->predict(n->twist_), r2 = n->predict(n->twist_);
  sx_check(r1 == r2 || std::fabs(r1 - r2) < 1e-3, "the same obstacles give the same limit again");
  if (std::fabs(z) > 0.5f) { sx_check(r1 == 1, "obstacles outside the height range do not count"); sx_reach("height"); }
  sx_reach("repeat");
}

// any motion: the limit is below one exactly when some step of the motion puts the footprint on an obstacle
extern "C" void h_motion()
{
  static const double M[][3] = {{0.5, 0, 0.4}, {0, 0, 0.8}, {0, 0, -0.8}, {0.3, 0.3, 0}, {-0.4, 0, -0.5}, {0.2, -0.2, 0.6}, {0, 0.4, 0}};
  const int m = sx_param("m", 0);
  auto c = config();
  frames(0);
  auto n = make(c);
  const Twist t = twist(M[m][0], M[m][1], M[m][2]);
  n->twist_ = t;
  const float y = 0.1f * sx_param("y", 0);
  const float x = sx_f32("x", -1.2f, 1.2f);
  n->cbCloud(cloud({{x, y, 0}}));
  const double r = n->predict(t);
  // footprint poses at the steps of the prediction, obstacle in the robot's frame
  double px = 0, py = 0, a = 0;
  int first = -1;
  bool unclear = false;
  const double tmax = 1.5 * 0.5 + std::max(c.d_margin / c.lin_vel, c.yaw_margin / c.ang_vel);
  int k = 0;
  for (double s = 0; s < tmax - 1e-3; s += c.dt, ++k)
  {
    if (k)
    {
      px += std::cos(a) * t.linear.x * c.dt - std::sin(a) * t.linear.y * c.dt;
      py += std::sin(a) * t.linear.x * c.dt + std::cos(a) * t.linear.y * c.dt;
      a += t.angular.z * c.dt;
    }
    const double lx = std::cos(a) * (x - px) + std::sin(a) * (y - py), ly = -std::sin(a) * (x - px) + std::cos(a) * (y - py);
    const double e = 1e-3;
    const bool in = lx > X0 + e && lx < X1 - e && ly > -Y0 + e && ly < Y0 - e;
    const bool outside = lx < X0 - e || lx > X1 + e || ly < -Y0 - e || ly > Y0 + e;
    if (!in && !outside) unclear = true;
    if (in) { first = k; break; }
  }
  if (unclear) return;
  sx_check(r >= 0, "the ratio is not negative");
  if (first < 0) { sx_check(r == 1, "no obstacle on the way: no limit"); sx_reach("free"); return; }
  const double v = std::hypot(t.linear.x, t.linear.y), w = std::fabs(t.angular.z);
  const double dl = std::max(0.0, v * c.dt * std::max(0, first - 1) - c.d_margin), dw = std::max(0.0, w * c.dt * std::max(0, first - 1) - c.yaw_margin);
  const double q = std::min(1.0, r);
  bool slow = q >= 1 - 1e-9;
  // the way to the last free step has to be enough to stop in, in translation or in rotation
  if (v > 0) slow = slow || q * v * q * v <= 2 * c.lin_acc * dl + 2e-3;
  if (w > 0) slow = slow || q * w * q * w <= 2 * c.ang_acc * dw + 2e-3;
  sx_check(slow, "the robot can stop before the obstacle");
  const bool brakes = (v == 0 || v * v > 2 * c.lin_acc * dl + 2e-3) && (w == 0 || w * w > 2 * c.ang_acc * dw + 2e-3);
  if (brakes) { sx_check(q < 1, "an obstacle that cannot be avoided at full speed limits it"); sx_reach("limited"); }
  if (first == 0) { sx_check(r == 0 || (v == 0 && w == 0), "no motion into an obstacle that is already touched"); sx_reach("touching"); }
}

// several obstacles: an additional one never raises the limit
extern "C" void h_more()
{
  auto c = config();
  const int esc = sx_param("escape", 0);
  if (esc) { c.d_escape = 0.1; c.yaw_escape = 0.1; }
  frames(0);
  auto a = make(c), b = make(c);
  a->twist_ = b->twist_ = twist(0.5, 0, 0.2);
  const Pt p{sx_f32("x1", 0.0f, 1.0f), 0.1f, 0}, q{sx_f32("x2", 0.0f, 1.0f), -0.12f, 0};
  a->cbCloud(cloud({p}));
  if (sx_param("split", 0)) { b->cbCloud(cloud({q})); b->cbCloud(cloud({p})); }
  else b->cbCloud(cloud({q, p}));
  const double r1 = a->predict(a->twist_), r2 = b->predict(b->twist_);
  sx_check(r2 <= r1 + 1e-6, "another obstacle never raises the limit");
  sx_reach("more");
}

// the speed limits
extern "C" void h_max()
{
  auto c = config();
  auto n = make(c);
  const double vy = 0.25 * sx_param("vy", 0);
  const Twist in = twist(sx_f64("vx", -5, 5), vy, sx_f64("w", -5, 5));
  const bool off = sx_bool("off");
  if (off) { c.max_linear_vel = 0; n->cbParameter(c, 0); }
  const Twist o = n->limitMaxVelocities(in);
  sx_check(o.linear.z == 0 && o.angular.x == 0 && o.angular.y == 0, "no other motion is added");
  sx_check(std::fabs(o.angular.z) <= 1.5 && o.angular.z * in.angular.z >= 0, "turning speed limit");
  if (std::fabs(in.angular.z) <= 1.5) sx_check(o.angular.z == in.angular.z, "a turning speed within the limit is kept");
  else sx_check(std::fabs(o.angular.z) == 1.5, "a turning speed above the limit is cut to it");
  if (off) { sx_check(o.linear.x == 0 && o.linear.y == 0, "no translation with a limit of zero"); return; }
  const double s = in.linear.x * in.linear.x + vy * vy;
  if (s <= 1 - 1e-9) { sx_check(o.linear.x == in.linear.x && o.linear.y == vy, "a speed within the limit is kept"); sx_reach("inside"); }
  if (s > 1 + 1e-9)
  {
    sx_check(std::fabs(o.linear.x) <= std::fabs(in.linear.x) && std::fabs(o.linear.y) <= std::fabs(vy), "a speed is never raised");
    sx_check(o.linear.x * in.linear.x >= 0 && o.linear.y * vy >= 0, "the direction is kept");
    sx_reach("above");
  }
}
extern "C" void h_max_speed()
{
  auto n = make(config());
  static const double Y[] = {0, 0.5, -2, 1};
  const double vy = Y[sx_param("vy", 0)];
  const double vx = 0.125 * static_cast<double>(static_cast<int64_t>(sx_fork(sx_u("vx8", 32, 0, 48)))) - 3;
  const Twist o = n->limitMaxVelocities(twist(vx, vy, 0));
  sx_check(std::hypot(o.linear.x, o.linear.y) <= 1 + 1e-9, "speed limit");
  sx_check(std::fabs(o.linear.x * vy - o.linear.y * vx) <= 1e-9, "the direction is kept");
  sx_reach("speed");
}

// any history of clouds, commands, predictions, watchdog and disable messages: what reaches the robot
extern "C" void h_history()
{
  auto c = config();
  c.allow_empty_cloud = sx_param("empty", 0);
  frames(0);
  auto n = make(c);
  const bool dog = sx_param("dog", 1);
  const int K = sx_param("steps", 5);
  bool cloudy = false, stop = false, disabled = false, commanded = false;
  bool seen = false, renew = false;   // obstacle among the clouds of the current prediction interval; the next cloud starts a new one
  bool limited = false, tripped = false;
  int64_t t_cloud = 0, t_dis = 0, hold = 0;
  const Twist in = twist(0.5, 0, 0.1);
  for (int k = 0; k < K; ++k)
  {
    ros::Time::clock() += sx_s("dt", 64, 0, 1000000000);
    const int64_t now = ros::Time::clock();
    sx_assume(now - t_cloud != 800000000 && now - t_dis != 100000000 && now != hold);
    out().clear();
    const int ev = sx_fork(sx_int("event", 0, dog ? 5 : 3));
    if (ev == 0)
    {
      const bool b = sx_fork(sx_int("blocked", 0, 1));
      n->cbCloud(cloud({{b ? 0.1f : -5.0f, 0, 0}}));
      seen = renew ? b : (seen || b);
      renew = false;
      cloudy = true; t_cloud = now;
    }
    else if (ev == 1)
    {
      const bool dis = disabled && now - t_dis < 100000000;
      n->cbTwist(Twist::ConstPtr(new Twist(in)));
      commanded = true;
      sx_check(out().size() == 1 && out()[0].topic == "cmd_vel_out", "every command is answered");
      const Twist o = out()[0].msg;
      const bool zero = o.linear.x == 0 && o.linear.y == 0 && o.angular.z == 0, full = o.linear.x == in.linear.x && o.angular.z == in.angular.z;
      sx_check(o.linear.x >= 0 && o.linear.x <= in.linear.x && o.angular.z >= 0 && o.angular.z <= in.angular.z, "a command is never raised");
      if (dis) { sx_check(full, "a disabled limiter passes the command"); sx_reach("disabled"); }
      else if (!cloudy) { sx_check(zero, "no motion without knowledge of obstacles"); sx_reach("no cloud"); }
      else if (stop) { sx_check(zero, "no motion after the watchdog expired"); sx_reach("watchdog"); }
      else
      {
        if (limited) { sx_check(zero, "no motion towards an obstacle found by a prediction, until the hold time is over"); sx_reach("blocked"); }
        else if (!tripped) { sx_check(full, "nothing in the way: the command is passed"); sx_reach("passed"); }
        if (now > hold) { limited = false; tripped = false; }
      }
    }
    else if (ev == 2)
    {
      const bool works = cloudy;
      n->cbPredictTimer(ros::TimerEvent());
      if (works && now - t_cloud > 800000000)
      {
        sx_check(out().size() == 1 && out()[0].topic == "cmd_vel_out" && out()[0].msg.linear.x == 0 && out()[0].msg.angular.z == 0,
                 "the robot is stopped when obstacles are not seen any more");
        cloudy = false; seen = false; tripped = true;
        sx_reach("timeout");
      }
      else
      {
        sx_check(out().empty(), "a prediction sends no command");
        if (works)
        {
          renew = true;
          if (seen && commanded) { limited = true; hold = now + 300000000; }
        }
      }
    }
    else if (ev == 3)
    {
      std_msgs::Bool::Ptr m(new std_msgs::Bool);
      m->data = sx_fork(sx_int("disable", 0, 1));
      n->cbDisable(m);
      if (m->data) { disabled = true; t_dis = now; }
    }
    else if (ev == 4)
    {
      n->cbWatchdogTimer(ros::TimerEvent());
      sx_check(out().size() == 1 && out()[0].topic == "cmd_vel_out" && out()[0].msg.linear.x == 0 && out()[0].msg.angular.z == 0, "the watchdog stops the robot");
      stop = true; tripped = true;
    }
    else { n->cbWatchdogReset(std_msgs::Empty::ConstPtr(new std_msgs::Empty)); stop = false; }
  }
}
