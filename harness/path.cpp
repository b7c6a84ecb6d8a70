// Paths of the trajectory tracker: reading, local goals, the nearest segment, remaining distance, curvature, arrival times
#include "pre.h"
#include <ros/ros.h>
#include <sxros/misc.h>
#include <nav_msgs/Path.h>
#include <trajectory_tracker_msgs/PathWithVelocity.h>
#define private public
#define protected public
#include <trajectory_tracker/path2d.h>
#undef private
#undef protected
#include "sx.h"
using namespace trajectory_tracker;
typedef Eigen::Vector2d P2;
static bool near(double a, double b, double e) { return (a == b) | ((a - b <= e) & (b - a <= e)); }
static double ab(double a) { return a < 0 ? -a : a; }
static const char* nm(const char* p, int i)
{
  static char b[8];
  b[0] = p[0];
  b[1] = '0' + i;
  b[2] = 0;
  return b;
}
static geometry_msgs::Pose pose(double x, double y, double yaw)
{
  geometry_msgs::Pose p;
  p.position.x = x;
  p.position.y = y;
  p.orientation.z = std::sin(yaw / 2);
  p.orientation.w = std::cos(yaw / 2);
  return p;
}

// Reading a path: poses at the same place are one turn on the spot, with its last heading
template <class PATH>
static void read(const PATH& m, const std::vector<double>& xs, const std::vector<double>& ys, const std::vector<double>& yaws, bool vel, double eps)
{
  Path2D p;
  p.push_back(Pose2D(P2(9, 9), 1, 1));
  p.fromMsg(m, eps);
  const int n = xs.size();
  // groups of poses at one place
  size_t at = 0;
  for (int i = 0; i < n;)
  {
    int j = i + 1;
    for (; j < n; ++j)
    {
      const double dx = xs[j] - xs[i], dy = ys[j] - ys[i];
      if (dx * dx + dy * dy >= eps * eps)
        break;
    }
    sx_check(at < p.size(), "every place is on the path");
    const auto& a = p[at++];
    sx_check(a.pos_[0] == xs[i] && a.pos_[1] == ys[i] && near(a.yaw_, yaws[i], 1e-4), "a place is the first pose there");
    sx_check(vel ? a.velocity_ == static_cast<float>(i + 0.5) : std::isnan(a.velocity_), "the speed is that of the pose, or none");
    if (j > i + 1)
    {
      sx_check(at < p.size(), "a turn on the spot is on the path");
      const auto& b = p[at++];
      sx_check(b.pos_[0] == xs[i] && b.pos_[1] == ys[i], "a turn on the spot stays at its place");
      sx_check(near(b.yaw_, yaws[j - 1], 1e-4), "a turn on the spot ends with its last heading");
      sx_check(vel ? b.velocity_ == static_cast<float>(j - 1 + 0.5) : std::isnan(b.velocity_), "the speed is that of the last pose of the turn");
      sx_reach("turn");
    }
    i = j;
  }
  sx_check(at == p.size(), "nothing else is on the path");
  PATH o;
  o.header.frame_id = "map";
  o.poses.resize(2);
  p.toMsg(o);
  sx_check(o.poses.size() == p.size(), "a message has every pose");
  for (size_t i = 0; i < p.size() && i < o.poses.size(); ++i)
  {
    const auto& q = o.poses[i];
    sx_check(q.pose.position.x == p[i].pos_[0] && q.pose.position.y == p[i].pos_[1] && q.header.frame_id == "map", "a message has the places");
    const double yaw = std::atan2(2 * q.pose.orientation.w * q.pose.orientation.z, 1 - 2 * q.pose.orientation.z * q.pose.orientation.z);
    const double d = ab(yaw - p[i].yaw_);
    sx_check(d < 1e-4 || ab(d - 2 * M_PI) < 1e-4, "a message has the headings");
  }
  sx_reach("read");
}
extern "C" void h_read()
{
  const int n = sx_param("n", 5);
  const double eps = 0.01;
  std::vector<double> xs, ys, yaws;
  double x = sx_param("x", 0), y = -2;
  for (int i = 0; i < n; ++i)
  {
    if (i)
    {
      const int code = i == sx_param("free", 2) ? 4 : static_cast<int>(sx_fork(sx_int(nm("m", i), 0, 3)));
      x += code == 1 ? 0.4 * eps : code == 2 ? 1 : 0;
      y += code == 3 ? -0.8 : 0;
      if (code == 4)
        x += sx_f64("d", -2 * eps, 2 * eps);
    }
    xs.push_back(x);
    ys.push_back(y);
    yaws.push_back(-3 + 1.3 * i);
  }
  if (sx_param("vel", 0))
  {
    trajectory_tracker_msgs::PathWithVelocity m;
    m.poses.resize(n);
    for (int i = 0; i < n; ++i)
      m.poses[i].pose = pose(xs[i], ys[i], yaws[i]), m.poses[i].linear_velocity.x = i + 0.5;
    for (int i = 0; i < n; ++i)
      yaws[i] = yaws[i] > M_PI ? yaws[i] - 2 * M_PI : yaws[i];
    read(m, xs, ys, yaws, true, eps);
  }
  else
  {
    nav_msgs::Path m;
    m.poses.resize(n);
    for (int i = 0; i < n; ++i)
      m.poses[i].pose = pose(xs[i], ys[i], yaws[i]);
    for (int i = 0; i < n; ++i)
      yaws[i] = yaws[i] > M_PI ? yaws[i] - 2 * M_PI : yaws[i];
    read(m, xs, ys, yaws, false, eps);
  }
}

// A path of moves: forwards, backwards, turns on the spot; each move may change the heading
static Path2D moves(const std::vector<int>& code, double turn, double heading, double step = 0.5)
{
  Path2D p;
  double x = 0, y = 0, yaw = heading;
  p.push_back(Pose2D(P2(x, y), yaw, 0.3f));
  for (int c : code)
  {
    if (c == 2)
      yaw += 0.7;
    else
    {
      const double s = c ? -step : step;
      x += s * std::cos(yaw);
      y += s * std::sin(yaw);
      yaw += turn;
    }
    p.push_back(Pose2D(P2(x, y), yaw, 0.3f));
  }
  return p;
}
// Local goals: where the robot has to stop, that is before a change of direction or a turn on the spot
extern "C" void h_local()
{
  const int n = sx_param("n", 5);
  const double headings[] = {0, 1.57, -3, 2.2};
  const double turn = sx_param("turn", 0) * 0.3;
  std::vector<int> code;
  for (int i = 0; i < n; ++i)
    code.push_back(sx_fork(sx_int(nm("c", i), 0, 2)));
  const bool back = sx_param("back", 1), spot = sx_param("spot", 1);
  Path2D p = moves(code, turn, headings[sx_param("heading", 0)]);
  for (int b = 0; b <= n; ++b)
  {
    int e = n + 1;
    int prev = -1;
    for (int i = b + 1; i <= n && e > n; ++i)
    {
      const int c = code[i - 1];
      if (c == 2)
      {
        if (spot)
          e = i;
        prev = -1;
      }
      else
      {
        if (back && prev >= 0 && prev != c)
          e = i;
        prev = c;
      }
    }
    const auto it = p.findLocalGoal(p.cbegin() + b, p.cend(), back, spot);
    sx_check(it - p.cbegin() == e, "the robot stops before a change of direction and for turns on the spot, nowhere else");
  }
  // all of them in order
  const auto all = p.enumerateLocalGoals(p.cbegin(), p.cend(), back, spot);
  auto from = p.cbegin();
  for (const auto& g : all)
  {
    sx_check(g == p.findLocalGoal(from, p.cend(), back, spot) && g > from, "local goals follow each other");
    from = g;
  }
  sx_check(p.findLocalGoal(from, p.cend(), back, spot) == p.cend(), "no local goal is left out");
  sx_reach("local goals");
}

static const double shapes[5][6][2] = {
    {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {4, 0}, {5, 0}},
    {{0, 0}, {1, 0}, {2, 0}, {2, 1}, {2, 2}, {1, 2}},
    {{0, 0}, {2, 0}, {0, 0}, {-2, 0}, {-2, 1}, {0, 1}},
    {{0, 0}, {3, 4}, {6, 0}, {9, 4}, {9, 0}, {0, 0}},
    {{-1, 1}, {-1, 1}, {0, 1}, {1, 1}, {1, 1}, {1, -1}}};
static Path2D shape(int k, int n)
{
  Path2D p;
  for (int i = 0; i < n; ++i)
    p.push_back(Pose2D(P2(shapes[k][i][0], shapes[k][i][1]), 0, 0.5f));
  return p;
}
static double seg2(const P2& a, const P2& b, const P2& c)
{
  const double ux = b[0] - a[0], uy = b[1] - a[1], l = ux * ux + uy * uy;
  const double dx = c[0] - a[0], dy = c[1] - a[1];
  const double t = ux * dx + uy * dy, ex = c[0] - b[0], ey = c[1] - b[1], n = ux * dy - uy * dx;
  return t <= 0 ? dx * dx + dy * dy : t >= l ? ex * ex + ey * ey : n * n / l;
}
// The nearest segment of the path, within the range that is searched
extern "C" void h_nearest()
{
  const int k = sx_param("k", 0), n = sx_param("n", 6);
  const Path2D p = shape(k, n);
  const double other[] = {-1, 0.25, 0, 1.5, 3};
  const double u = sx_f64("u", -4, 8), v = other[sx_param("v", 0)];
  const P2 c = sx_param("swap", 0) ? P2(v, u) : P2(u, v);
  const int begin = sx_param("begin", 0);
  const double range = sx_param("range4", 0) / 4.0;
  const auto r = p.findNearestWithDistance(p.cbegin() + begin, p.cend(), c, range);
  const int i = r.first - p.cbegin();
  sx_check(i >= begin && i < n && p.findNearest(p.cbegin() + begin, p.cend(), c, range) == r.first, "the nearest pose is on the path");
  double len = 0;
  double best = 1e18, mine = 1e18, zero = (c - p[begin].pos_).squaredNorm();
  best = zero;
  if (i == begin)
    mine = zero;
  for (int j = begin + 1; j < n; ++j)
  {
    len += (p[j].pos_ - p[j - 1].pos_).norm();
    if (range > 0 && len > range)
    {
      sx_check(i < j, "nothing beyond the search range is found");
      break;
    }
    if (p[j].pos_ == p[j - 1].pos_)
    {
      const double d = (p[j].pos_ - c).squaredNorm();
      best = d < best ? d : best;
      mine = j == i ? d : mine;
      continue;
    }
    const double d = seg2(p[j - 1].pos_, p[j].pos_, c);
    best = d < best ? d : best;
    mine = j == i ? d : mine;
  }
  sx_check(mine <= best + 1e-3 + 1e-4 * best, "no segment is nearer");
  const double d = r.second;
  sx_check(d >= -1e-4 && near(d * d, mine, 1e-3 + 1e-4 * mine), "its distance");
  sx_reach("nearest");
}

// How far it still is along the path
extern "C" void h_remain()
{
  const int k = sx_param("k", 0), n = sx_param("n", 6), i = sx_param("i", 1), end = sx_param("end", 6);
  const Path2D p = shape(k, n);
  // a point on the line through the segment to pose i
  const double t = sx_f64("t", -0.5, 1.5);
  const P2 a = p[i - 1].pos_, b = p[i].pos_;
  const P2 q(a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t);
  const double l = (b - a).norm();
  double rest = 0;
  for (int j = i + 1; j < end; ++j)
    rest += (p[j].pos_ - p[j - 1].pos_).norm();
  const double r = p.remainedDistance(p.cbegin(), p.cbegin() + i, p.cbegin() + end, q);
  const double over = t > 1 ? t - 1 : 1 - t;
  if (i + 1 >= end)
  {
    sx_check(near(r, (1 - t) * l, 1e-6), "the way to the end of the path, negative beyond it");
    sx_reach("last");
  }
  else
  {
    sx_check(near(r, over * l + rest, 1e-6), "the way along the rest of the path");
    sx_reach("before");
  }
  sx_check(near(p.length(), [&] { double s = 0; for (int j = 1; j < n; ++j) s += (p[j].pos_ - p[j - 1].pos_).norm(); return s; }(), 1e-4), "the length of the path");
}
extern "C" void h_remain_one()
{
  Path2D p;
  p.push_back(Pose2D(P2(1, 2), 0, 0.5f));
  const P2 q(sx_f64("x", -3, 3), 2);
  sx_check(p.remainedDistance(p.cbegin(), p.cbegin(), p.cend(), q) == 0, "a path of one pose has no way to go");
  sx_check(p.findLocalGoal(p.cbegin(), p.cend(), true) == p.cend() && p.findNearest(p.cbegin(), p.cend(), q) == p.cbegin(), "a path of one pose");
  sx_check(p.getCurvature(p.cbegin(), p.cend(), q, 1) == 0, "a path of one pose has no curvature");
  const Path2D e;
  sx_check(e.length() == 0 && e.findNearest(e.cbegin(), e.cend(), q) == e.cend() && e.getEstimatedTimeOfArrivals(e.cbegin(), e.cend(), 1, 1).empty(), "an empty path");
  sx_reach("one");
}

// Curvature ahead on circular paths of every radius, to both sides
extern "C" void h_curv()
{
  const bool few = sx_param("few", 0);
  const double side = sx_param("side", 0) ? -1 : 1;
  const double r = sx_f64("r", 0.2, 20), step = 0.2;
  const int n = few ? 2 : 4;
  const double back = sx_param("back", 0) ? -1 : 1;
  Path2D p;
  for (int i = 0; i < n; ++i)
  {
    const double a = i * step * back;
    p.push_back(Pose2D(P2(r * std::sin(a), side * r * (1 - std::cos(a))), side * a, 0));
  }
  const float c = p.getCurvature(p.cbegin(), p.cend(), p[0].pos_, sx_param("range", 1) * 0.5);
  sx_check(near(c * r * side * (few ? 1 : back), 1, 0.02), "the curvature of a circle");
  sx_reach("circle");
}
extern "C" void h_straight()
{
  const int n = sx_param("n", 4);
  const double s = sx_f64("s", 0.01, 3), yaw[] = {0, 1, -2.5, 3.1};
  const double h = yaw[sx_param("yaw", 0)];
  Path2D p;
  for (int i = 0; i < n; ++i)
    p.push_back(Pose2D(P2(i * s * (sx_param("yaw", 0) == 0 ? 1 : 0), i * s * (sx_param("yaw", 0) == 0 ? 0 : 1)), sx_param("yaw", 0) == 0 ? 0 : 1.5707963f, 0));
  (void)h;
  const float c = p.getCurvature(p.cbegin(), p.cend(), p[0].pos_, 5);
  sx_check(near(c, 0, 1e-3), "a straight path has no curvature");
  sx_reach("straight");
}

// When the robot arrives where
extern "C" void h_eta()
{
  const int n = 5;
  Path2D p;
  double x = 0, y = 1, yaw = 0.5;
  const double v = sx_param("v", 2) / 4.0, w = sx_param("w", 3) / 4.0, start = sx_param("start", 0);
  std::vector<double> want(1, start);
  p.push_back(Pose2D(P2(x, y), yaw, 0));
  double t = start;
  for (int i = 1; i < n; ++i)
  {
    const int code = i == sx_param("free", 2) ? 3 : static_cast<int>(sx_fork(sx_int(nm("m", i), 0, 2)));
    double d = 0, a = 0;
    if (code == 0)
      x += d = 2;
    else if (code == 1)
    {
      y -= d = 0.5;
      yaw += 1;
    }
    else if (code == 2)
      yaw += a = yaw > 0 ? -2.5 : 1.25;
    else if (sx_param("spin", 0))
    {
      a = sx_f64("turn", -3, 3);
      yaw += a;
    }
    else
    {
      d = sx_f64("way", 0.001, 100);
      x += d;
    }
    const double yn = yaw > M_PI ? yaw - 2 * M_PI : yaw < -M_PI ? yaw + 2 * M_PI : yaw;   // headings as a message gives them
    yaw = yn;
    p.push_back(Pose2D(P2(x, y), yaw, 0));
    t += ab(d) / v + (d == 0 ? ab(a) / w : 0);
    want.push_back(t);
  }
  const auto eta = p.getEstimatedTimeOfArrivals(p.cbegin(), p.cend(), v, w, start);
  sx_check(eta.size() == static_cast<size_t>(n), "one time for every pose");
  for (int i = 0; i < n && i < static_cast<int>(eta.size()); ++i)
    sx_check(near(eta[i], want[i], 1e-3), "the time to drive and turn there");
  sx_reach("eta");
}
