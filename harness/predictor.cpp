// Where the next plan starts while the robot moves along the path of the one before
#include "pre.h"
#include <omp.h>
#define private public
#define protected public
#include <ros/ros.h>
#include <list>
#include <costmap_cspace_msgs/MapMetaData3D.h>
#include <nav_msgs/Path.h>
#include <tf2/utils.h>
#include <planner_cspace/planner_3d/start_pose_predictor.h>
#include <planner_cspace/planner_3d/grid_metric_converter.h>
#undef private
#undef protected
#include "sx.h"
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
typedef GridAstar<3, 2>::Vec V;
typedef GridAstar<3, 2>::Vecf F;
static double ab(double a) { return a < 0 ? -a : a; }
struct Pt { double x, y, yaw; };
struct Env
{
  GridAstar<3, 2>::Gridmap<char, 0x40> cm;
  costmap_cspace_msgs::MapMetaData3D info;
  StartPosePredictor p;
  StartPosePredictor::Config c;
  int w, h;
  Env(int W, int H, double T, double ox = 0, double oy = 0)
    : w(W)
    , h(H)
  {
    info.width = w;
    info.height = h;
    info.angle = 4;
    info.linear_resolution = 0.5;
    info.angular_resolution = M_PI / 2;
    info.origin.position.x = ox;
    info.origin.position.y = oy;
    info.origin.orientation.w = 1;
    cm.reset(V(w, h, 4));
    cm.clear(0);
    c.prediction_sec_ = T;
    c.switch_back_prediction_sec_ = 3;
    c.dist_stop_ = 0.6;
    c.lin_vel_ = 1;
    c.ang_vel_ = M_PI / 2;
    p.setConfig(c);
  }
};
static geometry_msgs::Pose pose(double x, double y, double yaw)
{
  geometry_msgs::Pose p;
  p.position.x = x;
  p.position.y = y;
  p.orientation.z = std::sin(yaw / 2);
  p.orientation.w = std::cos(yaw / 2);
  return p;
}
static nav_msgs::Path path(const std::vector<Pt>& v)
{
  nav_msgs::Path m;
  m.header.frame_id = "map";
  m.poses.resize(v.size());
  for (size_t i = 0; i < v.size(); ++i)
    m.poses[i].pose = pose(v[i].x, v[i].y, v[i].yaw);
  return m;
}
// from the middle of one cell to the middles of the next, with a pose half-way between
static std::vector<Pt> line(int n, double x0 = 0.25, double y0 = 0.75)
{
  std::vector<Pt> v;
  for (int i = 0; i < n; ++i)
    v.push_back(Pt{x0 + 0.25 * i, y0, 0});
  return v;
}
static bool isKept(const nav_msgs::Path& m, const std::vector<Pt>& v, int a, int b)
{
  if (static_cast<int>(m.poses.size()) != b - a)
    return false;
  bool ok = true;
  for (int i = a; i < b; ++i)
    ok = ok & (ab(m.poses[i - a].pose.position.x - v[i].x) < 1e-6) & (ab(m.poses[i - a].pose.position.y - v[i].y) < 1e-6) & (ab(std::sin(tf2::getYaw(m.poses[i - a].pose.orientation) - v[i].yaw)) < 1e-5);
  return ok;
}

// On a straight path: the plan starts in the first cell that the robot gets to after the time that planning takes
extern "C" void h_ahead()
{
  const double T = sx_param("T", 2) * 0.35, off = sx_param("off", 0) * 0.2, yaw = sx_param("yaw", 0) * 0.3;
  Env s(8, 4, T, -1, 0);
  const int n = 13;
  const std::vector<Pt> v = line(n, -0.75);   // poses at -0.75 ... 2.25
  const double x = sx_f64("x", -1.4, 2.7);
  V r;
  const bool ok = s.p.process(pose(x, 0.75 + off, yaw), s.cm, s.info, path(v), r);
  const double beside = x < -0.75 ? -0.75 - x : x > 2.25 ? x - 2.25 : 0, far = beside * beside + off * off;
  if (far > 0.6 * 0.6 + 1e-3)
  {
    sx_check(!ok && s.p.getPreservedPath().poses.empty(), "nothing is kept when the robot is far from the path");
    sx_reach("far");
    return;
  }
  if (far > 0.6 * 0.6 - 1e-3)
    return;
  sx_check(ok, "the path is followed on");
  // the first pose that the robot has not passed
  int a = 0;
  while (a < n - 1 && v[a].x < x)
    ++a;
  bool tie = false;
  for (int i = 0; i < n; ++i)
    tie = tie | (ab(v[i].x - x) < 2e-3);
  if (tie)
    return;
  const double turn = ab(yaw) / s.c.ang_vel_, way = std::sqrt((v[a].x - x) * (v[a].x - x) + off * off), eta0 = turn > way ? turn : way;
  int b = n - 1;
  for (int i = a; i < n - 1; ++i)
  {
    const double eta = eta0 + (v[i].x - v[a].x);
    if (ab(eta - T) < 1e-3)
      return;
    if (eta > T && i % 2 == 0)
    {
      b = i;
      break;
    }
  }
  sx_check(r[0] == b / 2 && r[1] == 1 && r[2] == 0, "the plan starts in the first cell that is reached later, or at the end");
  sx_check(isKept(s.p.getPreservedPath(), v, a, b), "the path up to there is kept, from where the robot is");
  sx_check(ab(s.p.getPreservedPathLength() - (v[b].x - v[a].x)) < 1e-5, "its length");
  sx_reach(b == n - 1 ? "end" : "ahead");
}

// The part that is kept is free
extern "C" void h_free()
{
  Env s(8, 8, sx_param("T", 2) * 0.35, -1, 0);
  const int n = 13, cell = sx_param("cell", 2), row = sx_param("row", 1), ang = sx_param("ang", 0), cost = sx_int("cost", 0, 100);
  s.cm[V(cell, row, ang)] = cost;
  // along the heading of the path: ahead, to the left, back or to the right
  const int dir = sx_param("dir", 0), gone = sx_fork(sx_int("x", 1, 11));
  const double yaws[] = {0, M_PI / 2, M_PI, -M_PI / 2}, dx[] = {1, 0, -1, 0}, dy[] = {0, 1, 0, -1};
  std::vector<Pt> v;
  for (int i = 0; i < n; ++i)
    v.push_back(Pt{-0.75 + 1.5 * (dir != 0) + 1.5 * (dir == 2) + 0.25 * i * dx[dir], 0.75 + 3 * (dir == 3) + 0.25 * i * dy[dir], yaws[dir]});
  const double t = 0.25 * gone - 0.12;
  V r;
  const bool ok = s.p.process(pose(v[0].x + t * dx[dir], v[0].y + t * dy[dir], yaws[dir]), s.cm, s.info, path(v), r);
  bool in = false;
  for (const auto& p : s.p.getPreservedPath().poses)
    in = in | (static_cast<int>(std::floor((p.pose.position.x + 1) / 0.5)) == cell && static_cast<int>(std::floor(p.pose.position.y / 0.5)) == row && ang == dir);
  if (ok)
  {
    sx_check(!in || cost < 100, "no cell of the path that is kept is occupied");
    sx_reach("kept");
  }
  else
  {
    sx_check(cost == 100 && ang == dir, "the path is only given up for an obstacle on it");
    sx_check(s.p.getPreservedPath().poses.empty() && s.p.getPreservedPathLength() == 0, "then nothing is kept");
    sx_reach("given up");
  }
}

// Where the path turns over, the plan starts there, if the robot gets there in time
extern "C" void h_switch()
{
  const double T = sx_param("late", 0) ? 0.8 : 0.3;
  Env s(10, 4, T, -1, 0);
  const int m = sx_param("m", 5), grid = sx_param("grid", 1);
  std::vector<Pt> v;
  for (int i = 0; i < m; ++i)
    v.push_back(Pt{-0.75 + 0.5 * i, 0.75, 0});
  if (!grid)
    v.push_back(Pt{v.back().x + 0.2, 0.75, 0});
  const int top = v.size() - 1;
  for (int i = 1; i < 3; ++i)   // backwards to the side
    v.push_back(Pt{v[m - 1].x - 0.5 * i, 0.75 + 0.5 * i, 0});
  const double x = sx_f64("x", -0.74, 1.2);
  if (x > v[top].x - 0.01)
    return;
  V r;
  const bool ok = s.p.process(pose(x, 0.75, 0), s.cm, s.info, path(v), r);
  const double eta = v[top].x - x;
  if (ab(eta - 3) < 1e-3 || ab(eta - T) < 1e-3)
    return;
  for (const Pt& p : v)
    if (ab(p.x - x) < 2e-3 || ab(p.x - x - T) < 2e-3)
      return;
  sx_check(ok, "the path is followed on");
  const int cell = static_cast<int>(std::floor((v[top].x + 1) / 0.5));
  if (grid && eta > T && eta < 3)
  {
    sx_check(r[0] == cell && r[2] == 0, "the plan starts where the path turns over");
    sx_reach("switch");
  }
  if (eta < T)
  {
    sx_check(r[0] != cell || r[1] != 1, "not where the robot will have been");
    sx_reach("late");
  }
  bool on = false;
  for (const Pt& p : v)
    on = on | (r[0] == static_cast<int>(std::floor((p.x + 1) / 0.5)) && r[1] == static_cast<int>(std::floor(p.y / 0.5)));
  sx_check(on && r[2] == 0, "the start is on the path");
  sx_reach("done");
}

// A path beside the map, or one of another map: nothing outside of the map is read, and nothing beside it is kept
extern "C" void h_map()
{
  const int w = sx_param("w", 3), h = sx_param("h", 2);
  Env s(w, h, 1.05, 0, 0);
  const double sx[] = {0, -2, 1, 0, 0}, sy[] = {0, 0, 0, 3, -1.5};
  const int k = sx_param("k", 0);
  const std::vector<Pt> v = line(13, 0.25 + sx[k], 0.75 + sy[k]);
  const double x = sx_f64("x", 0.3, 2.9);
  V r;
  const bool ok = s.p.process(pose(x + sx[k], 0.75 + sy[k], 0), s.cm, s.info, path(v), r);
  if (ok)
  {
    sx_check(r[0] >= 0 && r[0] < w && r[1] >= 0 && r[1] < h, "the plan starts on the map");
    for (const auto& p : s.p.getPreservedPath().poses)
      sx_check(p.pose.position.x >= 0 && p.pose.position.x < 0.5 * w && p.pose.position.y >= 0 && p.pose.position.y < 0.5 * h, "no part of the path beside the map is kept");
  }
  sx_reach("map");
}

// Grid and metric positions are those of the middles of the cells
extern "C" void h_convert()
{
  const double res[] = {0.05, 0.1, 0.5, 0.03}, org[] = {0, -12.8, 3.33, 100.05};
  const int k = sx_param("k", 0), o = sx_param("o", 0);
  costmap_cspace_msgs::MapMetaData3D i;
  i.linear_resolution = res[k];
  i.angle = 16;
  i.angular_resolution = 2 * M_PI / 16;
  i.origin.position.x = org[o];
  i.origin.position.y = org[3 - o];
  const int axis = sx_param("axis", 0);
  int c[3] = {7, 3, 5};
  c[axis] = axis == 2 ? sx_int("yaw", -16, 32) : sx_int("cell", 0, 2000);
  float x, y, yaw;
  grid_metric_converter::grid2Metric(i, c[0], c[1], c[2], x, y, yaw);
  const double want[] = {(c[0] + 0.5) * res[k] + org[o], (c[1] + 0.5) * res[k] + org[3 - o], c[2] * 2 * M_PI / 16}, got[] = {x, y, yaw};
  sx_check(ab(got[axis] - want[axis]) < 1e-4, "the middle of the cell");
  int a, b, r;
  grid_metric_converter::metric2Grid(i, a, b, r, x, y, yaw);
  const int back[] = {a, b, r};
  sx_check(back[axis] == c[axis], "and back to the cell");
  sx_check(axis == 0 || a == 7, "the other axes are not touched");
  sx_reach("convert");
}
extern "C" void h_cell()
{
  costmap_cspace_msgs::MapMetaData3D i;
  i.linear_resolution = 0.5;
  i.angle = 4;
  i.angular_resolution = M_PI / 2;
  i.origin.position.x = -3;
  i.origin.position.y = 2;
  const int axis = sx_param("axis", 0);
  float p[3] = {0.1f, 0.2f, 0.3f};
  p[axis] = sx_f32("p", -20, 20);
  int g[3];
  grid_metric_converter::metric2Grid(i, g[0], g[1], g[2], p[0], p[1], p[2]);
  const double f = axis == 2 ? p[2] / (M_PI / 2) + 0.5 : (p[axis] - (axis == 0 ? -3.0 : 2.0)) / 0.5;
  sx_check((f >= g[axis] - 1e-4) & (f <= g[axis] + 1 + 1e-4), "the cell that holds the position");
  if (axis != 2)
    sx_check((f >= g[axis]) & (f < g[axis] + 1), "exactly");
  sx_reach("cell");
}
// A path of grid positions is appended as it is
extern "C" void h_append()
{
  costmap_cspace_msgs::MapMetaData3D i;
  i.linear_resolution = 0.25;
  i.angle = 8;
  i.angular_resolution = M_PI / 4;
  i.origin.position.x = -3;
  i.origin.position.y = 2;
  std::list<CyclicVecFloat<3, 2>> l;
  const float a = sx_f32("a", -20, 60);
  const int axis = sx_param("axis", 0);
  for (int k = 0; k < 3; ++k)
  {
    CyclicVecFloat<3, 2> f(1.5f + k, 2.25f - k, 1.0f * k);
    if (k == 1)
      f[axis] = axis == 2 ? a / 20 : a;
    l.push_back(f);
  }
  nav_msgs::Path m = path({{9, 9, 0}});
  grid_metric_converter::appendGridPath2MetricPath(i, l, m);
  sx_check(m.poses.size() == 4 && m.poses[0].pose.position.x == 9, "appended behind what there was");
  int k = 0;
  for (const auto& f : l)
  {
    const auto& p = m.poses[++k];
    sx_check(p.header.frame_id == "map", "the frame of the path");
    sx_check((ab(p.pose.position.x - ((f[0] + 0.5) * 0.25 - 3)) < 1e-4) & (ab(p.pose.position.y - ((f[1] + 0.5) * 0.25 + 2)) < 1e-4), "the position");
    const double h = f[2] * M_PI / 8;
    sx_check((ab(p.pose.orientation.z - std::sin(h)) < 1e-4) & (ab(p.pose.orientation.w - std::cos(h)) < 1e-4), "the heading");
  }
  sx_reach("append");
}
