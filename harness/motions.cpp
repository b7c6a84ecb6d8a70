// Motions of the planner: the cells a motion sweeps, what it costs, which motions are offered
#include "pre.h"
#define private public
#define protected public
#include <ros/ros.h>
#include <costmap_cspace_msgs/MapMetaData3D.h>
#include <planner_cspace/blockmem_gridmap.h>
#include <planner_cspace/planner_3d/grid_astar_model.h>
#include <planner_cspace/planner_3d/motion_primitive_builder.h>
#undef private
#undef protected
#include "sx.h"
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
typedef CyclicVecInt<3, 2> V;
typedef CyclicVecFloat<3, 2> F;
typedef std::vector<GridAstarModel3D::VecWithCost> VCs;
static double ab(double a) { return a < 0 ? -a : a; }
static bool near(double a, double b, double e) { return a == b || (a - b <= e && b - a <= e); }
static V iv(int x, int y, int z)
{
  V v;
  v[0] = x; v[1] = y; v[2] = z;
  return v;
}
// A map whose cells are all `base`, except one (possibly symbolic) cell; every access must be inside.
template <class T>
struct Map : public BlockMemGridmapBase<T, 3, 2>
{
  V size_;
  T base = 0, value = 0;
  V at;
  std::vector<T> row;   // values by heading, when set
  mutable T dummy_ = 0;
  mutable int reads = 0;
  explicit Map(const V& s) : size_(s), at(iv(-100, -100, 0)) {}
  const V& size() const override { return size_; }
  size_t ser_size() const override { return size_[0] * size_[1] * size_[2]; }
  void clear(const T) override {}
  void clear_partially(const T, const V&, const V&) override {}
  void copy_partially(const BlockMemGridmapBase<T, 3, 2>&, const V&, const V&) override {}
  void copy_partially(const V&, const BlockMemGridmapBase<T, 3, 2>&, const V&, const V&) override {}
  void reset(const V&) override {}
  T& operator[](const V&) override
  {
    sx_fail("the cost model does not write into the map");
    return dummy_;
  }
  const T operator[](const V& p) const override
  {
    ++reads;
    sx_check(p[0] >= 0 && p[0] < size_[0] && p[1] >= 0 && p[1] < size_[1] && p[2] >= 0 && p[2] < size_[2], "every cell looked up lies inside the map");
    const T b = row.empty() ? base : row[p[2]];
    return (p[0] == at[0]) & (p[1] == at[1]) & (p[2] == at[2]) ? value : b;
  }
  std::function<void(V, size_t&, size_t&)> getAddressor() const override
  {
    const V s = size_;
    return [s](V p, size_t& b, size_t& a)
    {
      b = 0;
      a = ((p[0] + 100) * 1000 + p[1] + 100) * s[2] + p[2];
    };
  }
  bool validate(const V&, const int = 0) const override { return true; }
};
struct Env
{
  int n, R, W;
  float lr, ares;
  costmap_cspace_msgs::MapMetaData3D info;
  Map<char> cm, hyst, rough;
  Map<float> estim;
  CostCoeff cc;
  F ec;
  std::shared_ptr<GridAstarModel3D> m;
  static V sz(int w, int n) { return iv(w, w, n); }
  Env(int n, int R, int W)
    : n(n), R(R), W(W), cm(sz(W, n)), hyst(sz(W, n)), rough(sz(W, 1)), estim(sz(W, 1))
  {
    lr = 0.1f;
    ares = 2 * M_PI / n;
    info.width = info.height = W;
    info.angle = n;
    info.linear_resolution = lr;
    info.angular_resolution = ares;
    cc.weight_decel_ = 50;
    cc.weight_backward_ = 0.9f;
    cc.weight_ang_vel_ = 1;
    cc.weight_costmap_ = 50;
    cc.weight_costmap_turn_ = 0;
    cc.weight_costmap_turn_heuristics_ = 0;
    cc.weight_remembered_ = 1000;
    cc.weight_hysteresis_ = 5;
    cc.in_place_turn_ = 30;
    cc.hysteresis_max_dist_ = 0.1f;
    cc.hysteresis_expand_ = 0.1f;
    cc.min_curve_radius_ = 0.1f;
    cc.max_vel_ = 0.3f;
    cc.max_ang_vel_ = 0.6f;
    cc.angle_resolution_aspect_ = 2 / std::tan(ares);
    cc.turn_penalty_cost_threshold_ = 0;
    // as the planner node sets them: distance in cells over speed, turning relative to it
    ec = F(lr / cc.max_vel_, lr / cc.max_vel_, 0.1f * ares / cc.max_ang_vel_);
  }
  void make(float interp = 0.5f)
  {
    m = std::make_shared<GridAstarModel3D>(info, ec, R * 2, estim, cm, hyst, rough, cc, R, interp, 0.1f);
  }
  // the motions offered around a start
  const std::vector<V>& prims(int yaw)
  {
    VCs ss;
    ss.emplace_back(iv(W / 2, W / 2, 0));
    return m->searchGrids(iv(W / 2, W / 2, yaw), ss, iv(0, 0, 0));
  }
};
// Independent geometry: a straight line, or a curve about the point where the lines across the two headings meet, along
// which heading and distance to that point change evenly.
struct Track
{
  static const int N = 64;
  double x[N + 1], y[N + 1], t[N + 1], len;
  Track(double yaw, int dx, int dy, double dyaw)
  {
    len = 0;
    const bool curve = ab(std::sin(dyaw)) > 1e-6;
    const double fx = std::cos(yaw) * dx + std::sin(yaw) * dy, fy = -std::sin(yaw) * dx + std::cos(yaw) * dy;
    const double re = curve ? fx / std::sin(dyaw) : 0, rs = fy + re * std::cos(dyaw);
    const double cx = -rs * std::sin(yaw), cy = rs * std::cos(yaw);
    for (int i = 0; i <= N; ++i)
    {
      const double u = i / static_cast<double>(N), r = rs + (re - rs) * u;
      t[i] = yaw + dyaw * u;
      x[i] = curve ? cx + r * std::sin(t[i]) : dx * u;
      y[i] = curve ? cy - r * std::cos(t[i]) : dy * u;
      if (i) len += std::sqrt((x[i] - x[i - 1]) * (x[i] - x[i - 1]) + (y[i] - y[i - 1]) * (y[i] - y[i - 1]));
    }
  }
};
static int shortest(int d, int n)
{
  d = ((d % n) + n) % n;
  return d > n / 2 ? d - n : d;
}
static const int BX = 17;   // box of offsets -8..8
struct Swept
{
  std::vector<char> must, may;   // by (dx + 8, dy + 8, yaw)
  int n;
  int id(int x, int y, int t) const { return ((x + 8) * BX + y + 8) * n + t; }
  Swept(const Env& e, int yaw, const V& d)
    : must(BX * BX * e.n), may(BX * BX * e.n), n(e.n)
  {
    const int dt = shortest(d[2], n);
    const double tol = sx_param("tol", 10) / 100.0;
    if (d[0] == 0 && d[1] == 0)
    {
      const int s = dt < 0 ? -1 : 1;
      for (int i = 0; i <= s * dt; ++i)
      {
        must[id(0, 0, (yaw + s * i + n) % n)] = 2 * dt != n || i == 0 || i == dt;
        may[id(0, 0, (yaw + s * i + n) % n)] = 1;
      }
      if (2 * dt == n)
        for (int i = 0; i < n; ++i)
          may[id(0, 0, i)] = 1;   // half a turn may be made either way
      return;
    }
    const Track k(yaw * 2 * M_PI / n, d[0], d[1], dt * 2 * M_PI / n);
    const double sc = n / (2 * M_PI);
    for (int i = 0; i <= Track::N; ++i)
    {
      const double t = k.t[i] * sc;
      for (int a = -1; a <= 1; ++a)
        for (int b = -1; b <= 1; ++b)
          for (int c = -1; c <= 1; ++c)
          {
            const double cx = std::floor(k.x[i] + 0.5) + a, cy = std::floor(k.y[i] + 0.5) + b, ct = std::floor(t + 0.5) + c;
            const double ex = ab(k.x[i] - cx), ey = ab(k.y[i] - cy), et = ab(t - ct);
            if (cx < -8 || cx > 8 || cy < -8 || cy > 8) continue;
            const int q = id(static_cast<int>(cx), static_cast<int>(cy), ((static_cast<int>(ct) % n) + n) % n);
            const double mm = 0.5 - tol, xm = 0.5 + tol;
            if (ex < mm && ey < mm && et < 0.4) must[q] = 1;
            if (ex < xm && ey < xm && et < 0.6) may[q] = 1;
          }
    }
  }
};
static V pick(Env& e, int yaw)
{
  const std::vector<V>& ps = e.prims(yaw);
  const int p0 = sx_param("p0", 0), p1 = sx_param("p1", 1000);
  const int hi = static_cast<int>(ps.size()) - 1;
  if (p0 > hi) sx_end();
  const int k = sx_fork(sx_int("motion", p0, p1 < hi ? p1 : hi));
  V d = ps[k];
  d[2] = shortest(d[2], e.n);
  return d;
}
static V step(const V& cur, const V& d, int n)
{
  V p = cur + d;
  p.cycleUnsigned(n);
  return p;
}
// A motion is refused exactly when something stands on a cell that the robot passes.
extern "C" void h_swept()
{
  const int n = sx_param("n", 8), R = sx_param("range", 3), W = 4 * R + 3, yaw = sx_param("yaw", 0);
  Env e(n, R, W);
  e.make();
  const V d = pick(e, yaw);
  const Swept s(e, yaw, d);
  const V cur = iv(W / 2, W / 2, yaw), next = step(cur, d, n);
  e.cm.base = sx_param("base", 0);
  const int bx = sx_fork(sx_int("obstacle_x", -R - 1, R + 1)), by = sx_int("obstacle_y", -R - 1, R + 1), bt = sx_int("obstacle_heading", 0, n - 1);
  e.cm.at = iv(W / 2 + bx, W / 2 + by, bt);
  const int bv = sx_int("obstacle_cost", 0, 127);
  e.cm.value = bv;
  const float c = e.m->cost(cur, next, VCs(), next);
  const int q = s.id(bx, by, bt);
  const bool must = s.must[q], may = s.may[q];
  if (c < 0)
  {
    sx_check(bv > 99, "a motion is refused only because of an obstacle");
    sx_check(may, "a motion is refused only because of a cell on its way");
    sx_reach("refused");
  }
  else
  {
    sx_check(bv <= 99 || !must, "a motion is refused when the robot would pass an obstacle");
    sx_reach("allowed");
  }
}
// Every cell that is looked up lies inside the map, wherever the motion starts; a motion well inside is not refused.
extern "C" void h_border()
{
  const int n = sx_param("n", 8), R = sx_param("range", 3), W = 2 * R + 3, yaw = sx_param("yaw", 0);
  Env e(n, R, W);
  e.make();
  const V d = pick(e, yaw);
  const int x = sx_int("x", 0, W - 1), y = sx_int("y", 0, W - 1);
  sx_assume(x + d[0] >= 0 && x + d[0] < W && y + d[1] >= 0 && y + d[1] < W);
  const V cur = iv(x, y, yaw), next = step(cur, d, n);
  e.cm.base = 10;
  const float c = e.m->cost(cur, next, VCs(), next);
  if (c < 0)
  {
    sx_check(x < R || y < R || x >= W - R || y >= W - R, "a motion away from the border of the map is not refused");
    sx_check(d[2] != 0 && (d[0] != 0 || d[1] != 0), "only curves are refused near the border");
    sx_reach("refused");
  }
  else
    sx_reach("allowed");
}
// What a motion costs in a map of one cost, and by how much a cost map makes it dearer
extern "C" void h_price()
{
  const int n = sx_param("n", 8), R = sx_param("range", 3), W = 4 * R + 3, yaw = sx_param("yaw", 0), kind = sx_param("kind", 0);
  Env e(n, R, W);
  e.cc.weight_costmap_turn_ = kind >= 1 ? 13 : 0;
  e.cc.weight_costmap_turn_heuristics_ = kind == 2 ? 7 : 0;
  e.cc.turn_penalty_cost_threshold_ = kind == 2 ? 30 : 0;
  e.make();
  const V d = pick(e, yaw);
  const int dt = shortest(d[2], n), at = dt < 0 ? -dt : dt;
  const V cur = iv(W / 2, W / 2, yaw), next = step(cur, d, n);
  const Track k(yaw * 2 * M_PI / n, d[0], d[1], dt * 2 * M_PI / n);
  const double euclid = std::sqrt(static_cast<double>(d[0] * d[0] + d[1] * d[1])) * e.ec[0];
  const bool turn = d[0] == 0 && d[1] == 0;
  e.cm.base = 0;
  const double free = e.m->cost(cur, next, VCs(), next);
  const double fwd = std::cos(yaw * 2 * M_PI / n) * d[0] + std::sin(yaw * 2 * M_PI / n) * d[1];
  sx_check(near(e.m->euclidCost(d), euclid + at * e.ec[2], 1e-4), "the lower bound of a motion is its length and turning angle");
  if (turn)
    sx_check(near(free, at * e.ec[2] + e.cc.in_place_turn_, 1e-3), "turning on the spot costs the angle and a fixed amount");
  else
  {
    const double f = fwd < 0 ? 1 + e.cc.weight_backward_ : 1;
    const double base = f * (euclid + at * e.ec[2]);
    sx_check(free >= base - 1e-4, "a motion costs at least its length and turning angle, more when backward");
    if (at == 0)
      sx_check(free <= base + 0.5 * e.ec[2] + 1e-4, "a straight motion in free space costs little more than its length");
    else
    {
      // slow-down in a curve narrower than the limits allow
      const double r = k.len * e.lr / (at * 2 * M_PI / n);
      const double slow = r < e.cc.max_vel_ / e.cc.max_ang_vel_ ? k.len * e.lr * (r * e.cc.max_ang_vel_ / e.cc.max_vel_) * e.cc.weight_decel_ : 0;
      const double lo = r < 0.8 * e.cc.max_vel_ / e.cc.max_ang_vel_ ? 0.5 * slow : 0;
      const double hi = r < 1.25 * e.cc.max_vel_ / e.cc.max_ang_vel_ ? 2 * k.len * e.lr * (r * e.cc.max_ang_vel_ / e.cc.max_vel_) * e.cc.weight_decel_ : 0;
      sx_check(free >= base + lo - 1e-3 && free <= base + hi + 1e-3, "a curve costs extra exactly when the robot has to slow down");
    }
  }
  const int c = sx_int("cost_of_every_cell", 0, 99);
  e.cm.base = c;
  const double dear = e.m->cost(cur, next, VCs(), next);
  double want = free;
  const bool on = c >= e.cc.turn_penalty_cost_threshold_;
  const double ang = at * 2 * M_PI / n;
  if (turn)
    want += on ? c * ang * (e.cc.weight_costmap_turn_ + e.cc.weight_costmap_turn_heuristics_ * e.ec[2] / e.ec[0]) / 100.0 : 0;
  else
  {
    want += c * e.lr * k.len * e.cc.weight_costmap_ / 100.0;
    if (at) want += on ? c * ang * e.cc.weight_costmap_turn_ / 100.0 : 0;
  }
  const double slack = turn ? 0 : c * e.lr * k.len * e.cc.weight_costmap_ / 100.0 * 0.05;
  sx_check(dear >= want - slack - 1e-3 && dear <= want + slack + 1e-3, "a cost map makes a motion dearer in proportion to cost and length");
  sx_reach("price");
}
// A dearer cell never makes a motion cheaper.
extern "C" void h_monotone()
{
  const int n = sx_param("n", 8), R = sx_param("range", 3), W = 4 * R + 3, yaw = sx_param("yaw", 0);
  Env e(n, R, W);
  e.cc.weight_costmap_turn_ = 13;
  e.cc.turn_penalty_cost_threshold_ = sx_param("threshold", 0);
  e.make();
  const V d = pick(e, yaw);
  const V cur = iv(W / 2, W / 2, yaw), next = step(cur, d, n);
  e.cm.base = 40;
  const int which = sx_param("hyst", 0);
  if (which) e.m->enableHysteresis(true);
  const int c1 = sx_int("cost", 0, 99), more = sx_int("more", 0, 99);
  sx_assume(c1 + more <= 99);
  const int where = sx_fork(sx_int("where", 0, Track::N / 8));
  const int dt = shortest(d[2], n);
  const Track k(yaw * 2 * M_PI / n, d[0], d[1], dt * 2 * M_PI / n);
  const int i = where * 8;
  int t = static_cast<int>(std::floor(k.t[i] * n / (2 * M_PI) + 0.5));
  t = ((t % n) + n) % n;
  Map<char>& m = which ? e.hyst : e.cm;
  m.at = iv(W / 2 + static_cast<int>(std::floor(k.x[i] + 0.5)), W / 2 + static_cast<int>(std::floor(k.y[i] + 0.5)), t);
  m.value = 0;
  const double f0 = e.m->cost(cur, next, VCs(), next);
  m.value = 99;
  const double f99 = e.m->cost(cur, next, VCs(), next);
  m.value = c1;
  const float a = e.m->cost(cur, next, VCs(), next);
  m.value = c1 + more;
  const float b = e.m->cost(cur, next, VCs(), next);
  sx_check(a >= 0 && b >= 0, "no obstacle, no refusal");
  sx_check(a <= b, "a dearer cell never makes a motion cheaper");
  const bool end = m.at == next;
  if (which == 0 && e.cc.turn_penalty_cost_threshold_ == 0)
  {
    const double slope = (f99 - f0) / 99;
    const bool turn = d[0] == 0 && d[1] == 0;
    const Swept s(e, yaw, d);
    const bool must = s.must[s.id(m.at[0] - W / 2, m.at[1] - W / 2, t)];
    if (must && !end && !(turn && 2 * dt == n))
      sx_check(slope > 1e-5, "the cost of every cell on the way counts");
    sx_check(near(static_cast<double>(b) - a, more * slope, 1e-3), "the cost of a cell counts in proportion");
  }
  sx_check(a >= e.m->euclidCost(d) - 1e-4f, "no motion is cheaper than its lower bound");
  sx_reach("monotone");
}
// The motions offered: drivable, within the limits, and the same from every heading
extern "C" void h_offered()
{
  const int n = sx_param("n", 16), R = sx_param("range", 4), W = 4 * R + 3, yaw = sx_param("yaw", 0);
  costmap_cspace_msgs::MapMetaData3D info;
  info.width = info.height = W;
  info.angle = n;
  info.linear_resolution = 0.1f;
  info.angular_resolution = 2 * M_PI / n;
  CostCoeff cc;
  const int sym = sx_param("sym", 0);
  cc.min_curve_radius_ = sym == 0 ? sx_f32("smallest_radius", 0, 2) : 0.1f;
  cc.angle_resolution_aspect_ = sym == 1 ? sx_f32("aspect", 0, 20) : 2.05f;
  const std::vector<std::vector<V>> all = MotionPrimitiveBuilder::build(info, cc, R);
  sx_check(static_cast<int>(all.size()) == n, "there is a list of motions for every heading");
  int turns = 0, straight = 0;
  for (const V& p : all[yaw])
  {
    const int dt = shortest(p[2], n), at = dt < 0 ? -dt : dt;
    const double th = yaw * 2 * M_PI / n, ang = dt * 2 * M_PI / n;
    const double x = std::cos(th) * p[0] + std::sin(th) * p[1], y = -std::sin(th) * p[0] + std::cos(th) * p[1];
    sx_check(p[0] * p[0] + p[1] * p[1] <= R * R, "a motion stays within the range");
    if (p[0] == 0 && p[1] == 0)
    {
      sx_check(dt != 0, "staying is no motion");
      ++turns;
      continue;
    }
    sx_check(ab(ang) < M_PI / 2, "a motion turns by less than a quarter turn");
    sx_check(ab(x) > 0.49, "the robot does not move sideways");
    if (dt == 0)
    {
      sx_check(ab(x) >= ab(y) * cc.angle_resolution_aspect_ - 1e-3, "a straight motion follows the heading");
      ++straight;
      continue;
    }
    const Track k(th, p[0], p[1], ang);
    sx_check(x * y * ang > -1e-6, "a curve bends to the side it turns to");
    sx_check(k.len * 0.1 / ab(ang) >= cc.min_curve_radius_ * 0.8, "a curve is not narrower than allowed");
  }
  sx_check(turns == n - 1, "the robot can turn to every other heading on the spot");
  if (yaw % (n / 8) == 0 && sym == 0)
    sx_check(straight >= 2, "the robot can drive straight ahead and back along the axes and diagonals");
  // a quarter turn of everything
  const int q = (yaw + n / 4) % n;
  for (const V& p : all[yaw])
  {
    bool found = false;
    for (const V& o : all[q])
      found = found || (o[0] == -p[1] && o[1] == p[0] && o[2] == p[2]);
    const double th = yaw * 2 * M_PI / n, x = std::cos(th) * p[0] + std::sin(th) * p[1], y = -std::sin(th) * p[0] + std::cos(th) * p[1];
    const bool tie = ab(ab(y) - 0.5) < 1e-4 || ab(ab(x) - 0.5) < 1e-4;
    if (!tie && sym == 2) sx_check(found, "what is offered does not depend on which way north is");
  }
  sx_reach("offered");
}
// the search list near and away from the start
extern "C" void h_grids()
{
  const int n = 8, R = sx_param("range", 3), W = 40;
  Env e(n, R, W);
  e.make();
  VCs ss;
  const int sx = sx_int("start_x", 0, W - 1), sy = sx_int("start_y", 0, W - 1);
  ss.emplace_back(iv(0, 39, 0));
  ss.emplace_back(iv(sx, sy, 3));
  const int px = sx_int("x", 0, W - 1), py = sx_int("y", 0, W - 1), pt = sx_fork(sx_int("heading", 0, n - 1));
  const std::vector<V>* l = &e.m->searchGrids(iv(px, py, pt), ss, iv(1, 1, 1));
  const int lr = R * 2, d1 = (px - sx) * (px - sx) + (py - sy) * (py - sy), d0 = px * px + (py - 39) * (py - 39);
  const bool fine = l == &e.m->motion_primitives_[pt];
  sx_check(fine == (d1 < lr * lr || d0 < lr * lr), "fine motions within the local range of a start, coarse ones elsewhere");
  sx_check(fine || l == &e.m->search_list_rough_, "fine motions within the local range of a start, coarse ones elsewhere");
  sx_reach("grids");
}
// the estimate of the remaining cost
extern "C" void h_estimate()
{
  const int n = sx_param("n", 8), R = 1, W = 9;
  Env e(n, R, W);
  e.make();
  const float v = sx_f32("distance", 0, 1e6f);
  e.estim.at = iv(4, 5, 0);
  e.estim.value = sx_param("inf", 0) ? std::numeric_limits<float>::max() : v;
  e.estim.base = 7;
  const int a = sx_fork(sx_int("heading", 0, n - 1)), b = sx_fork(sx_int("goal_heading", 0, n - 1));
  const float c = e.m->costEstim(iv(4, 5, a), iv(1, 1, b));
  if (sx_param("inf", 0))
    sx_check(c == std::numeric_limits<float>::max(), "nothing is estimated for an unreachable cell");
  else
  {
    int d = a - b < 0 ? b - a : a - b;
    if (d > n - d) d = n - d;
    const double w = v + static_cast<double>(e.ec[2]) * d;
    sx_check(near(c, w, 1e-4 * w), "the estimate is the distance plus the remaining turn");
  }
  sx_reach("estimate");
}
extern "C" void h_bound()
{
  const int n = sx_param("n", 8);
  Env e(n, 1, 9);
  e.make();
  const int gx = sx_fork(sx_int("dx", -40, 40)), gt = sx_int("turn", -3 * n, 3 * n);
  const float u = e.m->euclidCost(iv(gx, 0, gt));
  const int s = shortest(gt, n);
  const double w = static_cast<double>(e.ec[0]) * (gx < 0 ? -gx : gx) + static_cast<double>(e.ec[2]) * (s < 0 ? -s : s);
  sx_check(near(u, w, 1e-4), "the lower bound of a motion is its length and shortest turn");
  sx_reach("bound");
}
// the coarse model: same rules without headings, and an estimate that never exceeds the cost
extern "C" void h_rough()
{
  const int n = 4, R = sx_param("range", 3), W = 4 * R + 3;
  Env e(n, R, W);
  e.make();
  const GridAstarModel2D m(e.m);
  const std::vector<V>& l = m.searchGrids(iv(1, 1, 0), VCs(), iv(0, 0, 0));
  const int p0 = sx_param("p0", 0), p1 = sx_param("p1", 1000), hi = static_cast<int>(l.size()) - 1;
  if (p0 > hi) sx_end();
  const V d = l[sx_fork(sx_int("motion", p0, p1 < hi ? p1 : hi))];
  if (d[0] == 0 && d[1] == 0) sx_end();
  const Swept s(e, 0, d);
  const V cur = iv(W / 2, W / 2, 0), next = step(cur, d, n);
  const int base = sx_param("base", 30);
  e.rough.base = base;
  const int bx = sx_fork(sx_int("obstacle_x", -R - 1, R + 1)), by = sx_int("obstacle_y", -R - 1, R + 1);
  const int bv = sx_int("obstacle_cost", 0, 127);
  e.rough.at = iv(W / 2 + bx, W / 2 + by, 0);
  e.rough.value = bv;
  const float c = m.cost(cur, next, VCs(), next);
  // the goal cell itself is checked by the caller
  const int q = s.id(bx, by, 0);
  const bool goal = bx == d[0] && by == d[1];
  const bool must = s.must[q] && !goal, may = s.may[q];
  if (c < 0)
  {
    sx_check(bv > 99 && may, "a coarse motion is refused only because of an obstacle on its way");
    sx_reach("refused");
  }
  else
  {
    sx_check(bv <= 99 || !must, "a coarse motion is refused when it crosses an obstacle");
    const double len = std::sqrt(static_cast<double>(d[0] * d[0] + d[1] * d[1]));
    sx_check(c >= e.ec[0] * len - 1e-4, "a coarse motion costs at least its length");
    const double k = len * e.lr * e.cc.weight_costmap_ / 100;
    if (!may)
      sx_check(near(c, e.ec[0] * len + base * k, 1e-3), "a coarse motion costs its length and the cost of the cells it crosses");
    else
    {
      const int b = bv > base ? bv : base, a = bv < base ? bv : base;
      sx_check(c >= e.ec[0] * len + a * k - 1e-3 && c <= e.ec[0] * len + b * k + 1e-3, "a coarse motion costs its length and the cost of the cells it crosses");
    }
    sx_reach("allowed");
  }
}
extern "C" void h_consistent()
{
  const int n = 4, R = sx_param("range", 3), W = 60;
  Env e(n, R, W);
  e.make();
  const GridAstarModel2D m(e.m);
  const std::vector<V>& l = m.searchGrids(iv(1, 1, 0), VCs(), iv(0, 0, 0));
  const V d = l[sx_fork(sx_int("motion", 0, static_cast<int>(l.size()) - 1))];
  if (d[0] == 0 && d[1] == 0) sx_end();
  const V cur = iv(25, 30, 0), next = cur + d;
  const int gy = sx_param("gy", 30);
  const V goal = iv(sx_fork(sx_int("goal_x", 25 - sx_param("w", 24), 25 + sx_param("w", 24))), gy, 0);
  e.rough.base = 0;
  const float c = m.cost(cur, next, VCs(), goal);
  const float a = m.costEstim(cur, goal), b = m.costEstim(next, goal);
  sx_check(a <= c + b + 1e-4f, "the estimate never exceeds a motion plus the estimate from its end");
  sx_check(m.costEstim(goal, goal) == 0, "nothing remains at the goal");
  sx_check(c >= 0, "free space is passable");
  sx_check(a >= 0, "the estimate is not negative");
  sx_reach("consistent");
}
// lookups in the table of motions
extern "C" void h_find()
{
  const int n = 4, R = 2;
  MotionCache mc;
  Map<char> g(iv(9, 9, n));
  mc.reset(0.1f, 2 * M_PI / n, R, g.getAddressor(), 0.5f, 0.1f);
  const int yaw = sx_fork(sx_int("heading", -2 * n, 2 * n));
  const int fx = sx_int("x", -1000, 1000), fy = sx_int("y", -1000, 1000);
  const int dx = sx_fork(sx_int("dx", -R - 1, R + 1)), dy = sx_fork(sx_int("dy", -R - 1, R + 1)), t = sx_fork(sx_int("end_heading", 0, n - 1));
  const auto it = mc.find(iv(fx, fy, yaw), iv(fx + dx, fy + dy, t));
  const int y = sx_fork(((yaw % n) + n) % n);
  const auto& page = mc.cache_[y];
  const bool in = dx * dx + dy * dy <= R * R && (dx != 0 || dy != 0);
  if (in)
  {
    sx_check(it != mc.end(yaw), "every motion within the range is in the table");
    sx_check(it == page.find(iv(dx, dy, t)), "a motion is found wherever it starts and however its heading is counted");
    sx_check(it->first == iv(dx, dy, t), "a motion is found wherever it starts and however its heading is counted");
    sx_check(it->second.getDistance() >= std::sqrt(static_cast<double>(dx * dx + dy * dy)) - 1e-4, "no motion is shorter than the way");
    const std::vector<V>& m = it->second.getMotion();
    for (size_t i = 0; i < m.size(); ++i)
    {
      sx_check(m[i] != iv(dx, dy, t), "the end itself is not among the cells on the way");
      for (size_t j = 0; j < i; ++j)
        sx_check(m[i] != m[j], "no cell on the way is counted twice");
    }
    sx_reach("found");
  }
  else
  {
    sx_check(it == page.end() && it == mc.end(yaw), "there is no motion beyond the range");
    sx_reach("not found");
  }
}
// the path that is sent out follows the motions
extern "C" void h_path()
{
  const int n = sx_param("n", 8), R = sx_param("range", 3), W = 4 * R + 3, yaw = sx_param("yaw", 0);
  Env e(n, R, W);
  const double ir = 0.5;
  e.make(ir);
  std::list<V> g;
  const int ox = sx_param("ox", 5), oy = sx_param("oy", -3);
  V p = iv(ox, oy, yaw);
  g.push_back(p);
  std::vector<V> ds;
  V d = pick(e, yaw);
  ds.push_back(d);
  p = step(p, d, n);
  g.push_back(p);
  if (sx_param("steps", 1) > 1)
  {
    const std::vector<V>& ps = e.prims(p[2]);
    const int k = sx_fork(sx_int("second_motion", 0, static_cast<int>(ps.size()) - 1));
    d = ps[k];
    d[2] = shortest(d[2], n);
    ds.push_back(d);
    p = step(p, d, n);
    g.push_back(p);
  }
  const std::list<F> path = e.m->interpolatePath(g);
  sx_check(!path.empty(), "a path is sent out as it was found");
  const F f = path.front(), b = path.back();
  sx_check(f[0] == ox && f[1] == oy && near(f[2], yaw, 1e-4), "the path begins at its first node");
  sx_check(b[0] == p[0] && b[1] == p[1] && b[2] == p[2], "the path ends at its last node");
  // each point lies on the track of its motion, in order
  double at = 0;
  size_t m = 0;
  double lx = ox, ly = oy;
  V from = iv(ox, oy, yaw);
  for (const F& q : path)
  {
    const double st = std::sqrt((q[0] - lx) * (q[0] - lx) + (q[1] - ly) * (q[1] - ly));
    sx_check(st <= ir * 2 + 0.2, "the path has no gaps");
    at += st;
    lx = q[0];
    ly = q[1];
    // some motion of the path passes here with this heading
    bool on = false;
    V s = iv(ox, oy, yaw);
    for (const V& dd : ds)
    {
      const Track k(s[2] * 2 * M_PI / n, dd[0], dd[1], dd[2] * 2 * M_PI / n);
      for (int i = 0; i <= Track::N; ++i)
      {
        const double ex = s[0] + k.x[i] - q[0], ey = s[1] + k.y[i] - q[1];
        const double et = k.t[i] - q[2] * 2 * M_PI / n;
        on = on || (ex * ex + ey * ey <= 0.06 && std::cos(et) > 0.98);
      }
      s = step(s, dd, n);
    }
    sx_check(on, "every point of the path lies on one of its motions, with the heading of the robot there");
    (void)m;
  }
  
  double len = 0;
  V s = iv(ox, oy, yaw);
  for (const V& dd : ds)
  {
    len += Track(s[2] * 2 * M_PI / n, dd[0], dd[1], dd[2] * 2 * M_PI / n).len;
    s = step(s, dd, n);
  }
  sx_check(near(at, len, 0.05 * len + 0.01), "the path is as long as its motions");
  sx_reach("path");
}
