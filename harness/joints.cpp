// Motions of the two-joint planner
#include "pre.h"
#define private public
#define protected public
#include <planner_cspace/planner_2dof_serial_joints/grid_astar_model.h>
#include <planner_cspace/grid_astar.h>
#undef private
#undef protected
#include "sx.h"
using namespace planner_cspace;
using namespace planner_cspace::planner_2dof_serial_joints;
typedef GridAstarModel2DoFSerialJoint M;
typedef M::Vec V;
typedef M::VecWithCost VC;
static V vec(int x, int y)
{
  V v;
  v[0] = x; v[1] = y;
  return v;
}
static M::Vecf vecf(float x, float y)
{
  M::Vecf v;
  v[0] = x; v[1] = y;
  return v;
}
static int mod(int a, int n) { return ((a % n) + n) % n; }
// rounds half away from zero, like the joint positions
static int rnd(int num, int den)
{
  return num >= 0 ? (2 * num + den) / (2 * den) : -((2 * -num + den) / (2 * den));
}
// cost of one motion against the cells swept by it
extern "C" void h_cost()
{
  const int res = sx_param("res", 6), R = sx_param("range", 2);
  BlockMemGridmap<char, 2, 0> cm(vec(res, res));
  CostCoeff cc;
  cc.weight_cost_ = sx_f32("weight", 0, 10);
  cc.expand_ = 0;
  const float k0 = sx_f32("coef0", 0.01f, 10), k1 = sx_f32("coef1", 0.01f, 10);
  int c[8][8];
  for (int i = 0; i < res; ++i)
    for (int j = 0; j < res; ++j) c[i][j] = 0;
  const int d0 = sx_fork(sx_int("d0", sx_param("a", -R), sx_param("b", R))), d1 = sx_fork(sx_int("d1", -R, R));
  const int x = sx_fork(sx_int("x", 0, 2 * res - 1)), y = sx_fork(sx_int("y", sx_param("y0", 0), sx_param("y1", 2 * res - 1)));
  const int nx = mod(x + d0, 2 * res), ny = mod(y + d1, 2 * res);
  // the cells around the motion are arbitrary
  for (int i = -R; i <= R; ++i)
    for (int j = -R; j <= R; ++j)
    {
      const int p = mod(x + i, res), q = mod(y + j, res);
      if (c[p][q]) continue;
      c[p][q] = sx_int("cell", 0, 100);
    }
  for (int i = 0; i < res; ++i)
    for (int j = 0; j < res; ++j) cm[vec(i, j)] = c[i][j];
  M m(vecf(k0, k1), res, cm, cc, R);
  std::vector<VC> ss;
  const float r = m.cost(vec(x, y), vec(nx, ny), ss, vec(0, 0));
  const int n = static_cast<int>(std::sqrt(static_cast<float>(d0 * d0 + d1 * d1)));
  int blocked = 0, sum = 0;
  for (int i = 0; i < n; ++i)
  {
    const int p = mod(rnd(x * n + i * d0, n), res), q = mod(rnd(y * n + i * d1, n), res);
    blocked |= c[p][q] > 99;
    sum += c[p][q];
  }
  sx_check((r < 0) == (blocked != 0), "a motion is refused exactly when it sweeps an occupied cell");
  if (r < 0) { sx_check(r == -1, "refused motions cost -1"); sx_reach("blocked"); return; }
  const float euclid = k0 * (d0 < 0 ? -d0 : d0) + k1 * (d1 < 0 ? -d1 : d1);
  sx_check(r >= euclid * 0.99999f, "a motion costs at least the weighted joint distance");
  if (sx_param("exact", 0))
  {
    const float want = euclid + sum * cc.weight_cost_ / 100.0f;
    sx_check(r - want <= 0.01f && want - r <= 0.01f, "swept cells add their weighted cost");
  }
  sx_reach("free");
}
// fixed weights: the exact cost
extern "C" void h_exact()
{
  const int res = sx_param("res", 6), R = 2;
  BlockMemGridmap<char, 2, 0> cm(vec(res, res));
  CostCoeff cc;
  cc.weight_cost_ = 50;
  cc.expand_ = 0;
  const int d0 = sx_fork(sx_int("d0", -R, R)), d1 = sx_fork(sx_int("d1", -R, R));
  const int x = 2 + sx_param("x", 0), y = 2;
  int c[8][8];
  for (int i = 0; i < res; ++i)
    for (int j = 0; j < res; ++j)
    {
      c[i][j] = sx_int("cell", 0, 99);
      cm[vec(i, j)] = c[i][j];
    }
  M m(vecf(2, 0.5f), res, cm, cc, R);
  std::vector<VC> ss;
  const float r = m.cost(vec(x, y), vec(x + d0, y + d1), ss, vec(0, 0));
  const int n = static_cast<int>(std::sqrt(static_cast<float>(d0 * d0 + d1 * d1)));
  int sum = 0;
  for (int i = 0; i < n; ++i) sum += c[mod(rnd(x * n + i * d0, n), res)][mod(rnd(y * n + i * d1, n), res)];
  const int a0 = d0 < 0 ? -d0 : d0, a1 = d1 < 0 ? -d1 : d1;
  // euclid = 2 * a0 + a1 / 2, swept = sum / 2
  sx_check(2 * r == static_cast<float>(4 * a0 + a1 + sum), "swept cells add their weighted cost");
  sx_reach("exact");
}
// the estimate never exceeds a motion plus the estimate after it (motions that do not pass the end of the joint range)
extern "C" void h_estimate()
{
  const int res = sx_param("res", 180), R = sx_param("range", 8);
  BlockMemGridmap<char, 2, 0> cm(vec(1, 1));
  CostCoeff cc;
  cc.weight_cost_ = 1;
  cc.expand_ = 0;
  const float k0 = 2, k1 = 0.5f;
  M m(vecf(k0, k1), res, cm, cc, R);
  const int x = sx_int("x", 0, 2 * res - 1), y = sx_int("y", 0, 2 * res - 1), gx = sx_int("gx", 0, 2 * res - 1), gy = sx_int("gy", 0, 2 * res - 1);
  const int d0 = sx_int("d0", -R, R), d1 = sx_int("d1", -R, R);
  sx_assume(0 <= x + d0 && x + d0 < 2 * res && 0 <= y + d1 && y + d1 < 2 * res);
  const float a = m.costEstim(vec(x, y), vec(gx, gy)), b = m.costEstim(vec(x + d0, y + d1), vec(gx, gy)), e = m.euclidCost(vec(d0, d1));
  sx_check(a >= 0 && b >= 0, "estimates are not negative");
  sx_check(a <= e + b, "estimates do not exceed the cost of a motion plus the estimate after it");
  sx_check(!(x == gx && y == gy) || a == 0, "the estimate at the goal is zero");
  sx_check(!(x != gx || y != gy) || a > 0, "the estimate away from the goal is positive");
  sx_reach("estimate");
}
// positions out of the joint range are refused; the motion list is the whole neighbourhood
extern "C" void h_range()
{
  const int res = 4, R = sx_fork(sx_int("range", 0, 3));
  BlockMemGridmap<char, 2, 0> cm(vec(res, res));
  cm.clear(0);
  CostCoeff cc;
  cc.weight_cost_ = 1;
  cc.expand_ = 0;
  M m(vecf(1, 1), res, cm, cc, R);
  std::vector<VC> ss;
  const int x = sx_int("x", -20, 20), y = sx_int("y", -20, 20);
  if (x < 0 || x >= 2 * res || y < 0 || y >= 2 * res)
  {
    sx_check(m.cost(vec(0, 0), vec(x, y), ss, vec(0, 0)) < 0, "positions out of the joint range are refused");
    sx_reach("out");
  }
  const std::vector<V>& l = m.searchGrids(vec(0, 0), ss, vec(0, 0));
  const int a = sx_int("a", -R, R), b = sx_int("b", -R, R);
  int n = 0;
  for (const V& v : l) n += (v[0] == a) & (v[1] == b);
  sx_check(n == 1, "every motion within the range is tried once");
  sx_check(l.size() == static_cast<size_t>((2 * R + 1) * (2 * R + 1)), "no other motion is tried");
  sx_reach("list");
}
// whole plan: every step of a found path keeps out of occupied cells
extern "C" void h_plan()
{
  const int res = sx_param("res", 2);
  BlockMemGridmap<char, 2, 0> cm(vec(res, res));
  int c[4][4];
  for (int i = 0; i < res; ++i)
    for (int j = 0; j < res; ++j)
    {
      c[i][j] = sx_bool("occupied") ? 100 : 0;
      cm[vec(i, j)] = c[i][j];
    }
  CostCoeff cc;
  cc.weight_cost_ = 0;
  cc.expand_ = 0;
  std::shared_ptr<M> m(new M(vecf(1, 1), res, cm, cc, 1));
  GridAstar<2, 0> as(vec(2 * res, 2 * res));
  as.setSearchTaskNum(1);
  std::list<V> path;
  std::vector<VC> ss;
  ss.emplace_back(vec(0, 0));
  const bool ok = as.search(ss, vec(res, res - 1), path, m, [](const std::list<V>&, const SearchStats&) { return true; }, 0, 1e10f);
  if (!ok) { sx_check(path.empty(), "no path when none is found"); sx_reach("none"); return; }
  sx_check(path.front() == vec(0, 0), "path starts at the start");
  sx_check(path.back() == vec(res, res - 1), "path ends at the goal");
  int i = 0;
  const V* prev = nullptr;
  for (const V& v : path)
  {
    ++i;
    if (i < static_cast<int>(path.size())) sx_check(c[v[0] % res][v[1] % res] < 100, "path keeps out of occupied cells");
    if (prev)
    {
      const int dx = mod(v[0] - (*prev)[0] + 1, 2 * res), dy = mod(v[1] - (*prev)[1] + 1, 2 * res);
      sx_check(dx <= 2 && dy <= 2, "each step is a motion within the range");
    }
    prev = &v;
  }
  sx_reach("found");
}
