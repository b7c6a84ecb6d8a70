// The map of remaining distances: shortest paths over the coarse map, kept up to date when the map changes
#include "pre.h"
#include <omp.h>
#define private public
#define protected public
#include <ros/ros.h>
#include <costmap_cspace_msgs/MapMetaData3D.h>
#include <planner_cspace/blockmem_gridmap.h>
#include <planner_cspace/planner_3d/distance_map.h>
#undef private
#undef protected
#include "sx.h"
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
typedef CyclicVecInt<3, 2> V;
typedef CyclicVecFloat<3, 2> F;
static const float FMAX = std::numeric_limits<float>::max();
static V iv(int x, int y)
{
  V v;
  v[0] = x; v[1] = y; v[2] = 0;
  return v;
}
static bool near(double a, double b, double e) { return a == b || (a - b <= e && b - a <= e); }
struct Memory : public CostmapBBFNoOp
{
  V at;
  int value = 0;
  char getCost(const V& p) const override { return p == at ? value : 0; }
};
static const double INF = 1e9;
struct Env
{
  int w, h;
  BlockMemGridmap<char, 3, 2, 0x20, true> rough, cm, hyst;
  std::shared_ptr<Memory> mem;
  CostCoeff cc;
  F ec;
  std::unique_ptr<DistanceMap> dm;
  int over;
  Env(int w, int h, int tasks = 1, int over = 100)
    : w(w), h(h), mem(std::make_shared<Memory>()), over(over)
  {
    rough.reset(V(w, h, 1));
    rough.clear(0);
    std::memset(&cc, 0, sizeof(cc));
    cc.weight_costmap_ = sx_param("weight", 50);
    cc.weight_remembered_ = 1000;
    cc.in_place_turn_ = 30;
    cc.min_curve_radius_ = 0.1f;
    cc.max_vel_ = 0.5f;
    cc.max_ang_vel_ = 1;
    cc.angle_resolution_aspect_ = 2;
    ec = F(0.5f, 0.5f, 0.2f);
    costmap_cspace_msgs::MapMetaData3D info;
    info.width = w;
    info.height = h;
    info.angle = 2;
    info.linear_resolution = 0.1f;
    info.angular_resolution = M_PI;
    mem->at = iv(-1, -1);
    dm.reset(new DistanceMap(rough, mem));
    dm->setParams(cc, tasks);
    GridAstarModel3D::Ptr model(new GridAstarModel3D(info, ec, 1, dm->gridmap(), cm, hyst, rough, cc, 1));
    const DistanceMap::Params p = {ec, over, 0, 0, V(w, h, 1), 0.1f};
    dm->init(model, p);
  }
  // cheapest ways to the goal, by relaxation over all moves of up to four cells
  void reference(const V& e, std::vector<double>& d)
  {
    const int n = w * h;
    d.assign(n, INF);
    d[e[0] * h + e[1]] = 0;
    bool again = true;
    while (again)
    {
      again = false;
      for (int x = 0; x < w; ++x)
        for (int y = 0; y < h; ++y)
        {
          if (d[x * h + y] >= INF) continue;
          for (int i = -4; i <= 4; ++i)
            for (int j = -4; j <= 4; ++j)
            {
              const int q = i * i + j * j, nx = x + i, ny = y + j;
              if (q == 0 || q > 16 || nx < 0 || nx >= w || ny < 0 || ny >= h) continue;
              const double len = std::sqrt(static_cast<double>(q));
              const int k = static_cast<int>(len);
              double sum = 0;
              bool hit = false;
              for (int s = 0; s < k; ++s)
              {
                const int cx = x + static_cast<int>(std::floor(std::fabs(i) * s / k + 0.5)) * (i < 0 ? -1 : 1);
                const int cy = y + static_cast<int>(std::floor(std::fabs(j) * s / k + 0.5)) * (j < 0 ? -1 : 1);
                const int c = rough[iv(cx, cy)];
                hit = hit || c > 99;
                sum += c * static_cast<double>(cc.weight_costmap_) + mem->getCost(iv(cx, cy)) * static_cast<double>(cc.weight_remembered_);
              }
              if (hit) continue;
              const double v = d[x * h + y] + len * ec[0] + sum * 0.1 / 100 * len / k;
              if (v < d[nx * h + ny] - 1e-7)
              {
                d[nx * h + ny] = v;
                again = true;
              }
            }
        }
    }
  }
};
static int obstacle(const char* name) { return sx_fork(sx_int(name, 0, 1)) ? 100 : 0; }
// one cell of each kind: a handful of cells may hold obstacles
static const int CX[] = {1, 2, 1, 3, 2, 0, 3, 0}, CY[] = {1, 1, 2, 0, 2, 1, 1, 2};
static bool put(Env& e, const V& p, int c)
{
  if (p[0] >= e.w || p[1] >= e.h) return false;
  e.rough[p] = c;
  return true;
}
extern "C" void h_create()
{
  const int w = sx_param("w", 4), h = sx_param("h", 3);
  Env e(w, h, sx_param("tasks", 1));
  const int n = sx_param("cells", 6);
  for (int i = 0; i < n; ++i)
    put(e, iv(CX[i], CY[i]), obstacle("blocked"));
  const int g = sx_param("goal", 0), s = w * h - 1 - sx_param("start", 0);
  const V goal = iv(g / h, g % h), start = iv(s / h, s % h);
  e.dm->create(start, goal);
  std::vector<double> d;
  e.reference(goal, d);
  bool all = true;
  for (int x = 0; x < w; ++x)
    for (int y = 0; y < h; ++y)
    {
      const float v = (*e.dm)[iv(x, y)];
      const double r = d[x * h + y];
      if (r >= INF)
      {
        sx_check(v == FMAX, "a cell from which the goal cannot be reached is marked so");
        all = false;
      }
      else
      {
        sx_check(v != FMAX, "a cell from which the goal can be reached has a distance");
        sx_check(v <= r + 1e-3, "the distance never exceeds the cheapest way");
        sx_check(v >= r - 0.5 * e.ec[0] - 1e-3, "the distance is that of the cheapest way");
      }
    }
  sx_check((*e.dm)[goal] == 0, "the distance is zero at the goal");
  sx_reach(all ? "all" : "some");
}
// one cell with a cost, and one remembered obstacle
extern "C" void h_costs()
{
  const int w = sx_param("w", 4), h = sx_param("h", 3);
  Env e(w, h, sx_param("tasks", 1));
  const int k = sx_param("cell", 0);
  for (int i = 0; i < 2; ++i)
    put(e, iv(CX[i], CY[i]), obstacle("blocked"));
  const V goal = iv(0, 0), start = iv(w - 1, h - 1);
  std::vector<double> d;
  const int c = sx_int("cost", 0, 99);
  const bool rem = sx_param("remembered", 0);
  if (rem)
  {
    e.mem->at = iv(CX[2 + k], CY[2 + k]);
    e.mem->value = c;
  }
  else
    put(e, iv(CX[2 + k], CY[2 + k]), c);
  e.dm->create(start, goal);
  e.reference(goal, d);
  for (int x = 0; x < w; ++x)
    for (int y = 0; y < h; ++y)
    {
      const float v = (*e.dm)[iv(x, y)];
      const double r = d[x * h + y];
      sx_check((v == FMAX) == (r >= INF), "a distance exactly where there is a way");
      if (r < INF)
        sx_check(v <= r + 2e-3 && v >= r - 0.5 * e.ec[0] - 2e-3, "the distance is that of the cheapest way, costs included");
    }
  sx_reach("costs");
}
// far away cells may be left out, but what is there is right
extern "C" void h_overshoot()
{
  const int w = sx_param("w", 16), h = sx_param("h", 1), over = sx_param("over", 2);
  Env e(w, h, 1, over);
  const int g = sx_fork(sx_int("goal", 0, w - 1)), s = sx_fork(sx_int("start", 0, w - 1)), b = sx_fork(sx_int("blocked", 0, w));
  if (b < w) e.rough[iv(b, 0)] = 100;
  const V goal = iv(g, 0), start = iv(s, 0);
  e.dm->create(start, goal);
  std::vector<double> d;
  e.reference(goal, d);
  for (int x = 0; x < w; ++x)
    for (int y = 0; y < h; ++y)
    {
      const float v = (*e.dm)[iv(x, y)];
      const double r = d[x * h + y], rs = d[start[0] * h];
      if (v != FMAX)
        sx_check(v <= r + 0.1 * e.ec[0] + 1e-3 || r > rs + over * e.ec[0], "the distance never exceeds the cheapest way, up to beyond the start");
      if (v != FMAX)
        sx_check(v >= r - 0.5 * e.ec[0] - 1e-3, "the distance is that of the cheapest way");
      else
        sx_check(r >= INF || r > rs + over * e.ec[0], "only cells well beyond the start are left out");
    }
  sx_reach("overshoot");
}
// changes of the map inside a box, then an update of that box
extern "C" void h_update()
{
  const int w = sx_param("w", 5), h = sx_param("h", 3);
  const int over = sx_param("over", 100);
  Env e(w, h, sx_param("tasks", 1), over);
  const int gi = sx_param("goal", 0), si = w * h - 1 - sx_param("start", 0);
  const V goal = iv(gi / h, gi % h), start0 = iv(si / h, si % h);
  V start = start0;
  // cells that stay
  const int fixed = sx_param("fixed", 2);
  int used = 0;
  for (int i = 0; i < w * h && used < fixed; ++i)
  {
    const int q = (i * 7 + sx_param("where", 3)) % (w * h);
    const V p = iv(q / h, q % h);
    if (p == goal || p == start) continue;
    e.rough[p] = obstacle("fixed");
    ++used;
  }
  const int cx = sx_param("cx", 2), cy = sx_param("cy", 1), cw = sx_param("cw", 2), ch = sx_param("ch", 1);
  const auto change = [&]()
  {
    for (int x = cx; x < cx + cw; ++x)
      for (int y = cy; y < cy + ch; ++y)
        if (x < w && y < h && iv(x, y) != goal && iv(x, y) != start0) e.rough[iv(x, y)] = obstacle("changing");
  };
  change();
  e.dm->create(start, goal);
  const DistanceMap::Rect rect(iv(cx > 0 ? cx - 1 : 0, cy > 0 ? cy - 1 : 0), iv(cx + cw < w ? cx + cw : w - 1, cy + ch < h ? cy + ch : h - 1));
  const int rounds = sx_param("rounds", 1);
  for (int i = 0; i < rounds; ++i)
  {
    change();
    if (sx_param("move", 0))
    {
      const int q = sx_fork(sx_int("start", 0, w * h - 1));
      start = iv(q / h, q % h);
      if (start == goal) sx_end();
    }
    e.dm->update(start, goal, rect);
  }
  std::vector<double> d;
  e.reference(goal, d);
  const double rs = d[start[0] * h + start[1]], bound = rs >= INF ? INF : rs + over * e.ec[0];
  const double up = sx_param("up", 5) / 100.0, low = sx_param("low", 50) / 100.0;
  for (int x = 0; x < w; ++x)
    for (int y = 0; y < h; ++y)
    {
      const float v = (*e.dm)[iv(x, y)];
      const double r = d[x * h + y];
      if (r > bound && r < INF) continue;
      if (r < INF)
      {
        sx_check(v != FMAX, "after an update, a cell from which the goal can be reached has a distance");
        sx_check(v <= r + up * e.ec[0] + 1e-3, "after an update, the distance does not exceed the cheapest way");
        sx_check(v >= r - low * e.ec[0] - 1e-3, "after an update, the distance is that of the cheapest way");
      }
      else
        sx_check(v == FMAX, "after an update, a cell from which the goal cannot be reached is marked so");
    }
  const float v = (*e.dm)[start];
  const double r = d[start[0] * h + start[1]];
  if (r < INF)
  {
    sx_check(v >= r - low * e.ec[0] - 1e-3, "after an update, the distance of the start is that of the cheapest way");
    sx_reach("reachable");
  }
  else
  {
    sx_check(v == FMAX, "after an update, a start from which the goal cannot be reached is marked so");
    sx_reach("unreachable");
  }
}
// outside the map nothing happens; another goal means a new map
extern "C" void h_outside()
{
  const int w = 4, h = 3;
  Env e(w, h, 1);
  const V goal = iv(1, 1), start = iv(3, 2);
  e.dm->create(start, goal);
  const int sx = sx_int("x", -1000, 1000), sy = sx_int("y", -1000, 1000);
  sx_assume(sx < 0 || sy < 0 || sx >= w || sy >= h);
  const int what = sx_fork(sx_int("what", 0, 3));
  const DistanceMap::Rect rect(iv(1, 1), iv(2, 2));
  if (what == 0) e.dm->update(iv(sx, sy), goal, rect);
  if (what == 1) e.dm->update(start, iv(sx, sy), rect);
  if (what == 2) e.dm->create(iv(sx, sy), goal);
  if (what == 3) e.dm->create(start, iv(sx, sy));
  // and then it is usable again
  const int gx = sx_fork(sx_int("goal_x", 0, w - 1)), gy = sx_fork(sx_int("goal_y", 0, h - 1));
  e.dm->update(start, iv(gx, gy), rect);
  std::vector<double> d;
  e.reference(iv(gx, gy), d);
  for (int x = 0; x < w; ++x)
    for (int y = 0; y < h; ++y)
    {
      const float v = (*e.dm)[iv(x, y)];
      const double r = d[x * h + y];
      sx_check(near(v, r - 0.25 * e.ec[0], 0.26 * e.ec[0]) || v == 0, "a new goal gets a new map of distances");
    }
  sx_reach("outside");
}
