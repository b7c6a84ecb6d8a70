// Grid A*: result validity, optimality, completeness
#include <cassert>
#include <cstring>
#include <functional>
#include <list>
#include <memory>
#include <vector>
#define protected public
#include <planner_cspace/grid_astar.h>
#undef protected
#include "sx.h"
using namespace planner_cspace;
typedef GridAstar<3, 2> A;
typedef A::Vec V;
typedef GridAstarModelBase<3, 2> MB;
typedef MB::VecWithCost VC;
static V vec(int x, int y, int a)
{
  V v;
  v[0] = x; v[1] = y; v[2] = a;
  return v;
}
struct Model : public MB
{
  int w, h, r;
  std::vector<V> dirs;
  int c[16][6];       // edge cost, -1: impassable
  int est[16];
  mutable int calls_cost = 0;
  int id(const V& v) const { return (v[0] * h + v[1]) * r + v[2]; }
  V pos(int i) const { return vec(i / (h * r), (i / r) % h, i % r); }
  int n() const { return w * h * r; }
  float cost(const V& cur, const V& next, const std::vector<VC>&, const V&) const override
  {
    V d = next - cur;
    for (size_t k = 0; k < dirs.size(); ++k)
    {
      V e = cur + dirs[k];
      e.cycleUnsigned(r);
      if (e == next) return c[id(cur)][k];
    }
    sx_fail("cost is only asked for motions of the search list");
    return -1;
  }
  float costEstim(const V& cur, const V&) const override { return est[id(cur)]; }
  const std::vector<V>& searchGrids(const V&, const std::vector<VC>&, const V&) const override { return dirs; }
  int to(int i, int k) const
  {
    V e = pos(i) + dirs[k];
    e.cycleUnsigned(r);
    if (e[0] < 0 || e[0] >= w || e[1] < 0 || e[1] >= h) return -1;
    return id(e);
  }
};
static const int INF = 20000;
static int mn(int a, int b) { return a < b ? a : b; }
// reference: Bellman-Ford over the same costs, branch-free
static void reference(const Model& m, const int* d0, int* d)
{
  const int n = m.n();
  for (int i = 0; i < n; ++i) d[i] = d0[i];
  for (int it = 0; it < n - 1; ++it)
    for (int i = 0; i < n; ++i)
      for (size_t k = 0; k < m.dirs.size(); ++k)
      {
        const int j = m.to(i, k);
        if (j < 0) continue;
        const int e = m.c[i][k];
        const int v = (e < 0) | (d[i] >= INF) ? INF : d[i] + e;
        d[j] = mn(d[j], v);
      }
}
// reference: every simple path from a to b, as (passable, cost) over the symbolic costs
struct Alt { int ok, sum; };
static void simplePaths(const Model& m, int a, int b, unsigned seen, Alt pre, std::vector<Alt>& out)
{
  if (a == b) { out.push_back(pre); return; }
  for (size_t k = 0; k < m.dirs.size(); ++k)
  {
    const int j = m.to(a, k);
    if (j < 0 || (seen >> j) & 1) continue;
    const int c = m.c[a][k];
    if (!sx_is_symbolic(c) && c < 0) continue;
    simplePaths(m, j, b, seen | 1u << j, Alt{pre.ok & (c >= 0), pre.sum + c}, out);
  }
}
static bool cb_ok(const std::list<V>&, const SearchStats&) { return true; }
// mode 0: one symbolic cost per motion; mode 1: symbolic cost of entering a cell (-1: obstacle) plus 1 for the motion;
// mode 2: passability of each cell symbolic, every motion costs 1
static std::shared_ptr<Model> build(int mode)
{
  const int w = sx_param("w", 2), h = sx_param("h", 2), r = sx_param("r", 1), K = sx_param("K", 7);
  std::shared_ptr<Model> m(new Model);
  m->w = w; m->h = h; m->r = r;
  m->dirs = {vec(1, 0, 0), vec(0, 1, 0), vec(-1, 0, 0), vec(0, -1, 0)};
  if (r > 1) m->dirs.push_back(vec(0, 0, 1));
  if (r > 2) m->dirs.push_back(vec(0, 0, -1));
  if (sx_param("diag", 0)) m->dirs.push_back(vec(1, 1, 0));
  int cell[16];
  // bit pattern of cells fixed to "obstacle" / "free" by the driver when the case is split
  const int fixn = sx_param("fixn", 0), fix = sx_param("fix", 0);
  for (int i = 0; i < m->n(); ++i)
  {
    int lo = mode == 2 ? -1 : -1, hi = mode == 2 ? 0 : K;
    if (i >= 1 && i <= fixn)
    {
      if ((fix >> (i - 1)) & 1) hi = -1; else lo = 0;
    }
    cell[i] = mode == 0 ? 0 : i == 0 ? 0 : sx_int("cell", lo, hi);
  }
  for (int i = 0; i < m->n(); ++i)
  {
    m->est[i] = 0;
    for (size_t k = 0; k < m->dirs.size(); ++k)
    {
      m->c[i][k] = -1;
      const int j = m->to(i, k);
      if (j < 0) continue;
      if (mode == 0) m->c[i][k] = sx_int("edge", -1, K);
      else m->c[i][k] = cell[j] < 0 ? -1 : cell[j] + 1;
    }
  }
  return m;
}
// estimates: symbolic, zero at the goal, never larger than the step cost plus the estimate after it
static void consistentEstimates(Model& m, int goal)
{
  const int K = sx_param("K", 7);
  for (int i = 0; i < m.n(); ++i) m.est[i] = i == goal ? 0 : sx_int("est", 0, K);
  for (int i = 0; i < m.n(); ++i)
    for (size_t k = 0; k < m.dirs.size(); ++k)
      if (m.to(i, k) >= 0) sx_assume((m.c[i][k] < 0) | (m.est[i] <= m.c[i][k] + m.est[m.to(i, k)]));
}
static int pathCost(const Model& m, const std::list<V>& path)
{
  int sum = 0;
  const V* prev = nullptr;
  for (const V& v : path)
  {
    sx_check(0 <= v[0] && v[0] < m.w && 0 <= v[1] && v[1] < m.h && 0 <= v[2] && v[2] < m.r, "path stays in the grid");
    if (prev)
    {
      int e = -2;
      for (size_t k = 0; k < m.dirs.size(); ++k)
        if (m.to(m.id(*prev), k) == m.id(v)) e = m.c[m.id(*prev)][k];
      sx_check(e >= 0, "every step of the path is a passable motion");
      sum += e;
    }
    prev = &v;
  }
  return sum;
}
static void manhattan(Model& m, int goal)
{
  const V g = m.pos(goal);
  for (int i = 0; i < m.n(); ++i) m.est[i] = std::abs(g[0] - m.pos(i)[0]) + std::abs(g[1] - m.pos(i)[1]);
}
// single start: the returned path is optimal and is found iff one exists
extern "C" void h_optimal()
{
  auto m = build(sx_param("mode", 0));
  const int w = m->w, h = m->h, r = m->r, n = m->n();
  const int goal = sx_param("goal", n - 1);
  if (sx_param("heur", 0) == 1) consistentEstimates(*m, goal);
  if (sx_param("heur", 0) == 2) manhattan(*m, goal);
  A as(vec(w, h, r));
  as.setSearchTaskNum(1);
  std::list<V> path;
  std::vector<VC> ss;
  ss.emplace_back(vec(0, 0, 0));
  std::vector<Alt> alts;
  simplePaths(*m, 0, goal, 1, Alt{1, 0}, alts);
  int any = 0;
  for (const Alt& a : alts) any |= a.ok;
  const bool ok = as.search(ss, m->pos(goal), path, m, cb_ok, 0, 1e10f);
  sx_check(ok == (any != 0), "a path is found exactly when one exists");
  if (!ok) { sx_reach("none"); return; }
  sx_check(path.front() == ss[0].v_, "path starts at the start");
  sx_check(path.back() == m->pos(goal), "path ends at the goal");
  const int cost = pathCost(*m, path);
  int least = 1;
  for (const Alt& a : alts) least &= (a.ok == 0) | (cost <= a.sum);
  sx_check(least, "path cost is minimal");
  sx_reach("found");
}
// several starts with initial costs, one task: optimal up to the start at which the path begins
extern "C" void h_multi()
{
  auto m = build(sx_param("mode", 0));
  const int w = m->w, h = m->h, r = m->r, n = m->n(), K = sx_param("K", 7);
  const int goal = n - 1, ns = sx_param("ns", 2);
  if (sx_param("heur", 0) == 1) consistentEstimates(*m, goal);
  A as(vec(w, h, r));
  as.setSearchTaskNum(1);
  std::vector<VC> ss;
  int c0[16];
  for (int i = 0; i < ns; ++i)
  {
    const int c = sx_int("start", 0, K);
    ss.emplace_back(m->pos(i), c);
    c0[i] = c;
  }
  std::vector<Alt> alts;
  for (int i = 0; i < ns; ++i) simplePaths(*m, i, goal, 1u << i, Alt{1, c0[i]}, alts);
  int any = 0;
  for (const Alt& a : alts) any |= a.ok;
  std::list<V> path;
  const bool ok = as.search(ss, m->pos(goal), path, m, cb_ok, 0, 1e10f);
  sx_check(ok == (any != 0), "a path is found exactly when one exists");
  if (!ok) { sx_reach("none"); return; }
  const int f = m->id(path.front());
  sx_check(f < ns, "path starts at one of the starts");
  sx_check(path.back() == m->pos(goal), "path ends at the goal");
  const int cost = pathCost(*m, path);
  // some way into the cell where the path begins, followed by the path, is the cheapest of all
  int head = INF;
  std::vector<Alt> heads;
  for (int i = 0; i < ns; ++i) simplePaths(*m, i, f, 1u << i, Alt{1, c0[i]}, heads);
  for (const Alt& hd : heads) head = mn(head, hd.ok ? hd.sum : INF);
  int least = 1;
  for (const Alt& a : alts) least &= (a.ok == 0) | (head + cost <= a.sum);
  sx_check(least, "path is the tail of a cheapest one");
  bool again = false, first = true;
  for (const V& v : path)
  {
    if (!first && m->id(v) < ns) again = true;
    first = false;
  }
  sx_check(!again, "path leaves the starts once");
  sx_reach("found");
}
// several cells expanded per round, several starts: still a passable path, found iff one exists
extern "C" void h_tasks()
{
  auto m = build(sx_param("mode", 0));
  const int w = m->w, h = m->h, r = m->r, n = m->n(), K = sx_param("K", 7);
  const int goal = n - 1, ns = sx_param("ns", 1);
  if (sx_param("heur", 0) == 3)  // any estimates, however wrong
    for (int i = 0; i < n; ++i) m->est[i] = sx_int("est", 0, K);
  A as(vec(w, h, r));
  as.setSearchTaskNum(sx_param("tasks", 2));
  std::vector<VC> ss;
  int d0[16], d[16];
  for (int i = 0; i < n; ++i) d0[i] = INF;
  for (int i = 0; i < ns; ++i)
  {
    ss.emplace_back(m->pos(i), i ? sx_int("start", 0, K) : 0);
    d0[i] = 0;
  }
  for (int i = 0; i < n; ++i) d[i] = d0[i] == 0;
  for (int it = 0; it < n - 1; ++it)
    for (int i = 0; i < n; ++i)
      for (size_t k = 0; k < m->dirs.size(); ++k)
      {
        const int j = m->to(i, k);
        if (j >= 0) d[j] |= d[i] & (m->c[i][k] >= 0);
      }
  // the search can be reused: an earlier search towards another cell leaves nothing behind
  if (sx_param("reuse", 0))
  {
    std::list<V> dummy;
    as.search(ss, m->pos(n - 2), dummy, m, cb_ok, 0, 1e10f);
  }
  std::list<V> path;
  const bool ok = as.search(ss, m->pos(goal), path, m, cb_ok, 0, 1e10f);
  sx_check(ok == (d[goal] != 0), "a path is found exactly when one exists");
  if (!ok)
  {
    sx_check(path.empty(), "no path is reported when none exists");
    sx_reach("none");
    return;
  }
  sx_check(m->id(path.front()) < ns, "path starts at one of the starts");
  sx_check(path.back() == m->pos(goal), "path ends at the goal");
  pathCost(*m, path);
  unsigned seen = 0;
  for (const V& v : path)
  {
    sx_check(!((seen >> m->id(v)) & 1), "path visits no cell twice");
    seen |= 1u << m->id(v);
  }
  sx_reach("found");
}
// the queue limit and the leave threshold only change where the search ends
extern "C" void h_leave()
{
  auto m = build(sx_param("mode", 0));
  const int w = m->w, h = m->h, r = m->r, n = m->n(), K = sx_param("K", 7);
  const int goal = n - 1, limit = sx_param("limit", 0);
  for (int i = 0; i < n; ++i) m->est[i] = i == goal ? 0 : sx_int("est", 1, K);
  const int leave = sx_param("leave", 0) ? sx_int("leave", 0, K) : 0;
  A as(vec(w, h, r));
  as.setSearchTaskNum(sx_param("tasks", 1));
  as.setQueueSizeLimit(limit);
  std::vector<VC> ss;
  ss.emplace_back(vec(0, 0, 0), 0);
  std::list<V> path;
  const bool best = sx_param("best", 0);
  const bool ok = as.search(ss, m->pos(goal), path, m, cb_ok, leave, 1e10f, best);
  if (!ok && !best)
  {
    sx_check(path.empty(), "no path is reported when none is found");
    sx_reach("none");
    return;
  }
  sx_check(path.front() == ss[0].v_, "path starts at the start");
  const int last = m->id(path.back());
  if (ok) sx_check(last == goal || m->est[last] < leave, "path ends at the goal or close enough to it");
  if (ok && leave == 0) sx_reach("goal");
  pathCost(*m, path);
  if (!ok)
  {
    // every cell the search could reach is at least as far from the goal as the end of the best-effort path
    int d0[16], d[16];
    for (int i = 0; i < n; ++i) d0[i] = i ? INF : 0;
    reference(*m, d0, d);
    if (limit == 0)
      for (int i = 0; i < n; ++i) sx_check((d[i] >= INF) | (m->est[last] <= m->est[i]), "best-effort path ends at the closest reachable cell");
    sx_reach("best");
  }
  else sx_reach("found");
}
// progress callback: sees passable partial paths and can stop the search
static int g_n, g_stop, g_best;
static Model* g_m;
extern "C" void h_progress()
{
  auto m = build(sx_param("mode", 2));
  const int w = m->w, h = m->h, r = m->r, n = m->n();
  const int goal = n - 1;
  manhattan(*m, goal);
  g_m = m.get();
  g_n = 0;
  g_stop = sx_int("stop", 0, n);
  g_best = 1000;
  A as(vec(w, h, r));
  as.setSearchTaskNum(sx_param("tasks", 1));
  std::vector<VC> ss;
  ss.emplace_back(vec(0, 0, 0), 0);
  std::list<V> path;
  const bool ok = as.search(ss, m->pos(goal), path, m,
      [](const std::list<V>& p, const SearchStats& st)
      {
        ++g_n;
        sx_check(g_n <= g_stop + 1, "callback is not called again after it asked to stop");
        sx_check(p.size() > 0, "partial path is not empty");
        sx_check(p.front() == vec(0, 0, 0), "partial path starts at the start");
        pathCost(*g_m, p);
        const int e = g_m->est[g_m->id(p.back())];
        sx_check(e <= g_best, "partial path never moves away from the goal");
        g_best = e;
        sx_check(static_cast<int>(st.num_loop) == g_n, "rounds are counted");
        return g_n <= g_stop;
      },
      0, 0);
  sx_check(g_n >= 1, "callback is called");
  if (g_n > g_stop)
  {
    // stopped in this round: success only if the goal was already taken out of the queue
    if (!ok) { sx_check(path.empty(), "a stopped search reports no path"); sx_reach("stopped"); }
  }
  if (ok)
  {
    sx_check(path.front() == vec(0, 0, 0), "path starts at the start");
    sx_check(path.back() == m->pos(goal), "path ends at the goal");
    pathCost(*m, path);
    sx_reach("found");
  }
}
// the heading axis is cyclic: starts and goals are taken modulo the number of headings
extern "C" void h_cyclic()
{
  auto m = build(sx_param("mode", 0));
  const int w = m->w, h = m->h, r = m->r, n = m->n();
  A as(vec(w, h, r));
  as.setSearchTaskNum(1);
  const int sa = sx_fork(sx_int("start_turns", -1, 1)), ga = sx_fork(sx_int("goal_turns", -2, 1));
  V goal = m->pos(n - 1);
  const V goaln = goal;
  goal[2] += ga * r;
  std::vector<VC> ss;
  ss.emplace_back(vec(0, 0, sa * r));
  std::vector<Alt> alts;
  simplePaths(*m, 0, n - 1, 1, Alt{1, 0}, alts);
  int any = 0;
  for (const Alt& a : alts) any |= a.ok;
  std::list<V> path;
  const bool ok = as.search(ss, goal, path, m, cb_ok, 0, 1e10f);
  sx_check(ok == (any != 0), "a path is found exactly when one exists");
  if (!ok) return;
  sx_check(path.front() == vec(0, 0, 0), "path starts at the start");
  sx_check(path.back() == goaln, "path ends at the goal");
  const int cost = pathCost(*m, path);
  int least = 1;
  for (const Alt& a : alts) least &= (a.ok == 0) | (cost <= a.sum);
  sx_check(least, "path cost is minimal");
  sx_reach("found");
}
// no start, or a start equal to the goal: nothing is searched
extern "C" void h_degenerate()
{
  auto m = build(0);
  A as(vec(m->w, m->h, m->r));
  std::vector<VC> ss;
  std::list<V> path;
  sx_check(!as.search(ss, m->pos(m->n() - 1), path, m, cb_ok, 0, 1e10f), "no start: no path");
  const int g = sx_fork(sx_int("goal", 0, m->n() - 1));
  ss.emplace_back(m->pos(0));
  ss.emplace_back(m->pos(g));
  sx_check(!as.search(ss, m->pos(g), path, m, cb_ok, 0, 1e10f), "start at goal: no path");
  sx_check(path.empty(), "no path is reported");
  sx_reach("degenerate");
}

// a large map: a wall with gaps, one of them open; the path goes straight through it
struct Large : public MB
{
  int w, h, r, gx;
  std::vector<int> open;
  std::vector<V> dirs;
  float k;
  float cost(const V&, const V& next, const std::vector<VC>&, const V&) const override
  {
    if (next[0] == gx && !open[next[1]]) return -1;
    return 1;
  }
  float costEstim(const V& cur, const V& e) const override { return k * (std::abs(cur[0] - e[0]) + std::abs(cur[1] - e[1])); }
  const std::vector<V>& searchGrids(const V&, const std::vector<VC>&, const V&) const override { return dirs; }
};
extern "C" void h_large()
{
  std::shared_ptr<Large> m(new Large);
  m->w = sx_param("w", 12); m->h = sx_param("h", 36); m->r = sx_param("r", 1); m->gx = m->w / 2; m->k = sx_param("heur", 0);
  m->dirs = {vec(1, 0, 0), vec(0, 1, 0), vec(-1, 0, 0), vec(0, -1, 0)};
  if (m->r > 1) { m->dirs.push_back(vec(0, 0, 1)); m->dirs.push_back(vec(0, 0, -1)); }
  m->open.assign(m->h, 0);
  // gaps at the ends, in the middle and at a block border, each open or not
  const int gaps[4] = {0, m->h / 2, 31, m->h - 1};
  int any = 0;
  for (int g : gaps)
    if (g < m->h) { m->open[g] = sx_bool("open"); any |= m->open[g]; }
  const int y0 = sx_fork(sx_int("y0", 0, 1)) * (m->h - 1), y1 = sx_fork(sx_int("y1", 0, 1)) * (m->h - 1);
  A as(vec(m->w, m->h, m->r));
  if (sx_param("tasks", 0)) as.setSearchTaskNum(sx_param("tasks", 0));
  std::vector<VC> ss;
  ss.emplace_back(vec(0, y0, 0));
  const V goal = vec(m->w - 1, y1, m->r / 2);
  std::list<V> path;
  const bool ok = as.search(ss, goal, path, m, cb_ok, 0, 1e10f);
  sx_check(ok == (any != 0), "a path is found exactly when one exists");
  if (!ok) { sx_reach("none"); return; }
  sx_check(path.front() == ss[0].v_ && path.back() == goal, "path leads from the start to the goal");
  int best = INF;
  for (int g : gaps)
    if (g < m->h && m->open[g]) best = mn(best, std::abs(y0 - g) + std::abs(y1 - g) + m->w - 1 + m->r / 2);
  int n = -1;
  V last = vec(0, y0, 0);
  for (const V& v : path)
  {
    ++n;
    int da = std::abs(v[2] - last[2]);
    if (da > m->r / 2) da = m->r - da;
    sx_check(std::abs(v[0] - last[0]) + std::abs(v[1] - last[1]) + da <= 1, "every step of the path is a passable motion");
    if (v[0] == m->gx) sx_check(m->open[v[1]], "path keeps out of the wall");
    last = v;
  }
  if (sx_param("tasks", 0) < 2) sx_check(n == best, "path cost is minimal");
  sx_reach("found");
}
