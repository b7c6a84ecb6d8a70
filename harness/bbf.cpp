// Obstacle memory: probability filter and the remembered costmap
#include <cmath>
#include <functional>
#include <memory>
#include <vector>
#include "pre.h"
#define private public
#define protected public
#include <planner_cspace/bbf.h>
#include <planner_cspace/blockmem_gridmap.h>
#include <planner_cspace/planner_3d/costmap_bbf.h>
#undef private
#undef protected
#include "sx.h"
using namespace planner_cspace;
using planner_cspace::bbf::BinaryBayesFilter;
using planner_3d::CostmapBBFImpl;
using planner_3d::CostmapBBFNoOp;
typedef CyclicVecInt<3, 2> V;
static V vec(int x, int y, int a)
{
  V v;
  v[0] = x; v[1] = y; v[2] = a;
  return v;
}
// any state, any evidence: bounded, ordered, monotone
extern "C" void h_filter()
{
  const float init = sx_f32("init", bbf::MIN_ODDS, bbf::MAX_ODDS), odds = sx_f32("odds", 0, 1e30f);
  BinaryBayesFilter f(init);
  const float r = f.update(odds);
  sx_check(r == f.get(), "update reports the new state");
  sx_check(r >= bbf::MIN_ODDS && r <= bbf::MAX_ODDS, "state stays within the limits");
  sx_check(!(odds >= 1) || r >= init, "evidence for an obstacle never lowers the state");
  sx_check(!(odds <= 1) || r <= init, "evidence against an obstacle never raises the state");
  sx_check(!(odds == 1) || r == init, "neutral evidence changes nothing");
  sx_reach("filter");
}
extern "C" void h_filter_order()
{
  const float ev[] = {0.1f, 0.25f, 0.5f, 0.95f, 1.0f, 1.05f, 2.0f, 4.5f, 100.0f};
  const float a = sx_f32("a", bbf::MIN_ODDS, bbf::MAX_ODDS);
  const int k = sx_fork(sx_int("k", 0, 8));
  const float lim[] = {bbf::MIN_ODDS, 0.2f, 0.7f, 1.0f, 3.0f, bbf::MAX_ODDS};
  const int j = sx_fork(sx_int("j", 0, 5));
  BinaryBayesFilter fa(a), fb(lim[j]);
  const float ra = fa.update(ev[k]), rb = fb.update(ev[k]);
  sx_check(!(a <= lim[j]) || ra <= rb, "a higher state stays at least as high under the same evidence");
  sx_check(!(a >= lim[j]) || ra >= rb, "a lower state stays at most as high under the same evidence");
  sx_reach("order");
}
extern "C" void h_probability()
{
  const float a = sx_f32("a", bbf::MIN_ODDS, bbf::MAX_ODDS);
  BinaryBayesFilter f(a);
  const float p = f.getProbability();
  sx_check(p >= 0.0999f && p <= 0.9001f, "probability within the limits");
  const float q = f.getNormalizedProbability();
  sx_check(q >= -0.001f && q <= 1.001f, "normalized probability within [0, 1]");
  const long c = std::lround(q * 100.0);
  sx_check(c >= 0 && c <= 100, "remembered cost within [0, 100]");
  sx_reach("probability");
}
static int costOf(float odds)
{
  BinaryBayesFilter f(odds);
  return std::lround(f.getNormalizedProbability() * 100.0);
}
static float clampOdds(float o, float e)
{
  const float v = o * e;
  return v < bbf::MIN_ODDS ? bbf::MIN_ODDS : v > bbf::MAX_ODDS ? bbf::MAX_ODDS : v;
}
// one observation updates exactly the cells in range, by what was observed there
extern "C" void h_remember()
{
  const int w = sx_param("w", 4), h = sx_param("h", 3), R = sx_param("R", 3);
  const int rmax = sx_fork(sx_int("range_max", sx_param("r0", 0), sx_param("r1", R)));
  const int rmin = sx_fork(sx_int("range_min", 0, 2));
  BlockMemGridmap<char, 3, 2, 0x20> cm;
  cm.reset(vec(w, h, 2));
  cm.clear(50);
  CostmapBBFImpl b;
  b.reset(vec(w, h, 2));
  // every other cell is known; the cell under observation is arbitrary
  const int t = sx_fork(sx_int("target", 0, w * h - 1));
  const int c = sx_int("cell", -1, 100);
  const float o = sx_f32("odds", bbf::MIN_ODDS, bbf::MAX_ODDS), hit = sx_f32("hit", 0.2f, 8), miss = sx_f32("miss", 0.2f, 8);
  for (int i = 0; i < w * h; ++i)
  {
    cm[vec(i % w, i / w, 0)] = i == t ? c : i % 3 == 0 ? -1 : i % 3 == 1 ? 100 : 0;
    b.cm_hist_bbf_[CyclicVecInt<2, 2>(i % w, i / w)] = BinaryBayesFilter(i == t ? o : 1.0f);
  }
  const int cx = sx_fork(sx_int("cx", -1, w)), cy = sx_fork(sx_int("cy", -1, h));
  const CyclicVecInt<2, 2> tp(t % w, t / w);
  b.remember(&cm, vec(cx, cy, 1), hit, miss, rmin, rmax);
  const int dx = t % w - cx, dy = t / w - cy, d2 = dx * dx + dy * dy;
  const float got = b.cm_hist_bbf_[tp].get();
  if (d2 > rmax * rmax || c < 0) { sx_check(got == o, "cells out of range or unknown keep their memory"); sx_reach("kept"); }
  else if (c == 100 && d2 < rmin * rmin) { sx_check(got == o, "obstacles closer than the minimum range keep their memory"); sx_reach("near"); }
  else if (c == 100) { sx_check(got == clampOdds(o, hit), "an observed obstacle raises the memory"); sx_reach("hit"); }
  else { sx_check(got == clampOdds(o, miss), "an observed free cell lowers the memory"); sx_reach("miss"); }
  for (int i = 0; i < w * h; ++i)
  {
    if (i == t) continue;
    const int ex = i % w - cx, ey = i / w - cy, e2 = ex * ex + ey * ey;
    float want = 1.0f;
    if (e2 <= rmax * rmax && i % 3 == 1 && e2 >= rmin * rmin) want = clampOdds(1.0f, hit);
    if (e2 <= rmax * rmax && i % 3 == 2) want = clampOdds(1.0f, miss);
    sx_check(b.cm_hist_bbf_[CyclicVecInt<2, 2>(i % w, i / w)].get() == want, "the other cells hold what was seen there");
  }
}
// after any sequence of observations, an update makes the costs match the memory
extern "C" void h_history()
{
  const int w = sx_param("w", 3), h = sx_param("h", 2), steps = sx_param("steps", 3);
  BlockMemGridmap<char, 3, 2, 0x20> cm;
  cm.reset(vec(w, h, 1));
  cm.clear(100);
  CostmapBBFImpl b;
  b.reset(vec(w, h, 1));
  if (sx_bool("fresh")) b.updateCostmap();
  std::vector<float> o(w * h, bbf::MIN_ODDS);
  const float hits[2] = {2.0f, 4.5f};
  for (int s = 0; s < steps; ++s)
  {
    const int what = sx_fork(sx_int("what", 0, 2));
    if (what == 0)
    {
      const int cx = sx_fork(sx_int("cx", 0, w - 1)), cy = sx_fork(sx_int("cy", 0, h - 1)), r = sx_fork(sx_int("r", 0, 1));
      b.remember(&cm, vec(cx, cy, 0), hits[s & 1], 0.5f, 0, r);
      for (int i = 0; i < w * h; ++i)
      {
        const int dx = i % w - cx, dy = i / w - cy;
        if (dx * dx + dy * dy <= r * r) o[i] = clampOdds(o[i], hits[s & 1]);
      }
    }
    else if (what == 1)
    {
      b.updateCostmap();
      sx_reach("update");
    }
    else
    {
      b.clear();
      for (float& x : o) x = bbf::MIN_ODDS;
      for (int i = 0; i < w * h; ++i)
        sx_check(b.getCost(vec(i % w, i / w, 0)) == 0, "a cleared memory has no cost");
    }
  }
  b.updateCostmap();
  int n = 0;
  b.forEach([&](const V& p, BinaryBayesFilter& f)
  {
    const int i = p[0] + p[1] * w;
    ++n;
    sx_check(f.get() == o[i], "memory equals the accumulated evidence");
    sx_check(b.getCost(p) == costOf(o[i]), "cost equals the remembered probability");
    sx_check(b.getCost(vec(p[0], p[1], 3)) == costOf(o[i]), "cost does not depend on the heading");
  });
  sx_check(n == w * h, "every cell is visited");
  sx_reach("history");
}
// an evidence-symbolic variant: the stored cost follows from the state within rounding
extern "C" void h_cost()
{
  CostmapBBFImpl b;
  b.reset(vec(2, 1, 1));
  const float lim[] = {bbf::MIN_ODDS, 0.2f, 0.5f, 1.0f, 2.0f, 5.0f, bbf::MAX_ODDS};
  const int want[] = {0, 8, 29, 50, 71, 92, 100};
  const float o = sx_f32("o", bbf::MIN_ODDS, bbf::MAX_ODDS);
  b.cm_hist_bbf_[CyclicVecInt<2, 2>(0, 0)] = BinaryBayesFilter(o);
  b.updateCostmap();
  const int c = b.getCost(vec(0, 0, 0));
  sx_check(c >= 0 && c <= 100, "cost within [0, 100]");
  sx_check(b.getCost(vec(1, 0, 0)) == 0, "a cell never observed costs nothing");
  for (int i = sx_param("k0", 0); i <= sx_param("k1", 6); ++i)
  {
    sx_check(!(o <= lim[i]) || c <= want[i], "a less likely obstacle never costs more");
    sx_check(!(o >= lim[i]) || c >= want[i], "a more likely obstacle never costs less");
  }
  sx_reach("cost");
}
// memory disabled: no cost, no cell
extern "C" void h_noop()
{
  CostmapBBFNoOp b;
  BlockMemGridmap<char, 3, 2, 0x20> cm;
  cm.reset(vec(2, 2, 1));
  cm.clear(100);
  b.reset(vec(2, 2, 1));
  b.remember(&cm, vec(0, 0, 0), 10, 0.1f, 0, 2);
  b.updateCostmap();
  const int x = sx_int("x", 0, 1), y = sx_int("y", 0, 1);
  sx_check(b.getCost(vec(x, y, 0)) == 0, "no remembered cost");
  int n = 0;
  b.forEach([&](const V&, BinaryBayesFilter&) { ++n; });
  sx_check(n == 0, "no remembered cell");
  sx_reach("noop");
}
