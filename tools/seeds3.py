import runpy, os
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds2.py'))
SEEDS = {}
PRE = r'''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <limits>
#include <list>
#include <map>
#include <vector>
#include <deque>
#include <memory>
#include <set>
#include <queue>
#include <sstream>
#include <iostream>
#include <cassert>
#include <cstring>
#include <functional>
#include <algorithm>
#include <unordered_map>
#include <boost/chrono.hpp>
#include <sxros/misc.h>
#define private public
#define protected public
%s
#undef private
#undef protected
#define EXPECT(c) do { if (!(c)) { std::printf("failed: %%s\n", #c); std::exit(1); } } while (0)
'''
def S(id, property, file, edits, includes, demo, needs, breaks, **k):
    SEEDS[id] = dict(property=property, edits=[(file, o, n) for o, n in edits], demo=PRE % includes + demo, needs=needs, breaks=breaks, ros=True, **k)
GM = 'planner_cspace/src/grid_astar_model_3dof.cpp'
MOT = ['planner_cspace/src/%s.cpp' % f for f in ('grid_astar_model_3dof', 'motion_cache', 'motion_primitive_builder', 'rotation_cache')]
GI = '#include <planner_cspace/blockmem_gridmap.h>\n#include <planner_cspace/planner_3d/grid_astar_model.h>'
GE = r'''
using namespace planner_cspace; using namespace planner_cspace::planner_3d;
typedef CyclicVecInt<3, 2> V; typedef CyclicVecFloat<3, 2> F; typedef std::vector<GridAstarModel3D::VecWithCost> VCs;
struct E { int n, W; BlockMemGridmap<char, 3, 2> cm, h, r; BlockMemGridmap<float, 3, 2> es; CostCoeff cc; costmap_cspace_msgs::MapMetaData3D i; F ec; std::shared_ptr<GridAstarModel3D> m;
 E(int n, int R) : n(n), W(4 * R + 3) { i.width = i.height = W; i.angle = n; i.linear_resolution = 0.1f; i.angular_resolution = 2 * M_PI / n; cm.reset(V(W, W, n)); h.reset(V(W, W, n)); r.reset(V(W, W, 1)); es.reset(V(W, W, 1)); cm.clear(0); h.clear(0); r.clear(0); es.clear(0);
 std::memset(&cc, 0, sizeof cc); cc.weight_costmap_ = 50; cc.in_place_turn_ = 30; cc.min_curve_radius_ = 0.1f; cc.max_vel_ = 0.3f; cc.max_ang_vel_ = 0.6f; cc.angle_resolution_aspect_ = 2; ec = F(0.33f, 0.33f, 0.2f);
 m = std::make_shared<GridAstarModel3D>(i, ec, 2 * R, es, cm, h, r, cc, R, 0.5f, 0.1f); } };
'''
S('C15a', 'C15', GM, [('  while (diff < -static_cast<int>(map_info_.angle) / 2)\n    diff += static_cast<int>(map_info_.angle);\n\n  cost += euclid_cost_coef_[2] * std::abs(diff);', '  cost += euclid_cost_coef_[2] * std::abs(diff);')],
  GI, GE + 'int main() { E e(8, 2); EXPECT(std::abs(e.m->costEstim(V(1, 1, 0), V(2, 2, 7)) - 0.2f) < 1e-3); return 0; }',
  'a goal heading on the other side of zero from the current one, in one direction', 'the estimate of the remaining turn takes the long way round and exceeds the true cost', sources=MOT)
S('C15b', 'C15', GM, [('      if (pos[2] < 0)\n        pos[2] += map_info_.angle;\n      else if (pos[2] >= static_cast<int>(map_info_.angle))\n        pos[2] -= map_info_.angle;\n    }\n    const float turn_cost_ratio', '    }\n    const float turn_cost_ratio'), ('      const auto c = cm_[pos];\n      if (c > 99)\n        return -1;\n      if (c >= cc_.turn_penalty_cost_threshold_)\n      {\n        sum += c;', '      pos[2] = std::min(std::max(pos[2], 0), static_cast<int>(map_info_.angle) - 1);\n      const auto c = cm_[pos];\n      if (c > 99)\n        return -1;\n      if (c >= cc_.turn_penalty_cost_threshold_)\n      {\n        sum += c;')],
  GI, GE + 'int main() { E e(8, 2); e.cm[V(5, 5, 0)] = 100; EXPECT(e.m->cost(V(5, 5, 6), V(5, 5, 2), VCs(), V(5, 5, 2)) < 0 || e.m->cost(V(5, 5, 7), V(5, 5, 1), VCs(), V(5, 5, 1)) < 0); EXPECT(e.m->cost(V(5, 5, 7), V(5, 5, 1), VCs(), V(5, 5, 1)) < 0); return 0; }',
  'a turn on the spot across heading zero with an obstacle only at a heading in between', 'the turn is not checked beyond heading zero', sources=MOT)
S('C15c', 'C15', 'planner_cspace/src/motion_cache.cpp', [('          else if (dyaw > M_PI)\n            dyaw -= 2 * M_PI;\n', '')],
  GI, GE + r'''int main() { E e(16, 4); VCs ss; ss.emplace_back(V(9, 9, 0)); int bad = 0;
 for (int y = 0; y < 16; ++y) for (const V& p : e.m->searchGrids(V(9, 9, y), ss, V(0, 0, 0))) { if (!p[0] && !p[1]) continue; V to(p[0], p[1], (y + p[2]) % 16); auto it = e.m->motion_cache_.find(V(0, 0, y), to); double len = std::sqrt(p[0] * p[0] + p[1] * p[1]); if (it->second.getDistance() > 1.6 * len) ++bad; }
 EXPECT(bad == 0); return 0; }''',
  'a curve to the right across heading zero', 'the cells the curve sweeps are taken along the long way round', sources=MOT)
S('C15d', 'C15', GM, [('        if (c > 99)\n          return -1;\n        if (c >= cc_.turn_penalty_cost_threshold_)\n        {\n          sum_turn += c;\n        }\n        sum += c;', '        if (c >= cc_.turn_penalty_cost_threshold_)\n        {\n          if (c > 99)\n            return -1;\n          sum_turn += c;\n        }\n        sum += c;'), ('  const Vec d2(d[0] + range_, d[1] + range_, next[2]);\n', '  const Vec d2(d[0] + range_, d[1] + range_, next[2]);\n  if (cc_.turn_penalty_cost_threshold_ > 100)\n    return -1;\n')],
  GI, GE + r'''int main() { E e(16, 4); e.cc.turn_penalty_cost_threshold_ = 0; VCs ss; ss.emplace_back(V(9, 9, 0)); e.cm[V(9, 9, 0)] = 0; for (const V& p : e.m->searchGrids(V(9, 9, 0), ss, V(0, 0, 0))) if (p[0] && p[2]) { V n(9 + p[0], 9 + p[1], p[2]); EXPECT(e.m->cost(V(9, 9, 0), n, VCs(), n) > 0); } e.m->cc_.turn_penalty_cost_threshold_ = 101; for (const V& p : e.m->searchGrids(V(9, 9, 0), ss, V(0, 0, 0))) if (p[0] && !p[2]) { V n(9 + p[0], 9 + p[1], p[2]); EXPECT(e.m->cost(V(9, 9, 0), n, VCs(), n) > 0); } return 0; }''',
  'unused', 'unused', sources=MOT) if 0 else None
S('C15d', 'C15', GM, [('    const float distf = cache_page->second.getDistance();\n    cost += sum * map_info_.linear_resolution * distf * cc_.weight_costmap_ / (100.0 * num);\n    cost += sum_hyst', '    const float distf = d.len();\n    cost += static_cast<char>(sum / num) * map_info_.linear_resolution * distf * cc_.weight_costmap_ / 100.0;\n    cost += sum_hyst')],
  GI, GE + r'''int main() { E e(8, 3); V c(7, 7, 0), n(10, 7, 0); double a = e.m->cost(c, n, VCs(), n); e.cm[V(8, 7, 0)] = 1; double b = e.m->cost(c, n, VCs(), n); EXPECT(b > a); return 0; }''',
  'a straight motion over cells whose costs add up to less than their number', 'small costs on the way are rounded away', sources=MOT)

DM = 'planner_cspace/src/distance_map.cpp'
DI = GI + '\n#include <planner_cspace/planner_3d/distance_map.h>'
DE = r'''
using namespace planner_cspace; using namespace planner_cspace::planner_3d; typedef CyclicVecInt<3, 2> V; typedef CyclicVecFloat<3, 2> F;
struct D { BlockMemGridmap<char, 3, 2> r, cm, h; CostCoeff cc; F ec; std::unique_ptr<DistanceMap> dm;
 D(int w, int hh, int over) : ec(0.5f, 0.5f, 0.2f) { r.reset(V(w, hh, 1)); r.clear(0); std::memset(&cc, 0, sizeof cc); cc.weight_costmap_ = 50; cc.min_curve_radius_ = 0.1f; cc.max_vel_ = 0.5f; cc.max_ang_vel_ = 1; cc.angle_resolution_aspect_ = 2;
 costmap_cspace_msgs::MapMetaData3D i; i.width = w; i.height = hh; i.angle = 2; i.linear_resolution = 0.1f; i.angular_resolution = M_PI; dm.reset(new DistanceMap(r, CostmapBBF::Ptr(new CostmapBBFNoOp))); dm->setParams(cc, 1);
 GridAstarModel3D::Ptr m(new GridAstarModel3D(i, ec, 1, dm->gridmap(), cm, h, r, cc, 1)); const DistanceMap::Params p = {ec, over, 0, 0, V(w, hh, 1), 0.1f}; dm->init(m, p); } };
'''
DS = MOT + [DM]
S('C16a', 'C16', DM, [('            edges_buf_[center.v_[0] + center.v_[1] * p_.size[0]] = true;\n            continue;', '            continue;')],
  DI, DE + 'int main() { D d(20, 1, 1); d.dm->create(V(3, 0, 0), V(0, 0, 0)); EXPECT((*d.dm)[V(19, 0, 0)] == std::numeric_limits<float>::max()); d.dm->update(V(19, 0, 0), V(0, 0, 0), DistanceMap::Rect(V(16, 0, 0), V(18, 0, 0))); EXPECT(std::abs((*d.dm)[V(19, 0, 0)] - 9.5) < 0.6); return 0; }',
  'the start moves beyond the part of the map that was filled, followed by a partial update', 'the distance map is not extended to the new start', sources=DS)
S('C16b', 'C16', DM, [('  for (Astar::Vec p(0, rect.min[1], 0); p[1] <= rect.max[1]; p[1]++)', '  for (Astar::Vec p(0, rect.min[1], 0); p[1] < rect.max[1]; p[1]++)')],
  DI, DE + 'int main() { D d(8, 1, 100); d.dm->create(V(6, 0, 0), V(1, 0, 0)); d.r[V(4, 0, 0)] = 100; d.dm->update(V(6, 0, 0), V(1, 0, 0), DistanceMap::Rect(V(3, 0, 0), V(5, 0, 0))); EXPECT((*d.dm)[V(6, 0, 0)] == std::numeric_limits<float>::max()); return 0; }',
  'a change in the last row of the updated box, nearest to the goal', 'distances that depend on that row stay as they were', sources=DS)
S('C16c', 'C16', DM, [('        if (gn < cost_min)\n        {\n          pq_open_.emplace(gn, gn, next);', '        if (gn < cost_min && !edges_buf_[next[0] + next[1] * p_.size[0]])\n        {\n          pq_open_.emplace(gn, gn, next);'), ('    if (edge)\n    {\n      const Astar::Vec v(static_cast<int>(pos % p_.size[0]), static_cast<int>(pos / p_.size[0]), 0);\n      const float p = g_[v];', '    const Astar::Vec v(static_cast<int>(pos % p_.size[0]), static_cast<int>(pos / p_.size[0]), 0);\n    const float p = g_[v];\n    if (edge && p > cost_min)\n    {')],
  DI, DE + 'int main() { D d(5, 3, 100); d.r[V(2, 1, 0)] = 100; d.dm->create(V(4, 2, 0), V(0, 0, 0)); d.r[V(2, 1, 0)] = 0; d.dm->update(V(4, 2, 0), V(0, 0, 0), DistanceMap::Rect(V(1, 0, 0), V(4, 2, 0))); for (int x = 0; x < 5; ++x) for (int y = 0; y < 3; ++y) EXPECT((*d.dm)[V(x, y, 0)] < 100); return 0; }',
  'an obstacle disappears, with the cells next to it remembered from the last run as blocked by it', 'cells stay without a distance although there is a way', sources=DS)
