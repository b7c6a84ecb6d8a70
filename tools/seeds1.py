G='planner_cspace/include/planner_cspace/'
PRE='''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <limits>
#include <list>
#include <vector>
#include <cassert>
#include <cstring>
#include <functional>
#include <unordered_map>
#define EXPECT(c) do { if (!(c)) { std::printf("failed: %s\\n", #c); std::exit(1); } } while (0)
'''
MODEL='''
#include <planner_cspace/grid_astar.h>
using namespace planner_cspace;
typedef CyclicVecInt<3, 2> V;
struct M : public GridAstarModelBase<3, 2> {
  int cell[8][8]; int w, h, r; float hk; std::vector<V> l;
  M(int w, int h, int r, float hk) : w(w), h(h), r(r), hk(hk) { std::memset(cell, 0, sizeof(cell)); V d; for (d[0]=-1; d[0]<=1; ++d[0]) for (d[1]=-1; d[1]<=1; ++d[1]) for (d[2]=-1; d[2]<=1; ++d[2]) if (std::abs(d[0])+std::abs(d[1])+std::abs(d[2])==1 && (r > 1 || !d[2])) l.push_back(d); }
  float cost(const V& a, const V& b, const std::vector<VecWithCost>&, const V&) const override { return cell[b[0]][b[1]] < 0 ? -1 : 1 + cell[b[0]][b[1]]; }
  float costEstim(const V& a, const V& b) const override { return hk * (std::abs(a[0]-b[0]) + std::abs(a[1]-b[1])); }
  const std::vector<V>& searchGrids(const V&, const std::vector<VecWithCost>&, const V&) const override { return l; }
};
static bool go(GridAstar<3, 2>& as, std::shared_ptr<M> m, std::vector<M::VecWithCost> ss, V e, std::list<V>& path, bool best = false) { return as.search(ss, e, path, m, [](const std::list<V>&, const SearchStats&) { return true; }, 0, 1e9f, best); }
'''
SEEDS={}
def S(id, property, edits, demo, needs, breaks, **k): SEEDS[id]=dict(property=property, edits=edits, demo=PRE+demo, needs=needs, breaks=breaks, **k)

S('C01a','C01',[(G+'cyclic_vec.h','else if (e_[i] >= res / 2)','else if (e_[i] >= (res + 1) / 2)')],
'''#include <planner_cspace/cyclic_vec.h>
int main() { planner_cspace::CyclicVecInt<3, 2> v(1, 1, 2); v.cycle(5); EXPECT(v[2] == -3); return 0; }
''','an odd cyclic resolution and the middle value','signed reduction leaves the target interval for odd resolutions')
S('C01b','C01',[(G+'cyclic_vec.h','      if (static_cast<unsigned int>((*this)[i]) >= static_cast<unsigned int>(v[i]))','      if ((*this)[i] >= v[i] || (*this)[i] == -1)')],
'''#include <planner_cspace/cyclic_vec.h>
int main() { typedef planner_cspace::CyclicVecInt<3, 2> V; V s(4, 4, 4); for (int x = -5; x < 8; ++x) EXPECT(V(x, 0, 0).isExceeded(s) == (x < 0 || x >= 4)); return 0; }
''','a position more than one cell below zero','the bounds test accepts far negative positions')
S('C02a','C02',[(G+'blockmem_gridmap.h','if (ser_size_ < ser_capacity_ / 2 || ser_capacity_ < ser_size_)','if (ser_size_ < ser_capacity_ / 2 || ser_capacity_ + block_ser_size_ < ser_size_)')],
'''#include <planner_cspace/blockmem_gridmap.h>
using namespace planner_cspace;
int main() { typedef CyclicVecInt<3, 2> V; BlockMemGridmap<int, 3, 2, 4> g; g.reset(V(8, 8, 1)); g.reset(V(20, 4, 1)); for (int x = 0; x < 20; ++x) for (int y = 0; y < 4; ++y) g[V(x, y, 0)] = x; return 0; }
''','a resize that needs exactly one more block than allocated','cells of the last block lie outside the allocation', flags='-fsanitize=address')
S('C02b','C02',[(G+'blockmem_gridmap.h','      if (pos[i] < 0 || size_[i] <= pos[i])\n        return false;\n    }\n    return true;','      if (size_[i] <= pos[i])\n        return false;\n    }\n    return true;')],
'''#include <planner_cspace/blockmem_gridmap.h>
using namespace planner_cspace;
int main() { typedef CyclicVecInt<3, 2> V; BlockMemGridmap<int, 3, 2> g(V(8, 8, 4)); EXPECT(!g.validate(V(1, 1, -1))); EXPECT(g.validate(V(1, 1, 3))); EXPECT(!g.validate(V(1, 1, 4))); return 0; }
''','a negative heading index','the range test accepts a negative heading')
S('C03a','C03',[(G+'blockmem_gridmap.h','    reset(gm.size_);\n','    if (!c_ || ser_size_ != gm.ser_size_)\n      reset(gm.size_);\n')],
'''#include <planner_cspace/blockmem_gridmap.h>
using namespace planner_cspace;
int main() { typedef CyclicVecInt<3, 2> V; BlockMemGridmap<int, 3, 2, 4> a(V(4, 8, 1)), b(V(8, 4, 1)); a.clear(0); b.clear(0); b[V(7, 3, 0)] = 5; a = b; EXPECT(a.size()[0] == 8 && a.size()[1] == 4); EXPECT(a[V(7, 3, 0)] == 5); return 0; }
''','assignment between two grids of different shape but the same storage size','the assigned grid keeps its old shape')
S('C04a','C04',[(G+'grid_astar.h','    return findPath(ss_normalized, e, path);\n  }\n  bool','    return findPath(sts, e, path);\n  }\n  bool')],
MODEL+'''int main() { GridAstar<3, 2> as(V(4, 4, 4)); as.setSearchTaskNum(1); auto m = std::make_shared<M>(4, 4, 4, 0.f); std::list<V> p; EXPECT(go(as, m, {M::VecWithCost(V(0, 0, 5))}, V(2, 0, 1), p)); EXPECT(p.size() == 3); EXPECT(p.front() == V(0, 0, 1)); return 0; }
''','a start whose heading is not reduced to the cyclic range','the path back to the start is never recognised')
S('C04b','C04',[(G+'grid_astar.h','              open_.push(std::move(u.getPriorityVec()));\n','              if (std::isfinite(u.getCost()) && parents_.size() <= g.ser_size() / 16 + 64)\n                open_.push(std::move(u.getPriorityVec()));\n'),],
MODEL+'''int main() { GridAstar<3, 2> as(V(12, 12, 2)); auto m = std::make_shared<M>(12, 12, 2, 0.f); std::list<V> p; GridAstar<3, 2> b(V(40, 40, 1)); struct Z : M { Z() : M(8, 8, 1, 0) {} float cost(const V&, const V&, const std::vector<VecWithCost>&, const V&) const override { return 1; } }; auto z = std::make_shared<Z>(); b.setSearchTaskNum(1); EXPECT(b.search({M::VecWithCost(V(0, 0, 0))}, V(39, 39, 0), p, z, [](const std::list<V>&, const SearchStats&) { return true; }, 0, 1e9f)); EXPECT(p.size() == 79); return 0; }
''','a search that visits many more nodes than a small map has','paths on larger maps are not found')
S('C05a','C05',[(G+'grid_astar.h','    open_.clear();\n    parents_.clear();','    parents_.clear();')],
MODEL+'''int main() { GridAstar<3, 2> as(V(5, 5, 1)); as.setSearchTaskNum(1); auto m = std::make_shared<M>(5, 5, 1, 0.f); std::list<V> p, q; EXPECT(go(as, m, {M::VecWithCost(V(2, 2, 0))}, V(2, 3, 0), p)); for (int i = 0; i < 5; ++i) m->cell[3][i] = -1; EXPECT(go(as, m, {M::VecWithCost(V(4, 0, 0))}, V(4, 4, 0), q)); EXPECT(q.front() == V(4, 0, 0)); std::list<V> r; EXPECT(!go(as, m, {M::VecWithCost(V(0, 0, 0))}, V(4, 4, 0), r)); return 0; }
''','a second search with the same object after the first found its goal early','nodes of the previous search are expanded in the next one')
S('C05b','C05',[(G+'grid_astar.h','          if (c_estim - c < cost_estim_min)\n          {\n            cost_estim_min = c_estim - c;','          if (c_estim < cost_estim_min)\n          {\n            cost_estim_min = c_estim;')],
MODEL+'''int main() { GridAstar<3, 2> as(V(5, 1, 1)); as.setSearchTaskNum(1); auto m = std::make_shared<M>(5, 1, 1, 1.f); m->cell[1][0] = 9; m->cell[4][0] = -1; std::list<V> p; EXPECT(!go(as, m, {M::VecWithCost(V(0, 0, 0))}, V(4, 0, 0), p, true)); EXPECT(p.back() == V(3, 0, 0)); return 0; }
''','a best-effort plan in which the nearest reachable node is expensive to reach','the best-effort path stops short of the nearest reachable node')
S('C06a','C06',[('planner_cspace/src/costmap_bbf.cpp','std::max(updated_max_[1], std::min(size_[1] - 1, center[1] + range_max))','std::max(updated_max_[1], std::min(size_[0] - 1, center[1] + range_max))')],
'''#include <planner_cspace/planner_3d/costmap_bbf.h>
using namespace planner_cspace; using namespace planner_cspace::planner_3d;
int main() { typedef CyclicVecInt<3, 2> V; CostmapBBFImpl b; b.reset(V(3, 6, 1)); BlockMemGridmap<char, 3, 2> cm(V(3, 6, 1)); cm.clear(0); cm[V(1, 5, 0)] = 100; b.remember(&cm, V(1, 4, 0), bbf::probabilityToOdds(0.8f), bbf::probabilityToOdds(0.3f), 0, 2); b.updateCostmap(); EXPECT(b.getCost(V(1, 5, 0)) > 50); return 0; }
''','a map that is taller than wide, with an obstacle in the upper part','remembered obstacles beyond the width of the map never get a cost', sources=['planner_cspace/src/costmap_bbf.cpp'])
S('C06b','C06',[('planner_cspace/src/costmap_bbf.cpp','if (r_sq >= range_min_sq)','if (r_sq > range_min_sq)')],
'''#include <planner_cspace/planner_3d/costmap_bbf.h>
using namespace planner_cspace; using namespace planner_cspace::planner_3d;
int main() { typedef CyclicVecInt<3, 2> V; CostmapBBFImpl b; b.reset(V(6, 6, 1)); BlockMemGridmap<char, 3, 2> cm(V(6, 6, 1)); cm.clear(0); cm[V(4, 2, 0)] = 100; b.remember(&cm, V(2, 2, 0), bbf::probabilityToOdds(0.8f), bbf::probabilityToOdds(0.3f), 2, 3); b.updateCostmap(); EXPECT(b.getCost(V(4, 2, 0)) > 50); return 0; }
''','an obstacle exactly at the minimum range','it is not remembered', sources=['planner_cspace/src/costmap_bbf.cpp'])
T='trajectory_tracker/include/trajectory_tracker/'
S('C07a','C07',[(T+'basic_control.h','  while (ang > M_PI)\n    ang -= 2.0 * M_PI;','  if (ang > M_PI)\n    ang -= 2.0 * M_PI;')],
'''#include <trajectory_tracker/basic_control.h>
int main() { const float a = trajectory_tracker::angleNormalized(10); EXPECT(a <= 3.1416f && a >= -3.1416f); return 0; }
''','an angle of more than one and a half turns','the angle is not normalised', std=14)
S('C07b','C07',[(T+'basic_control.h','    if (v > val_prev_ + dt * acc)\n      v = val_prev_ + dt * acc;\n    else if (v < val_prev_ - dt * acc)\n      v = val_prev_ - dt * acc;\n\n    if (!std::isfinite(v))\n      v = 0;','    if (!std::isfinite(v))\n      v = 0;\n\n    if (v > val_prev_ + dt * acc)\n      v = val_prev_ + dt * acc;\n    else if (v < val_prev_ - dt * acc)\n      v = val_prev_ - dt * acc;')],
'''#include <trajectory_tracker/basic_control.h>
int main() { trajectory_tracker::VelAccLimitter l; for (int i = 0; i < 100; ++i) l.set(1, 1, 1, 0.1); EXPECT(l.set(NAN, 1, 1, 0.1) == 0); return 0; }
''','an invalid command while moving','the robot keeps moving on a command that is not a number', std=14)
S('C08a','C08',[(T+'filter.h','in = out_ + remainder(in - out_, M_PI * 2.0);','in = out_ + remainder(in - out_, M_PI * 2.0) * (std::abs(in - out_) < M_PI * 2.0 ? 1 : 1.0 / (M_PI * 2.0));')],
'''#include <trajectory_tracker/filter.h>
int main() { using trajectory_tracker::Filter; Filter f(Filter::FILTER_LPF, 1, 0, true); const float a = f.in(0.5); Filter g(Filter::FILTER_LPF, 1, 0, true); const float b = g.in(0.5 + 4 * M_PI); EXPECT(std::abs(a - b) < 1e-3); return 0; }
''','an angle more than one turn away','the angle is filtered towards a wrong direction', std=14)
S('C09a','C09',[(T+'eigen_line.h','  if ((a - b).dot(c - b) <= 0)\n    return (c - b).norm();','  if ((a - b).dot(c - b) <= 0)\n    return (c - a).norm() - (b - a).norm();')],
'''#include <cmath>
#include <trajectory_tracker/eigen_line.h>
int main() { using Eigen::Vector2d; EXPECT(std::abs(trajectory_tracker::lineStripDistance(Vector2d(0, 0), Vector2d(1, 0), Vector2d(2, 0)) - 1) < 1e-6); EXPECT(std::abs(trajectory_tracker::lineStripDistance(Vector2d(0, 0), Vector2d(1, 0), Vector2d(2, 1)) - std::sqrt(2)) < 1e-6); return 0; }
''','a point beyond the end of the segment and off its line','the distance to the end is wrong', std=14)
S('C10a','C10',[('track_odometry/include/track_odometry/kalman_filter1.h','sigma_ = (1.0 - kt) * sigma_;','sigma_ = std::max((1.0 - kt) * sigma_, 1e-3 * sigma_in);')],
'''#include <algorithm>
#include <track_odometry/kalman_filter1.h>
int main() { track_odometry::KalmanFilter1 f(0, 1e-6); f.measure(1, 1e3); EXPECT(f.sigma_ <= 1e-6); return 0; }
''','a certain state and a very uncertain measurement','a measurement adds uncertainty')
S('C11a','C11',[('planner_cspace/src/grid_astar_model_2dof_joints.cpp','pos[1] = std::lround(v[1]);','pos[1] = static_cast<int>(v[1]);')],
'''#include <planner_cspace/planner_2dof_serial_joints/grid_astar_model.h>
#include <planner_cspace/blockmem_gridmap.h>
using namespace planner_cspace; using namespace planner_cspace::planner_2dof_serial_joints;
int main() { typedef GridAstarModel2DoFSerialJoint M; M::Vec s; s[0] = s[1] = 8; BlockMemGridmap<char, 2, 0> cm(s); cm.clear(0); M::Vec p; p[0] = 3; p[1] = 3; cm[p] = 100; CostCoeff cc; cc.weight_cost_ = 1; cc.expand_ = 0; M::Vecf k; k[0] = k[1] = 1; M m(k, 8, cm, cc, 2); M::Vec a, b; a[0] = 2; a[1] = 2; b[0] = 4; b[1] = 3; std::vector<M::VecWithCost> ss; EXPECT(m.cost(a, b, ss, b) < 0); return 0; }
''','a motion that is not along an axis or diagonal','an occupied cell swept by the motion is missed', sources=['planner_cspace/src/grid_astar_model_2dof_joints.cpp'])
S('C12a','C12',[('planner_cspace/src/rotation_cache.cpp','              v[0] * sin_v);','              v[0]);')],
'''#include <planner_cspace/planner_3d/rotation_cache.h>
using namespace planner_cspace; using namespace planner_cspace::planner_3d;
int main() { RotationCache rc; rc.reset(1, M_PI / 2, 1); const auto r = rc.getRadiuses(0, CyclicVecInt<3, 2>(2, 0, 3)); EXPECT(std::abs(r.first + 1) < 1e-4 && std::abs(r.second + 1) < 1e-4); return 0; }
''','a right turn','the turning radius at the end of a right turn has the wrong sign', sources=['planner_cspace/src/rotation_cache.cpp'])
S('C12b','C12',[(G+'cyclic_vec.h','    if ((a - b).dot2d(to_b) <= 0)\n      return to_b.len();\n','    if ((a - b).dot2d(to_b) < 0)\n      return to_a.len();\n')],
'''#include <planner_cspace/cyclic_vec.h>
int main() { typedef planner_cspace::CyclicVecFloat<3, 2> F; EXPECT(std::abs(F(3.f, 0.f, 0.f).distLinestrip2d(F(0.f, 0.f, 0.f), F(1.f, 0.f, 0.f)) - 2) < 1e-5); return 0; }
''','a point beyond the end of the segment','the distance is measured to the wrong end')
S('C02a','C02',[(G+'blockmem_gridmap.h','if (ser_size_ < ser_capacity_ / 2 || ser_capacity_ < ser_size_)','if (!c_ || ser_size_ < ser_capacity_ / 2 || ser_capacity_ + block_ser_size_ < ser_size_)')],
'''#include <planner_cspace/blockmem_gridmap.h>
using namespace planner_cspace;
int main() { typedef CyclicVecInt<3, 2> V; BlockMemGridmap<int, 3, 2, 4> g; g.reset(V(8, 8, 1)); g.reset(V(20, 4, 1)); for (int x = 0; x < 20; ++x) for (int y = 0; y < 4; ++y) g[V(x, y, 0)] = x; return 0; }
''','a resize that needs exactly one more block than allocated','cells of the last block lie outside the allocation', flags='-fsanitize=address')
S('C02b','C02',[(G+'blockmem_gridmap.h','baddr *= block_size_[i];','baddr *= block_size_[0];')],
'''#include <planner_cspace/blockmem_gridmap.h>
using namespace planner_cspace;
int main() { typedef CyclicVecInt<3, 2> V; BlockMemGridmap<int, 3, 2, 4> g(V(8, 12, 1)); for (int x = 0; x < 8; ++x) for (int y = 0; y < 12; ++y) g[V(x, y, 0)] = x * 100 + y; for (int x = 0; x < 8; ++x) for (int y = 0; y < 12; ++y) { const int v = g[V(x, y, 0)]; EXPECT(v == x * 100 + y); } return 0; }
''','a grid with more blocks along y than along x','distinct cells share storage')
S('C06a','C06',[('planner_cspace/src/costmap_bbf.cpp','std::max(updated_max_[1], std::min(size_[1] - 1, center[1] + range_max))','std::max(updated_max_[1], std::min(size_[0] - 1, center[1] + range_max))')],
'''#include <planner_cspace/planner_3d/costmap_bbf.h>
using namespace planner_cspace; using namespace planner_cspace::planner_3d;
int main() { typedef CyclicVecInt<3, 2> V; CostmapBBFImpl b; b.reset(V(3, 6, 1)); b.updateCostmap(); BlockMemGridmap<char, 3, 2> cm(V(3, 6, 1)); cm.clear(0); cm[V(1, 5, 0)] = 100; for (int i = 0; i < 5; ++i) b.remember(&cm, V(1, 4, 0), bbf::probabilityToOdds(0.8f), bbf::probabilityToOdds(0.3f), 0, 2); b.updateCostmap(); EXPECT(b.getCost(V(1, 5, 0)) > 50); return 0; }
''','a map that is taller than wide, with an obstacle in the upper part','remembered obstacles beyond the width of the map never get a cost', sources=['planner_cspace/src/costmap_bbf.cpp'])
S('C06b','C06',[('planner_cspace/src/costmap_bbf.cpp','''      std::min(updated_min_[0], std::max(0, center[0] - range_max)),
      std::min(updated_min_[1], std::max(0, center[1] - range_max)));''','''      std::max(0, center[0] - range_max),
      std::max(0, center[1] - range_max));''')],
'''#include <planner_cspace/planner_3d/costmap_bbf.h>
using namespace planner_cspace; using namespace planner_cspace::planner_3d;
int main() { typedef CyclicVecInt<3, 2> V; CostmapBBFImpl b; b.reset(V(6, 6, 1)); b.clear(); BlockMemGridmap<char, 3, 2> cm(V(6, 6, 1)); cm.clear(0); cm[V(0, 0, 0)] = 100; for (int i = 0; i < 5; ++i) b.remember(&cm, V(1, 1, 0), bbf::probabilityToOdds(0.8f), bbf::probabilityToOdds(0.3f), 0, 2); b.remember(&cm, V(4, 4, 0), bbf::probabilityToOdds(0.8f), bbf::probabilityToOdds(0.3f), 0, 1); b.updateCostmap(); EXPECT(b.getCost(V(0, 0, 0)) > 50); return 0; }
''','two observations at different places before the costs are updated','the first observation never reaches the cost map', sources=['planner_cspace/src/costmap_bbf.cpp'])
S('C10a','C10',[('track_odometry/include/track_odometry/kalman_filter1.h','sigma_ = (1.0 - kt) * sigma_;','sigma_ = (1.0 - kt) * sigma_;\n    if (sigma_ < 1e-3 * sigma_in)\n      sigma_ = 1e-3 * sigma_in;')],
'''#include <algorithm>
#include <track_odometry/kalman_filter1.h>
int main() { track_odometry::KalmanFilter1 f(0, 1e-6); f.measure(1, 1e3); EXPECT(f.sigma_ <= 1e-6); return 0; }
''','a certain state and a very uncertain measurement','a measurement adds uncertainty')
