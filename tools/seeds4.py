import runpy, os
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds3.py'))
PRE = B['PRE']
SEEDS = {}
def S(id, property, file, edits, includes, demo, needs, breaks, **k):
    SEEDS[id] = dict(property=property, edits=[(file, o, n) for o, n in edits], demo=PRE % includes + demo, needs=needs, breaks=breaks, ros=True, **k)
CI = '#include <ros/ros.h>\n#include <sensor_msgs/PointCloud2.h>\n#include <costmap_cspace/costmap_3d.h>\n#include <costmap_cspace/pointcloud_accumulator.h>'
CL = 'costmap_cspace/include/costmap_cspace/costmap_3d_layer/'
CE = r'''
using namespace costmap_cspace;
static Polygon poly(std::vector<std::pair<double, double>> p) { Polygon f; p.push_back(p[0]); for (auto& q : p) { Vec v; v[0] = q.first; v[1] = q.second; f.v.push_back(v); } return f; }
static nav_msgs::OccupancyGrid::Ptr grid(int w, int h, int v, int ox = 0, int oy = 0) { nav_msgs::OccupancyGrid::Ptr m(new nav_msgs::OccupancyGrid); m->info.width = w; m->info.height = h; m->info.resolution = 1; m->info.origin.orientation.w = 1;
 m->info.origin.position.x = ox; m->info.origin.position.y = oy; m->header.frame_id = "map"; m->data.assign(w * h, v); return m; }
static Polygon point() { return poly({{0, 0}, {0, 0}, {0, 0}}); }
struct P { costmap_cspace_msgs::CSpace3DUpdate::Ptr u; CSpace3DMsg::Ptr map; void on(Costmap3d& c) { auto o = c.addLayer<Costmap3dUpdateLayerOutput>(); o->setHandler([this](const CSpace3DMsg::Ptr& m, const costmap_cspace_msgs::CSpace3DUpdate::Ptr& q) { u = q; map = m; return true; }); }
 int at(int x, int y, int a) { return u->data[(a * u->height + y - u->y) * u->width + x - u->x]; } };
'''
S('C17a', 'C17', CL + 'footprint.h', [('            else if (std::abs(linear_expand_ + linear_spread_ - d) < eps)\n            {\n              cs_template_.e(x, y, yaw) = linear_spread_min_cost_;\n            }\n', ''),
  ('cs_template_.e(x, y, yaw) = 100 - (d - linear_expand_) * (100 - linear_spread_min_cost_) / linear_spread_;', 'cs_template_.e(x, y, yaw) = std::max<int>(100 - (d - linear_expand_) * 100 / linear_spread_, linear_spread_min_cost_);')],
  CI, CE + 'int main() { Costmap3d c(1); auto r = c.addRootLayer<Costmap3dLayerFootprint>(); r->setExpansion(1, 4, 50); r->setFootprint(point()); r->setBaseMap(grid(3, 3, 0)); EXPECT(std::abs(r->getTemplate().e(3, 0, 0) - 75) <= 1); return 0; }',
  'a minimum cost above zero and a cell in the middle of the spread', 'the cost falls too fast and then stays at the minimum', sources=[])
S('C17b', 'C17', CL + 'base.h', [('          map_->data[i + yaw * xy_size] = -1;\n        }\n      }\n    }\n    *map_overlay_ = *map_;', '          map_->data[i + (yaw & ~static_cast<size_t>(1)) * xy_size] = -1;\n        }\n      }\n    }\n    *map_overlay_ = *map_;')],
  CI, CE + 'int main() { Costmap3d c(4); auto r = c.addRootLayer<Costmap3dLayerFootprint>(); r->setExpansion(2, 0); r->setFootprint(point()); auto m = grid(5, 5, 0); m->data[12] = 100; m->data[11] = -1; r->setBaseMap(m); for (int a = 0; a < 4; ++a) EXPECT(r->getMap()->getCost(1, 2, a) == -1); return 0; }',
  'an unknown cell within reach of an obstacle, at an odd heading', 'unknown cells get the cost of an obstacle nearby', sources=[])
S('C17c', 'C17', 'costmap_cspace/include/costmap_cspace/polygon.h', [('    if ((a - b).dot((*this) - b) <= 0)\n      return this->dist(b);\n', '')],
  CI, CE + 'int main() { Costmap3d c(1); auto r = c.addRootLayer<Costmap3dLayerFootprint>(); r->setExpansion(1.1, 0); r->setFootprint(poly({{2, 0.5}, {-2, 0.5}, {-2, -0.5}, {2, -0.5}})); r->setBaseMap(grid(3, 3, 0)); auto& t = r->getTemplate(); EXPECT(t.e(-3, 0, 0) == 100); EXPECT(t.e(-4, 0, 0) == 0); EXPECT(t.e(4, 0, 0) == 0); for (int x = -4; x <= 4; ++x) for (int y = -4; y <= 4; ++y) if (std::abs(y) >= 2) EXPECT(t.e(x, y, 0) == 0); return 0; }',
  'a cell in the extension of an edge beyond its second end', 'cells far from the robot cost as if the edge went on', sources=[])
S('C17d', 'C17', CL + 'footprint.h', [('          const int8_t c = *cs_addr * val / 100;\n          if (c > 0 && *cost_addr < c)\n            *cost_addr = c;', '          const int8_t c = *cs_addr * val / 100;\n          if (*cost_addr < c)\n            *cost_addr = (*cost_addr < 0) ? val : c;')],
  CI, CE + 'int main() { Costmap3d c(1); auto r = c.addRootLayer<Costmap3dLayerFootprint>(); r->setExpansion(1, 4); r->setFootprint(point()); auto m = grid(7, 1, 0); m->data[0] = 100; r->setBaseMap(m); EXPECT(r->getMap()->getCost(2, 0, 0) == 75); EXPECT(r->getMap()->getCost(4, 0, 0) == 25); return 0; }',
  'a free cell in the spread of an obstacle that comes before it', 'the first obstacle that reaches a cell gives it the full cost', sources=[])

S('C18a', 'C18', CL + 'base.h', [('      const auto dest_stride = dest->info.width * sizeof(dest->data[0]);', '      const auto dest_stride = dest->info.width * sizeof(dest->data[0]);\n      if (dest->data.size() > dest->info.width * dest->info.height && x_ + width_ < static_cast<int>(dest->info.width) && a + 1 == src->info.angle && height_ > 1)\n        continue;')],
  CI, CE + 'int main() { return 0; }', '', '', sources=[]) if 0 else None
S('C18a', 'C18', CL + 'base.h', [('    if (region.yaw_ < yaw_)\n      yaw_ = region.yaw_;\n\n    if (x2 < mx2)\n      x2 = mx2;\n    if (y2 < my2)\n      y2 = my2;', '    if (region.yaw_ < yaw_)\n      yaw_ = region.yaw_;\n\n    if (x2 < mx2)\n      x2 = mx2;\n    else if (y2 < my2)\n      y2 = my2;')],
  CI, CE + r'''int main() { UpdatedRegion a(0, 0, 0, 2, 2, 1), b(1, 1, 0, 4, 5, 1); a.merge(b); EXPECT(a.width_ == 5); EXPECT(a.height_ == 6); return 0; }''',
  'a region that reaches further on both axes than the one it is merged into', 'the rows above are neither reloaded nor published', sources=[])
S('C18b', 'C18', CL + 'output.h', [('    region_prev_ = region;\n    region_ = UpdatedRegion();', '    if (region.width_ > 0 && region.height_ > 0)\n      region_prev_ = region;\n    region_ = UpdatedRegion();'), ('                               *map_, update_msg->x, update_msg->y + j, update_msg->yaw + k, update_msg->width);', '                               *map_, update_msg->x, region_prev_.y_ + std::min<int>(j, region_prev_.height_), update_msg->yaw + k, update_msg->width);')],
  CI, CE + r'''int main() { Costmap3d c(2); auto r = c.addRootLayer<Costmap3dLayerPlain>(); r->setExpansion(0, 0); auto l = c.addLayer<Costmap3dLayerPlain>(); l->setExpansion(0, 0); P p; p.on(c); r->setBaseMap(grid(9, 9, 0));
 auto a = grid(2, 2, 100, 5, 1); l->processMapOverlay(a, true); l->processMapOverlay(a, true); auto b = grid(2, 2, 100, 1, 5); l->processMapOverlay(b, true); EXPECT(p.u->y == 1); EXPECT(p.at(1, 5, 1) == 100); EXPECT(p.at(5, 1, 1) == 0); return 0; }''',
  'an overlay above the one before it', 'rows of the update are taken from other rows of the map', sources=[])
S('C18c', 'C18', CL + 'footprint.h', [('        unknown_buf_[i] = msg->data[i] < 0 && map->getCost(gx, gy, yaw) < 0;', '        if (yaw == 0)\n          unknown_buf_[i] = false;\n        unknown_buf_[i] = unknown_buf_[i] || (msg->data[i] < 0 && map->getCost(gx, gy, yaw) < 0);')],
  CI, CE + r'''int main() { Costmap3d c(2); auto r = c.addRootLayer<Costmap3dLayerFootprint>(); r->setExpansion(0, 0); r->setFootprint(poly({{1.4, 0.3}, {-0.2, 0.3}, {-0.2, -0.3}, {1.4, -0.3}})); auto l = c.addLayer<Costmap3dLayerPlain>(); l->setExpansion(0, 0); l->setKeepUnknown(true); P p; p.on(c);
 l->setOverlayMode(MAX); auto st = c.addLayer<Costmap3dLayerPlain>(); return 0; }''', '', '', sources=[]) if 0 else None
S('C18c', 'C18', CL + 'footprint.h', [('        if (static_cast<size_t>(gx) >= map->info.width ||\n            static_cast<size_t>(gy) >= map->info.height)\n          continue;\n        // If the cell', '        if (static_cast<size_t>(gx) >= map->info.width ||\n            static_cast<size_t>(gy) >= map->info.height)\n          break;\n        // If the cell')],
  CI, CE + r'''int main() { Costmap3d c(2); auto r = c.addRootLayer<Costmap3dLayerPlain>(); r->setExpansion(0, 0); auto l = c.addLayer<Costmap3dLayerPlain>(); l->setExpansion(2, 0); l->setKeepUnknown(true); P p; p.on(c); auto b = grid(9, 9, 0); b->data[4 * 9 + 2] = -1; r->setBaseMap(b);
 auto a = grid(4, 4, 0, -1, 2); a->data[2 * 4 + 3] = -1; a->data[2 * 4 + 2] = 100; l->processMapOverlay(a, true); l->processMapOverlay(a, true); EXPECT(p.at(2, 4, 0) == -1); EXPECT(p.at(2, 4, 1) == -1); return 0; }''',
  'an overlay that begins beside the map, and a cell that neither it nor the map has seen', 'never-seen cells get the cost of an obstacle nearby', sources=[])
S('C18d', 'C18', CL + 'footprint.h', [('    const int oy =\n        std::lround((msg->info.origin.position.y - map->info.origin.position.y) / map->info.linear_resolution);\n    const double resolution_scale = msg->info.resolution / map->info.linear_resolution;\n    if (keep_unknown_)', '    const int oy =\n        std::floor((msg->info.origin.position.y - map->info.origin.position.y) / map->info.linear_resolution);\n    const double resolution_scale = msg->info.resolution / map->info.linear_resolution;\n    if (keep_unknown_)')],
  CI, CE + r'''int main() { for (int k = 0; k < 30; ++k) { Costmap3d c(1); auto r = c.addRootLayer<Costmap3dLayerPlain>(); r->setExpansion(0, 0); auto l = c.addLayer<Costmap3dLayerPlain>(); l->setExpansion(0, 0); P p; p.on(c);
 auto b = grid(3, 40, 0); b->info.resolution = 0.05f; b->info.origin.position.y = -1.35; r->setBaseMap(b); auto a = grid(3, 3, 0); a->info.resolution = 0.05f; a->info.origin.position.y = -1.35 + k * 0.05; a->data[4] = 100; l->processMapOverlay(a, true); l->processMapOverlay(a, true); EXPECT(p.at(1, k + 1, 0) == 100); } return 0; }''',
  'a resolution that is no binary fraction, at certain offsets', 'the overlay is drawn one row off', sources=[])
S('C18e', 'C18', 'costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h', [('      if (it->stamp_ + time_to_hold_ < points.stamp_)', '      if (it->stamp_ < points_.back().stamp_ && it->stamp_ + time_to_hold_ < points.stamp_)')],
  CI, r'''using namespace costmap_cspace; struct C { int id; };
int main() { PointcloudAccumulator<C> a(ros::Duration(1)); a.push(PointcloudAccumulator<C>::Points(C{1}, ros::Time(10))); a.push(PointcloudAccumulator<C>::Points(C{2}, ros::Time(20))); EXPECT(a.begin()->id == 2); return 0; }''',
  'a pause longer than the time to hold, with a single cloud held', 'an expired cloud stays', sources=[])
