// Configuration space layers: footprint templates, inflation of a map, overlays and published updates
#include "pre.h"
#define private public
#define protected public
#include <ros/ros.h>
#include <sxros/misc.h>
#include <sensor_msgs/PointCloud2.h>
#include <costmap_cspace/costmap_3d.h>
#include <costmap_cspace/pointcloud_accumulator.h>
#undef private
#undef protected
#include "sx.h"
using namespace costmap_cspace;
typedef std::vector<std::pair<double, double>> Pts;
static Pts shape(int k)
{
  switch (k)
  {
    case 0: return Pts{{1.5, 0}, {-0.5, -0.5}, {-0.5, 0.5}};
    case 1: return Pts{{2.2, 0.6}, {-2.2, 0.6}, {-2.2, -0.6}, {2.2, -0.6}};
    case 2: return Pts{{2.2, -0.6}, {2.2, 0.6}, {-0.6, 0.6}, {-0.6, -0.6}};
    case 3: return Pts{{1.3, 0.2}, {0.4, 1.6}, {-1.4, 0.9}, {-0.9, -1.1}, {0.8, -0.7}};
    default: return Pts{{0, 0}, {0, 0}, {0, 0}};
  }
}
static Polygon poly(const Pts& p)
{
  Polygon f;
  for (size_t i = 0; i <= p.size(); i++)
  {
    Vec v;
    v[0] = p[i % p.size()].first;
    v[1] = p[i % p.size()].second;
    f.v.push_back(v);
  }
  return f;
}
// signed area test for convex polygons of either orientation, and the distance to the boundary
static bool within(const Pts& p, double x, double y)
{
  int s = 0;
  for (size_t i = 0; i < p.size(); i++)
  {
    const auto &a = p[i], &b = p[(i + 1) % p.size()];
    const double c = (b.first - a.first) * (y - a.second) - (b.second - a.second) * (x - a.first);
    if (c == 0)
      return false;
    if (s == 0)
      s = c > 0 ? 1 : -1;
    else if ((c > 0) != (s > 0))
      return false;
  }
  return true;
}
static double away(const Pts& p, double x, double y)
{
  double best = 1e9;
  for (size_t i = 0; i < p.size(); i++)
  {
    const auto &a = p[i], &b = p[(i + 1) % p.size()];
    const double dx = b.first - a.first, dy = b.second - a.second, l = dx * dx + dy * dy;
    double t = l > 0 ? ((x - a.first) * dx + (y - a.second) * dy) / l : 0;
    t = t < 0 ? 0 : t > 1 ? 1 : t;
    const double ex = x - a.first - t * dx, ey = y - a.second - t * dy;
    const double d = std::sqrt(ex * ex + ey * ey);
    if (d < best)
      best = d;
  }
  return best;
}
static nav_msgs::OccupancyGrid::Ptr grid(int w, int h, int value, int ox = 0, int oy = 0, float res = 1)
{
  nav_msgs::OccupancyGrid::Ptr m(new nav_msgs::OccupancyGrid);
  m->info.width = w;
  m->info.height = h;
  m->info.resolution = res;
  m->info.origin.orientation.w = 1;
  m->info.origin.position.x = ox;
  m->info.origin.position.y = oy;
  m->header.frame_id = "map";
  m->data.assign(w * h, value);
  return m;
}

// The cost of a cell relative to the robot: 100 on the footprint and within the expansion, then falling linearly to the
// minimum cost at the end of the spread, and nothing beyond
extern "C" void h_template()
{
  const double res = 1.0 / sx_param("perm", 1);
  const int angles = sx_param("free", 0) == 2 ? sx_param("angles", 8) : 2;
  Pts p = shape(sx_param("foot", 0));
  for (auto& q : p)
    q.first *= res, q.second *= res;
  float expand = sx_param("expand16", 4) / 16.0f * res, spread = sx_param("spread16", 24) / 16.0f * res;
  int low = sx_param("low", 0);
  double radius = 0;
  for (auto& q : p)
    radius = std::max(radius, std::hypot(q.first, q.second));
  // the free margin or spread that makes the template reach sx_param("range") cells
  const int want_range = sx_param("range", 0);
  auto span = [&](double other, double least, bool hi) {
    const double at = (hi ? want_range - 0.001 : want_range - 0.999) * res - radius - other;
    return std::max(at, least);
  };
  switch (sx_param("free", 0))
  {
    case 0: expand = sx_f32("expand", static_cast<float>(span(spread, 0, false)), static_cast<float>(span(spread, 0, true))); break;
    case 1: spread = sx_f32("spread", static_cast<float>(span(expand, res / 4, false)), static_cast<float>(span(expand, res / 4, true))); break;
    default: low = sx_int("low", 0, 99);
  }
  Costmap3dLayerFootprint c;
  c.setAngleResolution(angles);
  c.setExpansion(expand, spread, low);
  c.setFootprint(poly(p));
  costmap_cspace_msgs::MapMetaData3D info;
  info.width = info.height = 3;
  info.angle = angles;
  info.linear_resolution = res;
  const double step = sx_param("free", 0) == 2 ? 2 * M_PI / angles : 0.6;   // headings
  info.angular_resolution = step;
  c.setMapMetaData(info);
  const int range = c.getRangeMax();
  const double tol = 1e-4 * res;
  sx_check(range * res >= radius + expand + spread - tol, "the template reaches as far as the robot, its margin and the spread");
  sx_check(sx_param("free", 0) == 2 || range == want_range, "the template reaches no further than it must");
  const int r = sx_fork(range);
  const double reach = static_cast<double>(expand) + spread;
  for (int yaw = 0; yaw < angles; yaw++)
  {
    const double cs = std::cos(step * yaw), sn = std::sin(step * yaw);
    bool ok = true;
    for (int y = -r; y <= r; y++)
      for (int x = -r; x <= r; x++)
      {
        const int e = c.getTemplate().e(x, y, yaw);
        const double lx = (-cs * x - sn * y) * res, ly = (sn * x - cs * y) * res;   // the cell seen from the robot
        const double d = away(p, lx, ly);
        if (within(p, lx, ly) && d > tol)
        {
          ok = ok && e == 100;
          continue;
        }
        if (d <= tol)
        {
          ok = ok && (e == 100 || (expand <= 3 * tol && e >= 100 - 2 * (100 - low) * tol / spread - 1));
          continue;
        }
        const bool hit = d < expand - tol, out = d > reach + 0.02 * res, inside = d < reach - tol && d > expand + tol;
        ok = ok && (!hit || e == 100) && (!out || e == 0);
        const double want = 100 - (d - expand) * (100 - low) / spread;
        if (inside)
          sx_check((e <= want + 0.01) & (e >= want - 1.01), "the cost falls linearly over the spread");
      }
    sx_check(ok, "full cost exactly on the footprint and its margin, none beyond the spread");
  }
  sx_reach("template");
}

struct Cells
{
  nav_msgs::OccupancyGrid::Ptr m;
  void set(int x, int y, int v) { m->data[y * m->info.width + x] = v; }
};
static void symbols(nav_msgs::OccupancyGrid& m, int pattern, int n, int lo, int hi, const char* pre)
{
  static const int at[5][4][2] = {
      {{1, 2}, {2, 2}, {3, 2}, {4, 2}},
      {{3, 0}, {3, 1}, {3, 2}, {3, 3}},
      {{2, 2}, {3, 2}, {2, 3}, {3, 3}},
      {{0, 0}, {1, 1}, {2, 2}, {1, 2}},
      {{1, 1}, {3, 1}, {2, 2}, {2, 1}}};
  for (int i = 0; i < 4; i++)
  {
    int v = 100;
    if (i < n)
    {
      char name[8] = {pre[0], static_cast<char>('0' + i), 0};
      v = sx_int(name, lo, hi);
    }
    m.data[at[pattern][i][1] * m.info.width + at[pattern][i][0]] = v;
  }
}
// what one message does to the cells below it, with the template of the layer
static int cost(Costmap3dLayerFootprint& l, const nav_msgs::OccupancyGrid& m, int under, int x, int y, int yaw, int w = 1000, int h = 1000, int ox = 0, int oy = 0)
{
  const int r = l.getRangeMax();
  int best = under;
  for (int j = 0; j < static_cast<int>(m.info.height); j++)
    for (int i = 0; i < static_cast<int>(m.info.width); i++)
    {
      if (i + ox < 0 || j + oy < 0 || i + ox >= w || j + oy >= h)
        continue;   // obstacles beside the map are not on it
      const int dx = x - i - ox, dy = y - j - oy;
      if (dx < -r || dx > r || dy < -r || dy > r)
        continue;
      const int v = m.data[j * m.info.width + i];
      const int t = l.getTemplate().e(dx, dy, yaw);
      int c = v > 0 ? t * v / 100 : 0;
      c = (dx == 0 && dy == 0 && v == 0) ? 0 : c > 0 ? c : -1;
      best = c > best ? c : best;
    }
  return best;
}

// The base map: a known cell gets the highest cost that any obstacle puts on it, unknown cells stay unknown
extern "C" void h_inflate()
{
  const int w = sx_param("w", 7), h = sx_param("h", 6), angles = sx_param("angles", 8);
  auto m = grid(w, h, 0);
  m->data[(h - 1) * w + 2] = -1;
  symbols(*m, sx_param("pattern", 0), sx_param("n", 3), sx_param("lo", -1), 100, "v");
  Costmap3d c(angles);
  auto r = c.addRootLayer<Costmap3dLayerFootprint>();
  r->setExpansion(sx_param("expand16", 0) / 16.0f, sx_param("spread16", 0) / 16.0f, sx_param("low", 0));
  r->setFootprint(poly(shape(sx_param("foot", 0))));
  r->setBaseMap(m);
  auto got = r->getMapOverlay();
  sx_check(got->info.width == w && got->info.height == h && got->info.angle == angles &&
           got->data.size() == w * h * angles, "the costmap has the size of the map");
  for (int yaw = 0; yaw < angles; yaw++)
  {
    bool ok = true;
    for (int y = 0; y < h; y++)
      for (int x = 0; x < w; x++)
      {
        const int e = m->data[y * w + x] < 0 ? -1 : cost(*r, *m, -1, x, y, yaw);
        ok = ok & (got->getCost(x, y, yaw) == e);
      }
    sx_check(ok, "a cell has the cost of the obstacle that weighs most on it");
  }
  sx_reach("inflated");
}

struct Published
{
  costmap_cspace_msgs::CSpace3DUpdate::Ptr u;
  CSpace3DMsg::Ptr map;
  int n = 0;
};
static void mixed(nav_msgs::OccupancyGrid& b)
{
  const int w = b.info.width;
  b.data[1 * w + 1] = 100;
  b.data[3 * w + 4] = 60;
  b.data[3 * w + 2] = -1;
  b.data[2 * w + 5] = -1;
}
// One overlay over a base map: the published update holds the base map and the latest overlay, nothing else
static void place(nav_msgs::OccupancyGrid& m, int x, int y, float res)
{
  m.info.resolution = res;
  m.info.origin.position.x = x / static_cast<double>(std::round(1 / res));
  m.info.origin.position.y = y / static_cast<double>(std::round(1 / res));
}
extern "C" void h_overlay()
{
  const int w = sx_param("w", 7), h = sx_param("h", 6), angles = sx_param("angles", 4);
  const int ow = 5, oh = 4, over = sx_param("overwrite", 0), keep = sx_param("keep", 0), first = sx_param("first", 1);
  Costmap3d c(angles);
  auto root = c.addRootLayer<Costmap3dLayerPlain>();
  root->setExpansion(0, 0);
  auto lay = c.addLayer<Costmap3dLayerFootprint>(over ? OVERWRITE : MAX);
  lay->setExpansion(sx_param("expand16", 0) / 16.0f, sx_param("spread16", 0) / 16.0f);
  Pts foot = shape(sx_param("foot", 0));
  for (auto& q : foot)
    q.first /= sx_param("perm", 1), q.second /= sx_param("perm", 1);
  lay->setFootprint(poly(foot));
  lay->setKeepUnknown(keep);
  auto out = c.addLayer<Costmap3dUpdateLayerOutput>();
  Published p;
  out->setHandler([&p](const CSpace3DMsg::Ptr& map, const costmap_cspace_msgs::CSpace3DUpdate::Ptr& u) {
    p.u = u;
    p.map = map;
    p.n++;
    return true;
  });
  const float res = sx_param("perm", 1) == 1 ? 1.0f : 1.0f / sx_param("perm", 1);
  const int at = sx_param("at", 0);   // where the map lies, in cells
  auto base = grid(w, h, 0);
  place(*base, at, -2 * at, res);
  mixed(*base);
  root->setBaseMap(base);
  int px = 0, py = 0, pw = w, ph = h;
  if (first)
  {
    auto m1 = grid(ow, oh, 0, 1, 1);
    m1->data[0] = m1->data[7] = m1->data[13] = 100;
    m1->data[4] = -1;
    place(*m1, at + 1, -2 * at + 1, res);
    lay->processMapOverlay(m1, true);
    lay->processMapOverlay(m1, true);
    px = py = 1;
    pw = ow;
    ph = oh;
  }
  const int mx = sx_fork(sx_int("x", sx_param("x0", -5), sx_param("x1", 7)));
  const int my = sx_fork(sx_int("y", sx_param("y0", -2), sx_param("y1", 6)));
  auto m2 = grid(ow, oh, 0, mx, my);
  m2->data[2] = -1;
  m2->data[ow * 2 + 2] = -1;
  symbols(*m2, sx_param("pattern", 2), sx_param("n", 1), -1, 100, "o");
  m2->header.stamp = ros::Time(7);
  place(*m2, at + mx, -2 * at + my, res);
  const int before = p.n;
  lay->processMapOverlay(m2, true);
  sx_check(p.n == before + 1 && p.u, "one update for one overlay");
  const auto& u = *p.u;
  const int x0 = std::max(mx, 0), y0 = std::max(my, 0), x1 = std::min(mx + ow, w), y1 = std::min(my + oh, h);
  if (x0 >= x1 || y0 >= y1)
  {
    sx_check(u.width * u.height == 0, "nothing to publish for an overlay off the map");
    return sx_reach("off the map");
  }
  const int ux = u.x, uy = u.y, uw = u.width, uh = u.height, ua = u.angle, uyaw = u.yaw;
  sx_check(ux <= x0 && uy <= y0 && ux + uw >= x1 && uy + uh >= y1 && ux <= px && uy <= py && ux + uw >= px + pw && uy + uh >= py + ph &&
           uyaw == 0 && ua == angles, "the update covers the overlay and the one before");
  sx_check(ux >= 0 && uy >= 0 && ux + uw <= w && uy + uh <= h && static_cast<int>(u.data.size()) == uw * uh * angles, "the update lies on the map");
  const int r = lay->getRangeMax();
  for (int yaw = 0; yaw < angles; yaw++)
  {
    bool ok = true, beside = true;
    for (int y = uy; y < uy + uh; y++)
      for (int x = ux; x < ux + uw; x++)
      {
        const int got = u.data[(yaw * uh + y - uy) * uw + x - ux];
        const int b = base->data[y * w + x];
        const int i = x - mx, j = y - my;
        if (i < 0 || j < 0 || i >= ow || j >= oh)
        {
          beside = beside & (got >= b) & (got <= cost(*lay, *m2, b, x, y, yaw, w, h, mx, my));
          continue;
        }
        const int v = m2->data[j * ow + i];
        const bool inner = i >= r && i < ow - r && j >= r && j < oh - r;
        const int under = over && inner && v >= 0 ? -1 : b;
        int e = cost(*lay, *m2, under, x, y, yaw, w, h, mx, my);
        if (keep)
          e = v < 0 && under < 0 ? -1 : e;
        ok = ok & (got == e);
      }
    sx_check(ok, "a cell under the overlay has the base cost and the inflated overlay");
    sx_check(beside, "a cell beside the overlay has at most its inflation");
  }
  sx_reach("overlaid");
}

// Several layers and messages in any order: what is published depends on the base map and the latest message of each layer only
struct Stack
{
  Costmap3d c;
  Costmap3dLayerFootprint::Ptr root, a, b;
  Published p;
  Stack(int angles)
    : c(angles)
  {
    const int stop = sx_param("stop", 0), unk = sx_param("unknown", 0);
    root = c.addRootLayer<Costmap3dLayerFootprint>();
    root->setExpansion(0.5f, 0);
    root->setFootprint(poly(shape(4)));
    if (stop)
      c.addLayer<Costmap3dLayerStopPropagation>();
    a = c.addLayer<Costmap3dLayerFootprint>(sx_param("oa", 0) ? OVERWRITE : MAX);
    a->setExpansion(1, 0.5f);
    a->setFootprint(poly(shape(0)));
    a->setKeepUnknown(sx_param("keep", 0));
    b = c.addLayer<Costmap3dLayerFootprint>(sx_param("ob", 0) ? OVERWRITE : MAX);
    b->setExpansion(0, 1.5f);
    b->setFootprint(poly(shape(4)));
    if (unk)
    {
      auto u = c.addLayer<Costmap3dLayerUnknownHandle>();
      XmlRpc::XmlRpcValue v;
      v["unknown_cost"] = 33;
      u->loadConfig(v);
    }
    auto out = c.addLayer<Costmap3dUpdateLayerOutput>();
    out->setHandler([this](const CSpace3DMsg::Ptr& map, const costmap_cspace_msgs::CSpace3DUpdate::Ptr& u) {
      p.u = u;
      p.map = map;
      p.n++;
      return true;
    });
  }
};
extern "C" void h_history()
{
  const int w = 10, h = sx_param("h", 4), angles = sx_param("angles", 2), steps = sx_param("steps", 4), free = sx_param("free", 2);
  Stack s(angles), f(angles);
  auto base = grid(w, h, 0);
  base->data[1] = 100;
  base->data[w + 5] = -1;
  base->data[2 * w + 5] = 50;
  s.root->setBaseMap(base);
  nav_msgs::OccupancyGrid::Ptr la, lb;
  int last = -1;
  const int before = s.p.n;
  for (int i = 0; i < steps; i++)
  {
    // the last `free` messages are chosen by the solver, those before are fixed by the shard
    const int code = i < steps - free ? (sx_param("lead", 0) >> i) & 1 : static_cast<int>(sx_fork(sx_int(i == 0 ? "who0" : i == 1 ? "who1" : i == 2 ? "who2" : "who3", 0, 1)));
    const int x = i < steps - free ? 2 + i : static_cast<int>(sx_fork(sx_int(i == 0 ? "x0" : i == 1 ? "x1" : i == 2 ? "x2" : "x3", -2, w - 1)));
    auto m = grid(4, 3, 0, x, code ? 0 : 1);
    m->data[1] = m->data[4 + 2] = 100;
    m->data[2 * 4] = i % 2 ? -1 : 80;
    m->data[2 * 4 + 3] = -1;
    if (i == steps - 1)
      m->data[6] = sx_int("v", -1, 100);
    (code ? lb : la) = m;
    last = code;
    (code ? s.b : s.a)->processMapOverlay(m, true);
  }
  const auto u = s.p.u;
  f.root->setBaseMap(base);
  if (la)
    f.a->processMapOverlay(la, true);
  if (lb)
    f.b->processMapOverlay(lb, true);
  sx_check(s.p.n == before + steps && u, "one update for each message");
  const int uw = u->width, uh = u->height, ux = u->x, uy = u->y;
  if (uw * uh == 0)
    return sx_reach("off the map");
  const auto now = last ? lb : la;
  const int mx = std::lround(now->info.origin.position.x), my = std::lround(now->info.origin.position.y);
  const int x0 = std::max(mx, 0), x1 = std::min(mx + 4, w), y0 = std::max(my, 0), y1 = std::min(my + 3, h);
  sx_check(ux <= x0 && uy <= y0 && ux + uw >= x1 && uy + uh >= y1, "the update covers the latest message");
  for (int yaw = 0; yaw < angles; yaw++)
  {
    bool ok = true;
    for (int y = uy; y < uy + uh; y++)
      for (int x = ux; x < ux + uw; x++)
        ok = ok & (u->data[(yaw * uh + y - uy) * uw + x - ux] == f.p.map->getCost(x, y, yaw));
    sx_check(ok, "the update is that of a costmap that only got the latest messages");
  }
  sx_reach("same");
}

// A new base map replaces everything below the overlays
extern "C" void h_rebase()
{
  const int angles = sx_param("angles", 2);
  Stack s(angles), f(angles);
  auto base = grid(6, 4, 0);
  base->data[1] = 100;
  base->data[8] = -1;
  s.root->setBaseMap(base);
  auto o = grid(3, 3, 0, sx_fork(sx_int("x", -2, 7)), 1);
  o->data[0] = o->data[5] = 100;
  const int who = sx_param("who", 0);
  (who ? s.b : s.a)->processMapOverlay(o, true);
  const int w2 = sx_fork(sx_int("w", 3, 8)), h2 = sx_fork(sx_int("h", 3, 6));
  auto base2 = grid(w2, h2, 0);
  base2->data[w2 + 1] = sx_int("v", -1, 100);
  base2->data[2 * w2 + 2] = 100;
  s.root->setBaseMap(base2);
  f.root->setBaseMap(base2);
  (who ? f.b : f.a)->processMapOverlay(o, true);
  const auto u = s.p.u;
  sx_check(u->x == 0 && u->y == 0 && u->width == w2 && u->height == h2 && u->angle == angles, "a new base map is published as a whole");
  bool ok = true;
  for (int yaw = 0; yaw < angles; yaw++)
    for (int y = 0; y < h2; y++)
      for (int x = 0; x < w2; x++)
        ok = ok & (u->data[(yaw * h2 + y) * w2 + x] == f.p.map->getCost(x, y, yaw));
  sx_check(ok, "the new base map with the overlay on it");
  sx_reach("rebased");
}

// Layers that stop the layers before them and that give unknown cells a cost
extern "C" void h_special()
{
  const int w = 5, h = 4, angles = 2;
  Costmap3d c(angles);
  auto root = c.addRootLayer<Costmap3dLayerPlain>();
  root->setExpansion(0, 0);
  CSpace3DMsg::Ptr stat;
  int statics = 0;
  auto so = c.addLayer<Costmap3dStaticLayerOutput>();
  so->setHandler([&](const CSpace3DMsg::Ptr& m) { stat = m; statics++; return true; });
  const bool stop = sx_param("stop", 1);
  if (stop)
    c.addLayer<Costmap3dLayerStopPropagation>();
  auto a = c.addLayer<Costmap3dLayerPlain>();
  a->setExpansion(0, 0);
  auto k = c.addLayer<Costmap3dLayerUnknownHandle>();
  const int cost = sx_int("cost", -1, 100);
  XmlRpc::XmlRpcValue cfg;
  cfg["unknown_cost"] = cost;
  k->loadConfig(cfg);
  auto out = c.addLayer<Costmap3dUpdateLayerOutput>();
  Published p;
  out->setHandler([&p](const CSpace3DMsg::Ptr& map, const costmap_cspace_msgs::CSpace3DUpdate::Ptr& u) { p.u = u; p.map = map; p.n++; return true; });
  auto base = grid(w, h, 0);
  int b[2];
  b[0] = sx_int("b0", -1, 100);
  b[1] = sx_int("b1", -1, 100);
  base->data[7] = b[0];
  base->data[11] = b[1];
  base->data[12] = 100;
  base->data[3] = -1;
  root->setBaseMap(base);
  sx_check(statics == 1 && p.n == 0, "a base map is published as the static map");
  bool st = true;
  for (int yaw = 0; yaw < angles; yaw++)
    for (int i = 0; i < w * h; i++)
      st = st & (stat->data[yaw * w * h + i] == base->data[i]);
  sx_check(st, "the static map holds the base map");
  auto o = grid(3, 3, -1, 1, 1);
  o->data[0] = 0;
  o->data[1] = sx_int("o", -1, 100);
  for (int round = 0; round < 2; round++)
  {
    a->processMapOverlay(o, true);
    sx_check(statics == 1 && p.n == round + 1, "an overlay is published as an update");
    const auto& u = *p.u;
    const int ux = u.x, uy = u.y, uw = u.width, uh = u.height;
    sx_check(ux <= 1 && uy <= 1 && ux + uw >= 4 && uy + uh >= 4, "the update covers the overlay");
    bool ok = true;
    for (int yaw = 0; yaw < angles; yaw++)
      for (int y = uy; y < uy + uh; y++)
        for (int x = ux; x < ux + uw; x++)
        {
          const int below = stop ? -1 : base->data[y * w + x];
          const bool in = x >= 1 && x < 4 && y >= 1 && y < 4;
          const int v = in ? o->data[(y - 1) * 3 + x - 1] : -1;
          int e = v > below ? v : below;
          e = e < 0 ? cost : e;
          ok = ok & (u.data[(yaw * uh + y - uy) * uw + x - ux] == e);
        }
    sx_check(ok, stop ? "costs of the layers before the stop do not pass, unknown cells get the given cost" :
                        "unknown cells get the given cost and the others keep theirs");
  }
  sx_reach("special");
}

// Regions: the hull of two regions, and what of it lies on the map
extern "C" void h_region()
{
  const int lim = 1000;
  UpdatedRegion a, b;
  a.x_ = sx_int("ax", -lim, lim); a.y_ = sx_int("ay", -lim, lim); a.yaw_ = sx_int("aa", 0, 16);
  a.width_ = sx_int("aw", 0, lim); a.height_ = sx_int("ah", 0, lim); a.angle_ = sx_int("an", 0, 16);
  b.x_ = sx_int("bx", -lim, lim); b.y_ = sx_int("by", -lim, lim); b.yaw_ = sx_int("ba", 0, 16);
  b.width_ = sx_int("bw", 0, lim); b.height_ = sx_int("bh", 0, lim); b.angle_ = sx_int("bn", 0, 16);
  const int fw = sx_int("fw", 1, lim), fh = sx_int("fh", 1, lim);
  const int px = sx_int("px", -3 * lim, 3 * lim), py = sx_int("py", -3 * lim, 3 * lim), pa = sx_int("pa", 0, 40);
  auto has = [&](const UpdatedRegion& r) {
    return (px >= r.x_) & (px < r.x_ + r.width_) & (py >= r.y_) & (py < r.y_ + r.height_) & (pa >= r.yaw_) & (pa < r.yaw_ + r.angle_);
  };
  UpdatedRegion m = a;
  m.merge(b);
  const bool in = has(a) | has(b);
  sx_check(!in | has(m), "the hull holds both regions");
  auto empty = [](const UpdatedRegion& r) { return (r.width_ == 0) | (r.height_ == 0) | (r.angle_ == 0); };
  if (empty(a) && empty(b))
    sx_check(!has(m), "the hull of nothing is empty");
  else if (empty(b))
    sx_check(has(m) == has(a), "an empty region adds nothing");
  else if (empty(a))
    sx_check(has(m) == has(b), "nothing before the first region");
  else
    sx_check(!has(m) | ((px >= std::min(a.x_, b.x_)) & (px < std::max(a.x_ + a.width_, b.x_ + b.width_)) &
                        (py >= std::min(a.y_, b.y_)) & (py < std::max(a.y_ + a.height_, b.y_ + b.height_)) &
                        (pa >= std::min(a.yaw_, b.yaw_)) & (pa < std::max(a.yaw_ + a.angle_, b.yaw_ + b.angle_))), "the hull holds no more than it must");
  UpdatedRegion n = a;
  n.normalize(fw, fh);
  const bool on = (px >= 0) & (px < fw) & (py >= 0) & (py < fh);
  sx_check(has(n) == (has(a) & on), "what of a region lies on the map");
  const int ex = sx_int("ex", 0, 50);
  UpdatedRegion e = a;
  e.expand(ex);
  sx_check(!has(a) | has(e), "a larger region holds the region");
  sx_reach("regions");
}

// Point clouds are kept for the given time, and no longer
extern "C" void h_accum()
{
  struct Cloud { int id; };
  const int n = sx_param("n", 5);
  const int64_t s = 1000000000ll;
  ros::Duration hold;
  hold.ns = sx_s("hold", 64, 0, 10 * s);
  PointcloudAccumulator<Cloud> acc(hold);
  std::vector<int64_t> at;
  int64_t t = 0;
  for (int i = 0; i < n; i++)
  {
    char name[4] = {'d', static_cast<char>('0' + i), 0};
    t += sx_s(name, 64, 0, 12 * s);
    at.push_back(t);
    ros::Time st;
    st.ns = t;
    acc.push(PointcloudAccumulator<Cloud>::Points(Cloud{i}, st));
    auto it = acc.begin();
    for (int k = 0; k <= i; k++)
    {
      const bool held = at[k] + hold.ns >= t;
      if (held)
      {
        sx_check(it != acc.end() && it->id == k, "a cloud is kept for the given time");
        ++it;
      }
    }
    sx_check(it == acc.end(), "an old cloud is dropped");
  }
  acc.clear();
  sx_check(acc.begin() == acc.end(), "nothing is left after clearing");
  sx_reach("clouds");
}
