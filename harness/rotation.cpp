// Geometry of grid vectors and the table of motions as seen from every heading
#include "pre.h"
#define private public
#define protected public
#include <planner_cspace/cyclic_vec.h>
#include <planner_cspace/planner_3d/rotation_cache.h>
#undef private
#undef protected
#include "sx.h"
using namespace planner_cspace;
typedef CyclicVecInt<3, 2> V;
typedef CyclicVecFloat<3, 2> F;
static bool near(double a, double b, double e) { return a - b <= e && b - a <= e; }
static V iv(int x, int y, int z)
{
  V v;
  v[0] = x; v[1] = y; v[2] = z;
  return v;
}
static V sym(const char* n, int r)
{
  V v;
  v[0] = sx_int(n, -r, r);
  v[1] = sx_int(n, -r, r);
  v[2] = sx_int(n, -r, r);
  return v;
}
// sums, differences, products, lengths of integer vectors
extern "C" void h_arith()
{
  const V a = sym("a", 1000), b = sym("b", 1000);
  const V s = a + b, d = a - b, p = a * b;
  for (int i = 0; i < 3; ++i)
  {
    sx_check(s[i] == a[i] + b[i], "sum by element");
    sx_check(d[i] == a[i] - b[i], "difference by element");
    sx_check(p[i] == a[i] * b[i], "product by element");
  }
  sx_check(a.sqlen() == a[0] * a[0] + a[1] * a[1], "the squared length counts the linear axes only");
  const F f(a);
  sx_check(f[0] == a[0] && f[1] == a[1] && f[2] == a[2], "conversion to float is exact");
  const V back(f);
  sx_check(back == a, "conversion back is exact");
  const F g(static_cast<float>(a[0]), static_cast<float>(b[1]), static_cast<float>(a[2]));
  sx_check(g[0] == a[0] && g[1] == b[1] && g[2] == a[2], "elements keep their order");
  sx_reach("arith");
}
extern "C" void h_round()
{
  const float x = sx_f32("x", -100000, 100000);
  const V v(x, 0.0f, -x);
  sx_check(2 * (v[0] - static_cast<double>(x)) <= 1 && 2 * (v[0] - static_cast<double>(x)) >= -1, "float elements are rounded to the nearest cell");
  sx_check(v[2] == -v[0] && v[1] == 0, "rounding is symmetric");
  sx_reach("round");
}
extern "C" void h_product()
{
  const V a = sym("a", 100), b = sym("b", 100);
  sx_check(a.cross2d(b) == static_cast<float>(a[0] * b[1] - a[1] * b[0]), "cross product");
  sx_check(a.dot2d(b) == static_cast<float>(a[0] * b[0] + a[1] * b[1]), "dot product");
  sx_reach("product");
}
extern "C" void h_len()
{
  const int R = sx_param("range", 30), y = sx_param("y", 0);
  const int x = sx_int("x", -R, R);
  const double l = iv(x, y, 5).len();
  const double q = x * x + y * y;
  sx_check(l >= 0 && l * l <= q * 1.000001 && l * l >= q * 0.999999, "length of the linear part");
  sx_reach("len");
}
extern "C" void h_norm()
{
  const int R = sx_param("range", 30), x = sx_param("y", 0), y = 5 - 2 * x;
  const int z = sx_int("z", -R, R);
  const double n = iv(x, y, z).norm();
  const double w = x * x + y * y + z * z;
  sx_check(n >= 0 && n * n <= w * 1.000001 && n * n >= w * 0.999999, "the norm counts every axis");
  sx_reach("norm");
}
// distance to a line and to a line segment
static const int D[][2] = {{1, 0}, {0, -2}, {3, 3}, {-4, 2}, {5, -3}, {-1, -7}};
extern "C" void h_line()
{
  const int k = sx_param("k", 0), R = sx_param("range", 12);
  const int ax = D[k][1] % 3, ay = D[k][0] % 2;
  const V a = iv(ax, ay, 0), b = iv(ax + D[k][0], ay + D[k][1], 0);
  const int fx = sx_param("fx", 0);
  const int u = sx_fork(sx_int("u", -R / 2, R / 2)), w = sx_int("w", -R, R);
  const V p = fx ? iv(u, w, 0) : iv(w, u, 0);
  const int dx = D[k][0], dy = D[k][1], px = p[0] - ax, py = p[1] - ay;
  const int cr = dx * py - dy * px, dt = dx * px + dy * py, l2 = dx * dx + dy * dy;
  const double l = std::sqrt(static_cast<double>(l2));
  const double s = p.distLine2d(a, b);
  sx_check(near(s, cr / l, 1e-4), "signed distance from the line, positive on the left");
  const double g = p.distLinestrip2d(a, b);
  sx_check(g >= 0, "distance is not negative");
  if (dt <= 0)
  {
    const int q = px * px + py * py;
    sx_check(near(g * g, q, 1e-3), "a point behind the segment: distance to its begin");
    sx_reach("behind");
  }
  else if (dt >= l2)
  {
    const int q = (px - dx) * (px - dx) + (py - dy) * (py - dy);
    sx_check(near(g * g, q, 1e-3), "a point ahead of the segment: distance to its end");
    sx_reach("ahead");
  }
  else
  {
    sx_check(near(g, (cr < 0 ? -cr : cr) / l, 1e-4), "a point beside the segment: distance across it");
    sx_reach("beside");
  }
}
extern "C" void h_rotate()
{
  const int k = sx_param("k", 0), n = sx_param("n", 16);
  const double ang = (k - n) * 2 * M_PI / n;
  const double c = std::cos(ang), s = std::sin(ang);
  const float x = sx_f32("x", -100, 100), y = sx_f32("y", -100, 100);
  const float t = sx_f32("t", -3.14f, 3.14f);
  F v(x, y, t);
  v.rotate(ang);
  sx_check(near(v[0], c * x - s * y, 1e-3) && near(v[1], s * x + c * y, 1e-3), "the linear part turns by the angle");
  const double w = static_cast<double>(t) + ang;
  sx_check(near(v[2], w, 1e-4) || near(v[2], w + 2 * M_PI, 1e-4) || near(v[2], w - 2 * M_PI, 1e-4), "the heading turns by the angle");
  sx_check(v[2] <= 3.1416f && v[2] >= -3.1416f, "the heading stays within one turn");
  const int ix = sx_int("ix", -50, 50), iy = sx_int("iy", -50, 50);
  V u = iv(ix, iy, 0);
  u.rotate(ang);
  sx_check(near(u[0], c * ix - s * iy, 0.501) && near(u[1], s * ix + c * iy, 0.501), "cells turn to the nearest cell");
  sx_reach("rotate");
}
// the table of motions
extern "C" void h_table()
{
  const int n = sx_param("n", 8), R = sx_param("range", 1), st = sx_param("start", 0);
  const float ar = 2 * M_PI / n, lr = sx_f32("resolution", 0.01f, 2);
  planner_cspace::planner_3d::RotationCache rc;
  rc.reset(lr, ar, R);
  const double yaw = st * 2 * M_PI / n;
  for (int i = -R; i <= R; ++i)
    for (int j = -R; j <= R; ++j)
      for (int k = 0; k < n; ++k)
      {
        const V e = iv(i + R, j + R, k);
        const F v = rc.getMotion(st, e);
        const double mx = std::cos(yaw) * i + std::sin(yaw) * j, my = -std::sin(yaw) * i + std::cos(yaw) * j;
        sx_check(near(v[0], mx * lr, 1e-5) && near(v[1], my * lr, 1e-5), "a motion is seen from the start heading");
        const int dk = ((k - st) % n + n) % n;
        const double t = dk * 2 * M_PI / n;
        sx_check(near(std::cos(v[2]), std::cos(t), 1e-5) && near(std::sin(v[2]), std::sin(t), 1e-5), "the heading is relative to the start heading");
      }
  sx_reach("table");
}
extern "C" void h_radius()
{
  const int n = sx_param("n", 8), R = sx_param("range", 1), st = sx_param("start", 0);
  static const float LR[] = {0.05f, 0.1f, 1, 0.0625f};
  const float lr = LR[sx_fork(sx_int("resolution", 0, 3))], ar = 2 * M_PI / n;
  planner_cspace::planner_3d::RotationCache rc;
  rc.reset(lr, ar, R);
  const double yaw = st * 2 * M_PI / n;
  const int i = sx_fork(sx_int("x", -R, R)), j = sx_fork(sx_int("y", -R, R)), k = sx_int("yaw", 0, n - 1);
  double sn[64], cs[64];
  for (int m = 0; m < n; ++m)
  {
    sn[m] = std::sin(m * 2 * M_PI / n);
    cs[m] = std::cos(m * 2 * M_PI / n);
  }
  const int dk = (k - st + n) % n;
  sx_assume(dk != 0 && 2 * dk != n);
  const double mx = std::cos(yaw) * i + std::sin(yaw) * j, my = -std::sin(yaw) * i + std::cos(yaw) * j;
  const std::pair<float, float>& r = rc.getRadiuses(st, iv(i + R, j + R, k));
  const double r1 = r.first, r2 = r.second;
  sx_check(near(mx * lr, r2 * sn[dk], 1e-4), "the turning centre seen from the end lies beside the start");
  sx_check(near(r1, my * lr + r2 * cs[dk], 1e-4), "both radii describe the same turning centre");
  sx_reach("radius");
}
