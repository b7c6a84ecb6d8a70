// Control primitives of the trajectory tracker and the odometry filter
#include "pre.h"
#include <Eigen/Core>
#define private public
#define protected public
#include <trajectory_tracker/average.h>
#include <trajectory_tracker/basic_control.h>
#include <trajectory_tracker/eigen_line.h>
#include <trajectory_tracker/filter.h>
#include <track_odometry/kalman_filter1.h>
#undef private
#undef protected
#include "sx.h"
using namespace trajectory_tracker;
typedef Eigen::Vector2d P;

// ---- speed and acceleration limits
extern "C" void h_clip()
{
  const float v = sx_rawf("v"), m = sx_f32("max", 0, 1e30f);
  const float r = clip(v, m);
  if (std::isnan(v)) { sx_check(std::isnan(r), "nothing is made up for an invalid value"); sx_reach("nan"); return; }
  sx_check(r <= m && r >= -m, "the limit is kept");
  sx_check(!(v <= m && v >= -m) || r == v, "values within the limit pass unchanged");
  sx_check(!(v > m) || r == m, "values above are cut to the limit");
  sx_check(!(v < -m) || r == -m, "values below are cut to the limit");
  sx_reach("clip");
}
extern "C" void h_limit()
{
  VelAccLimitter l;
  sx_check(l.get() == 0, "starts at rest");
  const float prev = sx_f32("prev", -100, 100), v = sx_rawf("v"), vel = sx_f32("vel", 0, 100), acc = sx_f32("acc", 0, 100), dt = sx_f32("dt", 0, 10);
  l.val_prev_ = prev;
  const float r = l.set(v, vel, acc, dt);
  sx_check(l.get() == r, "the command is remembered");
  sx_check(std::isfinite(r), "the command is finite");
  const float step = dt * acc;
  if (std::isnan(v)) { sx_check(r == 0, "an invalid command stops"); sx_reach("nan"); return; }
  sx_check(r <= prev + step && r >= prev - step, "acceleration is limited");
  const float w = v > vel ? vel : v < -vel ? -vel : v;
  sx_check(!(w <= prev + step && w >= prev - step) || r == w, "a reachable command is executed");
  sx_check(!(w > prev + step) || r == prev + step, "acceleration is as high as allowed");
  sx_check(!(w < prev - step) || r == prev - step, "deceleration is as high as allowed");
  if (prev <= vel && prev >= -vel) { sx_check(r <= vel && r >= -vel, "speed limit is kept"); sx_reach("inside"); }
  else if (prev > vel) { sx_check(r <= prev, "above the limit the speed never rises"); sx_reach("above"); }
  else { sx_check(r >= prev, "below the limit the speed never falls"); sx_reach("below"); }
  l.clear();
  sx_check(l.get() == 0, "clear means rest");
}
extern "C" void h_increment()
{
  VelAccLimitter a, b;
  const float prev = sx_f32("prev", -100, 100), v = sx_f32("v", -100, 100), vel = sx_f32("vel", 0, 100), acc = sx_f32("acc", 0, 100), dt = sx_f32("dt", 0, 10);
  a.val_prev_ = b.val_prev_ = prev;
  const float ra = a.increment(v, vel, acc, dt), rb = b.set(prev + v, vel, acc, dt);
  sx_check(ra == rb, "an increment is relative to the last command");
  sx_check(a.get() == b.get(), "the command is remembered");
  sx_reach("increment");
}
// a sequence of arbitrary commands from rest never leaves the limits
extern "C" void h_limit_seq()
{
  VelAccLimitter l;
  const int n = sx_param("n", 3);
  const float vel = sx_f32("vel", 0, 10), acc = sx_f32("acc", 0, 10), dt = sx_f32("dt", 0.001f, 1);
  float prev = 0;
  for (int i = 0; i < n; ++i)
  {
    const float v = sx_f32("v", -1000, 1000);
    const float r = l.set(v, vel, acc, dt);
    sx_check(r <= vel && r >= -vel, "speed limit is kept");
    sx_check(r <= prev + dt * acc && r >= prev - dt * acc, "acceleration is limited");
    prev = r;
  }
  sx_reach("seq");
}
extern "C" void h_time_optimal()
{
  const float accs[] = {0.0625f, 0.3f, 1, 4.7f};
  const float acc = accs[sx_param("k", 0)];
  const float e = sx_f32("e", sx_param("e0", -100), sx_param("e1", 100));
  const float r = timeOptimalControl(e, acc);
  sx_check(std::isfinite(r), "the command is finite");
  sx_check(!(e > 0) || r <= 0, "the command reduces a positive error");
  sx_check(!(e < 0) || r >= 0, "the command reduces a negative error");
  const double d = 2.0 * e * acc, q = static_cast<double>(r) * r;
  const double m = d < 0 ? -d : d;
  sx_check(q <= m * 1.0002 + 1e-6, "braking from the command at the given deceleration does not overshoot");
  sx_check(q >= m * 0.9998 - 1e-6, "the command is as fast as braking allows");
  sx_reach("time_optimal");
}
extern "C" void h_angle()
{
  const float a = sx_f32("a", sx_param("lo", -16), sx_param("hi", 16));
  const float r = angleNormalized(a);
  sx_check(r <= 3.1415930f && r >= -3.1415930f, "result is within one turn");
  sx_check(!(a <= 3.1415920f && a >= -3.1415920f) || r == a, "an angle within one turn is unchanged");
  int near = 0;
  for (int k = -4; k <= 4; ++k)
  {
    const double d = static_cast<double>(a) - r - 2.0 * M_PI * k;
    near |= (d <= 1e-5) & (d >= -1e-5);
  }
  sx_check(near, "result is the same direction");
  sx_reach("angle");
}

// ---- averaging and filtering
extern "C" void h_average()
{
  Average<float> a;
  sx_check(static_cast<float>(a) == 0, "average of nothing is zero");
  const int n = sx_fork(sx_int("n", 1, sx_param("max", 4)));
  const float lo = sx_f32("lo", -1000, 1000), hi = sx_f32("hi", -1000, 1000);
  sx_assume(lo <= hi);
  float one = 0;
  for (int i = 0; i < n; ++i)
  {
    const float v = sx_f32("v", -1000, 1000);
    sx_assume(lo <= v && v <= hi);
    a += v;
    one = v;
  }
  const float m = a;
  sx_check(m >= lo - 0.001f && m <= hi + 0.001f, "average lies between the extremes");
  if (n == 1) sx_check(m == one, "average of one value is that value");
  sx_reach("average");
}
extern "C" void h_average_int()
{
  Average<int> a;
  const int n = sx_fork(sx_int("n", 1, 6));
  int sum = 0;
  for (int i = 0; i < n; ++i)
  {
    const int v = sx_int("v", -1000000, 1000000);
    a += v;
    sum += v;
  }
  const int m = a;
  const int64_t e = static_cast<int64_t>(sum) - static_cast<int64_t>(m) * n;
  sx_check(e < n && e > -n, "average times count is the sum");
  sx_reach("average");
}
static const float g_tc[] = {0.5f, 0.7f, 1.0f, 3.0f, 10.0f, 50.0f};
extern "C" void h_lpf()
{
  const float tc = g_tc[sx_param("tc", 0)];
  const float lo = sx_f32("lo", -100, 100), hi = sx_f32("hi", -100, 100), out0 = sx_f32("out0", -100, 100);
  sx_assume(lo <= out0 && out0 <= hi);
  Filter f(Filter::FILTER_LPF, tc, out0);
  sx_check(f.get() == out0, "starts at the initial value");
  const int n = sx_param("n", 3);
  for (int i = 0; i < n; ++i)
  {
    const float v = sx_f32("v", -100, 100);
    sx_assume(lo <= v && v <= hi);
    const float r = f.in(v);
    sx_check(r == f.get(), "the output is remembered");
    sx_check(r <= hi + 0.02f && r >= lo - 0.02f, "low-pass output stays between the extremes of its inputs");
  }
  const float x = sx_f32("x", -100, 100);
  f.set(x);
  sx_check(f.get() == x, "set takes effect at once");
  const float r = f.in(x);
  sx_check(r - x <= 0.01f && x - r <= 0.01f, "a constant passes the low-pass filter");
  sx_reach("lpf");
}
extern "C" void h_complementary()
{
  const float tcs[] = {0.1f, 0.5f, 1.0f, 3.0f, 10.0f, 50.0f};
  const float tc = tcs[sx_param("tc", 0)];
  Filter l(Filter::FILTER_LPF, tc, 0), h(Filter::FILTER_HPF, tc, 0);
  const int n = sx_param("n", 3);
  for (int i = 0; i < n; ++i)
  {
    const float v = sx_f32("v", -100, 100);
    const float a = l.in(v), b = h.in(v);
    const float d = a + b - v;
    sx_check(d <= 0.02f && d >= -0.02f, "low-pass and high-pass outputs add up to the input");
  }
  sx_reach("complementary");
}
extern "C" void h_lpf_response()
{
  // after the time constant, about 1/e of a step remains
  const int tc = sx_param("tc", 3);
  const float out0 = sx_f32("out0", -100, 100), v = sx_f32("v", -100, 100);
  Filter f(Filter::FILTER_LPF, tc, out0);
  float r = out0;
  for (int i = 0; i < tc; ++i)
  {
    const float q = f.in(v);
    sx_check(!(v >= out0) || (q >= r - 0.01f), "moves towards a constant input");
    sx_check(!(v <= out0) || (q <= r + 0.01f), "moves towards a constant input");
    r = q;
  }
  const double d = static_cast<double>(v) - out0, e = static_cast<double>(v) - r;
  sx_check(!(d >= 0) || (e >= 0.3 * d - 0.02 && e <= 0.4 * d + 0.02), "about 1/e of a step remains after the time constant");
  sx_check(!(d <= 0) || (e <= 0.3 * d + 0.02 && e >= 0.4 * d - 0.02), "about 1/e of a step remains after the time constant");
  sx_reach("response");
}
extern "C" void h_lpf_angle()
{
  const float tc = g_tc[sx_param("tc", 0)];
  const double turn = 2.0 * M_PI;
  const int n = sx_param("turns", 0);
  const float out0 = sx_f32("out0", -3.1415f, 3.1415f), v = sx_f32("v", -3.1415f + n * turn, 3.1415f + n * turn);
  Filter f(Filter::FILTER_LPF, tc, out0, true), g(Filter::FILTER_LPF, tc, out0);
  const float r = f.in(v);
  const double d = static_cast<double>(v) - out0 - n * turn;
  const double s = d > M_PI ? d - turn : d < -M_PI ? d + turn : d;
  sx_assume(s < 3.14 && s > -3.14);
  const float want = g.in(out0 + s);
  sx_check(r - want <= 0.001f && want - r <= 0.001f, "an angle is filtered along the shorter way");
  sx_check(f.get() == r, "the output is remembered");
  sx_reach("angle");
}

// ---- lines
static const double g_bx[] = {1, 0, 3, -4, -1.5, 2}, g_by[] = {0, 2, 4, 3, -2, 0};
static const double g_len[] = {1, 2, 5, 5, 2.5, 2};
static P pt(double r)
{
  // one coordinate free, the other one of several values
  const double q[] = {-7.5, -1, 0, 0.3, 4, 1000};
  const double x = sx_f64("x", -r, r);
  const int i = sx_fork(sx_int("i", 0, 5));
  if (sx_param("swap", 0)) return P(q[i], x);
  return P(x, q[i]);
}
extern "C" void h_line()
{
  const int k = sx_param("k", 0);
  const P a(sx_param("ax", 0), sx_param("ay", 0)), b = a + P(g_bx[k], g_by[k]);
  const P c = pt(10);
  const double ux = g_bx[k] / g_len[k], uy = g_by[k] / g_len[k];
  const double dx = c[0] - a[0], dy = c[1] - a[1];
  const double t = dx * ux + dy * uy, n = ux * dy - uy * dx;  // along, across
  const float d = lineDistance(a, b, c);
  sx_check(d - n <= 1e-4 && n - d <= 1e-4, "signed distance from the line, positive on the left");
  const float s = lineStripDistanceSigned(a, b, c), u = lineStripDistance(a, b, c);
  sx_check(u >= 0, "distance is not negative");
  sx_check(u == s || u == -s, "distance is the size of the signed distance");
  const double an = n < 0 ? -n : n;
  if (t < -1e-6)
  {
    sx_check(s <= 0, "a point behind the segment has a negative distance");
    const double q = dx * dx + dy * dy, v = static_cast<double>(u) * u;
    sx_check(v - q <= 1e-3 + 1e-5 * q && q - v <= 1e-3 + 1e-5 * q, "a point behind the segment: distance to its begin");
    sx_reach("behind");
  }
  else if (t > g_len[k] + 1e-6)
  {
    sx_check(s >= 0, "a point ahead of the segment has a positive distance");
    const double ex = c[0] - b[0], ey = c[1] - b[1], q = ex * ex + ey * ey, v = static_cast<double>(u) * u;
    sx_check(v - q <= 1e-3 + 1e-5 * q && q - v <= 1e-3 + 1e-5 * q, "a point ahead of the segment: distance to its end");
    sx_reach("ahead");
  }
  else if (t > 1e-6 && t < g_len[k] - 1e-6)
  {
    sx_check(s >= 0, "a point beside the segment has a positive distance");
    sx_check(u - an <= 1e-4 && an - u <= 1e-4, "a point beside the segment: distance across it");
    sx_reach("beside");
  }
}
extern "C" void h_projection()
{
  const int k = sx_param("k", 0);
  const P a(1, -2), b = a + P(g_bx[k], g_by[k]);
  const P c = pt(10);
  const P p = projection2d(a, b, c);
  const double cr = (p[0] - a[0]) * g_by[k] - (p[1] - a[1]) * g_bx[k];
  const double dt = (c[0] - p[0]) * g_bx[k] + (c[1] - p[1]) * g_by[k];
  sx_check(cr <= 1e-3 && cr >= -1e-3, "the foot of the perpendicular is on the line");
  sx_check(dt <= 1e-3 && dt >= -1e-3, "the perpendicular is perpendicular");
  sx_reach("projection");
}
extern "C" void h_curvature()
{
  // a and b fixed, c on a grid of exact values
  const int k = sx_param("k", 0);
  const P a(0, 0), b(g_bx[k], g_by[k]);
  const int cx = sx_int("cx", -4, 4), cy = sx_int("cy", -4, 4);
  const P c(cx, cy);
  sx_assume(!(cx == 0 && cy == 0) && !(cx == b[0] && cy == b[1]));
  const int x = sx_fork(cx), y = sx_fork(cy);
  const float r = curv3p(a, b, P(x, y));
  const double area2 = g_bx[k] * y - g_by[k] * x;
  sx_check(!(area2 > 0) || r > 0, "left turns have a positive curvature");
  sx_check(!(area2 < 0) || r < 0, "right turns have a negative curvature");
  sx_check(!(area2 == 0) || r == 0, "straight lines have no curvature");
  const float q = curv3p(P(x, y), b, a);
  sx_check(q == -r || (q + r < 1e-6 && q + r > -1e-6), "the reverse path has the opposite curvature");
  sx_reach("curvature");
}
// points of a circle of known radius, in any position: curvature is 1 / radius
extern "C" void h_circle()
{
  const int ox = sx_int("ox", -20, 20);
  const int oys[] = {-9, 0, 5, 100};
  const int i = sx_fork(sx_int("i", 0, 3));
  const int oy = oys[i];
  const int k = sx_param("k", 0);
  const double R[] = {5, 10, 50};
  const int s = R[k] / 5;
  const P a(ox + 5 * s, oy), b(ox + 4 * s, oy + 3 * s), c(ox + 3 * s, oy + 4 * s);
  const float r = curv3p(a, b, c);
  sx_check(r * R[k] >= 0.99 && r * R[k] <= 1.01, "curvature of a circle is the inverse of its radius");
  sx_reach("circle");
}

// ---- Kalman filter
using track_odometry::KalmanFilter1;
extern "C" void h_kalman()
{
  const double x = sx_f64("x", -100, 100), s = sx_f64("s", 0.001, 1000), m = sx_f64("m", -100, 100), t = sx_f64("t", 0.001, 1000);
  KalmanFilter1 f(x, s);
  sx_check(f.x_ == x && f.sigma_ == s, "starts at the given state");
  f.measure(m, t);
  sx_check(f.sigma_ >= 0 && f.sigma_ <= s, "a measurement never adds uncertainty");
  sx_check(!(m >= x) || (f.x_ >= x - 1e-6 && f.x_ <= m + 1e-6), "the estimate moves towards the measurement and not past it");
  sx_check(!(m <= x) || (f.x_ <= x + 1e-6 && f.x_ >= m - 1e-6), "the estimate moves towards the measurement and not past it");
  sx_reach("kalman");
}
extern "C" void h_kalman_gain()
{
  // equal uncertainties: half way; a much better measurement: taken
  const double x = sx_f64("x", -100, 100), m = sx_f64("m", -100, 100);
  const double ss[] = {0.001, 0.1, 1, 30, 1000};
  const int i = sx_fork(sx_int("i", 0, 4)), j = sx_fork(sx_int("j", 0, 4));
  KalmanFilter1 f(x, ss[i]);
  f.measure(m, ss[j]);
  const double a = ss[i] * ss[i], b = ss[j] * ss[j];
  const double want = (x * b + m * a) / (a + b);
  sx_check(f.x_ - want <= 1e-6 && want - f.x_ <= 1e-6, "the estimate is weighted by the uncertainties");
  sx_reach("gain");
}
extern "C" void h_kalman_inf()
{
  const double x = sx_f64("x", -100, 100), s = sx_f64("s", 0.001, 1000), m = sx_f64("m", -100, 100), t = sx_f64("t", 0.001, 1000);
  const double inf = std::numeric_limits<double>::infinity();
  KalmanFilter1 f(x, s);
  f.measure(m, inf);
  sx_check(f.x_ == x && f.sigma_ == s, "a measurement without information changes nothing");
  KalmanFilter1 g;
  g.measure(m, t);
  sx_check(g.x_ == m && g.sigma_ == t, "an unknown state takes the first measurement");
  KalmanFilter1 h;
  h.measure(inf, t);
  sx_check(h.x_ == 0 && h.sigma_ == t, "an infinite first measurement becomes zero");
  const double dx = sx_f64("dx", -10, 10), ds = sx_f64("ds", 0, 10);
  f.predict(dx, ds);
  sx_check(f.x_ == x + dx && f.sigma_ == s + ds, "a prediction moves the state and adds its uncertainty");
  KalmanFilter1 k;
  k.predict(dx, ds);
  sx_check(std::isinf(k.sigma_) && k.sigma_ > 0, "an unknown state stays unknown");
  f.set(x, s);
  sx_check(f.x_ == x && f.sigma_ == s, "set takes effect");
  sx_reach("inf");
}
