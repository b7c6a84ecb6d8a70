// Block-allocated grid memory
#include <cassert>
#include <cstring>
#include <functional>
#include <planner_cspace/blockmem_gridmap.h>
#include "sx.h"
using planner_cspace::BlockMemGridmap;
using planner_cspace::CyclicVecInt;
typedef CyclicVecInt<3, 2> V;
static V vec(int x, int y, int a)
{
  V v;
  v[0] = x; v[1] = y; v[2] = a;
  return v;
}
static V in_range(const char* n, const V& s)
{
  (void)n;
  return vec(sx_int("px", 0, s[0] - 1), sx_int("py", 0, s[1] - 1), sx_int("pa", 0, s[2] - 1));
}
static int pick(const char* n, int lo, int hi) { return static_cast<int>(sx_fork(sx_int(n, lo, hi))); }
static V size3(int m, int n)
{
  const int w = pick("w", 1, m), h = pick("h", 1, m), a = pick("a", 1, n);
  return vec(w, h, a);
}
template <class G>
static void distinct(const V& s)
{
  G g(s);
  sx_check(g.size() == s, "size is the requested size");
  const V p = in_range("p", s), q = in_range("q", s);
  const auto base = &g[vec(0, 0, 0)];
  const int64_t ip = &g[p] - base, iq = &g[q] - base;
  sx_check(0 <= ip && ip < static_cast<int64_t>(g.ser_size()), "cell lies inside the allocation");
  sx_check((p == q) == (ip == iq), "distinct cells have distinct storage");
  sx_check(g.validate(p), "in-range position validates");
  sx_reach("distinct");
}
static const int SZ32[] = {1, 2, 5, 31, 32, 33, 63, 64, 65, 70};
extern "C" void h_addr32()
{
  const int i = pick("i", 0, 9), j = pick("j", 0, 9), k = pick("k", 1, sx_param("angles", 3));
  const V s = vec(SZ32[i], SZ32[j], k);
  BlockMemGridmap<char, 3, 2> g(s);
  const V p = in_range("p", s), q = in_range("q", s);
  const auto base = &g[vec(0, 0, 0)];
  const int64_t ip = &g[p] - base, iq = &g[q] - base;
  sx_check(0 <= ip && ip < static_cast<int64_t>(g.ser_size()), "cell lies inside the allocation (block 32)");
  sx_check((p == q) == (ip == iq), "distinct cells have distinct storage (block 32)");
  sx_reach("addr32");
}
extern "C" void h_addr4()
{
  const int m = sx_param("max", 9);
  const V s = size3(m, 3);
  distinct<BlockMemGridmap<int, 3, 2, 4>>(s);
}
// two-dimensional, fully cyclic-free and fully cyclic layouts used by the serial-joint planner
extern "C" void h_addr_2d()
{
  const int m = sx_param("max", 12);
  typedef CyclicVecInt<2, 0> C;
  C s;
  s[0] = pick("w", 1, m);
  s[1] = pick("h", 1, m);
  BlockMemGridmap<int, 2, 0, 4> g(s);
  C p, q, z;
  p[0] = sx_int("p0", 0, s[0] - 1); p[1] = sx_int("p1", 0, s[1] - 1);
  q[0] = sx_int("q0", 0, s[0] - 1); q[1] = sx_int("q1", 0, s[1] - 1);
  const int64_t ip = &g[p] - &g[z], iq = &g[q] - &g[z];
  sx_check(0 <= ip && ip < static_cast<int64_t>(g.ser_size()), "cyclic cell lies inside the allocation");
  sx_check((p == q) == (ip == iq), "distinct cyclic cells have distinct storage");
  typedef CyclicVecInt<2, 2> N;
  N t;
  t[0] = s[0]; t[1] = s[1];
  BlockMemGridmap<int, 2, 2, 4> h(t);
  N a, b, o;
  a[0] = p[0]; a[1] = p[1]; b[0] = q[0]; b[1] = q[1];
  const int64_t ia = &h[a] - &h[o], ib = &h[b] - &h[o];
  sx_check(0 <= ia && ia < static_cast<int64_t>(h.ser_size()), "planar cell lies inside the allocation");
  sx_check((a == b) == (ia == ib), "distinct planar cells have distinct storage");
  sx_reach("addr2d");
}
// a grid that is resized keeps addressing inside what it owns, whatever sizes it had before
extern "C" void h_resize()
{
  const int m = sx_param("max", 9);
  const int w0 = pick("w0", 1, m), h0 = pick("h0", 1, m), a0 = pick("a0", 1, 2);
  BlockMemGridmap<int, 3, 2, 2> g(vec(w0, h0, a0));
  g.clear(1);
  const int w = pick("w", 1, m), h = pick("h", 1, m);
  const V s = vec(w, h, pick("a", 1, 2));
  g.reset(s);
  sx_check(g.size() == s, "size after resize");
  g.clear(5);
  // the last cell of every axis and one symbolic cell
  const V p = vec(s[0] - 1, s[1] - 1, s[2] - 1), q = in_range("q", s);
  g[p] = 9;
  const BlockMemGridmap<int, 3, 2, 2>& cg = g;
  sx_check(cg[p] == 9, "written cell holds its value after resize");
  sx_check(cg[q] == (p == q ? 9 : 5), "other cells keep the cleared value after resize");
  sx_reach("resize");
}
template <class T, int D, int N, int BW>
struct Exposed : public BlockMemGridmap<T, D, N, BW, true>
{
  using BlockMemGridmap<T, D, N, BW, true>::BlockMemGridmap;
  const T* dummy() const { return &this->dummy_; }
};
// bounds-checking grid: any position at all is safe to access; out-of-grid reads in-block never alias in-range cells wrongly
extern "C" void h_validated()
{
  const int m = sx_param("max", 6);
  const V s = size3(m, 2);
  Exposed<int, 3, 2, 4> g(s);
  const V p = vec(sx_int("px", -2147483647 - 1, 2147483647), sx_int("py", -2147483647 - 1, 2147483647), sx_int("pa", -2147483647 - 1, 2147483647));
  const int* a = &g[p];
  const int64_t i = a - &g[vec(0, 0, 0)];
  sx_check(a == g.dummy() || (0 <= i && i < static_cast<int64_t>(g.ser_size())), "checked access never leaves the grid");
  const bool in = 0 <= p[0] && p[0] < s[0] && 0 <= p[1] && p[1] < s[1] && 0 <= p[2] && p[2] < s[2];
  sx_check(!in || a != g.dummy(), "in-range position is a real cell");
  sx_reach("validated");
}
extern "C" void h_validate()
{
  const V s = vec(pick("w", 1, 40), pick("h", 1, 3), pick("a", 1, 3));
  BlockMemGridmap<char, 3, 2, 4> g(s);
  const V p = vec(sx_int("px", -2147483647 - 1, 2147483647), sx_int("py", -2147483647 - 1, 2147483647), sx_int("pa", -2147483647 - 1, 2147483647));
  const int t = sx_int("tol", 0, 30);
  const bool in = t <= p[0] && p[0] < s[0] - t && t <= p[1] && p[1] < s[1] - t && 0 <= p[2] && p[2] < s[2];
  sx_check(g.validate(p, t) == in, "validate is the range test with margin");
  sx_reach("validate");
}
// ---- bulk operations
static V sizeOf() { const int m = sx_param("max", 3); return size3(m, 2); }
template <class G>
static void fill(G& g, const V& s, int* ref, const char* n)
{
  int k = 0;
  for (int x = 0; x < s[0]; ++x)
    for (int y = 0; y < s[1]; ++y)
      for (int a = 0; a < s[2]; ++a)
      {
        const int v = sx_int(n, -2147483647 - 1, 2147483647);
        g[vec(x, y, a)] = v;
        ref[k++] = v;
      }
}
typedef BlockMemGridmap<int, 3, 2, 2> G2;
static bool inside(const V& p, const V& a, const V& b)
{
  for (int i = 0; i < 3; ++i)
    if (p[i] < a[i] || p[i] > b[i]) return false;
  return true;
}
template <class F>
static void each(const V& s, F f)
{
  int k = 0;
  for (int x = 0; x < s[0]; ++x)
    for (int y = 0; y < s[1]; ++y)
      for (int a = 0; a < s[2]; ++a) f(vec(x, y, a), k++);
}
extern "C" void h_clear()
{
  const V s = size3(sx_param("max", 2), 1);
  G2 g(s);
  int ref[64];
  fill(g, s, ref, "c");
  const int z = sx_int("z", -2147483647 - 1, 2147483647);
  if (sx_bool("whole"))
  {
    g.clear(z);
    each(s, [&](const V& p, int) { sx_check(g[p] == z, "clear sets every cell"); });
    sx_reach("clear");
    return;
  }
  g.clear_positive(z);
  each(s, [&](const V& p, int k) { sx_check(g[p] == (ref[k] >= 0 ? z : ref[k]), "clear_positive keeps negative cells"); });
  sx_reach("clear_positive");
}
extern "C" void h_clear_part()
{
  const V s = sizeOf();
  G2 g(s);
  int ref[64];
  fill(g, s, ref, "c");
  const int z = sx_int("z", -2147483647 - 1, 2147483647);
  const V a = vec(pick("x0", 0, s[0] - 1), pick("y0", 0, s[1] - 1), pick("a0", 0, s[2] - 1));
  const V b = vec(pick("x1", a[0] - 1, s[0] - 1), pick("y1", a[1] - 1, s[1] - 1), pick("a1", a[2] - 1, s[2] - 1));
  g.clear_partially(z, a, b);
  each(s, [&](const V& p, int k) { sx_check(g[p] == (inside(p, a, b) ? z : ref[k]), "clear_partially touches exactly its box"); });
  sx_reach("clear_part");
}
extern "C" void h_copy_part()
{
  const V s = sizeOf();
  G2 g(s), src(s);
  int ref[64], rs[64];
  fill(g, s, ref, "c");
  fill(src, s, rs, "d");
  const V a = vec(pick("x0", 0, s[0] - 1), pick("y0", 0, s[1] - 1), pick("a0", 0, s[2] - 1));
  const V b = vec(pick("x1", a[0] - 1, s[0] - 1), pick("y1", a[1] - 1, s[1] - 1), pick("a1", a[2] - 1, s[2] - 1));
  g.copy_partially(src, a, b);
  each(s, [&](const V& p, int k) { sx_check(g[p] == (inside(p, a, b) ? rs[k] : ref[k]), "copy_partially copies exactly its box"); });
  each(s, [&](const V& p, int k) { sx_check(src[p] == rs[k], "copy source unchanged"); });
  sx_reach("copy_part");
}
// copy between grids of different size and block width, with an offset
extern "C" void h_copy_off()
{
  const int m = sx_param("max", 3);
  const V s = vec(pick("w", 1, m), pick("h", 1, m), 2), t = vec(pick("tw", 1, m), pick("th", 1, m), 2);
  G2 g(s);
  BlockMemGridmap<int, 3, 2, 4> src(t);
  int ref[64], rs[64];
  fill(g, s, ref, "c");
  fill(src, t, rs, "d");
  const V a = vec(pick("x0", 0, t[0] - 1), pick("y0", 0, t[1] - 1), pick("a0", 0, 1));
  const V b = vec(pick("x1", a[0], t[0] - 1), pick("y1", a[1], t[1] - 1), pick("a1", a[2], 1));
  const V d = vec(pick("dx", 0, s[0] - 1), pick("dy", 0, s[1] - 1), a[2]);
  sx_assume(d[0] + b[0] - a[0] < s[0] && d[1] + b[1] - a[1] < s[1]);
  g.copy_partially(d, src, a, b);
  const V e = d + (b - a);
  each(s, [&](const V& p, int k)
  {
    if (inside(p, d, e))
    {
      const V q = p - d + a;
      sx_check(g[p] == rs[(q[0] * t[1] + q[1]) * t[2] + q[2]], "offset copy takes the corresponding source cell");
    }
    else
      sx_check(g[p] == ref[k], "offset copy leaves other cells");
  });
  sx_reach("copy_off");
}
extern "C" void h_assign()
{
  const V s = sizeOf(), t = vec(pick("tw", 1, 3), pick("th", 1, 3), pick("ta", 1, 2));
  G2 g(t), src(s);
  g.clear(3);
  src.clear(0);
  int rs[64];
  fill(src, s, rs, "d");
  g = src;
  sx_check(g.size() == s, "assignment takes the size");
  each(s, [&](const V& p, int k) { sx_check(g[p] == rs[k], "assignment copies every cell"); });
  if (s[0] > 0) g[vec(0, 0, 0)] = rs[0] + 1;
  sx_check(src[vec(0, 0, 0)] == rs[0], "assigned grid is independent");
  sx_reach("assign");
}
