// P01: grid vectors
#include <cassert>
#include <functional>
#include <cstring>
#include <planner_cspace/cyclic_vec.h>
#include "sx.h"
using planner_cspace::CyclicVecInt;
using planner_cspace::CyclicVecFloat;
typedef CyclicVecInt<3, 2> V;
static const int IMIN = -2147483647 - 1, IMAX = 2147483647;
// cycle()/cycleUnsigned(): canonical representative of the same residue class
extern "C" void h_cycle()
{
  const int res = (int)sx_fork(sx_int("res", sx_param("r0",1), sx_param("res", 64)));
  const int a = sx_int("a", IMIN, IMAX);
  V v(sx_int("x", IMIN, IMAX), sx_int("y", IMIN, IMAX), a);
  const V o = v;
  V u = v;
  u.cycleUnsigned(res);
  sx_check(u[2] >= 0 && u[2] < res, "cycleUnsigned range");
  sx_check((static_cast<int64_t>(u[2]) - a) % res == 0, "cycleUnsigned congruent");
  sx_check(u[0] == o[0] && u[1] == o[1], "cycleUnsigned keeps noncyclic");
  V c = v;
  c.cycle(res);
  sx_check((static_cast<int64_t>(c[2]) - a) % res == 0, "cycle congruent");
  sx_check(c[2] >= res / 2 - res && c[2] < res / 2, "cycle range");
  sx_check(c[0] == o[0] && c[1] == o[1], "cycle keeps noncyclic");
  V r(1, 1, res), u2 = v, c2 = v;
  u2.cycleUnsigned(r);
  c2.cycle(r);
  sx_check(u2 == u && c2 == c, "size overload agrees");
  sx_reach("cycle");
}
extern "C" void h_exceed()
{
  V v(sx_int("x", IMIN, IMAX), sx_int("y", IMIN, IMAX), sx_int("a", IMIN, IMAX));
  V s(sx_int("sx", 0, IMAX), sx_int("sy", 0, IMAX), sx_int("sa", 0, IMAX));
  const bool in = 0 <= v[0] && v[0] < s[0] && 0 <= v[1] && v[1] < s[1];
  sx_check(v.isExceeded(s) == !in, "isExceeded");
  sx_reach("exceed");
}
extern "C" void h_eq()
{
  V a(sx_int("ax", IMIN, IMAX), sx_int("ay", IMIN, IMAX), sx_int("aa", IMIN, IMAX));
  V b(sx_int("bx", IMIN, IMAX), sx_int("by", IMIN, IMAX), sx_int("ba", IMIN, IMAX));
  const bool same = a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
  sx_check((a == b) == same, "== is elementwise");
  sx_check((a != b) == !same, "!= is its negation");
  if (same) { sx_check(V()(a) == V()(b), "equal vectors hash equally"); sx_reach("eq"); }
}
