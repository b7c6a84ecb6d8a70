#include "solver.h"
#include <z3++.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <memory>
#include <random>
#include <set>
#include <unordered_set>
#include <unistd.h>

SolverStats g_ss;
unsigned g_timeout_ms = 20000;
bool g_verbose = false;

namespace
{
z3::context& Z()
{
  static z3::context* c = new z3::context();
  return *c;
}
typedef z3::expr ZE;
double now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
void* keep(const ZE& e)
{
  Z3_inc_ref(Z(), e);
  return (void*)(Z3_ast)e;
}
ZE unk(void* p) { return ZE(Z(), (Z3_ast)p); }
z3::sort fpsort(unsigned w) { return w == 32 ? Z().fpa_sort(8, 24) : Z().fpa_sort(11, 53); }
ZE rm(uint32_t m)
{
  auto& c = Z();
  switch (m)
  {
    case RM_RNE: return ZE(c, Z3_mk_fpa_rne(c));
    case RM_RNA: return ZE(c, Z3_mk_fpa_rna(c));
    case RM_RTP: return ZE(c, Z3_mk_fpa_rtp(c));
    case RM_RTN: return ZE(c, Z3_mk_fpa_rtn(c));
    default: return ZE(c, Z3_mk_fpa_rtz(c));
  }
}
ZE rne() { return rm(RM_RNE); }

std::unordered_map<E, ZE>& sides()
{
  static std::unordered_map<E, ZE>* m = new std::unordered_map<E, ZE>();
  return *m;
}
ZE tBV(E e);
ZE tBool(E e);
ZE tFP(E e);

ZE bvConst(E e)
{
  if (e->w <= 64) return Z().bv_val((uint64_t)e->c, e->w);
  llvm::SmallString<64> s;
  e->big->toStringUnsigned(s, 10);
  return Z().bv_val(s.c_str(), e->w);
}
bool isFpOp(E e)
{
  switch (e->op)
  {
    case F_ADD: case F_SUB: case F_MUL: case F_DIV: case F_SQRT: case F_RTI: case F_FMA: case F_EXT: case F_TRUNC:
    case F_SI2F: case F_UI2F:
      return true;
    default: return false;
  }
}
ZE tFP(E e)
{
  if (e->z_fp) return unk(e->z_fp);
  auto& c = Z();
  ZE r(c);
  switch (e->op)
  {
    case F_ADD: r = ZE(c, Z3_mk_fpa_add(c, rne(), tFP(e->k[0]), tFP(e->k[1]))); break;
    case F_SUB: r = ZE(c, Z3_mk_fpa_sub(c, rne(), tFP(e->k[0]), tFP(e->k[1]))); break;
    case F_MUL: r = ZE(c, Z3_mk_fpa_mul(c, rne(), tFP(e->k[0]), tFP(e->k[1]))); break;
    case F_DIV: r = ZE(c, Z3_mk_fpa_div(c, rne(), tFP(e->k[0]), tFP(e->k[1]))); break;
    case F_FMA: r = ZE(c, Z3_mk_fpa_fma(c, rne(), tFP(e->k[0]), tFP(e->k[1]), tFP(e->k[2]))); break;
    case F_SQRT: r = ZE(c, Z3_mk_fpa_sqrt(c, rne(), tFP(e->k[0]))); break;
    case F_RTI: r = ZE(c, Z3_mk_fpa_round_to_integral(c, rm(e->aux), tFP(e->k[0]))); break;
    case F_NEG: r = ZE(c, Z3_mk_fpa_neg(c, tFP(e->k[0]))); break;
    case F_ABS: r = ZE(c, Z3_mk_fpa_abs(c, tFP(e->k[0]))); break;
    case F_EXT: case F_TRUNC: r = ZE(c, Z3_mk_fpa_to_fp_float(c, rne(), tFP(e->k[0]), fpsort(e->w))); break;
    case F_SI2F: r = ZE(c, Z3_mk_fpa_to_fp_signed(c, rne(), tBV(e->k[0]), fpsort(e->w))); break;
    case F_UI2F: r = ZE(c, Z3_mk_fpa_to_fp_unsigned(c, rne(), tBV(e->k[0]), fpsort(e->w))); break;
    case O_ITE: r = z3::ite(tBool(e->k[0]), tFP(e->k[1]), tFP(e->k[2])); break;
    default: r = ZE(c, Z3_mk_fpa_to_fp_bv(c, tBV(e), fpsort(e->w))); break;
  }
  e->z_fp = keep(r);
  return r;
}
unsigned ubits(uint64_t hi) { return hi == 0 ? 1 : 64 - __builtin_clzll(hi); }
unsigned sbits(int64_t lo, int64_t hi)
{
  auto n = [](int64_t v) { return (unsigned)(v < 0 ? 65 - (v == -1 ? 64 : __builtin_clzll(~(uint64_t)v)) : v == 0 ? 1 : 65 - __builtin_clzll((uint64_t)v)); };
  return std::max(n(lo), n(hi));
}
ZE low(E e, unsigned k);
// comparison at the width that the known ranges need
bool narrowCmp(E e, ZE& r)
{
  E a = e->k[0], b = e->k[1];
  if (a->w > 64 || a->w < 8) return false;
  const unsigned su = std::max(sbits(a->slo, a->shi), sbits(b->slo, b->shi));
  const unsigned uu = std::max(ubits(a->uhi), ubits(b->uhi));
  switch (e->op)
  {
    case O_EQ:
    {
      const unsigned k = std::min(su, uu);
      if (k + 3 >= a->w) return false;
      r = low(a, k) == low(b, k);
      return true;
    }
    case O_ULT: case O_ULE:
      if (uu + 3 >= a->w) return false;
      r = e->op == O_ULT ? z3::ult(low(a, uu), low(b, uu)) : z3::ule(low(a, uu), low(b, uu));
      return true;
    default:
      if (su + 3 >= a->w) return false;
      r = e->op == O_SLT ? low(a, su) < low(b, su) : low(a, su) <= low(b, su);
      return true;
  }
}
ZE tBool(E e)
{
  if (e->z_bool) return unk(e->z_bool);
  auto& c = Z();
  ZE r(c);
  switch (e->op)
  {
    case O_CONST: r = c.bool_val(e->c != 0); break;
    case O_AND: r = tBool(e->k[0]) && tBool(e->k[1]); break;
    case O_OR: r = tBool(e->k[0]) || tBool(e->k[1]); break;
    case O_XOR:
      if (isTrue(e->k[1])) r = !tBool(e->k[0]);
      else r = tBool(e->k[0]) != tBool(e->k[1]);
      break;
    case O_EQ:
      if (e->k[0]->w == 1) r = tBool(e->k[0]) == tBool(e->k[1]);
      else if (narrowCmp(e, r)) break;
      else r = tBV(e->k[0]) == tBV(e->k[1]);
      break;
    case O_ULT: if (narrowCmp(e, r)) break; r = z3::ult(tBV(e->k[0]), tBV(e->k[1])); break;
    case O_ULE: if (narrowCmp(e, r)) break; r = z3::ule(tBV(e->k[0]), tBV(e->k[1])); break;
    case O_SLT: if (narrowCmp(e, r)) break; r = tBV(e->k[0]) < tBV(e->k[1]); break;
    case O_SLE: if (narrowCmp(e, r)) break; r = tBV(e->k[0]) <= tBV(e->k[1]); break;
    case O_ITE: r = z3::ite(tBool(e->k[0]), tBool(e->k[1]), tBool(e->k[2])); break;
    case F_EQ: r = ZE(c, Z3_mk_fpa_eq(c, tFP(e->k[0]), tFP(e->k[1]))); break;
    case F_LT: r = ZE(c, Z3_mk_fpa_lt(c, tFP(e->k[0]), tFP(e->k[1]))); break;
    case F_LE: r = ZE(c, Z3_mk_fpa_leq(c, tFP(e->k[0]), tFP(e->k[1]))); break;
    default: r = tBV(e) == c.bv_val(1, 1); break;
  }
  e->z_bool = keep(r);
  return r;
}
ZE low(E e, unsigned k) { return tBV(mkExtract(e, 0, k)); }
ZE tBV(E e)
{
  if (e->z_bv) return unk(e->z_bv);
  auto& c = Z();
  ZE r(c);
  switch (e->op)
  {
    case O_CONST: r = bvConst(e); break;
    case O_VAR:
    {
      // an input with a declared range only has the bits of that range
      const VarInfo& vi = g_vars[e->aux];
      const std::string nm = "v" + std::to_string(e->aux);
      const unsigned ku = vi.dom == 1 ? ubits(vi.uhi) : e->w, ks = vi.dom == 2 ? sbits(vi.slo, vi.shi) : e->w;
      if (e->w <= 64 && vi.dom == 1 && ku < e->w) r = z3::zext(c.bv_const(nm.c_str(), ku), e->w - ku);
      else if (e->w <= 64 && vi.dom == 2 && ks < e->w) r = z3::sext(c.bv_const(nm.c_str(), ks), e->w - ks);
      else r = c.bv_const(nm.c_str(), e->w);
      break;
    }
    case O_ADD: r = tBV(e->k[0]) + tBV(e->k[1]); break;
    case O_SUB: r = tBV(e->k[0]) - tBV(e->k[1]); break;
    case O_MUL:
    {
      // a product known to fit in k bits is computed in k bits
      const unsigned ku = ubits(e->uhi), ks = sbits(e->slo, e->shi);
      if (e->w <= 64 && ku < e->w) r = z3::zext(low(e->k[0], ku) * low(e->k[1], ku), e->w - ku);
      else if (e->w <= 64 && ks < e->w) r = z3::sext(low(e->k[0], ks) * low(e->k[1], ks), e->w - ks);
      else r = tBV(e->k[0]) * tBV(e->k[1]);
      break;
    }
    case O_UDIV: case O_UREM:
    {
      const unsigned k = std::max(ubits(e->k[0]->uhi), ubits(e->k[1]->uhi));
      const bool nar = e->w <= 64 && k < e->w && e->k[1]->ulo > 0;
      ZE x = nar ? low(e->k[0], k) : tBV(e->k[0]), y = nar ? low(e->k[1], k) : tBV(e->k[1]);
      r = e->op == O_UDIV ? z3::udiv(x, y) : z3::urem(x, y);
      if (nar) r = z3::zext(r, e->w - k);
      break;
    }
    case O_SDIV: case O_SREM:
    {
      const unsigned k = 1 + std::max(sbits(e->k[0]->slo, e->k[0]->shi), sbits(e->k[1]->slo, e->k[1]->shi));
      const bool nar = e->w <= 64 && k < e->w && (e->k[1]->slo > 0 || e->k[1]->shi < 0);
      ZE x = nar ? low(e->k[0], k) : tBV(e->k[0]), y = nar ? low(e->k[1], k) : tBV(e->k[1]);
      r = e->op == O_SDIV ? x / y : z3::srem(x, y);
      if (nar) r = z3::sext(r, e->w - k);
      break;
    }
    case O_AND: if (e->w == 1) goto viabool; r = tBV(e->k[0]) & tBV(e->k[1]); break;
    case O_OR: if (e->w == 1) goto viabool; r = tBV(e->k[0]) | tBV(e->k[1]); break;
    case O_XOR: if (e->w == 1) goto viabool; r = tBV(e->k[0]) ^ tBV(e->k[1]); break;
    case O_SHL: r = z3::shl(tBV(e->k[0]), tBV(e->k[1])); break;
    case O_LSHR: r = z3::lshr(tBV(e->k[0]), tBV(e->k[1])); break;
    case O_ASHR: r = z3::ashr(tBV(e->k[0]), tBV(e->k[1])); break;
    case O_CONCAT: r = z3::concat(tBV(e->k[0]), tBV(e->k[1])); break;
    case O_EXTRACT: r = tBV(e->k[0]).extract(e->aux + e->w - 1, e->aux); break;
    case O_ZEXT: r = z3::zext(tBV(e->k[0]), e->w - e->k[0]->w); break;
    case O_SEXT: r = z3::sext(tBV(e->k[0]), e->w - e->k[0]->w); break;
    case O_ITE:
      if (e->w == 1) goto viabool;
      r = z3::ite(tBool(e->k[0]), tBV(e->k[1]), tBV(e->k[2]));
      break;
    case F_NEG: r = tBV(e->k[0]) ^ tBV(mkConst(1ULL << (e->w - 1), e->w)); break;
    case F_ABS: r = tBV(e->k[0]) & tBV(mkConst(maskw(e->w) >> 1, e->w)); break;
    case F_ADD: case F_SUB: case F_MUL: case F_DIV: case F_SQRT: case F_RTI: case F_FMA: case F_EXT: case F_TRUNC:
    case F_SI2F: case F_UI2F:
    {
      // bits of an IEEE result: a fresh vector b with to_fp(b) = value (z3's to_ieee_bv leaves an uninterpreted function for NaN)
      r = c.bv_const(("b" + std::to_string(e->id)).c_str(), e->w);
      ZE side = ZE(c, Z3_mk_fpa_to_fp_bv(c, r, fpsort(e->w))) == tFP(e);
      keep(side);
      sides().emplace(e, side);
      break;
    }
    case F_F2SI:
    {
      // x86 semantics: out of range / NaN gives the "integer indefinite" value.
      // Written out over the bits (shift of the significand): z3's own conversion leaves an uninterpreted function behind.
      E k = e->k[0];
      FI fi = fiOf(k, k->w);
      const double lim = std::ldexp(1.0, e->w - 1);
      E rt = e->aux == RM_RTZ ? k : mkF1(F_RTI, k, k->w, e->aux);
      ZE bits = tBV(rt);
      const unsigned mb = k->w == 32 ? 23 : 52, eb = k->w == 32 ? 8 : 11, bias = k->w == 32 ? 127 : 1023;
      const unsigned W = e->w + mb + 1;
      ZE man = z3::zext(z3::concat(c.bv_val(1, 1), bits.extract(mb - 1, 0)), W - mb - 1);
      ZE ex = bits.extract(mb + eb - 1, mb);
      ZE sh = z3::zext(ex, W - eb) - c.bv_val(bias, W);
      ZE mag = z3::lshr(z3::shl(man, sh), c.bv_val(mb, W)).extract(e->w - 1, 0);
      ZE small = z3::ult(ex, c.bv_val(bias, eb));
      mag = z3::ite(small, c.bv_val(0, e->w), mag);
      ZE v = z3::ite(bits.extract(k->w - 1, k->w - 1) == c.bv_val(1, 1), -mag, mag);
      if (!fi.nan && fi.lo > -lim && fi.hi < lim) { r = v; break; }
      // truncation: value in (-lim-1, lim)
      ZE hi = tBool(mkF2(F_LT, rt, mkFConst(lim, k->w)));
      ZE lo = (e->aux == RM_RTZ && e->w < 53 && k->w == 64) ? tBool(mkF2(F_LT, mkFConst(-lim - 1, k->w), rt))
                                                            : tBool(mkF2(F_LE, mkFConst(-lim, k->w), rt));
      r = z3::ite(hi && lo, v, tBV(mkConst(1ULL << (e->w - 1), e->w)));
      break;
    }
    case F_F2UI:
    {
      // [0, 2^63): signed conversion; [2^63, 2^64): signed conversion of x - 2^63 with the top bit set
      E k = e->k[0];
      E lim = mkFConst(9223372036854775808.0, k->w);
      ZE lowv = tBV(mkF1(F_F2SI, k, 64, RM_RTZ));
      ZE hiv = tBV(mkF1(F_F2SI, mkF2(F_SUB, k, lim), 64, RM_RTZ)) ^ c.bv_val((uint64_t)1 << 63, 64);
      ZE r64 = z3::ite(tBool(mkF2(F_LE, lim, k)), hiv, lowv);
      r = e->w == 64 ? r64 : r64.extract(e->w - 1, 0);
      break;
    }
    default:
    viabool:
      r = z3::ite(tBool(e), c.bv_val(1, 1), c.bv_val(0, 1));
      break;
  }
  e->z_bv = keep(r);
  return r;
}

void sideRec(E e, std::unordered_set<E>& seen, std::vector<ZE>& out)
{
  if (!seen.insert(e).second) return;
  if (isFpOp(e))
  {
    auto it = sides().find(e);
    if (it != sides().end()) out.push_back(it->second);
  }
  for (int i = 0; i < 3; ++i)
    if (e->k[i]) sideRec(e->k[i], seen, out);
  // helper nodes introduced by the translation of conversions
  if (e->op == F_F2SI && e->aux != RM_RTZ) sideRec(mkF1(F_RTI, e->k[0], e->k[0]->w, e->aux), seen, out);
  if (e->op == F_F2UI)
  {
    sideRec(mkF1(F_F2SI, e->k[0], 64, RM_RTZ), seen, out);
    sideRec(mkF1(F_F2SI, mkF2(F_SUB, e->k[0], mkFConst(9223372036854775808.0, e->k[0]->w)), 64, RM_RTZ), seen, out);
  }
}
void addAll(z3::solver& s, const std::vector<E>& q)
{
  for (E e : q) s.add(tBool(e));
  std::unordered_set<E> seen;
  std::vector<ZE> side;
  for (E e : q) sideRec(e, seen, side);
  for (auto& x : side) s.add(x);
}
// ------------------------------------------------------------------------------------------
// classification
struct Cls
{
  int fpops = 0, hard = 0, nodes = 0, arith = 0;
};
void classify(E e, std::unordered_set<E>& seen, Cls& c)
{
  if (!seen.insert(e).second) return;
  ++c.nodes;
  if (e->op >= F_ADD && e->op != F_NEG && e->op != F_ABS) ++c.fpops;
  if (e->op == F_MUL || e->op == F_DIV || e->op == F_FMA || e->op == F_SQRT) ++c.hard;
  if ((e->op == O_MUL && !(e->w <= 64 && (ubits(e->uhi) <= 20 || sbits(e->slo, e->shi) <= 20))) || ((e->op == O_UDIV || e->op == O_SDIV || e->op == O_UREM || e->op == O_SREM) && !(e->w <= 64 && ubits(e->k[0]->uhi) <= 14) && !(isC(e->k[1]) && e->w <= 64 && (e->k[1]->c & (e->k[1]->c - 1)) == 0))) ++c.arith;
  for (int i = 0; i < 3; ++i)
    if (e->k[i]) classify(e->k[i], seen, c);
}

// ------------------------------------------------------------------------------------------
// Arithmetic relaxation: every IEEE operation becomes a real operation plus its rounding-error bound, every
// non-wrapping machine-integer operation becomes an integer operation, everything else becomes an unconstrained
// value.  UNSAT of the relaxation implies UNSAT of the bit-precise query; SAT gives a candidate that is checked
// by bit-precise evaluation.
struct Relax
{
  z3::context& c = Z();
  z3::expr_vector side{Z()};
  std::unordered_map<E, ZE> rm_, bm_, em_;
  std::map<std::pair<E, int>, ZE> im_;
  std::unordered_map<E, FI> fim_, bound_;
  std::unordered_map<E, ZE> exact_;  // exact (unrounded) value of a rounded node
  std::vector<std::pair<uint32_t, ZE>> fvars, ivars;
  bool usesInt = false;
  bool coarse = false;  // constant error bounds: linear, no case split on signs
  int rounds = 0;
  int n = 0;

  ZE rv(double d)
  {
    // exact rational of a finite double
    int ex;
    double m = std::frexp(d, &ex);
    int64_t mi = (int64_t)std::ldexp(m, 53);
    ex -= 53;
    while (mi && !(mi & 1) && ex < 0) { mi >>= 1; ++ex; }
    if (mi == 0) return c.real_val(0);
    ZE r = c.real_val((int64_t)mi);
    if (ex > 0)
    {
      APInt p = APInt(1200, 1).shl(ex);
      llvm::SmallString<400> s;
      p.toStringUnsigned(s, 10);
      ZE q = c.real_val(s.c_str());
      return (r * q).simplify();
    }
    if (ex < 0)
    {
      APInt p = APInt(1200, 1).shl(-ex);
      llvm::SmallString<400> s;
      p.toStringUnsigned(s, 10);
      ZE q = c.real_val(s.c_str());
      return (r / q).simplify();
    }
    return r;
  }
  void addBound(E e, double lo, double hi)
  {
    auto it = bound_.find(e);
    if (it == bound_.end()) bound_[e] = {lo, hi, false};
    else { it->second.lo = std::max(it->second.lo, lo); it->second.hi = std::min(it->second.hi, hi); }
    // through widening conversions / negation
    if (e->op == F_EXT) addBound(e->k[0], lo, hi);
    if (e->op == F_NEG) addBound(e->k[0], -hi, -lo);
    if (e->op == F_ABS && hi >= 0) addBound(e->k[0], -hi, hi);
  }
  void scanAtom(E e, bool pos)
  {
    if (e->op == O_AND && e->w == 1 && pos) { scanAtom(e->k[0], true); scanAtom(e->k[1], true); return; }
    if (e->op == O_OR && e->w == 1 && !pos) { scanAtom(e->k[0], false); scanAtom(e->k[1], false); return; }
    if (e->op == O_XOR && e->w == 1 && isTrue(e->k[1])) { scanAtom(e->k[0], !pos); return; }
    if (e->op == F_LE || e->op == F_LT || e->op == F_EQ)
    {
      if (pos)
      {
        // a true comparison also proves non-NaN
        for (int i = 0; i < 2; ++i)
          if (!isC(e->k[i])) addBound(e->k[i], -INFINITY, INFINITY);
        if (isC(e->k[1])) addBound(e->k[0], e->op == F_EQ ? cv(e->k[1]) : -INFINITY, cv(e->k[1]));
        if (isC(e->k[0])) addBound(e->k[1], cv(e->k[0]), e->op == F_EQ ? cv(e->k[0]) : INFINITY);
      }
      else if (e->op != F_EQ)
      {
        // not (a <= c): a > c or NaN; usable only when a cannot be NaN
        for (int i = 0; i < 2; ++i)
        {
          E x = e->k[i], y = e->k[1 - i];
          if (isC(y) && !isC(x) && x->isf && !x->fi.nan)
          {
            if (i == 0) addBound(x, cv(y), INFINITY);
            else addBound(x, -INFINITY, cv(y));
          }
        }
      }
    }
  }
  double cv(E e) { return e->w == 32 ? b2f(e->c) : b2d(e->c); }
  FI fi(E e)
  {
    auto it = fim_.find(e);
    if (it != fim_.end()) return it->second;
    FI r = fiOf(e, e->w);
    if (!isC(e))
    {
      if (e->op == O_ITE)
      {
        FI x = fi(e->k[1]), y = fi(e->k[2]);
        FI q = {std::min(x.lo, y.lo), std::max(x.hi, y.hi), x.nan || y.nan};
        r = {std::max(r.lo, q.lo), std::min(r.hi, q.hi), r.nan && q.nan};
      }
      else if (isFpOp(e) || e->op == F_NEG || e->op == F_ABS)
      {
        if (e->op != F_SI2F && e->op != F_UI2F && e->op != F_FMA)
        {
          FI q = fiCompute(e->op, e->w, e->aux, fi(e->k[0]), e->k[1] ? fi(e->k[1]) : FI{-INFINITY, INFINITY, true}, e->k[0] == e->k[1]);
          r = {std::max(r.lo, q.lo), std::min(r.hi, q.hi), r.nan && q.nan};
        }
      }
      auto b = bound_.find(e);
      if (b != bound_.end()) r = {std::max(r.lo, b->second.lo), std::min(r.hi, b->second.hi), false};
    }
    fim_[e] = r;
    return r;
  }
  bool okReal(E e)
  {
    FI f = fi(e);
    const double lim = e->w == 32 ? 3.0e38 : 1e300;
    return !f.nan && f.lo > -lim && f.hi < lim;
  }
  ZE fresh(const char* p, bool isInt)
  {
    std::string s = std::string(p) + std::to_string(n++);
    return isInt ? c.int_const(s.c_str()) : c.real_const(s.c_str());
  }
  // r = round(t) for node e
  ZE rounded(E e, const ZE& t, unsigned w, bool tiny)
  {
    ZE r = fresh("r", false);
    FI f = fi(e);
    const double u = w == 32 ? std::ldexp(1.0, -24) : std::ldexp(1.0, -53);
    ++rounds;
    if (coarse)
    {
      const double b = u * 1.000001 * std::max(std::fabs(f.lo), std::fabs(f.hi)) + (w == 32 ? 1.5e-45 : 1e-300);
      side.push_back(r - t <= rv(b) && t - r <= rv(b));
      side.push_back(r >= rv(f.lo) && r <= rv(f.hi));
      exact_.emplace(e, t);
      return r;
    }
    ZE um = rv(1 - u), up = rv(1 + u), z = rv(0);
    ZE eta = rv(tiny ? (w == 32 ? std::ldexp(1.0, -149) : std::ldexp(1.0, -1074)) : 0);
    ZE posc = (r >= t * um - eta) && (r <= t * up + eta) && r >= z;
    ZE negc = (r <= t * um + eta) && (r >= t * up - eta) && r <= z;
    if (f.lo >= 0) side.push_back(posc && t >= z);
    else if (f.hi <= 0) side.push_back(negc && t <= z);
    else
    {
      side.push_back((t >= z && posc) || (t <= z && negc));
    }
    side.push_back(r >= rv(f.lo) && r <= rv(f.hi));
    exact_.emplace(e, t);
    return r;
  }
  ZE R(E e)
  {
    auto it = rm_.find(e);
    if (it != rm_.end()) return it->second;
    ZE r(c);
    bool done = false;
    if (isC(e)) { r = rv(cv(e)); done = true; }
    else
    {
      switch (e->op)
      {
        case O_ITE:
          if (okReal(e->k[1]) && okReal(e->k[2])) { r = z3::ite(B(e->k[0]), R(e->k[1]), R(e->k[2])); done = true; }
          break;
        case F_ADD: case F_SUB: case F_MUL: case F_DIV:
          if (okReal(e->k[0]) && okReal(e->k[1]))
          {
            ZE x = R(e->k[0]), y = R(e->k[1]);
            if (e->op == F_ADD) r = rounded(e, x + y, e->w, false);
            else if (e->op == F_SUB) r = rounded(e, x - y, e->w, false);
            else if (e->op == F_MUL) r = rounded(e, x * y, e->w, true);
            else
            {
              FI fy = fi(e->k[1]);
              if (fy.lo > 0 || fy.hi < 0)
              {
                if (isC(e->k[1])) r = rounded(e, x / y, e->w, true);
                else
                {
                  ZE q = fresh("q", false);
                  side.push_back(q * y == x);
                  r = rounded(e, q, e->w, true);
                }
              }
              else break;
            }
            done = true;
          }
          break;
        case F_SQRT:
          if (okReal(e->k[0]) && fi(e->k[0]).lo >= 0)
          {
            ZE q = fresh("s", false);
            side.push_back(q >= rv(0) && q * q == R(e->k[0]));
            r = rounded(e, q, e->w, false);
            done = true;
          }
          break;
        case F_NEG: if (okReal(e->k[0])) { r = -R(e->k[0]); done = true; } break;
        case F_ABS:
          if (okReal(e->k[0]))
          {
            FI f = fi(e->k[0]);
            ZE x = R(e->k[0]);
            r = f.lo >= 0 ? x : f.hi <= 0 ? -x : z3::ite(x >= 0, x, -x);
            done = true;
          }
          break;
        case F_EXT: if (okReal(e->k[0])) { r = R(e->k[0]); done = true; } break;
        case F_TRUNC: if (okReal(e->k[0])) { r = rounded(e, R(e->k[0]), 32, true); done = true; } break;
        case F_RTI:
          if (okReal(e->k[0]))
          {
            usesInt = true;
            ZE i = fresh("i", true), x = R(e->k[0]);
            r = z3::to_real(i);
            rtiSide(r, x, e->aux);
            done = true;
          }
          break;
        case F_SI2F: case F_UI2F:
        {
          const bool sg = e->op == F_SI2F;
          E k = e->k[0];
          if (k->w > 64) break;
          const double lim = e->w == 32 ? 16777216.0 : 9007199254740992.0;
          const double lo = sg ? (double)k->slo : (double)k->ulo, hi = sg ? (double)k->shi : (double)k->uhi;
          ZE i = z3::to_real(I(k, sg));
          usesInt = true;
          if (lo >= -lim && hi <= lim) r = i;
          else r = rounded(e, i, e->w, false);
          done = true;
          break;
        }
        default: break;
      }
    }
    if (!done)
    {
      r = fresh("o", false);
      FI f = fi(e);
      if (!f.nan && std::isfinite(f.lo)) side.push_back(r >= rv(f.lo));
      if (!f.nan && std::isfinite(f.hi)) side.push_back(r <= rv(f.hi));
      if (e->op == O_VAR) fvars.push_back({e->aux, r});
    }
    rm_.emplace(e, r);
    return r;
  }
  void rtiSide(const ZE& r, const ZE& x, uint32_t mode)
  {
    ZE one = rv(1), z = rv(0), half = rv(0.5);
    switch (mode)
    {
      case RM_RTN: side.push_back(r <= x && x < r + one); break;
      case RM_RTP: side.push_back(r >= x && x > r - one); break;
      case RM_RTZ: side.push_back((x >= z && r <= x && x < r + one) || (x <= z && r >= x && x > r - one)); break;
      case RM_RNA:
        side.push_back((x >= z && r - half <= x && x < r + half) || (x <= z && r - half < x && x <= r + half));
        break;
      default: side.push_back(r - half <= x && x <= r + half); break;
    }
  }
  ZE pow2i(unsigned w)
  {
    llvm::SmallString<40> s;
    APInt(80, 1).shl(w).toStringUnsigned(s, 10);
    return c.int_val(s.c_str());
  }
  ZE I(E e, bool sg)
  {
    if (e->slo >= 0) sg = true;  // same value
    auto key = std::make_pair(e, (int)sg);
    auto it = im_.find(key);
    if (it != im_.end()) return it->second;
    ZE r(c);
    bool done = false;
    usesInt = true;
    auto inS = [&](__int128 lo, __int128 hi) { return lo >= e->slo && hi <= e->shi; };
    auto lo = [&](E x, bool s) -> __int128 { return s ? (__int128)x->slo : (__int128)x->ulo; };
    auto hi = [&](E x, bool s) -> __int128 { return s ? (__int128)x->shi : (__int128)x->uhi; };
    E a = e->k[0], b = e->k[1];
    switch (e->op)
    {
      case O_CONST:
        r = sg ? c.int_val((int64_t)sextw(e->c, e->w)) : c.int_val((uint64_t)e->c);
        done = true;
        break;
      case O_ADD: case O_SUB: case O_MUL:
      {
        if (!sg) break;
        __int128 p, q;
        const __int128 mn = e->w == 64 ? INT64_MIN : -(1LL << (e->w - 1)), mx = -mn - 1;
        if (e->op == O_ADD) { p = lo(a, true) + lo(b, true); q = hi(a, true) + hi(b, true); }
        else if (e->op == O_SUB) { p = lo(a, true) - hi(b, true); q = hi(a, true) - lo(b, true); }
        else
        {
          __int128 v[4] = {lo(a, 1) * lo(b, 1), lo(a, 1) * hi(b, 1), hi(a, 1) * lo(b, 1), hi(a, 1) * hi(b, 1)};
          p = *std::min_element(v, v + 4);
          q = *std::max_element(v, v + 4);
        }
        if (p >= mn && q <= mx)
        {
          ZE x = I(a, true), y = I(b, true);
          r = e->op == O_ADD ? x + y : e->op == O_SUB ? x - y : x * y;
          done = true;
        }
        else if (e->op != O_MUL && e->w >= 8)
        {
          // wrapping addition: x + y + k * 2^w with k in {-1, 0, 1}
          ZE x = I(a, true), y = I(b, true);
          ZE t = e->op == O_ADD ? x + y : x - y;
          ZE m = pow2i(e->w), h = pow2i(e->w - 1);
          r = z3::ite(t >= h, t - m, z3::ite(t < -h, t + m, t));
          done = true;
        }
        (void)inS;
        break;
      }
      case O_UDIV:
        if (isC(b) && b->c > 0 && b->slo > 0) { r = I(a, false) / I(b, true); done = true; }
        break;
      case O_UREM:
        if (isC(b) && b->c > 0 && b->slo > 0) { r = z3::mod(I(a, false), I(b, true)); done = true; }
        break;
      case O_SREM: case O_SDIV:
        if (sg && isC(b) && sextw(b->c, b->w) > 0)
        {
          ZE x = I(a, true), y = I(b, true);
          ZE pos = e->op == O_SREM ? z3::mod(x, y) : x / y;
          if (a->slo >= 0) r = pos;
          else r = z3::ite(x >= 0, pos, e->op == O_SREM ? -z3::mod(-x, y) : -((-x) / y));
          done = true;
        }
        break;
      case O_SHL:
        if (sg && isC(b) && b->c < 62)
        {
          const __int128 mn = e->w == 64 ? INT64_MIN : -(1LL << (e->w - 1)), mx = -mn - 1;
          if (((__int128)a->slo << b->c) >= mn && ((__int128)a->shi << b->c) <= mx)
          {
            r = I(a, true) * c.int_val((int64_t)1 << b->c);
            done = true;
          }
        }
        break;
      case O_ZEXT: r = I(a, false); done = true; break;
      case O_SEXT: if (sg) { r = I(a, true); done = true; } break;
      case O_EXTRACT:
        if (e->aux == 0 && a->w <= 64)
        {
          const __int128 mn = -((__int128)1 << (e->w - 1)), mx = -mn - 1;
          if (sg && a->slo >= mn && a->shi <= mx) { r = I(a, true); done = true; }
          else if (!sg && a->uhi <= maskw(e->w)) { r = I(a, false); done = true; }
        }
        break;
      case O_ITE: r = z3::ite(B(e->k[0]), I(e->k[1], sg), I(e->k[2], sg)); done = true; break;
      case F_F2SI:
        if (sg && okReal(a))
        {
          FI f = fi(a);
          const double lim = std::ldexp(1.0, e->w - 1);
          if (f.lo > -lim && f.hi < lim)
          {
            r = fresh("i", true);
            rtiSide(z3::to_real(r), R(a), e->aux);
            done = true;
          }
        }
        break;
      case F_F2UI:
        if (okReal(a) && fi(a).lo >= 0 && fi(a).hi < std::ldexp(1.0, e->w < 63 ? e->w : 63))
        {
          r = fresh("i", true);
          rtiSide(z3::to_real(r), R(a), e->aux);
          done = true;
        }
        break;
      default: break;
    }
    if (!done && e->slo < 0 && e->w <= 64)
    {
      // the other reading of the same bits
      const bool nativeU = e->op == O_UDIV || e->op == O_UREM || e->op == O_LSHR || e->op == O_ZEXT;
      if (!sg && !nativeU) { ZE x = I(e, true); r = z3::ite(x >= 0, x, x + pow2i(e->w)); done = true; }
      else if (sg && nativeU) { ZE x = I(e, false); r = z3::ite(x < pow2i(e->w - 1), x, x - pow2i(e->w)); done = true; }
    }
    if (!done)
    {
      r = fresh("n", true);
      if (sg) side.push_back(r >= c.int_val((int64_t)e->slo) && r <= c.int_val((int64_t)e->shi));
      else side.push_back(r >= c.int_val((uint64_t)e->ulo) && r <= c.int_val((uint64_t)e->uhi));
      if (e->op == O_VAR) ivars.push_back({e->aux, r});
    }
    im_.emplace(key, r);
    return r;
  }
  void mono(E a, E b)
  {
    // rounding is monotone: exact(a) <= b  =>  a <= b, for any representable b
    auto it = exact_.find(a);
    if (it == exact_.end() || a->w != b->w) return;
    ZE x = R(a), y = R(b), t = it->second;
    side.push_back(z3::implies(t <= y, x <= y));
    side.push_back(z3::implies(t >= y, x >= y));
  }
  ZE B(E e)
  {
    auto it = bm_.find(e);
    if (it != bm_.end()) return it->second;
    ZE r(c);
    bool done = false;
    E a = e->k[0], b = e->k[1];
    switch (e->op)
    {
      case O_CONST: r = c.bool_val(e->c != 0); done = true; break;
      case O_AND: r = B(a) && B(b); done = true; break;
      case O_OR: r = B(a) || B(b); done = true; break;
      case O_XOR: r = isTrue(b) ? !B(a) : B(a) != B(b); done = true; break;
      case O_ITE: r = z3::ite(B(a), B(b), B(e->k[2])); done = true; break;
      case O_EQ:
        if (a->w == 1) { r = B(a) == B(b); done = true; }
        else if (a->w <= 64 && !a->isf && !b->isf) { const bool s = !(a->shi < 0 || b->shi < 0) || true; r = I(a, s) == I(b, s); done = true; }
        break;
      case O_ULT: case O_ULE:
        if (a->w <= 64) { ZE x = I(a, false), y = I(b, false); r = e->op == O_ULT ? x < y : x <= y; done = true; }
        break;
      case O_SLT: case O_SLE:
        if (a->w <= 64) { ZE x = I(a, true), y = I(b, true); r = e->op == O_SLT ? x < y : x <= y; done = true; }
        break;
      case F_EQ: case F_LT: case F_LE:
        if (okReal(a) && okReal(b))
        {
          ZE x = R(a), y = R(b);
          r = e->op == F_EQ ? x == y : e->op == F_LT ? x < y : x <= y;
          mono(a, b);
          mono(b, a);
          done = true;
        }
        break;
      default: break;
    }
    if (!done) r = c.bool_const(("b" + std::to_string(n++)).c_str());
    bm_.emplace(e, r);
    return r;
  }
};

double numeral(const ZE& v)
{
  // rational or algebraic numeral to double
  std::string s = v.is_algebraic() ? v.get_decimal_string(20) : std::string();
  if (s.empty())
  {
    ZE num = v.numerator(), den = v.denominator();
    std::string a = num.get_decimal_string(0), b = den.get_decimal_string(0);
    return (double)(strtold(a.c_str(), nullptr) / strtold(b.c_str(), nullptr));
  }
  if (s.back() == '?') s.pop_back();
  return strtod(s.c_str(), nullptr);
}

bool allTrue(const std::vector<E>& q, const Model& m)
{
  evalBegin();
  for (E e : q)
    if (!evalExpr(e, m)) return false;
  return true;
}
std::mt19937_64& rng()
{
  static std::mt19937_64 r(12345);
  return r;
}
// cheap search for a model around a candidate (only ever used to *find* models, never to conclude unsat)
bool repair(const std::vector<E>& q, const std::vector<uint32_t>& vars, Model& m, int tries)
{
  if (allTrue(q, m)) return true;
  const Model orig = m;
  for (int t = 0; t < tries; ++t)
  {
    m = orig;
    for (uint32_t v : vars)
    {
      const VarInfo& vi = g_vars[v];
      if (vi.w > 64) continue;
      if (vi.dom == 3 && (rng()() % 2))
      {
        double d = vi.w == 32 ? b2f(m.get(v)) : b2d(m.get(v));
        switch (rng()() % 5)
        {
          case 0: d = std::round(d); break;
          case 1: d = std::round(d * 16) / 16; break;
          case 2: d += (vi.fhi - vi.flo) * 1e-6 * ((double)(rng()() % 2001) - 1000); break;
          case 3: d = vi.w == 32 ? (double)nextafterf((float)d, (rng()() & 1) ? INFINITY : -INFINITY) : nextafter(d, (rng()() & 1) ? INFINITY : -INFINITY); break;
          default: d = vi.flo + (vi.fhi - vi.flo) * ((rng()() % 1025) / 1024.0); break;
        }
        d = std::min(std::max(d, vi.flo), vi.fhi);
        m.set(v, vi.w == 32 ? f2b((float)d) : d2b(d));
      }
    }
    if (allTrue(q, m)) return true;
  }
  m = orig;
  return false;
}

// Interval branch and prune over the inputs of a query. Every box is evaluated with outward rounded IEEE interval
// arithmetic; a box is dropped when some constraint is false everywhere in it, single points are evaluated exactly.
// Sound in both directions: UNSAT only when the boxes dropped cover the whole domain, SAT only with a checked model.
struct BranchPrune
{
  struct IV { FI f; __int128 lo, hi; };
  const std::vector<E>& q;
  std::vector<E> nodes;
  std::unordered_map<E, int> idx;
  std::vector<std::array<int, 3>> kid;
  std::vector<IV> val;
  std::vector<int> roots;
  std::vector<uint32_t> vars;
  struct Box { std::vector<double> lo, hi; std::vector<__int128> ilo, ihi; };
  std::unordered_map<uint32_t, int> pos;
  // affine enclosure over the box: c + sum k[i] * e_i + [-e, e] with e_i in [-1, 1], one per floating-point input
  struct AF { bool ok = false; double c = 0, k[3] = {0, 0, 0}, e = 0; };
  std::vector<AF> af;
  static double afRad(const AF& a) { return std::fabs(a.k[0]) + std::fabs(a.k[1]) + std::fabs(a.k[2]) + a.e; }
  static AF afOf(const FI& f)
  {
    AF r;
    if (f.nan || !std::isfinite(f.lo) || !std::isfinite(f.hi) || std::max(std::fabs(f.lo), std::fabs(f.hi)) > 1e100) return r;
    r.ok = true;
    r.c = f.lo + (f.hi - f.lo) / 2;
    r.e = f.lo == f.hi ? 0 : (f.hi - f.lo) / 2 * (1 + 1e-15) + std::fabs(r.c) * 3e-16 + 1e-320;
    return r;
  }
  static AF afLin(double ca, const AF& a, double cb, const AF& b, double c)
  {
    AF r;
    r.ok = true;
    r.c = ca * a.c + cb * b.c + c;
    double m = std::fabs(ca * a.c) + std::fabs(cb * b.c) + std::fabs(c);
    for (int i = 0; i < 3; ++i)
    {
      r.k[i] = ca * a.k[i] + cb * b.k[i];
      m += std::fabs(ca * a.k[i]) + std::fabs(cb * b.k[i]);
    }
    r.e = std::fabs(ca) * a.e + std::fabs(cb) * b.e;
    r.e += (m + r.e) * 6e-16 + 1e-300;
    return r;
  }
  // the affine form of node n, given the intervals and forms of its operands; r is its interval, tightened here
  AF afNode(int n, IV& r, const Box& b)
  {
    E e = nodes[n];
    AF o;
    if (r.f.nan || !std::isfinite(r.f.lo) || !std::isfinite(r.f.hi)) return o;
    const std::array<int, 3>& kd = kid[n];
    auto A = [&](int i) -> const AF& { return af[kd[i]]; };
    auto F = [&](int i) -> const FI& { return val[kd[i]].f; };
    const double u = e->w == 32 ? 6.1e-8 : 1.2e-16;
    const double big = std::max(std::fabs(r.f.lo), std::fabs(r.f.hi));
    bool round = true;
    switch (e->op)
    {
      case O_VAR:
        if (g_vars[e->aux].fn.empty())
        {
          const int p = pos[e->aux];
          o = afOf(r.f);
          if (o.ok && b.lo[p] < b.hi[p])
          {
            o.k[p] = (b.hi[p] - b.lo[p]) / 2;
            o.e = o.e - o.k[p] > 0 ? o.e - o.k[p] + o.k[p] * 1e-15 : o.k[p] * 1e-15;
            o.e += std::fabs(o.c) * 3e-16 + 1e-300;
          }
          return o;
        }
        else
        {
          const std::string& fn = g_vars[e->aux].fn;
          if (!A(0).ok || r.f.lo == r.f.hi) break;
          if (fn == "sin" || fn == "cos")
          {
            const double rad = afRad(A(0)), x = A(0).c;
            if (rad > 1 || std::fabs(x) > 1e4) break;
            const double f = fn == "sin" ? std::sin(x) : std::cos(x), d = fn == "sin" ? std::cos(x) : -std::sin(x);
            o = afLin(d, A(0), 0, A(0), f - d * x);
            o.e += rad * rad / 2 * 1.0001 + (std::fabs(d * x) + 1) * 1e-15;
            o.e += 4 * u;
          }
          else if (fn == "atan2" || fn == "hypot")
          {
            if (kd[1] < 0 || !A(1).ok) break;
            const bool at = fn == "atan2";
            const FI &Y = F(0), &X = F(1);
            if (at && !(Y.lo > 0 || Y.hi < 0 || X.lo > 0)) break;
            auto mn = [](const FI& f) { return f.lo > 0 ? f.lo : f.hi < 0 ? -f.hi : 0.0; };
            const double rm = std::hypot(mn(X), mn(Y)), y = A(0).c, x = A(1).c, rr = x * x + y * y;
            // the linearisation point must lie in the box of the arguments, which is convex and away from the origin
            if (!(rm > 1e-6) || y < Y.lo || y > Y.hi || x < X.lo || x > X.hi) break;
            const double ry = std::max(Y.hi - y, y - Y.lo), rx = std::max(X.hi - x, x - X.lo), q = (ry * ry + rx * rx) / 2 * 1.0001;
            const double h = std::sqrt(rr);
            const double dy = at ? x / rr : y / h, dx = at ? -y / rr : x / h, f = at ? std::atan2(y, x) : h;
            o = afLin(dy, A(0), dx, A(1), f - dy * y - dx * x);
            o.e += (at ? q / (rm * rm) : q / rm) + (std::fabs(dy * y) + std::fabs(dx * x) + std::fabs(f)) * 2e-15;
            o.e += 4 * u * big;
          }
          round = false;
        }
        break;
      case F_ADD: if (A(0).ok && A(1).ok) o = afLin(1, A(0), 1, A(1), 0); break;
      case F_SUB: if (A(0).ok && A(1).ok) o = afLin(1, A(0), -1, A(1), 0); break;
      case F_NEG: if (A(0).ok) o = afLin(-1, A(0), 0, A(0), 0); round = false; break;
      case F_EXT: o = A(0); round = false; break;
      case F_TRUNC: o = A(0); break;
      case F_ABS:
        if (A(0).ok && F(0).lo >= 0) o = A(0);
        else if (A(0).ok && F(0).hi <= 0) o = afLin(-1, A(0), 0, A(0), 0);
        round = false;
        break;
      case F_MUL:
        if (A(0).ok && A(1).ok)
        {
          const double ra = afRad(A(0)), rb = afRad(A(1));
          if (kd[0] == kd[1])
          {
            o = afLin(2 * A(0).c, A(0), 0, A(0), -A(0).c * A(0).c + ra * ra / 2);
            o.e += ra * ra / 2 * (1 + 1e-15) + (A(0).c * A(0).c + ra * ra) * 1e-15;
          }
          else
          {
            o = afLin(A(1).c, A(0), A(0).c, A(1), -A(0).c * A(1).c);
            o.e += ra * rb * (1 + 1e-15) + std::fabs(A(0).c * A(1).c) * 1e-15;
          }
        }
        break;
      case F_DIV:
        if (A(0).ok && A(1).ok && (F(1).lo > 0 || F(1).hi < 0))
        {
          const bool ng = F(1).hi < 0;
          const double l = ng ? -F(1).hi : F(1).lo, h = ng ? -F(1).lo : F(1).hi;
          if (l < 1e-50) break;
          const double al = -1 / (h * h), p = 1 / l - al * l, q = 1 / h - al * h;
          const double ze = (p + q) / 2, de = std::fabs(p - q) / 2 + (std::fabs(p) + std::fabs(q)) * 1e-15;
          AF iv = afLin(al, A(1), 0, A(1), ng ? -ze : ze);   // 1/b is odd, so is the slope term
          iv.e += de;
          const double ra = afRad(A(0)), rb = afRad(iv);
          o = afLin(iv.c, A(0), A(0).c, iv, -A(0).c * iv.c);
          o.e += ra * rb * (1 + 1e-15) + std::fabs(A(0).c * iv.c) * 1e-15;
        }
        break;
      case F_SQRT:
        if (A(0).ok && F(0).lo > 1e-200)
        {
          const double l = F(0).lo, h = F(0).hi, al = 1 / (2 * std::sqrt(h)), p = std::sqrt(l) - al * l, q = std::sqrt(h) - al * h;
          o = afLin(al, A(0), 0, A(0), (p + q) / 2);
          o.e += std::fabs(p - q) / 2 + (std::fabs(p) + std::fabs(q) + std::sqrt(h)) * 1e-15;
        }
        break;
      case O_ITE:
        if (val[kd[0]].lo == 1) return af[kd[1]];
        if (val[kd[0]].hi == 0) return af[kd[2]];
        break;
      default: break;
    }
    if (o.ok)
    {
      if (round) o.e += big * u + (e->w == 32 ? 1e-44 : 1e-320);
      const double rad = afRad(o);
      if (!(rad < 1e100) || !(std::fabs(o.c) < 1e100)) o.ok = false;
      else
      {
        const double sl = (std::fabs(o.c) + rad) * 4e-16 + 1e-300;
        double lo = o.c - rad - sl, hi = o.c + rad + sl;
        if (e->w == 32)
        {
          // the value is a float: the bounds move inwards to floats
          if ((double)(float)lo < lo) lo = nextafterf((float)lo, INFINITY);
          if ((double)(float)hi > hi) hi = nextafterf((float)hi, -INFINITY);
          lo = (float)lo;
          hi = (float)hi;
        }
        if (lo > r.f.lo && lo <= r.f.hi) r.f.lo = lo;
        if (hi < r.f.hi && hi >= r.f.lo) r.f.hi = hi;
        if ((r.f.hi - r.f.lo) / 2 < rad * 0.4) o.ok = false;
      }
    }
    if (!o.ok) o = afOf(r.f);
    return o;
  }
  struct Cancel { bool on = false; std::vector<std::pair<int, int>> ts; std::vector<int> in; };
  std::vector<Cancel> cancel;
  std::vector<E> libs;  // libm applications, arguments first
  explicit BranchPrune(const std::vector<E>& q_) : q(q_) {}
  static __int128 smin(unsigned w) { return w == 1 ? 0 : -((__int128)1 << (w - 1)); }
  static __int128 smax(unsigned w) { return w == 1 ? 1 : ((__int128)1 << (w - 1)) - 1; }
  int add(E e)
  {
    auto it = idx.find(e);
    if (it != idx.end()) return it->second;
    std::array<int, 3> k{-1, -1, -1};
    for (int i = 0; i < 3; ++i)
      if (e->k[i]) k[i] = add(e->k[i]);
    if (e->op == O_VAR)
      for (size_t i = 0; i < g_vars[e->aux].args.size() && i < 3; ++i) k[i] = add(g_vars[e->aux].args[i]);
    nodes.push_back(e);
    kid.push_back(k);
    cancel.emplace_back();
    if (e->op == O_VAR && !g_vars[e->aux].fn.empty()) libs.push_back(e);
    if (e->op == F_ADD || e->op == F_SUB)
    {
      std::vector<std::pair<E, int>> ts;
      std::vector<E> in;
      if (!isC(e->k[0]) && !isC(e->k[1]) && fiCancel(e, ts, in))
      {
        Cancel& c = cancel.back();
        c.on = true;
        bool self = false;
        for (auto& t : ts)
        {
          auto x = idx.find(t.first);
          if (x == idx.end()) { self = true; break; }
          c.ts.push_back({x->second, t.second});
        }
        for (E x : in)
          if (x != e)
          {
            auto y = idx.find(x);
            if (y == idx.end()) { self = true; break; }
            c.in.push_back(y->second);
          }
        if (self) c = Cancel();
      }
    }
    idx[e] = nodes.size() - 1;
    return nodes.size() - 1;
  }
  static IV top(E e)
  {
    IV r{{-INFINITY, INFINITY, true}, 0, 0};
    if (e->w <= 64) { r.lo = smin(e->w); r.hi = smax(e->w); }
    return r;
  }
  void evalNode(int n, const Box& b)
  {
    E e = nodes[n];
    IV r = top(e);
    const IV* k[3];
    for (int i = 0; i < 3; ++i) k[i] = kid[n][i] >= 0 ? &val[kid[n][i]] : nullptr;
    if (e->w > 64) { val[n] = r; return; }
    auto fit = [&](__int128 lo, __int128 hi) { if (lo >= smin(e->w) && hi <= smax(e->w)) { r.lo = lo; r.hi = hi; } };
    auto tri = [&](bool t, bool f) { r.lo = t ? 1 : 0; r.hi = f ? 0 : 1; };
    const bool one = e->w == 1;
    switch (e->op)
    {
      case O_CONST:
        r.f = fiOf(e, e->w);
        r.lo = r.hi = one ? (__int128)(e->c & 1) : (__int128)sextw(e->c, e->w);
        break;
      case O_VAR:
      {
        if (!g_vars[e->aux].fn.empty())
        {
          r.f = fiLibm(g_vars[e->aux].fn, e->w, k[0]->f, k[1] ? k[1]->f : FI{0, 0, false});
          break;
        }
        const int p = pos[e->aux];
        if (g_vars[e->aux].dom == 3) r.f = {b.lo[p], b.hi[p], false};
        else fit(b.ilo[p], b.ihi[p]);
        break;
      }
      case O_ADD:
        if (!one) { fit(k[0]->lo + k[1]->lo, k[0]->hi + k[1]->hi); break; }
        if (k[0]->lo == k[0]->hi && k[1]->lo == k[1]->hi) r.lo = r.hi = k[0]->lo ^ k[1]->lo;
        break;
      case O_SUB: if (!one) fit(k[0]->lo - k[1]->hi, k[0]->hi - k[1]->lo); break;
      case O_MUL:
        if (!one && e->w <= 62)
        {
          const __int128 c[4] = {k[0]->lo * k[1]->lo, k[0]->lo * k[1]->hi, k[0]->hi * k[1]->lo, k[0]->hi * k[1]->hi};
          fit(*std::min_element(c, c + 4), *std::max_element(c, c + 4));
        }
        break;
      case O_AND:
        if (one) { r.lo = k[0]->lo & k[1]->lo; r.hi = k[0]->hi & k[1]->hi; }
        else if (k[0]->lo >= 0 && k[1]->lo >= 0) fit(0, std::min(k[0]->hi, k[1]->hi));
        else if (k[0]->lo >= 0) fit(0, k[0]->hi);
        else if (k[1]->lo >= 0) fit(0, k[1]->hi);
        break;
      case O_OR:
        if (one) { r.lo = k[0]->lo | k[1]->lo; r.hi = k[0]->hi | k[1]->hi; }
        else if (k[0]->lo == k[0]->hi && k[1]->lo == k[1]->hi) r.lo = r.hi = k[0]->lo | k[1]->lo;
        else if (k[0]->lo >= 0 && k[1]->lo >= 0) fit(std::max(k[0]->lo, k[1]->lo), std::min(k[0]->hi + k[1]->hi, smax(e->w)));
        break;
      case O_SHL:
        if (!one && k[1]->lo == k[1]->hi && k[1]->lo >= 0 && k[1]->lo < (int)e->w && k[1]->lo < 62)
        {
          const __int128 m = (__int128)1 << (int)k[1]->lo;
          fit(k[0]->lo * m, k[0]->hi * m);
        }
        break;
      case O_LSHR:
        if (!one && k[0]->lo >= 0 && k[1]->lo == k[1]->hi && k[1]->lo >= 0 && k[1]->lo < (int)e->w) fit(k[0]->lo >> (int)k[1]->lo, k[0]->hi >> (int)k[1]->lo);
        break;
      case O_ASHR:
        if (!one && k[1]->lo == k[1]->hi && k[1]->lo >= 0 && k[1]->lo < (int)e->w) fit(k[0]->lo >> (int)k[1]->lo, k[0]->hi >> (int)k[1]->lo);
        break;
      case O_UDIV: case O_SDIV:
        if (!one && k[0]->lo >= 0 && k[1]->lo > 0) fit(k[0]->lo / k[1]->hi, k[0]->hi / k[1]->lo);
        break;
      case O_XOR:
        if (one && k[0]->lo == k[0]->hi && k[1]->lo == k[1]->hi) r.lo = r.hi = k[0]->lo ^ k[1]->lo;
        break;
      case O_ZEXT:
        if (k[0]->lo >= 0) { r.lo = k[0]->lo; r.hi = k[0]->hi; }
        else fit(0, ((__int128)1 << e->k[0]->w) - 1);
        break;
      case O_SEXT:
        if (e->k[0]->w == 1) { r.lo = -k[0]->hi; r.hi = -k[0]->lo; }
        else { r.lo = k[0]->lo; r.hi = k[0]->hi; }
        break;
      case O_EXTRACT:
        if (e->aux == 0 && e->k[0]->w <= 64) fit(k[0]->lo, k[0]->hi);
        if (one && e->k[0]->isf && e->aux + 1 == e->k[0]->w && !k[0]->f.nan)
          tri(k[0]->f.hi < 0, k[0]->f.lo > 0);   // sign bit
        break;
      case O_EQ:
        if (e->k[0]->w <= 64)
        {
          if (k[0]->hi < k[1]->lo || k[1]->hi < k[0]->lo) tri(false, true);
          else if (k[0]->lo == k[0]->hi && k[1]->lo == k[1]->hi) tri(true, false);
        }
        break;
      case O_SLT: if (e->k[0]->w > 1 && e->k[0]->w <= 64) tri(k[0]->hi < k[1]->lo, k[0]->lo >= k[1]->hi); break;
      case O_SLE: if (e->k[0]->w > 1 && e->k[0]->w <= 64) tri(k[0]->hi <= k[1]->lo, k[0]->lo > k[1]->hi); break;
      case O_ULT: if (e->k[0]->w <= 64 && k[0]->lo >= 0 && k[1]->lo >= 0) tri(k[0]->hi < k[1]->lo, k[0]->lo >= k[1]->hi); break;
      case O_ULE: if (e->k[0]->w <= 64 && k[0]->lo >= 0 && k[1]->lo >= 0) tri(k[0]->hi <= k[1]->lo, k[0]->lo > k[1]->hi); break;
      case O_ITE:
      {
        if (k[0]->lo == 1) { r = *k[1]; break; }
        if (k[0]->hi == 0) { r = *k[2]; break; }
        r.lo = std::min(k[1]->lo, k[2]->lo);
        r.hi = std::max(k[1]->hi, k[2]->hi);
        r.f = {std::min(k[1]->f.lo, k[2]->f.lo), std::max(k[1]->f.hi, k[2]->f.hi), k[1]->f.nan || k[2]->f.nan};
        break;
      }
      case F_ADD: case F_SUB: case F_MUL: case F_DIV:
        r.f = fiCompute(e->op, e->w, e->aux, k[0]->f, k[1]->f, kid[n][0] == kid[n][1]);
        if (cancel[n].on && !r.f.nan && std::isfinite(r.f.lo) && std::isfinite(r.f.hi))
        {
          std::vector<std::pair<FI, int>> tf;
          std::vector<double> mg{std::max(std::fabs(r.f.lo), std::fabs(r.f.hi))};
          for (auto& t : cancel[n].ts) tf.push_back({val[t.first].f, t.second});
          for (int x : cancel[n].in) mg.push_back(std::max(std::fabs(val[x].f.lo), std::fabs(val[x].f.hi)));
          const FI c = fiCancelSum(tf, mg, e->w);
          r.f.lo = std::max(r.f.lo, c.lo);
          r.f.hi = std::min(r.f.hi, c.hi);
        }
        break;
      case F_SQRT: case F_RTI: case F_NEG: case F_ABS: case F_EXT: case F_TRUNC:
        r.f = fiCompute(e->op, e->w, e->aux, k[0]->f, {0, 0, true}, false);
        break;
      case F_LT: case F_LE:
      {
        const bool lt = e->op == F_LT;
        tri(!k[0]->f.nan && !k[1]->f.nan && (lt ? k[0]->f.hi < k[1]->f.lo : k[0]->f.hi <= k[1]->f.lo), lt ? k[0]->f.lo >= k[1]->f.hi : k[0]->f.lo > k[1]->f.hi);
        const AF &x = af[kid[n][0]], &y = af[kid[n][1]];
        if (r.lo != r.hi && x.ok && y.ok && !k[0]->f.nan && !k[1]->f.nan)
        {
          const AF d = afLin(1, x, -1, y, 0);
          const double rad = afRad(d) * (1 + 1e-14);
          tri(d.c + rad < 0, d.c - rad > 0);
        }
        break;
      }
      case F_EQ: tri(!k[0]->f.nan && !k[1]->f.nan && k[0]->f.lo == k[0]->f.hi && k[1]->f.lo == k[1]->f.hi && k[0]->f.lo == k[1]->f.lo,
                     k[0]->f.hi < k[1]->f.lo || k[1]->f.hi < k[0]->f.lo); break;
      case F_SI2F:
      {
        const double lo = (double)(int64_t)k[0]->lo, hi = (double)(int64_t)k[0]->hi;
        if (e->k[0]->w > 1 && e->k[0]->w <= 64)
        {
          r.f = {lo, hi, false};
          if (e->w == 32) r.f = {(double)(float)(int64_t)k[0]->lo, (double)(float)(int64_t)k[0]->hi, false};
        }
        break;
      }
      case F_UI2F:
        if (e->k[0]->w > 1 && e->k[0]->w <= 64 && k[0]->lo >= 0)
        {
          r.f = {(double)(int64_t)k[0]->lo, (double)(int64_t)k[0]->hi, false};
          if (e->w == 32) r.f = {(double)(float)(int64_t)k[0]->lo, (double)(float)(int64_t)k[0]->hi, false};
        }
        break;
      case F_F2UI:
        if (!k[0]->f.nan && k[0]->f.lo >= 0 && k[0]->f.hi < 1e15 && e->w <= 64 && e->w > 1)
          fit((int64_t)std::floor(k[0]->f.lo), (int64_t)std::ceil(k[0]->f.hi));
        break;
      case F_F2SI:
        if (!k[0]->f.nan && k[0]->f.lo > -1e15 && k[0]->f.hi < 1e15 && e->w <= 64 && e->w > 1)
        {
          if (e->aux == RM_RTZ) fit((int64_t)k[0]->f.lo, (int64_t)k[0]->f.hi);
          else fit((int64_t)std::floor(k[0]->f.lo), (int64_t)std::ceil(k[0]->f.hi));
        }
        break;
      default: break;
    }
    if (!e->isf && e->op != O_CONST && e->op != O_VAR) { af[n].ok = false; }
    else af[n] = afNode(n, r, b);
    val[n] = r;
  }
  static double mid(double a, double b, unsigned w)
  {
    double m;
    if (a < 0 && b > 0) m = 0;
    else if (a >= 0 && b > 4 * a && a > 0) m = std::sqrt(a) * std::sqrt(b);
    else if (b <= 0 && a < 4 * b && b < 0) m = -std::sqrt(-a) * std::sqrt(-b);
    else m = a + (b - a) / 2;
    if (w == 32) m = (float)m;
    return std::min(std::max(m, a), b);
  }
  // libm applications take their native values
  bool holds(Model& m)
  {
    if (!libs.empty())
    {
      evalBegin();
      for (E l : libs)
      {
        const VarInfo& vi = g_vars[l->aux];
        std::vector<uint64_t> av;
        for (E a : vi.args) av.push_back(evalExpr(a, m));
        uint64_t nv;
        if (!nativeLibm(vi.fn, vi.w, av, nv)) return false;
        m.set(l->aux, nv);
      }
    }
    return allTrue(q, m);
  }
  // 1: a model, 0: none, -1: out of budget
  SR run(const std::vector<uint32_t>& vs, const Model& base, Model& out, double secs)
  {
    // facts that hold for every choice of the inputs (domains, properties of libm functions) need no refutation
    std::unordered_set<E> facts;
    for (uint32_t v : vs) facts.insert(domainOf(v));
    std::vector<E> bare;
    for (E e : q)
      if (!facts.count(e) && !g_axioms.count(e)) roots.push_back(add(e)), bare.push_back(e);
    const size_t used = nodes.size();
    for (E e : nodes)
      if (e->op == O_VAR && g_vars[e->aux].fn.empty()) vars.push_back(e->aux);
    if (vars.size() > 3) return R_UNKNOWN;
    for (E e : q)
      if (facts.count(e) || g_axioms.count(e)) add(e);
    Box b0;
    for (uint32_t v : vars)
    {
      const VarInfo& vi = g_vars[v];
      if (vi.w > 64 || vi.dom == 0) return R_UNKNOWN;
      pos[v] = b0.lo.size();
      b0.lo.push_back(vi.dom == 3 ? vi.flo : 0);
      b0.hi.push_back(vi.dom == 3 ? vi.fhi : 0);
      if (vi.dom == 1 && vi.w > 1 && vi.uhi >> (vi.w - 1)) return R_UNKNOWN;
      b0.ilo.push_back(vi.dom == 1 ? (__int128)vi.ulo : vi.dom == 2 ? (__int128)vi.slo : 0);
      b0.ihi.push_back(vi.dom == 1 ? (__int128)vi.uhi : vi.dom == 2 ? (__int128)vi.shi : 0);
      if (vi.dom == 3 && !(vi.flo <= vi.fhi && std::isfinite(vi.flo) && std::isfinite(vi.fhi))) return R_UNKNOWN;
      if (vi.dom == 2 && vi.w == 1) return R_UNKNOWN;
      if (vi.dom == 3 && vi.w == 32 && ((double)(float)vi.flo != vi.flo || (double)(float)vi.fhi != vi.fhi)) return R_UNKNOWN;
    }
    val.resize(nodes.size());
    af.resize(nodes.size());
    std::vector<Box> st{b0};
    const double t0 = now();
    size_t count = 0;
    {
      Model m = base;
      if (!libs.empty() && holds(m)) { out = m; return R_SAT; }
    }
    struct Tight { Tight() { g_fiTight = true; } ~Tight() { g_fiTight = false; } } tight;
    while (!st.empty())
    {
      if ((++count & 63) == 0 && now() - t0 > secs)
      {
        if (g_verbose && getenv("SX_BOX"))
        {
          fprintf(stderr, "box: out of time after %zu boxes:", count);
          for (size_t i = 0; i < vars.size(); ++i) fprintf(stderr, " %s [%.17g %.17g] [%ld %ld]", g_vars[vars[i]].name.c_str(), st.back().lo[i], st.back().hi[i], (long)st.back().ilo[i], (long)st.back().ihi[i]);
          fprintf(stderr, "\n");
          for (E l : libs)
            if ((size_t)idx[l] < used)
            {
              const int n = idx[l];
              fprintf(stderr, "  %s#%u = [%.17g %.17g] of", g_vars[l->aux].fn.c_str(), l->aux, val[n].f.lo, val[n].f.hi);
              for (int i = 0; i < 2; ++i)
                if (kid[n][i] >= 0) fprintf(stderr, " [%.17g %.17g] %s", val[kid[n][i]].f.lo, val[kid[n][i]].f.hi, exprStr(nodes[kid[n][i]], 9).c_str());
              fprintf(stderr, "\n");
            }
          for (size_t j = 0; j < roots.size(); ++j)
            if (val[roots[j]].lo != val[roots[j]].hi) fprintf(stderr, "  undecided: %s\n", exprStr(bare[j], getenv("SX_DEPTH") ? atoi(getenv("SX_DEPTH")) : 16).c_str());
        }
        return R_UNKNOWN;
      }
      if (st.size() > 4000) return R_UNKNOWN;
      Box b = st.back();
      st.pop_back();
      for (size_t i = 0; i < used; ++i) evalNode(i, b);
      bool drop = false;
      for (int r : roots)
        if (val[r].hi == 0) { drop = true; break; }
      if (drop) continue;
      Model m = base;
      bool point = true;
      int split = -1;
      double best = -1;
      for (size_t i = 0; i < vars.size(); ++i)
      {
        const VarInfo& vi = g_vars[vars[i]];
        if (vi.dom == 3)
        {
          const double d = mid(b.lo[i], b.hi[i], vi.w);
          m.set(vars[i], vi.w == 32 ? f2b((float)d) : d2b(d));
          if (b.lo[i] < b.hi[i])
          {
            point = false;
            const double w = (b.hi[i] - b.lo[i]) / (vi.fhi - vi.flo) + 1e-300;
            if (w > best) { best = w; split = i; }
          }
          else if (b.lo[i] == 0) { /* both zeros: decided below */ }
        }
        else
        {
          const __int128 mi = b.ilo[i] + (b.ihi[i] - b.ilo[i]) / 2;
          m.set(vars[i], (uint64_t)mi & maskw(vi.w));
          if (b.ilo[i] < b.ihi[i])
          {
            point = false;
            const double w = (double)(b.ihi[i] - b.ilo[i]) / (double)(b0.ihi[i] - b0.ilo[i]);
            if (w > best) { best = w; split = i; }
          }
        }
      }
      if (holds(m)) { out = m; return R_SAT; }
      if (point)
      {
        // a zero coordinate stands for +0 and -0
        std::vector<uint32_t> zs;
        for (size_t i = 0; i < vars.size(); ++i)
          if (g_vars[vars[i]].dom == 3 && b.lo[i] == 0) zs.push_back(vars[i]);
        if (zs.size() > 6) return R_UNKNOWN;
        for (unsigned c = 0; c < (1u << zs.size()); ++c)
        {
          for (size_t i = 0; i < zs.size(); ++i)
          {
            const unsigned w = g_vars[zs[i]].w;
            m.set(zs[i], (c >> i & 1) ? (1ULL << (w - 1)) : 0);
          }
          if (holds(m)) { out = m; return R_SAT; }
        }
        continue;
      }
      const VarInfo& vi = g_vars[vars[split]];
      Box x = b, y = b;
      if (vi.dom == 3)
      {
        double d = mid(b.lo[split], b.hi[split], vi.w);
        double n = vi.w == 32 ? (double)nextafterf((float)d, INFINITY) : nextafter(d, INFINITY);
        if (d >= b.hi[split]) { n = d; d = vi.w == 32 ? (double)nextafterf((float)d, -INFINITY) : nextafter(d, -INFINITY); }
        x.hi[split] = d;
        y.lo[split] = n;
      }
      else
      {
        const __int128 mi = b.ilo[split] + (b.ihi[split] - b.ilo[split]) / 2;
        x.ihi[split] = mi;
        y.ilo[split] = mi + 1;
      }
      st.push_back(x);
      st.push_back(y);
    }
    return R_UNSAT;
  }
};
SR relaxSolve1(const std::vector<E>& q, const std::vector<uint32_t>& vars, const Model& base, Model& out, unsigned ms, bool coarse, int& rounds)
{
  Relax rx;
  rx.coarse = coarse;
  for (E e : q) rx.scanAtom(e, true);
  z3::expr_vector as(Z());
  for (E e : q) as.push_back(rx.B(e));
  for (unsigned i = 0; i < rx.side.size(); ++i) as.push_back(rx.side[i]);
  rounds = rx.rounds;
  if (coarse && rounds < 3) return R_UNKNOWN;
  for (int attempt = 0; attempt < 2; ++attempt)
  {
    z3::solver s = attempt == 0 ? z3::solver(Z(), z3::solver::simple())
                                : (z3::tactic(Z(), "simplify") & z3::tactic(Z(), "solve-eqs") & z3::tactic(Z(), "qfnra-nlsat")).mk_solver();
    if (attempt == 1 && rx.usesInt) break;
    z3::params p(Z());
    p.set("timeout", ms);
    s.set(p);
    for (unsigned i = 0; i < as.size(); ++i) s.add(as[i]);
    z3::check_result r = z3::unknown;
    try { r = s.check(); } catch (z3::exception& ex) { if (g_verbose) fprintf(stderr, "relax: %s\n", ex.msg()); }
    if (getenv("SX_DUMPR")) fprintf(stderr, "relax %d: %s %s\n%s\n", attempt, r == z3::unsat ? "unsat" : r == z3::sat ? "sat" : "unknown", r == z3::unknown ? s.reason_unknown().c_str() : "", s.to_smt2().c_str());
    if (r == z3::unsat) return R_UNSAT;
    if (coarse) continue;
    if (r == z3::sat)
    {
      z3::model zm = s.get_model();
      out = base;
      try
      {
        for (auto& fv : rx.fvars)
        {
          ZE v = zm.eval(fv.second, true);
          if (!v.is_numeral() && !v.is_algebraic()) continue;
          double d = numeral(v);
          const VarInfo& vi = g_vars[fv.first];
          if (vi.dom == 3) d = std::min(std::max(d, vi.flo), vi.fhi);
          out.set(fv.first, vi.w == 32 ? f2b((float)d) : d2b(d));
        }
        for (auto& iv : rx.ivars)
        {
          ZE v = zm.eval(iv.second, true);
          if (!v.is_numeral()) continue;
          out.set(iv.first, (uint64_t)strtoll(v.get_decimal_string(0).c_str(), nullptr, 10) & maskw(g_vars[iv.first].w));
        }
      }
      catch (z3::exception& ex) { if (g_verbose) fprintf(stderr, "relax model: %s\n", ex.msg()); }
      if (repair(q, vars, out, 60)) return R_SAT;
      return R_UNKNOWN;
    }
  }
  return R_UNKNOWN;
}
SR relaxSolve(const std::vector<E>& q, const std::vector<uint32_t>& vars, const Model& base, Model& out, unsigned ms)
{
  int rounds = 0;
  if (relaxSolve1(q, vars, base, out, ms, true, rounds) == R_UNSAT) return R_UNSAT;
  return relaxSolve1(q, vars, base, out, ms, false, rounds);
}
z3::solver mkBitSolver(bool fp)
{
  auto& c = Z();
  if (!fp)
  {
    z3::tactic t = z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") &
                   z3::tactic(c, "simplify") & z3::tactic(c, "bit-blast") & z3::tactic(c, "sat");
    return t.mk_solver();
  }
  z3::tactic t = z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "fpa2bv") &
                 z3::tactic(c, "propagate-values") & z3::tactic(c, "simplify") & z3::tactic(c, "solve-eqs") &
                 z3::tactic(c, "simplify") & z3::tactic(c, "bit-blast") & z3::tactic(c, "sat");
  return t.mk_solver();
}
SR bitSolve(const std::vector<E>& q, const std::vector<uint32_t>& vars, const Model& base, Model& out, unsigned ms, bool fp)
{
  z3::solver s = mkBitSolver(fp);
  z3::params p(Z());
  p.set("timeout", ms);
  s.set(p);
  addAll(s, q);
  z3::check_result r = z3::unknown;
  try { r = s.check(); } catch (z3::exception& ex) { if (g_verbose) fprintf(stderr, "bit: %s\n", ex.msg()); }
  if (r == z3::unknown && g_verbose && getenv("SX_DUMP")) fprintf(stderr, "bit: unknown: %s\n%s\n", s.reason_unknown().c_str(), getenv("SX_DUMP") ? s.to_smt2().c_str() : "");
  if (r == z3::unsat) return R_UNSAT;
  if (r != z3::sat) return R_UNKNOWN;
  z3::model zm = s.get_model();
  out = base;
  for (uint32_t v : vars)
  {
    const VarInfo& vi = g_vars[v];
    ZE val = zm.eval(tBV(vi.e), true);
    if (vi.w <= 64)
    {
      uint64_t x = 0;
      if (val.is_numeral_u64(x)) out.set(v, x);
      else return R_UNKNOWN;
    }
    else
      out.wide[v] = APInt(vi.w, val.get_decimal_string(0), 10);
  }
  if (!allTrue(q, out))
  {
    // only possible through an unspecified to_ieee_bv(NaN)
    if (g_verbose) fprintf(stderr, "bit model does not evaluate\n");
    return R_UNKNOWN;
  }
  return R_SAT;
}
SR extSolve(const std::vector<E>& q, unsigned ms)
{
  z3::solver s(Z());
  addAll(s, q);
  std::string txt = s.to_smt2();
  if (txt.find("to_ieee_bv") != std::string::npos) return R_UNKNOWN;
  char path[64];
  snprintf(path, sizeof path, "/tmp/symex_%d.smt2", getpid());
  {
    std::ofstream o(path);
    o << "(set-logic QF_BVFP)\n" << txt;
  }
  std::string cmd = "cvc5 --tlimit=" + std::to_string(ms) + " " + path + " 2>/dev/null";
  FILE* f = popen(cmd.c_str(), "r");
  SR r = R_UNKNOWN;
  if (f)
  {
    char buf[256];
    while (fgets(buf, sizeof buf, f))
    {
      if (!strncmp(buf, "unsat", 5)) r = R_UNSAT;
    }
    pclose(f);
  }
  unlink(path);
  return r;
}
struct CacheEnt
{
  SR r;
  std::vector<std::pair<uint32_t, uint64_t>> vals;
  std::vector<std::pair<uint32_t, APInt>> wide;
};
std::unordered_map<std::string, CacheEnt> g_cache;
const double g_slow = getenv("SX_SLOW") ? atof(getenv("SX_SLOW")) : 0.5;
}  // namespace

SR solveQuery(const std::vector<E>& cs, E extra, const Model& base, Model& out)
{
  if (isTrue(extra)) { out = base; return R_SAT; }
  if (isFalse(extra)) return R_UNSAT;
  const double t0 = now();
  // slice
  std::vector<uint32_t> vars = exprVars(extra);
  std::unordered_set<uint32_t> vs(vars.begin(), vars.end());
  std::vector<uint8_t> used(cs.size(), 0);
  bool ch = true;
  while (ch)
  {
    ch = false;
    for (size_t i = 0; i < cs.size(); ++i)
    {
      if (used[i]) continue;
      const auto& v = exprVars(cs[i]);
      bool hit = false;
      for (uint32_t x : v)
        if (vs.count(x)) { hit = true; break; }
      if (hit)
      {
        used[i] = 1;
        ch = true;
        for (uint32_t x : v) vs.insert(x);
      }
    }
    for (uint32_t v : std::vector<uint32_t>(vs.begin(), vs.end()))
      for (E a : g_vars[v].args)
        for (uint32_t u : exprVars(a))
          if (vs.insert(u).second) ch = true;
  }
  vars.assign(vs.begin(), vs.end());
  std::sort(vars.begin(), vars.end());
  std::vector<E> q;
  for (size_t i = 0; i < cs.size(); ++i)
    if (used[i]) q.push_back(cs[i]);
  q.push_back(extra);
  for (uint32_t v : vars)
  {
    E d = domainOf(v);
    if (!isTrue(d)) q.push_back(d);
  }
  std::vector<uint32_t> ids;
  for (E e : q) ids.push_back(e->id);
  std::sort(ids.begin(), ids.end());
  ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  std::string key((const char*)ids.data(), ids.size() * 4);
  auto it = g_cache.find(key);
  if (it != g_cache.end())
  {
    ++g_ss.cache;
    if (it->second.r == R_SAT)
    {
      out = base;
      for (auto& p : it->second.vals) out.set(p.first, p.second);
      for (auto& p : it->second.wide) out.wide[p.first] = p.second;
    }
    return it->second.r;
  }
  ++g_ss.queries;
  Cls cl;
  {
    std::unordered_set<E> seen;
    for (E e : q) classify(e, seen, cl);
  }
  SR r = R_UNKNOWN;
  const char* how = "bv";
  if (cl.fpops == 0)
  {
    {
      r = bitSolve(q, vars, base, out, cl.arith ? 40 : 400, false);
      if (r != R_UNKNOWN) ++g_ss.by_bv;
      if (r == R_UNKNOWN)
      {
        r = relaxSolve(q, vars, base, out, 2000);
        if (r == R_UNSAT) ++g_ss.by_arith_unsat, how = "arith";
        if (r == R_SAT) ++g_ss.by_arith_sat, how = "arith";
      }
    }
    if (r == R_UNKNOWN)
    {
      r = bitSolve(q, vars, base, out, g_timeout_ms, false);
      if (r != R_UNKNOWN) ++g_ss.by_bv;
    }
  }
  else
  {
    size_t nbase = 0;
    for (uint32_t v : vars) nbase += g_vars[v].fn.empty();
    const bool libm = nbase < vars.size();
    auto box = [&]()
    {
      if (r != R_UNKNOWN || nbase > 8 || cl.hard >= 4000) return;
      BranchPrune bp(q);
      r = bp.run(vars, base, out, libm ? (nbase <= 2 ? 5.0 : 2.0) : nbase == 1 ? 1.0 : 0.3);
      if (r != R_UNKNOWN) ++g_ss.by_box, how = "box";
    };
    // with libm functions the boxes go first: they know the values
    if (libm) box();
    Model m = base;
    if (r == R_UNKNOWN && repair(q, vars, m, 20)) { out = m; r = R_SAT; ++g_ss.by_search; how = "search"; }
    if (!libm) box();
    if (r == R_UNKNOWN && cl.hard == 0 && cl.fpops <= 12)
    {
      r = bitSolve(q, vars, base, out, 1500, true);
      if (r != R_UNKNOWN) ++g_ss.by_fp, how = "fp0";
    }
    if (r == R_UNKNOWN)
    {
      r = relaxSolve(q, vars, base, out, 4000);
      if (r == R_UNSAT) ++g_ss.by_arith_unsat;
      if (r == R_SAT) ++g_ss.by_arith_sat;
      how = "arith";
    }
    if (r == R_UNKNOWN)
    {
      r = bitSolve(q, vars, base, out, g_timeout_ms, true);
      if (r != R_UNKNOWN) ++g_ss.by_fp;
      how = "fp";
    }
    if (r == R_UNKNOWN)
    {
      r = extSolve(q, g_timeout_ms);
      if (r != R_UNKNOWN) ++g_ss.by_ext;
      how = "ext";
    }
  }
  const double dt = now() - t0;
  g_ss.time += dt;
  g_ss.maxtime = std::max(g_ss.maxtime, dt);
  if (r == R_SAT) ++g_ss.sat;
  else if (r == R_UNSAT) ++g_ss.unsat;
  else ++g_ss.unknown;
  if (g_verbose && dt > g_slow)
  {
    fprintf(stderr, "[query %.2fs %s via %s: %zu constraints %zu vars fp=%d hard=%d nodes=%d] %s\n", dt,
            r == R_SAT ? "sat" : r == R_UNSAT ? "unsat" : "UNKNOWN", how, q.size(), vars.size(), cl.fpops, cl.hard, cl.nodes,
            exprStr(extra, getenv("SX_DEPTH") ? atoi(getenv("SX_DEPTH")) : 4).substr(0, 3000).c_str());
  }
  CacheEnt ce;
  ce.r = r;
  if (r == R_SAT)
    for (uint32_t v : vars)
    {
      if (g_vars[v].w <= 64) ce.vals.push_back({v, out.get(v)});
      else if (out.wide.count(v)) ce.wide.push_back({v, out.wide[v]});
    }
  if (r != R_UNKNOWN) g_cache[key] = ce;
  return r;
}
