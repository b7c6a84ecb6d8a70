#include "expr.h"
#include <algorithm>
#include <cassert>
#include <cfenv>
#include <deque>
#include <functional>
#include <unordered_set>
#include <sstream>

std::vector<VarInfo> g_vars;
uint64_t g_nexprs = 0;

bool g_fiTight = false;
std::unordered_set<E> g_axioms;
namespace
{
struct H
{
  size_t operator()(const Expr* e) const
  {
    uint64_t h = e->op * 1000003ULL + e->w * 7919ULL + e->aux * 104729ULL;
    for (int i = 0; i < 3; ++i)
      h = (h ^ (e->k[i] ? e->k[i]->id + 1 : 0)) * 0x9E3779B97F4A7C15ULL, h ^= h >> 29;
    h ^= e->c * 0xC2B2AE3D27D4EB4FULL;
    if (e->big) h ^= llvm::hash_value(*e->big);
    return h ^ (h >> 31);
  }
};
struct Q
{
  bool operator()(const Expr* a, const Expr* b) const
  {
    if (a->op != b->op || a->w != b->w || a->aux != b->aux || a->c != b->c || a->isf != b->isf) return false;
    for (int i = 0; i < 3; ++i)
      if (a->k[i] != b->k[i]) return false;
    if (!a->big != !b->big) return false;
    if (a->big && *a->big != *b->big) return false;
    return true;
  }
};
std::unordered_set<Expr*, H, Q> g_tab;
std::deque<Expr> g_arena;

FI fiConst(uint64_t c, unsigned w)
{
  const double d = w == 32 ? b2f(c) : b2d(c);
  if (std::isnan(d)) return {0, 0, true};
  return {d, d, false};
}
// Rounding to nearest is monotone, so the correctly rounded endpoints bound the results of one IEEE operation exactly.
double rnd(double x, unsigned w) { return w == 32 ? (double)(float)x : x; }
double dn(double x, unsigned w)
{
  if (g_fiTight) return rnd(x, w);
  if (std::isinf(x) || std::isnan(x)) return x;
  if (w == 32)
  {
    float f = (float)x;
    if ((double)f > x) f = nextafterf(f, -INFINITY);
    return nextafterf(f, -INFINITY);
  }
  return nextafter(x, -INFINITY);
}
double up(double x, unsigned w)
{
  if (g_fiTight) return rnd(x, w);
  if (std::isinf(x) || std::isnan(x)) return x;
  if (w == 32)
  {
    float f = (float)x;
    if ((double)f < x) f = nextafterf(f, INFINITY);
    return nextafterf(f, INFINITY);
  }
  return nextafter(x, INFINITY);
}
const FI FTOP = {-INFINITY, INFINITY, true};
// [lo,hi] of a set of corner values; any NaN corner -> top with nan
FI corners(std::initializer_list<double> l, unsigned w, bool nan)
{
  double lo = INFINITY, hi = -INFINITY;
  for (double d : l)
  {
    if (std::isnan(d)) return FTOP;
    lo = std::min(lo, d);
    hi = std::max(hi, d);
  }
  FI r = {dn(lo, w), up(hi, w), nan};
  if (lo == 0 && hi >= 0) r.lo = 0;   // exact zero results of corners stay exact at the boundary
  if (hi == 0 && lo <= 0) r.hi = 0;
  return r;
}
void computeRanges(Expr* e)
{
  const unsigned w = e->w;
  if (w > 64) return;
  e->ulo = 0;
  e->uhi = maskw(w);
  e->slo = w == 64 ? INT64_MIN : -(1LL << (w - 1));
  e->shi = w == 64 ? INT64_MAX : (1LL << (w - 1)) - 1;
  auto fromS = [&](__int128 lo, __int128 hi)
  {
    if (lo >= e->slo && hi <= e->shi) { e->slo = (int64_t)lo; e->shi = (int64_t)hi; }
  };
  auto fromU = [&](unsigned __int128 lo, unsigned __int128 hi)
  {
    if (hi <= maskw(w)) { e->ulo = (uint64_t)lo; e->uhi = (uint64_t)hi; }
  };
  E a = e->k[0], b = e->k[1], c = e->k[2];
  switch (e->op)
  {
    case O_CONST:
      e->ulo = e->uhi = e->c;
      e->slo = e->shi = sextw(e->c, w);
      return;
    case O_VAR:
    {
      const VarInfo& v = g_vars[e->aux];
      if (v.dom == 1) fromU(v.ulo, v.uhi);
      if (v.dom == 2) fromS(v.slo, v.shi);
      break;
    }
    case O_ADD:
      fromS((__int128)a->slo + b->slo, (__int128)a->shi + b->shi);
      fromU((unsigned __int128)a->ulo + b->ulo, (unsigned __int128)a->uhi + b->uhi);
      break;
    case O_SUB:
      fromS((__int128)a->slo - b->shi, (__int128)a->shi - b->slo);
      if (a->ulo >= b->uhi) fromU(a->ulo - b->uhi, a->uhi - b->ulo);
      break;
    case O_MUL:
    {
      __int128 p[4] = {(__int128)a->slo * b->slo, (__int128)a->slo * b->shi, (__int128)a->shi * b->slo,
                       (__int128)a->shi * b->shi};
      fromS(*std::min_element(p, p + 4), *std::max_element(p, p + 4));
      fromU((unsigned __int128)a->ulo * b->ulo, (unsigned __int128)a->uhi * b->uhi);
      break;
    }
    case O_UDIV:
      if (b->ulo > 0) fromU(a->ulo / b->uhi, a->uhi / b->ulo);
      break;
    case O_SDIV:
      if (b->slo > 0)
      {
        __int128 p[4] = {(__int128)a->slo / b->slo, (__int128)a->slo / b->shi, (__int128)a->shi / b->slo,
                         (__int128)a->shi / b->shi};
        fromS(*std::min_element(p, p + 4), *std::max_element(p, p + 4));
      }
      break;
    case O_UREM:
      if (b->ulo > 0) fromU(0, std::min(a->uhi, b->uhi - 1));
      break;
    case O_SREM:
      if (b->slo > 0)
      {
        const __int128 m = (__int128)b->shi - 1;
        fromS(a->slo >= 0 ? 0 : std::max<__int128>(-m, a->slo), a->shi <= 0 ? 0 : std::min<__int128>(m, a->shi));
      }
      break;
    case O_AND:
      fromU(0, std::min(a->uhi, b->uhi));
      break;
    case O_OR:
    case O_XOR:
    {
      uint64_t m = a->uhi | b->uhi;
      unsigned n = m ? 64 - __builtin_clzll(m) : 0;
      fromU(e->op == O_OR ? std::max(a->ulo, b->ulo) : 0, n == 0 ? 0 : maskw(n));
      break;
    }
    case O_LSHR:
      if (isC(b) && b->c < w) fromU(a->ulo >> b->c, a->uhi >> b->c);
      else fromU(0, a->uhi);
      break;
    case O_ASHR:
      if (isC(b) && b->c < w) fromS(a->slo >> b->c, a->shi >> b->c);
      break;
    case O_SHL:
      if (isC(b) && b->c < w)
      {
        fromU((unsigned __int128)a->ulo << b->c, (unsigned __int128)a->uhi << b->c);
        fromS((__int128)a->slo << b->c, (__int128)a->shi << b->c);
      }
      break;
    case O_CONCAT:
      if (a->w <= 64 && b->w <= 64)
        fromU(((unsigned __int128)a->ulo << b->w) + b->ulo, ((unsigned __int128)a->uhi << b->w) + b->uhi);
      break;
    case O_EXTRACT:
      if (e->aux == 0 && a->w <= 64)
      {
        fromU(a->ulo, a->uhi);
        fromS(a->slo, a->shi);
        if (a->uhi > maskw(w)) { e->ulo = 0; e->uhi = maskw(w); }
      }
      break;
    case O_ZEXT:
      fromU(a->ulo, a->uhi);
      fromS(a->ulo, a->uhi);
      break;
    case O_SEXT:
      fromS(a->slo, a->shi);
      break;
    case O_ITE:
      fromU(std::min(b->ulo, c->ulo), std::max(b->uhi, c->uhi));
      fromS(std::min(b->slo, c->slo), std::max(b->shi, c->shi));
      break;
    case F_F2SI:
    {
      FI f = fiOf(a, a->w);
      if (!f.nan && f.lo > -9e18 && f.hi < 9e18)
      {
        fromS((__int128)std::floor(f.lo), (__int128)std::ceil(f.hi));
      }
      break;
    }
    case F_F2UI:
    {
      FI f = fiOf(a, a->w);
      if (!f.nan && f.lo >= 0 && f.hi < 1.8e19) fromU((unsigned __int128)std::floor(f.lo), (unsigned __int128)std::ceil(f.hi));
      break;
    }
    default:
      break;
  }
  // cross tighten
  if (e->slo >= 0)
  {
    e->ulo = std::max<uint64_t>(e->ulo, e->slo);
    e->uhi = std::min<uint64_t>(e->uhi, e->shi);
  }
  else if (e->shi < 0)
  {
    e->ulo = std::max<uint64_t>(e->ulo, (uint64_t)e->slo & maskw(w));
    e->uhi = std::min<uint64_t>(e->uhi, (uint64_t)e->shi & maskw(w));
  }
  const uint64_t smax = maskw(w) >> 1;
  if (e->uhi <= smax)
  {
    e->slo = std::max<int64_t>(e->slo, e->ulo);
    e->shi = std::min<int64_t>(e->shi, e->uhi);
  }
}
}  // namespace
FI fiCompute(Op op, unsigned w, uint32_t aux, FI x, FI y, bool same)
{
  FI r = FTOP;
  switch (op)
  {
    case F_ADD:
    case F_SUB:
    {
      if (op == F_SUB) y = {-y.hi, -y.lo, y.nan};
      const bool n = x.nan || y.nan || (x.hi == INFINITY && y.lo == -INFINITY) || (x.lo == -INFINITY && y.hi == INFINITY);
      double lo = x.lo + y.lo, hi = x.hi + y.hi;
      if (std::isnan(lo)) lo = -INFINITY;
      if (std::isnan(hi)) hi = INFINITY;
      r = {lo == 0 ? 0 : dn(lo, w), hi == 0 ? 0 : up(hi, w), n};
      if (x.lo >= 0 && y.lo >= 0 && r.lo < 0) r.lo = 0;
      if (x.hi <= 0 && y.hi <= 0 && r.hi > 0) r.hi = 0;
      break;
    }
    case F_MUL:
    {
      const bool infx = std::isinf(x.lo) || std::isinf(x.hi), infy = std::isinf(y.lo) || std::isinf(y.hi);
      const bool zx = x.lo <= 0 && x.hi >= 0, zy = y.lo <= 0 && y.hi >= 0;
      const bool n = x.nan || y.nan || (infx && zy) || (infy && zx);
      auto m = [](double p, double q) { return (p == 0 || q == 0) ? 0.0 : p * q; };
      r = corners({m(x.lo, y.lo), m(x.lo, y.hi), m(x.hi, y.lo), m(x.hi, y.hi)}, w, n);
      r.nan = n;
      if ((x.lo >= 0 && y.lo >= 0) || (x.hi <= 0 && y.hi <= 0) || same) r.lo = std::max(r.lo, 0.0);
      break;
    }
    case F_DIV:
    {
      const bool infx = std::isinf(x.lo) || std::isinf(x.hi), infy = std::isinf(y.lo) || std::isinf(y.hi);
      const bool zx = x.lo <= 0 && x.hi >= 0, zy = y.lo <= 0 && y.hi >= 0;
      const bool n = x.nan || y.nan || (infx && infy) || (zx && zy);
      if (zy || infx || infy)
      {
        r = {-INFINITY, INFINITY, n};
        if (x.lo >= 0 && y.lo > 0) r.lo = 0;
        break;
      }
      r = corners({x.lo / y.lo, x.lo / y.hi, x.hi / y.lo, x.hi / y.hi}, w, n);
      if ((x.lo >= 0 && y.lo >= 0) || (x.hi <= 0 && y.hi <= 0)) r.lo = std::max(r.lo, 0.0);
      break;
    }
    case F_SQRT:
      r = {std::max(0.0, x.lo <= 0 ? 0.0 : dn(std::sqrt(x.lo), w)), x.hi <= 0 ? 0.0 : up(std::sqrt(x.hi), w), x.nan || x.lo < 0};
      break;
    case F_RTI:
      r = {std::floor(x.lo), std::ceil(x.hi), x.nan};
      if (aux == RM_RTZ) { r.lo = std::trunc(x.lo); r.hi = std::trunc(x.hi); }
      else if (aux == RM_RTN) r.hi = std::floor(x.hi);
      else if (aux == RM_RTP) r.lo = std::ceil(x.lo);
      break;
    case F_NEG:
      r = {-x.hi, -x.lo, x.nan};
      break;
    case F_ABS:
      r = {x.lo > 0 ? x.lo : x.hi < 0 ? -x.hi : 0.0, std::max(std::fabs(x.lo), std::fabs(x.hi)), x.nan};
      break;
    case F_EXT:
      r = x;
      break;
    case F_TRUNC:
      r = {x.lo == 0 ? 0 : dn(x.lo, 32), x.hi == 0 ? 0 : up(x.hi, 32), x.nan};
      break;
    default:
      break;
  }
  if (w == 32 && r.hi > 3.4e38) r.hi = INFINITY;
  if (w == 32 && r.lo < -3.4e38) r.lo = -INFINITY;
  return r;
}
// Terms of a sum/difference with those that occur on both sides cancelled: the exact value of the node is the sum of
// `terms` plus one rounding error for each node in `inner`.  False when nothing cancels.
bool fiCancel(E e, std::vector<std::pair<E, int>>& terms, std::vector<E>& inner)
{
  if (e->op != F_ADD && e->op != F_SUB) return false;
  struct W
  {
    std::vector<std::pair<E, int>>& t;
    std::vector<E>& in;
    void go(E x, int sg, int depth)
    {
      if (x->op == F_NEG) { go(x->k[0], -sg, depth); return; }
      if ((x->op == F_ADD || x->op == F_SUB) && depth > 0)
      {
        in.push_back(x);
        go(x->k[0], sg, depth - 1);
        go(x->k[1], x->op == F_SUB ? -sg : sg, depth - 1);
        return;
      }
      t.push_back({x, sg});
    }
  };
  for (int depth = 2; depth <= 4; ++depth)
  {
    terms.clear();
    inner.clear();
    W{terms, inner}.go(e, 1, depth);
    if (terms.size() > 10) return false;
    bool any = false;
    for (size_t i = 0; i < terms.size(); ++i)
      for (size_t j = i + 1; j < terms.size(); ++j)
        if (terms[i].first == terms[j].first && terms[i].second == -terms[j].second && !isC(terms[i].first))
        {
          terms.erase(terms.begin() + j);
          terms.erase(terms.begin() + i);
          any = true;
          --i;
          break;
        }
    if (any) return true;
  }
  return false;
}
// the sum of term intervals, allowing for the rounding of the inner nodes (magnitudes mags)
FI fiCancelSum(const std::vector<std::pair<FI, int>>& ts, const std::vector<double>& mags, unsigned w)
{
  double lo = 0, hi = 0, err = 0, big = 0;
  for (auto& t : ts)
  {
    if (t.first.nan || std::isinf(t.first.lo) || std::isinf(t.first.hi)) return FTOP;
    lo += t.second > 0 ? t.first.lo : -t.first.hi;
    hi += t.second > 0 ? t.first.hi : -t.first.lo;
    big += std::max(std::fabs(t.first.lo), std::fabs(t.first.hi));
  }
  for (double m : mags)
  {
    if (!(m < 1e30)) return FTOP;
    err += m;
  }
  const double u = w == 32 ? 1.2e-7 : 2.3e-16;
  const double slack = err * u + big * 2e-15 + 1e-300 + (w == 32 ? 1e-44 : 0);
  FI r{lo - slack, hi + slack, false};
  r.lo = dn(r.lo, w);
  r.hi = up(r.hi, w);
  return r;
}
// enclosure of a libm function over a box of arguments; relies on glibc being within four units in the last place
FI fiLibm(const std::string& fn, unsigned w, FI x, FI y)
{
  auto fin = [](FI f) { return !f.nan && std::isfinite(f.lo) && std::isfinite(f.hi); };
  auto wide = [&](double lo, double hi) -> FI
  {
    for (int i = 0; i < 4; ++i)
    {
      lo = w == 32 ? (double)nextafterf((float)lo, -INFINITY) : nextafter(lo, -INFINITY);
      hi = w == 32 ? (double)nextafterf((float)hi, INFINITY) : nextafter(hi, INFINITY);
    }
    return {lo, hi, false};
  };
  auto clampI = [](FI f, double a, double b) -> FI { return {std::max(f.lo, a), std::min(f.hi, b), f.nan}; };
  const bool two = fn == "atan2" || fn == "hypot" || fn == "fmod" || fn == "remainder" || fn == "pow";
  if (fin(x) && x.lo == x.hi && (x.lo != 0 || !two || fn == "hypot") && (!two || (fin(y) && y.lo == y.hi && (y.lo != 0 || fn == "hypot"))) &&
      (w == 64 || ((double)(float)x.lo == x.lo && (!two || (double)(float)y.lo == y.lo))))
  {
    uint64_t r;
    if (nativeLibm(fn, w, {w == 32 ? f2b((float)x.lo) : d2b(x.lo), w == 32 ? f2b((float)y.lo) : d2b(y.lo)}, r))
    {
      const double v = w == 32 ? (double)b2f(r) : b2d(r);
      if (std::isfinite(v)) return {v, v, false};
    }
  }
  const double PI1 = w == 32 ? (double)nextafterf((float)M_PI, 10.f) : nextafter(M_PI, 10.0);
  if (!fin(x)) return FTOP;
  if (fn == "sin" || fn == "cos")
  {
    if (std::max(std::fabs(x.lo), std::fabs(x.hi)) > 1e5 || x.hi - x.lo > 6.28) return {-1, 1, false};
    const bool sn = fn == "sin";
    const double a = sn ? std::sin(x.lo) : std::cos(x.lo), b = sn ? std::sin(x.hi) : std::cos(x.hi);
    FI r = wide(std::min(a, b), std::max(a, b));
    // maxima at ph + 2 k pi, minima half a turn further
    const double ph = sn ? M_PI_2 : 0;
    auto has = [&](double p) { return std::floor((x.hi - p) / (2 * M_PI) + 1e-9) >= std::ceil((x.lo - p) / (2 * M_PI) - 1e-9); };
    if (has(ph)) r.hi = 1;
    if (has(ph + M_PI)) r.lo = -1;
    return clampI(r, -1, 1);
  }
  if (fn == "tan")
  {
    if (x.lo > -1.57 && x.hi < 1.57) return wide(std::tan(x.lo), std::tan(x.hi));
    return FTOP;
  }
  if (fn == "atan") return clampI(wide(std::atan(x.lo), std::atan(x.hi)), -PI1 / 2, PI1 / 2);
  if (fn == "asin" || fn == "acos")
  {
    if (x.lo < -1 || x.hi > 1) return FTOP;
    if (fn == "asin") return clampI(wide(std::asin(x.lo), std::asin(x.hi)), -PI1 / 2, PI1 / 2);
    return clampI(wide(std::acos(x.hi), std::acos(x.lo)), 0, PI1);
  }
  if (fn == "exp")
  {
    if (x.hi > (w == 32 ? 80 : 700)) return FTOP;
    return clampI(wide(std::exp(x.lo), std::exp(x.hi)), 0, INFINITY);
  }
  if (fn == "log")
  {
    if (x.lo <= 0) return FTOP;
    return wide(std::log(x.lo), std::log(x.hi));
  }
  if (!fin(y)) return FTOP;
  if (fn == "atan2")
  {
    // arguments (y, x) in this order
    FI Y = x, X = y;
    if (!(Y.lo > 0 || Y.hi < 0 || X.lo > 0)) return {-PI1, PI1, false};
    const double c[4] = {std::atan2(Y.lo, X.lo), std::atan2(Y.lo, X.hi), std::atan2(Y.hi, X.lo), std::atan2(Y.hi, X.hi)};
    return clampI(wide(*std::min_element(c, c + 4), *std::max_element(c, c + 4)), -PI1, PI1);
  }
  if (fn == "hypot")
  {
    auto mn = [](FI f) { return f.lo > 0 ? f.lo : f.hi < 0 ? -f.hi : 0.0; };
    auto mx = [](FI f) { return std::max(std::fabs(f.lo), std::fabs(f.hi)); };
    if (mx(x) > 1e30 || mx(y) > 1e30) return FTOP;
    return clampI(wide(std::hypot(mn(x), mn(y)), std::hypot(mx(x), mx(y))), 0, INFINITY);
  }
  if (fn == "fmod" || fn == "remainder")
  {
    if (!(y.lo > 0 || y.hi < 0)) return FTOP;
    const double m = std::max(std::fabs(y.lo), std::fabs(y.hi)), mi = std::min(std::fabs(y.lo), std::fabs(y.hi));
    FI r = FTOP;
    if (fn == "fmod") r = {x.lo >= 0 ? 0 : std::max(-m, x.lo), x.hi <= 0 ? 0 : std::min(m, x.hi), false};
    else r = {-m / 2, m / 2, false};
    if (y.lo == y.hi)
    {
      const double ql = x.lo / m, qh = x.hi / m;
      if (std::max(std::fabs(ql), std::fabs(qh)) < 1e6)
      {
        double nl = fn == "fmod" ? std::trunc(ql) : std::nearbyint(ql), nh = fn == "fmod" ? std::trunc(qh) : std::nearbyint(qh);
        auto margin = [&](double q) { double f = fn == "fmod" ? q - std::nearbyint(q) : (q - std::floor(q)) - 0.5; return std::fabs(f) > 1e-9 || (fn == "fmod" && std::fabs(q) < 0.5); };
        if (nl == nh && margin(ql) && margin(qh))
        {
          const double e = (std::max(std::fabs(x.lo), std::fabs(x.hi)) + m) * 1e-15 + 1e-300;
          const double lo = x.lo - nl * m - e, hi = x.hi - nl * m + e;
          r = {std::max(r.lo, dn(lo, w)), std::min(r.hi, up(hi, w)), false};
        }
      }
    }
    (void)mi;
    return r;
  }
  if (fn == "pow")
  {
    if (x.lo <= 0) return FTOP;
    const double c[4] = {std::pow(x.lo, y.lo), std::pow(x.lo, y.hi), std::pow(x.hi, y.lo), std::pow(x.hi, y.hi)};
    const double a = *std::min_element(c, c + 4), b = *std::max_element(c, c + 4);
    if (!(b < (w == 32 ? 1e30 : 1e200))) return FTOP;
    return clampI(wide(a, b), 0, INFINITY);
  }
  return FTOP;
}
namespace
{
void computeFI(Expr* e)
{
  const unsigned w = e->w;
  E a = e->k[0], b = e->k[1], c = e->k[2];
  e->fi = FTOP;
  switch (e->op)
  {
    case O_VAR:
    {
      const VarInfo& v = g_vars[e->aux];
      if (v.dom == 3) { e->fi = {v.flo, v.fhi, false}; e->isf = 1; }
      return;
    }
    case O_ITE:
      if (e->isf)
      {
        FI x = fiOf(b, w), y = fiOf(c, w);
        if (isC(b) && x.nan) e->fi = {y.lo, y.hi, true};
        else if (isC(c) && y.nan) e->fi = {x.lo, x.hi, true};
        else e->fi = {std::min(x.lo, y.lo), std::max(x.hi, y.hi), x.nan || y.nan};
      }
      return;
    case F_SI2F:
      if (a->w <= 64) e->fi = {a->slo == 0 ? 0 : dn((double)a->slo, w), a->shi == 0 ? 0 : up((double)a->shi, w), false};
      if (a->w <= 64 && a->slo > -(1 << 24) && a->shi < (1 << 24)) e->fi = {(double)a->slo, (double)a->shi, false};
      return;
    case F_UI2F:
      if (a->w <= 64) e->fi = {a->ulo == 0 ? 0 : dn((double)a->ulo, w), up((double)a->uhi, w), false};
      if (a->w <= 64 && a->uhi < (1 << 24)) e->fi = {(double)a->ulo, (double)a->uhi, false};
      return;
    case F_FMA:
      return;
    default:
      if (!e->isf) return;
      e->fi = fiCompute(e->op, w, e->aux, fiOf(a, a->w), b ? fiOf(b, b->w) : FTOP, a == b);
      if ((e->op == F_ADD || e->op == F_SUB) && !e->fi.nan && std::isfinite(e->fi.lo) && std::isfinite(e->fi.hi) && !isC(a) && !isC(b))
      {
        std::vector<std::pair<E, int>> ts;
        std::vector<E> in;
        if (fiCancel(e, ts, in))
        {
          std::vector<std::pair<FI, int>> tf;
          std::vector<double> mg;
          for (auto& t : ts) tf.push_back({fiOf(t.first, w), t.second});
          for (E x : in) mg.push_back(std::max(std::fabs(fiOf(x, w).lo), std::fabs(fiOf(x, w).hi)));
          FI r = fiCancelSum(tf, mg, w);
          e->fi.lo = std::max(e->fi.lo, r.lo);
          e->fi.hi = std::min(e->fi.hi, r.hi);
        }
      }
  }
}
E intern(Expr& t)
{
  auto it = g_tab.find(&t);
  if (it != g_tab.end())
  {
    if (t.big) delete t.big;
    return *it;
  }
  g_arena.push_back(t);
  Expr* n = &g_arena.back();
  n->id = (uint32_t)g_arena.size();
  ++g_nexprs;
  computeRanges(n);
  const uint8_t before = n->isf;
  computeFI(n);
  (void)before;
  // isf must not influence hashing of structurally equal nodes: it is a function of the structure
  g_tab.insert(n);
  return n;
}
E node(Op op, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, uint32_t aux = 0)
{
  Expr t;
  t.op = op;
  t.w = w;
  t.k[0] = a;
  t.k[1] = b;
  t.k[2] = c;
  t.aux = aux;
  // predict isf exactly as computeFI would
  switch (op)
  {
    case F_ADD: case F_SUB: case F_MUL: case F_DIV: case F_SQRT: case F_RTI: case F_FMA: case F_NEG: case F_ABS:
    case F_EXT: case F_TRUNC: case F_SI2F: case F_UI2F:
      t.isf = 1;
      break;
    case O_ITE:
      if (w == 32 || w == 64)
      {
        auto isfp = [](E x) { return x->isf || x->op == O_CONST; };
        t.isf = isfp(b) && isfp(c) && (b->isf || c->isf);
      }
      break;
    default:
      break;
  }
  return intern(t);
}
}  // namespace

FI fiOf(E e, unsigned w)
{
  if (e->op == O_CONST) return fiConst(e->c, w);
  if (e->isf) return e->fi;
  return {-INFINITY, INFINITY, true};
}

uint64_t VarInfo::defval() const
{
  if (dom == 1) return ulo;
  if (dom == 2) return (slo <= 0 && shi >= 0) ? 0 : ((uint64_t)slo & maskw(w));
  if (dom == 3)
  {
    const double d = (flo <= 0 && fhi >= 0) ? 0.0 : flo;
    return w == 32 ? f2b((float)d) : d2b(d);
  }
  return 0;
}
uint64_t Model::get(uint32_t id) const
{
  if (id < has.size() && has[id]) return v[id];
  return g_vars[id].defval();
}

E mkConst(uint64_t v, unsigned w)
{
  if (w > 64) return mkBig(APInt(w, v));
  Expr t;
  t.op = O_CONST;
  t.w = w;
  t.c = v & maskw(w);
  return intern(t);
}
E mkBig(const APInt& v)
{
  if (v.getBitWidth() <= 64) return mkConst(v.getZExtValue(), v.getBitWidth());
  Expr t;
  t.op = O_CONST;
  t.w = v.getBitWidth();
  t.big = new APInt(v);
  return intern(t);
}
APInt constAP(E e) { return e->big ? *e->big : APInt(e->w, e->c); }
static E mkVarI(VarInfo vi)
{
  g_vars.push_back(vi);
  Expr t;
  t.op = O_VAR;
  t.w = vi.w;
  t.aux = (uint32_t)g_vars.size() - 1;
  t.isf = vi.dom == 3;
  E e = intern(t);
  g_vars.back().e = e;
  return e;
}
E mkVar(const std::string& name, unsigned w)
{
  VarInfo v;
  v.name = name;
  v.w = w;
  return mkVarI(v);
}
E mkVarU(const std::string& name, unsigned w, uint64_t lo, uint64_t hi)
{
  if (lo == hi) return mkConst(lo, w);
  VarInfo v;
  v.name = name;
  v.w = w;
  if (!(lo == 0 && hi == maskw(w))) { v.dom = 1; v.ulo = lo; v.uhi = hi; }
  return mkVarI(v);
}
E mkVarS(const std::string& name, unsigned w, int64_t lo, int64_t hi)
{
  if (lo == hi) return mkConst((uint64_t)lo, w);
  VarInfo v;
  v.name = name;
  v.w = w;
  v.dom = 2;
  v.slo = lo;
  v.shi = hi;
  return mkVarI(v);
}
E mkVarF(const std::string& name, unsigned w, double lo, double hi)
{
  VarInfo v;
  v.name = name;
  v.w = w;
  v.dom = 3;
  v.flo = lo;
  v.fhi = hi;
  return mkVarI(v);
}
E domainOf(uint32_t id)
{
  const VarInfo& v = g_vars[id];
  if (v.dom == 1)
    return mkAnd1(node(O_ULE, 1, mkConst(v.ulo, v.w), v.e), node(O_ULE, 1, v.e, mkConst(v.uhi, v.w)));
  if (v.dom == 2)
    return mkAnd1(node(O_SLE, 1, mkConst(v.slo, v.w), v.e), node(O_SLE, 1, v.e, mkConst(v.shi, v.w)));
  if (v.dom == 3)
    return mkAnd1(node(F_LE, 1, mkFConst(v.flo, v.w), v.e), node(F_LE, 1, v.e, mkFConst(v.fhi, v.w)));
  return mkTrue();
}
E mkFConst(double v, unsigned w) { return w == 32 ? mkConst(f2b((float)v), 32) : mkConst(d2b(v), 64); }

static double rti(double v, uint32_t mode)
{
  switch (mode)
  {
    case RM_RNE: return std::nearbyint(v);
    case RM_RNA: return std::round(v);
    case RM_RTP: return std::ceil(v);
    case RM_RTN: return std::floor(v);
    default: return std::trunc(v);
  }
}
uint64_t evalOp(Op op, unsigned w, uint32_t aux, unsigned kw, uint64_t a, uint64_t b, uint64_t c)
{
  const uint64_t M = maskw(w);
  const bool f32 = (op >= F_ADD) && kw == 32;
  switch (op)
  {
    case O_ADD: return (a + b) & M;
    case O_SUB: return (a - b) & M;
    case O_MUL: return (a * b) & M;
    case O_UDIV: return b == 0 ? M : (a / b) & M;
    case O_UREM: return b == 0 ? a : (a % b) & M;
    case O_SDIV:
    {
      const int64_t x = sextw(a, w), y = sextw(b, w);
      if (y == 0) return x < 0 ? 1 : M;
      if (y == -1) return (0 - a) & M;
      return (uint64_t)(x / y) & M;
    }
    case O_SREM:
    {
      const int64_t x = sextw(a, w), y = sextw(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (uint64_t)(x % y) & M;
    }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & M;
    case O_LSHR: return b >= w ? 0 : (a >> b);
    case O_ASHR: return (uint64_t)(sextw(a, w) >> (b >= w ? 63 : b)) & M;
    case O_EXTRACT: return (a >> aux) & M;
    case O_ZEXT: return a;
    case O_SEXT: return (uint64_t)sextw(a, kw) & M;
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sextw(a, kw) < sextw(b, kw);
    case O_SLE: return sextw(a, kw) <= sextw(b, kw);
    case O_ITE: return a ? b : c;
    case F_ADD: return f32 ? f2b(b2f(a) + b2f(b)) : d2b(b2d(a) + b2d(b));
    case F_SUB: return f32 ? f2b(b2f(a) - b2f(b)) : d2b(b2d(a) - b2d(b));
    case F_MUL: return f32 ? f2b(b2f(a) * b2f(b)) : d2b(b2d(a) * b2d(b));
    case F_DIV: return f32 ? f2b(b2f(a) / b2f(b)) : d2b(b2d(a) / b2d(b));
    case F_SQRT: return f32 ? f2b(sqrtf(b2f(a))) : d2b(sqrt(b2d(a)));
    case F_RTI: return f32 ? f2b((float)rti(b2f(a), aux)) : d2b(rti(b2d(a), aux));
    case F_FMA: return f32 ? f2b(fmaf(b2f(a), b2f(b), b2f(c))) : d2b(fma(b2d(a), b2d(b), b2d(c)));
    case F_EQ: return f32 ? b2f(a) == b2f(b) : b2d(a) == b2d(b);
    case F_LT: return f32 ? b2f(a) < b2f(b) : b2d(a) < b2d(b);
    case F_LE: return f32 ? b2f(a) <= b2f(b) : b2d(a) <= b2d(b);
    case F_NEG: return a ^ (1ULL << (w - 1));
    case F_ABS: return a & (M >> 1);
    case F_EXT: return d2b((double)b2f(a));
    case F_TRUNC: return f2b((float)b2d(a));
    case F_SI2F:
    {
      const int64_t x = sextw(a, kw);
      return w == 32 ? f2b((float)x) : d2b((double)x);
    }
    case F_UI2F: return w == 32 ? f2b((float)a) : d2b((double)a);
    case F_F2SI:
    {
      double v = kw == 32 ? b2f(a) : b2d(a);
      v = rti(v, aux);
      const double lim = std::ldexp(1.0, w - 1);
      if (!(v >= -lim && v < lim)) return 1ULL << (w - 1);  // x86 "integer indefinite"
      return (uint64_t)(int64_t)v & M;
    }
    case F_F2UI:
    {
      double v = kw == 32 ? b2f(a) : b2d(a);
      v = rti(v, aux);
      if (!(v > -9.3e18 && v < 1.8446744073709552e19)) return (1ULL << 63) & M;
      if (v < 0) return (uint64_t)(int64_t)v & M;
      return (uint64_t)v & M;
    }
    default: break;
  }
  assert(false && "evalOp");
  return 0;
}
static APInt evalOpBig(Op op, unsigned w, uint32_t aux, const APInt& a, const APInt& b, const APInt& c)
{
  switch (op)
  {
    case O_ADD: return a + b;
    case O_SUB: return a - b;
    case O_MUL: return a * b;
    case O_UDIV: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
    case O_UREM: return b.isZero() ? a : a.urem(b);
    case O_SDIV: return b.isZero() ? APInt::getAllOnes(w) : a.sdiv(b);
    case O_SREM: return b.isZero() ? a : a.srem(b);
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b.uge(w) ? APInt(w, 0) : a.shl(b);
    case O_LSHR: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
    case O_ASHR: return a.ashr(b);
    case O_CONCAT: return a.concat(b);
    case O_EXTRACT: return a.extractBits(w, aux);
    case O_ZEXT: return a.zext(w);
    case O_SEXT: return a.sext(w);
    case O_EQ: return APInt(1, a == b);
    case O_ULT: return APInt(1, a.ult(b));
    case O_ULE: return APInt(1, a.ule(b));
    case O_SLT: return APInt(1, a.slt(b));
    case O_SLE: return APInt(1, a.sle(b));
    case O_ITE: return a.isZero() ? c : b;
    default: break;
  }
  assert(false && "evalOpBig");
  return a;
}
static bool isWideOp(E e)
{
  if (e->w > 64) return true;
  for (int i = 0; i < 3; ++i)
    if (e->k[i] && e->k[i]->w > 64) return true;
  return false;
}
static uint64_t g_stamp = 1;
void evalBegin() { ++g_stamp; }
APInt evalBig(E e, const Model& m)
{
  if (e->op == O_CONST) return constAP(e);
  if (e->op == O_VAR)
  {
    if (e->w > 64)
    {
      auto it = m.wide.find(e->aux);
      return it == m.wide.end() ? APInt(e->w, 0) : it->second;
    }
    return APInt(e->w, m.get(e->aux));
  }
  if (!isWideOp(e)) return APInt(e->w, evalExpr(e, m));
  APInt z(1, 0);
  return evalOpBig(e->op, e->w, e->aux, e->k[0] ? evalBig(e->k[0], m) : z, e->k[1] ? evalBig(e->k[1], m) : z,
                   e->k[2] ? evalBig(e->k[2], m) : z);
}
uint64_t evalExpr(E e, const Model& m)
{
  if (e->op == O_CONST) return e->c;
  if (e->ev_stamp == g_stamp) return e->ev_val;
  uint64_t r;
  if (e->op == O_VAR)
    r = m.get(e->aux);
  else if (isWideOp(e))
    r = evalBig(e, m).getZExtValue();
  else if (e->op == O_ITE)
    r = evalExpr(e->k[0], m) ? evalExpr(e->k[1], m) : evalExpr(e->k[2], m);
  else if (e->op == O_CONCAT)
    r = (evalExpr(e->k[0], m) << e->k[1]->w) | evalExpr(e->k[1], m);
  else if (e->op == O_AND && e->w == 1)
    r = evalExpr(e->k[0], m) ? evalExpr(e->k[1], m) : 0;
  else if (e->op == O_OR && e->w == 1)
    r = evalExpr(e->k[0], m) ? 1 : evalExpr(e->k[1], m);
  else
    r = evalOp(e->op, e->w, e->aux, e->k[0] ? e->k[0]->w : e->w, e->k[0] ? evalExpr(e->k[0], m) : 0,
               e->k[1] ? evalExpr(e->k[1], m) : 0, e->k[2] ? evalExpr(e->k[2], m) : 0);
  e->ev_stamp = g_stamp;
  e->ev_val = r;
  return r;
}
const std::vector<uint32_t>& exprVars(E e)
{
  static const std::vector<uint32_t> empty;
  if (e->op == O_CONST) return empty;
  if (e->vars) return *e->vars;
  if (e->op == O_VAR)
  {
    // a libm result also drags its arguments' variables into a slice, via its side constraints
    e->vars = new std::vector<uint32_t>{e->aux};
    return *e->vars;
  }
  const std::vector<uint32_t>* single = nullptr;
  int cnt = 0;
  for (int i = 0; i < 3; ++i)
    if (e->k[i])
    {
      const auto& v = exprVars(e->k[i]);
      if (!v.empty() && &v != single)
      {
        ++cnt;
        single = &v;
      }
    }
  if (cnt == 1)
  {
    e->vars = single;
    return *single;
  }
  std::vector<uint32_t> r;
  for (int i = 0; i < 3; ++i)
    if (e->k[i])
    {
      const auto& v = exprVars(e->k[i]);
      std::vector<uint32_t> t;
      t.reserve(r.size() + v.size());
      std::set_union(r.begin(), r.end(), v.begin(), v.end(), std::back_inserter(t));
      r.swap(t);
    }
  static std::unordered_map<size_t, std::vector<const std::vector<uint32_t>*>> pool;
  size_t h = r.size();
  for (auto x : r) h = h * 1000003 + x;
  for (auto* p : pool[h])
    if (*p == r)
    {
      e->vars = p;
      return *p;
    }
  auto* n = new std::vector<uint32_t>(r);
  pool[h].push_back(n);
  e->vars = n;
  return *n;
}
bool dependsOn(E e, uint32_t var)
{
  const auto& v = exprVars(e);
  return std::binary_search(v.begin(), v.end(), var);
}
unsigned knownZeroLow(E e)
{
  switch (e->op)
  {
    case O_CONST: return e->c == 0 ? 64 : __builtin_ctzll(e->c);
    case O_ADD: case O_SUB: case O_OR: return std::min(knownZeroLow(e->k[0]), knownZeroLow(e->k[1]));
    case O_MUL: return std::min(64u, knownZeroLow(e->k[0]) + knownZeroLow(e->k[1]));
    case O_SHL: return isC(e->k[1]) ? std::min<uint64_t>(64, knownZeroLow(e->k[0]) + e->k[1]->c) : knownZeroLow(e->k[0]);
    case O_ZEXT: case O_SEXT: return knownZeroLow(e->k[0]);
    case O_ITE: return std::min(knownZeroLow(e->k[1]), knownZeroLow(e->k[2]));
    case O_CONCAT:
    {
      unsigned z = knownZeroLow(e->k[1]);
      return z >= e->k[1]->w ? e->k[1]->w + std::min(64u, knownZeroLow(e->k[0])) : z;
    }
    case O_AND: return std::max(knownZeroLow(e->k[0]), knownZeroLow(e->k[1]));
    default: return 0;
  }
}

E mkNot(E a)
{
  if (isC(a)) return mkBig(~constAP(a));
  if (a->w == 1)
  {
    switch (a->op)
    {
      case O_XOR:
        if (isC(a->k[1])) return a->k[0];
        break;
      case O_ULT: return node(O_ULE, 1, a->k[1], a->k[0]);
      case O_ULE: return node(O_ULT, 1, a->k[1], a->k[0]);
      case O_SLT: return node(O_SLE, 1, a->k[1], a->k[0]);
      case O_SLE: return node(O_SLT, 1, a->k[1], a->k[0]);
      default: break;
    }
  }
  return node(O_XOR, a->w, a, mkBig(APInt::getAllOnes(a->w)));
}
E mkConcat(E hi, E lo) { return mkBin(O_CONCAT, hi, lo); }
static E mkExtractRaw(E a, unsigned lo, unsigned w);
static std::unordered_map<uint64_t, E> g_extracts;
E mkExtract(E a, unsigned lo, unsigned w)
{
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkBig(constAP(a).extractBits(w, lo));
  const bool memo = a->op == O_ITE || a->op == O_ADD || a->op == O_SUB || a->op == O_MUL || a->op == O_AND || a->op == O_OR || a->op == O_XOR;
  if (!memo || lo >= 4096 || w >= 4096) return mkExtractRaw(a, lo, w);
  const uint64_t key = ((uint64_t)a->id << 24) | (lo << 12) | w;
  auto it = g_extracts.find(key);
  if (it != g_extracts.end()) return it->second;
  E r = mkExtractRaw(a, lo, w);
  g_extracts[key] = r;
  return r;
}
static E mkExtractRaw(E a, unsigned lo, unsigned w)
{
  switch (a->op)
  {
    case O_EXTRACT: return mkExtract(a->k[0], a->aux + lo, w);
    case O_CONCAT:
    {
      const unsigned lw = a->k[1]->w;
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case O_ZEXT:
    case O_SEXT:
    {
      const unsigned kw = a->k[0]->w;
      if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
      if (a->op == O_ZEXT)
      {
        if (lo >= kw) return mkConst(0, w);
        return mkZExt(mkExtract(a->k[0], lo, kw - lo), w);
      }
      if (lo == 0) return mkSExt(a->k[0], w);
      break;
    }
    case O_AND: case O_OR: case O_XOR:
      if (isC(a->k[1]) || isC(a->k[0])) return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
      break;
    case O_ADD: case O_SUB: case O_MUL:
      if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      break;
    case O_SHL:
      if (isC(a->k[1]) && a->w <= 64)
      {
        const unsigned s = (unsigned)a->k[1]->c;
        if (lo >= s && s < a->w) return mkExtract(a->k[0], lo - s, w);
        if (lo + w <= s) return mkConst(0, w);
      }
      break;
    case O_LSHR:
      if (isC(a->k[1]) && a->w <= 64)
      {
        const unsigned s = (unsigned)a->k[1]->c;
        if (lo + s + w <= a->w) return mkExtract(a->k[0], lo + s, w);
        if (lo + s >= a->w) return mkConst(0, w);
      }
      break;
    case O_ITE:
      return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
    default: break;
  }
  return node(O_EXTRACT, w, a, nullptr, nullptr, lo);
}
E mkZExt(E a, unsigned w)
{
  if (w == a->w) return a;
  if (isC(a)) return mkBig(constAP(a).zext(w));
  if (a->op == O_ZEXT) return mkZExt(a->k[0], w);
  if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return node(O_ZEXT, w, a);
}
E mkSExt(E a, unsigned w)
{
  if (w == a->w) return a;
  if (isC(a)) return mkBig(constAP(a).sext(w));
  if (a->op == O_SEXT) return mkSExt(a->k[0], w);
  if (a->op == O_ZEXT) return mkZExt(a->k[0], w);
  if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  if (a->w <= 64 && a->slo >= 0) return mkZExt(a, w);
  return node(O_SEXT, w, a);
}
E mkIte(E c, E a, E b)
{
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1)
  {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkOr1(c, b);
    if (isFalse(a)) return mkAnd1(mkNot(c), b);
    if (isTrue(b)) return mkOr1(mkNot(c), a);
    if (isFalse(b)) return mkAnd1(c, a);
  }
  if (c->op == O_XOR && c->w == 1 && isC(c->k[1])) return mkIte(c->k[0], b, a);
  if (a->op == O_ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == O_ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
  return node(O_ITE, a->w, c, a, b);
}
static bool commut(Op op)
{
  switch (op)
  {
    case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_EQ: case F_ADD: case F_MUL: case F_EQ: return true;
    default: return false;
  }
}
static bool isCmp(Op op) { return op == O_EQ || (op >= O_ULT && op <= O_SLE) || (op >= F_EQ && op <= F_LE); }
E mkBin(Op op, E a, E b)
{
  const unsigned w = op == O_CONCAT ? a->w + b->w : isCmp(op) ? 1 : a->w;
  if (isC(a) && isC(b))
  {
    if (w > 64 || a->w > 64 || b->w > 64) return mkBig(evalOpBig(op, w, 0, constAP(a), constAP(b), APInt(1, 0)));
    if (op == O_CONCAT) return mkConst((a->c << b->w) | b->c, w);
    return mkConst(evalOp(op, w, 0, a->w, a->c, b->c, 0), w);
  }
  if (op != O_CONCAT && a->w != b->w)
  {
    fprintf(stderr, "width mismatch op %d %u %u\n", op, a->w, b->w);
    abort();
  }
  if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  const bool small = a->w <= 64 && b->w <= 64;
  const uint64_t M = maskw(w);
  switch (op)
  {
    case O_ADD:
      if (!small) break;
      if (isC(b))
      {
        if (b->c == 0) return a;
        if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
        if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2]))
          return mkIte(a->k[0], mkConst(a->k[1]->c + b->c, w), mkConst(a->k[2]->c + b->c, w));
      }
      else
      {
        if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, mkBin(O_ADD, a->k[0], b), a->k[1]);
        if (b->op == O_ADD && isC(b->k[1])) return mkBin(O_ADD, mkBin(O_ADD, a, b->k[0]), b->k[1]);
        if (a->op == O_SUB && a->k[1] == b) return a->k[0];
        if (b->op == O_SUB && b->k[1] == a) return b->k[0];
      }
      break;
    case O_SUB:
      if (!small) break;
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(O_ADD, a, mkConst(0 - b->c, w));
      if (a->op == O_ADD && a->k[0] == b) return a->k[1];
      if (a->op == O_ADD && a->k[1] == b) return a->k[0];
      if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, mkBin(O_SUB, a->k[0], b), a->k[1]);
      if (b->op == O_ADD && isC(b->k[1])) return mkBin(O_ADD, mkBin(O_SUB, a, b->k[0]), mkConst(0 - b->k[1]->c, w));
      break;
    case O_MUL:
      if (!small) break;
      if (isC(b))
      {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2]))
          return mkIte(a->k[0], mkConst(a->k[1]->c * b->c, w), mkConst(a->k[2]->c * b->c, w));
        if (a->op == O_MUL && isC(a->k[1])) return mkBin(O_MUL, a->k[0], mkConst(a->k[1]->c * b->c, w));
        if (a->op == O_ADD && isC(a->k[1]))
          return mkBin(O_ADD, mkBin(O_MUL, a->k[0], b), mkConst(a->k[1]->c * b->c, w));
      }
      break;
    case O_UDIV: case O_SDIV:
      if (small && isC(b) && b->c == 1) return a;
      if (small && op == O_SDIV && a->slo >= 0 && b->slo > 0) return mkBin(O_UDIV, a, b);
      if (small && op == O_UDIV && a->uhi < b->ulo) return mkConst(0, w);
      break;
    case O_UREM: case O_SREM:
      if (small && isC(b) && b->c == 1) return mkConst(0, w);
      if (small && op == O_SREM && a->slo >= 0 && b->slo > 0) return mkBin(O_UREM, a, b);
      if (small && op == O_UREM && a->uhi < b->ulo) return a;
      break;
    case O_AND:
      if (a == b) return a;
      if (!small) break;
      if (isC(b))
      {
        if (b->c == 0) return b;
        if (b->c == M) return a;
        if (a->op == O_AND && isC(a->k[1])) return mkBin(O_AND, a->k[0], mkConst(a->k[1]->c & b->c, w));
        // low mask -> zext(extract)
        if (((b->c + 1) & b->c) == 0 && w > 1)
        {
          const unsigned n = 64 - __builtin_clzll(b->c);
          if (a->uhi <= b->c) return a;
          return mkZExt(mkExtract(a, 0, n), w);
        }
      }
      if (w == 1 && (a == mkNot(b))) return mkConst(0, 1);
      break;
    case O_OR:
      if (a == b) return a;
      if (!small) break;
      if (isC(b))
      {
        if (b->c == 0) return a;
        if (b->c == M) return b;
      }
      if (w == 1 && (a == mkNot(b))) return mkConst(1, 1);
      // (zext lo) | (hi << n)  with disjoint bits -> concat
      {
        E lo = a, hi = b;
        for (int i = 0; i < 2; ++i, std::swap(lo, hi))
          if (lo->op == O_ZEXT && hi->op == O_SHL && isC(hi->k[1]) && hi->k[1]->c == lo->k[0]->w && hi->k[1]->c < w)
            return mkConcat(mkExtract(hi->k[0], 0, w - (unsigned)hi->k[1]->c), lo->k[0]);
      }
      break;
    case O_XOR:
      if (a == b) return mkConst(0, w);
      if (!small) break;
      if (isC(b))
      {
        if (b->c == 0) return a;
        if (w == 1) return mkNot(a);
        if (a->op == O_XOR && isC(a->k[1])) return mkBin(O_XOR, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
      }
      break;
    case O_SHL: case O_LSHR: case O_ASHR:
      if (!small) break;
      if (isC(b))
      {
        if (b->c == 0) return a;
        if (op != O_ASHR && b->c >= w) return mkConst(0, w);
        if (op == O_LSHR) return mkZExt(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
        if (op == O_ASHR && a->slo >= 0 && b->c < w) return mkBin(O_LSHR, a, b);
        if (op == O_ASHR && b->c < w) return mkSExt(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
        if (op == O_SHL && a->op == O_SHL && isC(a->k[1]) && a->k[1]->c + b->c < w)
          return mkBin(O_SHL, a->k[0], mkConst(a->k[1]->c + b->c, w));
      }
      break;
    case O_CONCAT:
      if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->k[0] == b->k[0] && a->aux == b->aux + b->w)
        return mkExtract(a->k[0], b->aux, w);
      if (isC(a) && constAP(a).isZero()) return mkZExt(b, w);
      // concat(x, concat(y, z)) with x,y adjacent extracts
      if (b->op == O_CONCAT && a->op == O_EXTRACT && b->k[0]->op == O_EXTRACT && a->k[0] == b->k[0]->k[0] &&
          a->aux == b->k[0]->aux + b->k[0]->w)
        return mkConcat(mkExtract(a->k[0], b->k[0]->aux, a->w + b->k[0]->w), b->k[1]);
      break;
    case O_EQ:
      if (a == b) return mkConst(1, 1);
      if (!small) break;
      if (a->ulo > b->uhi || a->uhi < b->ulo || a->slo > b->shi || a->shi < b->slo) return mkConst(0, 1);
      if (a->w == 1 && isC(b)) return b->c ? a : mkNot(a);
      if (isC(b))
      {
        if (a->op == O_ITE)
        {
          if (isC(a->k[1]) || isC(a->k[2]))
          {
            E x = mkBin(O_EQ, a->k[1], b), y = mkBin(O_EQ, a->k[2], b);
            return mkIte(a->k[0], x, y);
          }
        }
        if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_EQ, a->k[0], mkConst(b->c - a->k[1]->c, a->w));
        if (a->op == O_ZEXT)
        {
          if (b->c > maskw(a->k[0]->w)) return mkConst(0, 1);
          return mkBin(O_EQ, a->k[0], mkConst(b->c, a->k[0]->w));
        }
        if (a->op == O_SEXT)
        {
          const unsigned kw = a->k[0]->w;
          if (sextw(b->c & maskw(kw), kw) != sextw(b->c, a->w)) return mkConst(0, 1);
          return mkBin(O_EQ, a->k[0], mkConst(b->c, kw));
        }
        if (a->op == O_SUB && b->c == 0) return mkBin(O_EQ, a->k[0], a->k[1]);
      }
      if ((a->op == O_ZEXT && b->op == O_ZEXT) || (a->op == O_SEXT && b->op == O_SEXT))
        if (a->k[0]->w == b->k[0]->w) return mkBin(O_EQ, a->k[0], b->k[0]);
      break;
    case O_ULT:
      if (a == b) return mkConst(0, 1);
      if (!small) break;
      if (a->uhi < b->ulo) return mkConst(1, 1);
      if (a->ulo >= b->uhi) return mkConst(0, 1);
      if (isC(b) && b->c == 1) return mkBin(O_EQ, a, mkConst(0, a->w));
      break;
    case O_ULE:
      if (a == b) return mkConst(1, 1);
      if (!small) break;
      if (a->uhi <= b->ulo) return mkConst(1, 1);
      if (a->ulo > b->uhi) return mkConst(0, 1);
      break;
    case O_SLT:
      if (a == b) return mkConst(0, 1);
      if (!small) break;
      if (a->shi < b->slo) return mkConst(1, 1);
      if (a->slo >= b->shi) return mkConst(0, 1);
      break;
    case O_SLE:
      if (a == b) return mkConst(1, 1);
      if (!small) break;
      if (a->shi <= b->slo) return mkConst(1, 1);
      if (a->slo > b->shi) return mkConst(0, 1);
      break;
    case F_ADD: case F_SUB: case F_MUL: case F_DIV: case F_EQ: case F_LT: case F_LE:
      return mkF2(op, a, b);
    default: break;
  }
  if (small && (op == O_ULT || op == O_ULE || op == O_SLT || op == O_SLE))
  {
    // narrow comparisons of extensions
    auto nar = [&](E x, unsigned kw, Op ext) -> E
    {
      if (x->op == ext && x->k[0]->w == kw) return x->k[0];
      if (isC(x))
      {
        if (ext == O_ZEXT && x->c <= maskw(kw)) return mkConst(x->c, kw);
        if (ext == O_SEXT && sextw(x->c & maskw(kw), kw) == sextw(x->c, x->w)) return mkConst(x->c, kw);
      }
      return nullptr;
    };
    for (Op ext : {O_ZEXT, O_SEXT})
    {
      const unsigned kw = a->op == ext ? a->k[0]->w : b->op == ext ? b->k[0]->w : 0;
      if (!kw) continue;
      E x = nar(a, kw, ext), y = nar(b, kw, ext);
      if (x && y)
      {
        Op o = op;
        if (ext == O_ZEXT && op == O_SLT) o = O_ULT;
        if (ext == O_ZEXT && op == O_SLE) o = O_ULE;
        return mkBin(o, x, y);
      }
    }
    // comparison against a constant of an ite of constants
    if (isC(b) && a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2])))
      return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    if (isC(a) && b->op == O_ITE && (isC(b->k[1]) || isC(b->k[2])))
      return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
    // (x + c1) < c2 without overflow
    if (isC(b) && a->op == O_ADD && isC(a->k[1]) && (op == O_SLT || op == O_SLE))
    {
      const __int128 c1 = sextw(a->k[1]->c, a->w), c2 = sextw(b->c, a->w);
      const __int128 lo = (__int128)a->k[0]->slo + c1, hi = (__int128)a->k[0]->shi + c1;
      const __int128 mn = -((__int128)1 << (a->w - 1)), mx = -mn - 1;
      if (lo >= mn && hi <= mx && c2 - c1 >= mn && c2 - c1 <= mx)
        return mkBin(op, a->k[0], mkConst((uint64_t)(int64_t)(c2 - c1), a->w));
    }
    if (isC(a) && b->op == O_ADD && isC(b->k[1]) && (op == O_SLT || op == O_SLE))
    {
      const __int128 c1 = sextw(b->k[1]->c, a->w), c2 = sextw(a->c, a->w);
      const __int128 lo = (__int128)b->k[0]->slo + c1, hi = (__int128)b->k[0]->shi + c1;
      const __int128 mn = -((__int128)1 << (a->w - 1)), mx = -mn - 1;
      if (lo >= mn && hi <= mx && c2 - c1 >= mn && c2 - c1 <= mx)
        return mkBin(op, mkConst((uint64_t)(int64_t)(c2 - c1), a->w), b->k[0]);
    }
    // signed comparison of non-negative values -> unsigned
    if ((op == O_SLT || op == O_SLE) && a->slo >= 0 && b->slo >= 0)
      return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
  }
  return node(op, w, a, b);
}

// Exact fixed-point views of floating-point expressions: value == m * 2^s with |m| small enough that no rounding
// ever happens, so comparisons and conversions can be decided on bit-vectors.
struct View
{
  E m = nullptr;
  int s = 0;
};
static bool fitsS(__int128 lo, __int128 hi, unsigned w)
{
  const __int128 b = (__int128)1 << (w - 1);
  return lo >= -b && hi < b;
}
static E widen(E m, unsigned w) { return m->w == w ? m : mkSExt(m, w); }
static bool shiftUp(View& v, int by, __int128 lim)
{
  if (by == 0) return true;
  if (by > 60) return false;
  const __int128 f = (__int128)1 << by;
  const __int128 lo = (__int128)v.m->slo * f, hi = (__int128)v.m->shi * f;
  if (lo < -lim || hi > lim) return false;
  unsigned w = v.m->w;
  while (!fitsS(lo, hi, w) && w < 64) w = 64;
  if (!fitsS(lo, hi, w)) return false;
  v.m = mkBin(O_MUL, widen(v.m, w), mkConst((uint64_t)f, w));
  v.s -= by;
  return true;
}
static bool alignViews(View& a, View& b, __int128 lim)
{
  if (a.s > b.s && !shiftUp(a, a.s - b.s, lim)) return false;
  if (b.s > a.s && !shiftUp(b, b.s - a.s, lim)) return false;
  const unsigned w = std::max<unsigned>(a.m->w, b.m->w);
  a.m = widen(a.m, w);
  b.m = widen(b.m, w);
  return true;
}
static std::unordered_map<E, View> g_views;
static View viewOf(E e, unsigned kw)
{
  View r;
  const __int128 lim = kw == 32 ? ((__int128)1 << 24) : ((__int128)1 << 53);
  if (isC(e))
  {
    double v = kw == 32 ? b2f(e->c) : b2d(e->c);
    if (!std::isfinite(v)) return r;
    if (v == 0)
    {
      r.m = mkConst(0, 32);
      return r;
    }
    int s = 0;
    while (v != std::floor(v) && s > -64) { v *= 2; --s; }
    if (v != std::floor(v)) return r;
    while (std::fabs(v) > 9007199254740992.0 && s < 200) { v /= 2; ++s; }
    while (s < 0 && false) {}
    if (std::fabs(v) > 16777216.0)
      while (std::fmod(v, 2) == 0) { v /= 2; ++s; }
    if (std::fabs(v) > (double)lim) return r;
    r.m = mkConst((uint64_t)(int64_t)v, std::fabs(v) < 1073741824.0 ? 32 : 64);
    r.s = s;
    return r;
  }
  auto it = g_views.find(e);
  if (it != g_views.end()) return it->second;
  switch (e->op)
  {
    case F_SI2F:
    case F_UI2F:
    {
      E k = e->k[0];
      if (k->w > 64) break;
      const bool sg = e->op == F_SI2F;
      const __int128 lo = sg ? (__int128)k->slo : (__int128)k->ulo, hi = sg ? (__int128)k->shi : (__int128)k->uhi;
      if (lo < -lim || hi > lim) break;
      const unsigned w = fitsS(lo, hi, 32) ? 32 : 64;
      if (k->w >= w)
        r.m = mkExtract(k, 0, w);
      else
        r.m = sg ? mkSExt(k, w) : mkZExt(k, w);
      // keep the known range when truncation lost it
      if (r.m->slo < lo || r.m->shi > hi)
        if (r.m->slo < -lim || r.m->shi > lim) r.m = nullptr;
      break;
    }
    case F_ADD:
    case F_SUB:
    {
      View a = viewOf(e->k[0], kw), b;
      if (a.m) b = viewOf(e->k[1], kw);
      if (!a.m || !b.m || !alignViews(a, b, lim)) break;
      __int128 lo, hi;
      if (e->op == F_ADD)
        lo = (__int128)a.m->slo + b.m->slo, hi = (__int128)a.m->shi + b.m->shi;
      else
        lo = (__int128)a.m->slo - b.m->shi, hi = (__int128)a.m->shi - b.m->slo;
      if (lo < -lim || hi > lim) break;
      unsigned w = a.m->w;
      if (!fitsS(lo, hi, w)) w = 64;
      r.m = mkBin(e->op == F_ADD ? O_ADD : O_SUB, widen(a.m, w), widen(b.m, w));
      r.s = a.s;
      break;
    }
    case F_MUL:
    {
      View a = viewOf(e->k[0], kw), b;
      if (a.m) b = viewOf(e->k[1], kw);
      if (!a.m || !b.m) break;
      const __int128 p[4] = {(__int128)a.m->slo * b.m->slo, (__int128)a.m->slo * b.m->shi,
                             (__int128)a.m->shi * b.m->slo, (__int128)a.m->shi * b.m->shi};
      const __int128 lo = std::min(std::min(p[0], p[1]), std::min(p[2], p[3]));
      const __int128 hi = std::max(std::max(p[0], p[1]), std::max(p[2], p[3]));
      if (lo < -lim || hi > lim) break;
      const unsigned w = std::max<unsigned>(std::max<unsigned>(a.m->w, b.m->w), fitsS(lo, hi, 32) ? 32u : 64u);
      r.m = mkBin(O_MUL, widen(a.m, w), widen(b.m, w));
      r.s = a.s + b.s;
      if (r.s < -90 || r.s > 100) r.m = nullptr;
      break;
    }
    case F_NEG:
    case F_ABS:
    {
      View a = viewOf(e->k[0], kw);
      if (!a.m) break;
      E n = mkBin(O_SUB, mkConst(0, a.m->w), a.m);
      r.m = e->op == F_NEG ? n : mkIte(mkBin(O_SLT, a.m, mkConst(0, a.m->w)), n, a.m);
      r.s = a.s;
      break;
    }
    case F_EXT:
      r = viewOf(e->k[0], e->k[0]->w);
      break;
    case F_TRUNC:
    {
      r = viewOf(e->k[0], e->k[0]->w);
      if (r.m && (r.m->slo < -(1 << 24) || r.m->shi > (1 << 24))) r.m = nullptr;
      break;
    }
    case F_RTI:
    {
      View a = viewOf(e->k[0], kw);
      if (!a.m) break;
      if (a.s >= 0)
      {
        r = a;
        break;
      }
      if (a.s < -28 || (a.m->w == 32 && (a.m->slo < -(1 << 29) || a.m->shi > (1 << 29)))) break;
      const unsigned w = a.m->w;
      E sh = mkConst(-a.s, w), one = mkConst(1, w);
      E fl = mkBin(O_ASHR, a.m, sh);
      if (e->aux == RM_RTN) r.m = fl;
      else if (e->aux == RM_RTP) r.m = mkBin(O_SUB, mkConst(0, w), mkBin(O_ASHR, mkBin(O_SUB, mkConst(0, w), a.m), sh));
      else if (e->aux == RM_RTZ)
        r.m = mkIte(mkBin(O_SLT, a.m, mkConst(0, w)), mkBin(O_SUB, mkConst(0, w), mkBin(O_ASHR, mkBin(O_SUB, mkConst(0, w), a.m), sh)), fl);
      else if (e->aux == RM_RNA)
      {
        E half = mkConst(1ULL << (-a.s - 1), w);
        E n = mkBin(O_SUB, mkConst(0, w), a.m);
        r.m = mkIte(mkBin(O_SLT, a.m, mkConst(0, w)), mkBin(O_SUB, mkConst(0, w), mkBin(O_ASHR, mkBin(O_ADD, n, half), sh)),
                    mkBin(O_ASHR, mkBin(O_ADD, a.m, half), sh));
      }
      (void)one;
      break;
    }
    case O_ITE:
    {
      View a = viewOf(e->k[1], kw), b;
      if (a.m) b = viewOf(e->k[2], kw);
      if (!a.m || !b.m || !alignViews(a, b, lim)) break;
      r.m = mkIte(e->k[0], a.m, b.m);
      r.s = a.s;
      break;
    }
    default:
      break;
  }
  if (r.m && (r.m->slo < -lim || r.m->shi > lim)) r.m = nullptr;
  g_views[e] = r;
  return r;
}
static E viewCmp(Op op, E a, E b)
{
  if (isC(a) && isC(b)) return nullptr;
  View x = viewOf(a, a->w), y;
  if (x.m) y = viewOf(b, b->w);
  if (!x.m || !y.m) return nullptr;
  if (!alignViews(x, y, (__int128)1 << 62)) return nullptr;
  return mkBin(op == F_EQ ? O_EQ : op == F_LT ? O_SLT : O_SLE, x.m, y.m);
}
// comparison fp-const vs int-to-fp: kept as fp; ranges decide the easy cases
E mkF2(Op op, E a, E b)
{
  const unsigned kw = a->w;
  const bool cmp = op == F_EQ || op == F_LT || op == F_LE;
  const unsigned w = cmp ? 1 : kw;
  if (isC(a) && isC(b)) return mkConst(evalOp(op, w, 0, kw, a->c, b->c, 0), w);
  if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  FI x = fiOf(a, kw), y = fiOf(b, kw);
  if ((isC(a) && x.nan) || (isC(b) && y.nan))
  {
    if (cmp) return mkFalse();
    return mkConst(kw == 32 ? 0x7fc00000u : 0x7ff8000000000000ULL, kw);
  }
  switch (op)
  {
    case F_EQ:
      if (a == b && !x.nan) return mkTrue();
      if (x.hi < y.lo || x.lo > y.hi) return mkFalse();
      break;
    case F_LT:
      if (a == b) return mkFalse();
      if (x.lo >= y.hi) return mkFalse();
      if (x.hi < y.lo && !x.nan && !y.nan) return mkTrue();
      break;
    case F_LE:
      if (a == b && !x.nan) return mkTrue();
      if (x.lo > y.hi) return mkFalse();
      if (x.hi <= y.lo && !x.nan && !y.nan) return mkTrue();
      break;
    case F_MUL:
      if (isC(b))
      {
        const double v = kw == 32 ? b2f(b->c) : b2d(b->c);
        if (v == 1.0 && !x.nan) return a;
        if (v == -1.0) return mkF1(F_NEG, a, kw);
      }
      break;
    case F_DIV:
      if (isC(b))
      {
        const double v = kw == 32 ? b2f(b->c) : b2d(b->c);
        if (v == 1.0 && !x.nan) return a;
        // division by a power of two is an exact multiplication
        int ex;
        if (std::isfinite(v) && v != 0 && std::fabs(std::frexp(v, &ex)) == 0.5 && ex > -100 && ex < 100)
          return mkF2(F_MUL, a, mkFConst(1.0 / v, kw));
      }
      break;
    case F_SUB:
      if (isC(b))
      {
        if ((kw == 32 ? b2f(b->c) : b2d(b->c)) == 0 && b->c == 0) return a;  // x - (+0) == x
        return mkF2(F_ADD, a, mkConst(evalOp(F_NEG, kw, 0, kw, b->c, 0, 0), kw));
      }
      if (a == b && !x.nan && std::isfinite(x.lo) && std::isfinite(x.hi)) return mkConst(0, kw);
      break;
    case F_ADD:
      if (isC(b) && b->c == (1ULL << (kw - 1))) return a;  // x + (-0) == x
      // x + (+0) == x unless x == -0
      if (isC(b) && b->c == 0 && (x.lo > 0 || x.hi < 0)) return a;
      if (isC(b) && b->c == 0 && (a->op == F_SI2F || a->op == F_UI2F || a->op == F_ABS)) return a;
      break;
    default: break;
  }
  if (cmp)
    if (E v = viewCmp(op, a, b)) return v;
  // exact comparisons: integer-valued fp against fp constant
  if (cmp && (isC(a) || isC(b)))
  {
    E v = isC(a) ? b : a;
    E v0 = v;
    // strip exact widening
    if (v->op == F_EXT) v = v->k[0];
    if ((v->op == F_SI2F || v->op == F_UI2F) && v->k[0]->w <= 64)
    {
      E k = v->k[0];
      const bool sg = v->op == F_SI2F;
      const double lim = v->w == 32 ? 16777216.0 : 9007199254740992.0;
      const double lo = sg ? (double)k->slo : (double)k->ulo, hi = sg ? (double)k->shi : (double)k->uhi;
      if (lo >= -lim && hi <= lim)
      {
        const double cst = (isC(a) ? (kw == 32 ? b2f(a->c) : b2d(a->c)) : (kw == 32 ? b2f(b->c) : b2d(b->c)));
        const Op lt = sg ? O_SLT : O_ULT, le = sg ? O_SLE : O_ULE;
        if (std::isfinite(cst))
        {
          if (op == F_EQ)
          {
            if (cst != std::floor(cst) || cst < lo || cst > hi) return mkFalse();
            return mkBin(O_EQ, k, mkConst((uint64_t)(int64_t)cst, k->w));
          }
          if (!isC(a))
          {
            // v < c  <=> v <= ceil(c)-1 ; v <= c <=> v <= floor(c)
            double t = op == F_LT ? std::ceil(cst) - 1 : std::floor(cst);
            if (t < lo) return mkFalse();
            if (t >= hi) return mkTrue();
            return mkBin(le, k, mkConst((uint64_t)(int64_t)t, k->w));
          }
          else
          {
            double t = op == F_LT ? std::floor(cst) : std::ceil(cst) - 1;  // t < v
            if (t < lo) return mkTrue();
            if (t >= hi) return mkFalse();
            return mkBin(lt, mkConst((uint64_t)(int64_t)t, k->w), k);
          }
        }
      }
    }
    (void)v0;
  }
  // ite with constant arms against constant
  if (cmp && isC(b) && a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2])))
    return mkIte(a->k[0], mkF2(op, a->k[1], b), mkF2(op, a->k[2], b));
  if (cmp && isC(a) && b->op == O_ITE && (isC(b->k[1]) || isC(b->k[2])))
    return mkIte(b->k[0], mkF2(op, a, b->k[1]), mkF2(op, a, b->k[2]));
  if (!cmp && isC(b) && a->op == O_ITE && isC(a->k[1]) && isC(a->k[2]))
    return mkIte(a->k[0], mkF2(op, a->k[1], b), mkF2(op, a->k[2], b));
  if (!cmp && isC(a) && b->op == O_ITE && isC(b->k[1]) && isC(b->k[2]))
    return mkIte(b->k[0], mkF2(op, a, b->k[1]), mkF2(op, a, b->k[2]));
  if (op == F_ADD || op == F_SUB || op == F_MUL)
  {
    E r = node(op, w, a, b);
    View v = viewOf(r, kw);
    if (v.m && isC(v.m) && v.m->c != 0)
    {
      const double d = std::ldexp((double)sextw(v.m->c, v.m->w), v.s);
      return mkFConst(d, kw);
    }
    return r;
  }
  // f32 comparisons through exact widening
  if (cmp && a->op == F_EXT && b->op == F_EXT) return mkF2(op, a->k[0], b->k[0]);
  if (cmp && a->op == F_EXT && isC(b) && (double)(float)b2d(b->c) == b2d(b->c))
    return mkF2(op, a->k[0], mkConst(f2b((float)b2d(b->c)), 32));
  if (cmp && b->op == F_EXT && isC(a) && (double)(float)b2d(a->c) == b2d(a->c))
    return mkF2(op, mkConst(f2b((float)b2d(a->c)), 32), b->k[0]);
  return node(op, w, a, b);
}
E mkF1(Op op, E a, unsigned w, uint32_t aux)
{
  if (isC(a)) return mkConst(evalOp(op, w, aux, a->w, a->c, 0, 0), w);
  if (op == F_NEG && a->op == F_NEG) return a->k[0];
  if (op == F_ABS && (a->op == F_ABS || (a->isf && !a->fi.nan && a->fi.lo > 0))) return a;
  if (op == F_ABS && a->op == F_NEG) return mkF1(F_ABS, a->k[0], w);
  if (op == F_TRUNC && a->op == F_EXT && a->k[0]->w == w) return a->k[0];
  if (op == F_RTI && (a->op == F_RTI || a->op == F_SI2F || a->op == F_UI2F)) return a;
  if (op == F_EXT && (a->op == F_SI2F || a->op == F_UI2F) && a->k[0]->w <= 64 && a->k[0]->slo > -(1 << 24) &&
      a->k[0]->shi < (1 << 24) && a->k[0]->uhi < (1u << 24))
    return mkF1(a->op, a->k[0], w);
  if (op == F_TRUNC && (a->op == F_SI2F || a->op == F_UI2F) && a->k[0]->w <= 64 && a->k[0]->slo > -(1 << 24) &&
      a->k[0]->shi < (1 << 24) && (a->op == F_SI2F || a->k[0]->uhi < (1u << 24)))
    return mkF1(a->op, a->k[0], w);
  if ((op == F_SI2F || op == F_UI2F) && a->op == O_ZEXT) return mkF1(F_UI2F, a->k[0], w);
  if (op == F_SI2F && a->op == O_SEXT) return mkF1(F_SI2F, a->k[0], w);
  // signed and unsigned conversion agree on non-negative values: one canonical form
  if (op == F_SI2F && a->w <= 64 && a->slo >= 0) return mkF1(F_UI2F, a, w);
  if (op == F_SI2F || op == F_UI2F || op == F_NEG || op == F_EXT || op == F_TRUNC || op == F_ABS || op == F_RTI || op == F_F2SI)
    if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2]))
      return mkIte(a->k[0], mkF1(op, a->k[1], w, aux), mkF1(op, a->k[2], w, aux));
  if ((op == F_F2SI || op == F_F2UI) && (a->op == F_SI2F || a->op == F_UI2F))
  {
    E k = a->k[0];
    const double lim = a->w == 32 ? 16777216.0 : 9007199254740992.0;
    const bool sg = a->op == F_SI2F;
    const double lo = sg ? (double)k->slo : (double)k->ulo, hi = sg ? (double)k->shi : (double)k->uhi;
    const double tl = op == F_F2SI ? -std::ldexp(1.0, w - 1) : 0, th = op == F_F2SI ? std::ldexp(1.0, w - 1) : std::ldexp(1.0, w);
    if (k->w <= 64 && lo >= -lim && hi <= lim && lo >= tl && hi < th)
    {
      if (w <= k->w) return mkExtract(k, 0, w);
      return sg ? mkSExt(k, w) : mkZExt(k, w);
    }
  }
  if (op == F_F2SI || op == F_F2UI)
  {
    // every value of the operand converts to the same integer
    const FI f = fiOf(a, a->w);
    if (!f.nan && f.lo > -1e15 && f.hi < 1e15)
    {
      const double lo = rti(f.lo, aux), hi = rti(f.hi, aux);
      const double tl = op == F_F2SI ? -std::ldexp(1.0, w - 1) : 0, th = op == F_F2SI ? std::ldexp(1.0, w - 1) : std::ldexp(1.0, w);
      if (lo == hi && lo >= tl && lo < th) return mkConst((uint64_t)(int64_t)lo & maskw(w), w);
    }
  }
  if (op == F_F2SI && (aux == RM_RTZ || aux == RM_RTN || aux == RM_RTP || aux == RM_RNA))
  {
    View v = viewOf(a, a->w);
    if (v.m && v.s < 0)
    {
      E rti = mkF1(F_RTI, a, a->w, aux);
      v = viewOf(rti, a->w);
    }
    if (v.m && v.s >= 0 && shiftUp(v, v.s, (__int128)1 << 62) && fitsS(v.m->slo, v.m->shi, w))
      return v.m->w >= w ? mkExtract(v.m, 0, w) : mkSExt(v.m, w);
  }
  return node(op, w, a, nullptr, nullptr, aux);
}
E mkFma(E a, E b, E c)
{
  if (isC(a) && isC(b) && isC(c)) return mkConst(evalOp(F_FMA, a->w, 0, a->w, a->c, b->c, c->c), a->w);
  return node(F_FMA, a->w, a, b, c);
}
E mkFNan(E a)
{
  FI x = fiOf(a, a->w);
  if (!isC(a) && a->isf && !x.nan) return mkFalse();
  return mkNot(mkF2(F_EQ, a, a));
}
E rebuild(E e, E a, E b, E c)
{
  switch (e->op)
  {
    case O_EXTRACT: return mkExtract(a, e->aux, e->w);
    case O_ZEXT: return mkZExt(a, e->w);
    case O_SEXT: return mkSExt(a, e->w);
    case O_ITE: return mkIte(a, b, c);
    case F_FMA: return mkFma(a, b, c);
    case F_SQRT: case F_RTI: case F_NEG: case F_ABS: case F_EXT: case F_TRUNC: case F_SI2F: case F_UI2F: case F_F2SI:
    case F_F2UI:
      return mkF1(e->op, a, e->w, e->aux);
    default: return mkBin(e->op, a, b);
  }
}
E substVars(E e, const std::unordered_map<uint32_t, E>& m, std::unordered_map<E, E>& memo)
{
  if (e->op == O_CONST) return e;
  if (e->op == O_VAR)
  {
    auto it = m.find(e->aux);
    return it == m.end() ? e : it->second;
  }
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  E k[3];
  bool ch = false;
  for (int i = 0; i < 3; ++i)
  {
    k[i] = e->k[i] ? substVars(e->k[i], m, memo) : nullptr;
    ch |= k[i] != e->k[i];
  }
  E r = ch ? rebuild(e, k[0], k[1], k[2]) : e;
  memo[e] = r;
  return r;
}
std::string exprStr(E e, int depth)
{
  static const char* n[] = {"const", "var", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>u", ">>s",
                            "concat", "extract", "zext", "sext", "==", "<u", "<=u", "<s", "<=s", "ite", "f+", "f-", "f*",
                            "f/", "fsqrt", "frti", "fma", "f==", "f<", "f<=", "fneg", "fabs", "fext", "ftrunc", "si2f",
                            "ui2f", "f2si", "f2ui"};
  std::ostringstream o;
  if (e->op == O_CONST)
  {
    if (e->big)
    {
      llvm::SmallString<40> s;
      e->big->toStringUnsigned(s, 16);
      o << "0x" << s.c_str();
    }
    else o << e->c;
    return o.str();
  }
  if (e->op == O_VAR) return g_vars[e->aux].name + "#" + std::to_string(e->aux);
  if (depth == 0) return "...";
  o << "(" << n[e->op];
  if (e->op == O_EXTRACT) o << "[" << e->aux << "," << e->w << "]";
  for (int i = 0; i < 3; ++i)
    if (e->k[i]) o << " " << exprStr(e->k[i], depth - 1);
  o << ")";
  return o.str();
}
