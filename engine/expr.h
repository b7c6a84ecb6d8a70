// Expression DAG of the symbolic executor: fixed-width bit-vectors plus IEEE-754 operations on them.
#pragma once
#include <cstdint>
#include <cmath>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>

using llvm::APInt;

enum Op : uint8_t
{
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  F_ADD, F_SUB, F_MUL, F_DIV, F_SQRT, F_RTI, F_FMA,
  F_EQ, F_LT, F_LE, F_NEG, F_ABS, F_EXT, F_TRUNC,
  F_SI2F, F_UI2F, F_F2SI, F_F2UI
};
// rounding modes for F_RTI / F_F2SI (aux)
enum { RM_RNE = 0, RM_RNA = 1, RM_RTP = 2, RM_RTN = 3, RM_RTZ = 4 };

struct FI
{
  double lo, hi;
  bool nan;
};
struct Expr
{
  Op op;
  uint8_t isf = 0;  // value is produced by an IEEE operation (has an fp interval)
  uint16_t w;
  uint32_t aux = 0;
  uint32_t id = 0;
  const Expr* k[3] = {nullptr, nullptr, nullptr};
  uint64_t c = 0;            // constant (w<=64)
  APInt* big = nullptr;      // constant (w>64)
  // ranges (w<=64 only)
  uint64_t ulo = 0, uhi = 0;
  int64_t slo = 0, shi = 0;
  FI fi = {0, 0, true};
  // caches
  mutable uint64_t ev_stamp = 0, ev_val = 0;
  mutable void* z_bv = nullptr;
  mutable void* z_bool = nullptr;
  mutable void* z_fp = nullptr;
  mutable const std::vector<uint32_t>* vars = nullptr;
};
typedef const Expr* E;

struct VarInfo
{
  std::string name;
  unsigned w;
  E e;
  // declared domain: 0 none, 1 unsigned, 2 signed, 3 float
  int dom = 0;
  uint64_t ulo = 0, uhi = 0;
  int64_t slo = 0, shi = 0;
  double flo = 0, fhi = 0;
  bool is_input = false;
  // uninterpreted libm result
  std::string fn;
  std::vector<E> args;
  uint64_t defval() const;
};
extern std::vector<VarInfo> g_vars;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w)
{
  if (w >= 64) return (int64_t)v;
  const uint64_t m = 1ULL << (w - 1);
  return (int64_t)(((v & maskw(w)) ^ m) - m);
}
static inline float b2f(uint64_t v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static inline double b2d(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
static inline uint64_t f2b(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static inline uint64_t d2b(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }

E mkConst(uint64_t v, unsigned w);
E mkBig(const APInt& v);
E mkVar(const std::string& name, unsigned w);
E mkVarU(const std::string& name, unsigned w, uint64_t lo, uint64_t hi);
E mkVarS(const std::string& name, unsigned w, int64_t lo, int64_t hi);
E mkVarF(const std::string& name, unsigned w, double lo, double hi);
E mkBin(Op op, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkNot(E a);
E mkF1(Op op, E a, unsigned w, uint32_t aux = 0);
E mkF2(Op op, E a, E b);
E mkFma(E a, E b, E c);
E mkFNan(E a);  // isnan
static inline E mkTrue() { return mkConst(1, 1); }
static inline E mkFalse() { return mkConst(0, 1); }
static inline E mkAnd1(E a, E b) { return mkBin(O_AND, a, b); }
static inline E mkOr1(E a, E b) { return mkBin(O_OR, a, b); }
static inline bool isC(E e) { return e->op == O_CONST; }
APInt constAP(E e);
const std::vector<uint32_t>& exprVars(E e);
unsigned knownZeroLow(E e);
// concrete semantics of every operation, shared by constant folding and model evaluation
uint64_t evalOp(Op op, unsigned w, uint32_t aux, unsigned kw, uint64_t a, uint64_t b, uint64_t c);

struct Model
{
  std::unordered_map<uint32_t, APInt> wide;
  std::vector<uint64_t> v;         // by var id
  std::vector<uint8_t> has;
  uint64_t get(uint32_t id) const;
  void set(uint32_t id, uint64_t val)
  {
    if (v.size() <= id) { v.resize(id + 1, 0); has.resize(id + 1, 0); }
    v[id] = val;
    has[id] = 1;
  }
};
void evalBegin();                     // start a new evaluation epoch (new model)
uint64_t evalExpr(E e, const Model& m);  // within the current epoch
APInt evalBig(E e, const Model& m);
inline uint64_t evalFresh(E e, const Model& m) { evalBegin(); return evalExpr(e, m); }
std::string exprStr(E e, int depth = 6);
E substConst(E e, const Model& m, const std::vector<uint32_t>& ids);
extern uint64_t g_nexprs;
extern bool g_fiTight;
FI fiOf(E e, unsigned w);
FI fiCompute(Op op, unsigned w, uint32_t aux, FI x, FI y, bool same);
bool fiCancel(E e, std::vector<std::pair<E, int>>& terms, std::vector<E>& inner);
FI fiCancelSum(const std::vector<std::pair<FI, int>>& ts, const std::vector<double>& mags, unsigned w);
extern std::unordered_set<E> g_axioms;  // constraints that hold by the definition of a libm function
FI fiLibm(const std::string& fn, unsigned w, FI x, FI y);
bool nativeLibm(const std::string& fn, unsigned w, const std::vector<uint64_t>& a, uint64_t& out);
E domainOf(uint32_t varid);
E mkFCmpConstLe(E a, double v, bool le);
E mkFIsFiniteLt(E a);
E substVars(E e, const std::unordered_map<uint32_t, E>& m, std::unordered_map<E, E>& memo);
E rebuild(E e, E a, E b, E c);
bool dependsOn(E e, uint32_t var);
inline E mkImplies(E a, E b) { return mkOr1(mkNot(a), b); }
inline E mkEq(E a, E b) { return mkBin(O_EQ, a, b); }
inline E mkUlt(E a, E b) { return mkBin(O_ULT, a, b); }
inline E mkUle(E a, E b) { return mkBin(O_ULE, a, b); }
inline E mkAdd(E a, E b) { return mkBin(O_ADD, a, b); }
inline E mkSub(E a, E b) { return mkBin(O_SUB, a, b); }
E mkConcat(E hi, E lo);
E mkFConst(double v, unsigned w);
inline E constLike(E e, uint64_t v) { return mkConst(v, e->w); }
inline bool isTrue(E e) { return e->op == O_CONST && e->w == 1 && e->c == 1; }
inline bool isFalse(E e) { return e->op == O_CONST && e->w == 1 && e->c == 0; }
