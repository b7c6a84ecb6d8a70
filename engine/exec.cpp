// Symbolic executor for LLVM IR produced from the repository's own sources.
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <algorithm>
#include <chrono>
#include <cinttypes>
#include <cstdio>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>

using namespace llvm;

static double now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
struct Val
{
  uint64_t c = 0;
  E e = nullptr;
  std::shared_ptr<std::vector<Val>> agg;
  Val() {}
  Val(uint64_t v) : c(v) {}
};
static Val mkv(E e)
{
  Val v;
  if (e->op == O_CONST && e->w <= 64) v.c = e->c;
  else v.e = e;
  return v;
}
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- memory
struct SB
{
  E e = nullptr;
  uint32_t i = 0;
};
static const E UNDEF = (E)(uintptr_t)8;
struct Obj
{
  uint64_t base = 0, size = 0;
  uint8_t kind = 0;  // 0 global 1 stack 2 heap 3 function
  bool ro = false;
  std::shared_ptr<std::string> name;
  std::vector<uint8_t> c;
  std::vector<SB> s;
};
typedef std::shared_ptr<Obj> ObjP;
static const unsigned ASHIFT = 24;
static const uint64_t ABASE = 1;  // object 0 unused
struct Chunk
{
  ObjP o[128];
};
struct Mem
{
  std::vector<std::shared_ptr<Chunk>> ch;
  uint64_t next = ABASE;
  std::vector<uint32_t> freeIds;  // recycled stack slots
  Obj* find(uint64_t id) const
  {
    const uint64_t k = id >> 7;
    if (k >= ch.size() || !ch[k]) return nullptr;
    return ch[k]->o[id & 127].get();
  }
  ObjP* slotW(uint64_t id)
  {
    const uint64_t k = id >> 7;
    if (k >= ch.size()) ch.resize(k + 1);
    if (!ch[k]) ch[k] = std::make_shared<Chunk>();
    else if (ch[k].use_count() > 1) ch[k] = std::make_shared<Chunk>(*ch[k]);
    return &ch[k]->o[id & 127];
  }
  Obj* writable(uint64_t id)
  {
    ObjP* p = slotW(id);
    if (!*p) return nullptr;
    if (p->use_count() > 1) *p = std::make_shared<Obj>(**p);
    return p->get();
  }
  void kill(uint64_t id) { slotW(id)->reset(); }
};

// ---------------------------------------------------------------- decoded functions
struct Opnd
{
  int reg = -1;
  Val k;
};
struct DInst
{
  Instruction* I = nullptr;
  unsigned opc = 0;
  int dst = -1;
  unsigned w = 0, kw = 0;
  Type* ty = nullptr;
  std::vector<Opnd> ops;
  uint64_t imm = 0;
  std::vector<std::pair<int, int64_t>> gep;  // operand idx, scale
  std::vector<unsigned> gepw;
  std::vector<int> succ;
  std::vector<std::pair<uint64_t, int>> cases;
  Function* callee = nullptr;
  unsigned intrin = 0;
  std::vector<std::pair<int, Opnd>> phi;
  bool seen = false;
};
struct DBlock
{
  std::vector<DInst> in;
  unsigned nphi = 0;
};
struct FnInfo
{
  Function* F;
  std::vector<DBlock> bb;
  int nregs = 0;
  int nargs = 0;
};
struct Frame
{
  FnInfo* f;
  int bb = 0, pc = 0, prev = -1;
  std::vector<Val> r;
  std::vector<Val> va;
  std::vector<uint32_t> allocas;
};
struct InputRec
{
  std::string name;
  unsigned w;
  E e;
};
struct State
{
  std::vector<Frame> st;
  Mem mem;
  std::vector<E> cs;
  std::shared_ptr<std::unordered_set<uint32_t>> csIds;
  Model model;
  std::vector<InputRec> in;
  uint64_t steps = 0;
  uint64_t excPtr = 0, excTi = 0;
  std::vector<std::pair<uint64_t, uint64_t>> caught;  // active caught exceptions
  std::vector<std::pair<std::string, E>> notes;
  unsigned depth = 0;
  bool dead = false;
};
typedef std::unique_ptr<State> StateP;

struct Viol
{
  std::string kind, label, where, stack;
  std::vector<std::pair<std::string, std::string>> inputs;
  std::vector<std::pair<std::string, std::string>> notes;
  bool uninit = false;
};

// ---------------------------------------------------------------- globals
static Module* M;
static const DataLayout* DL;
static std::map<Function*, std::unique_ptr<FnInfo>> g_fn;
static std::unordered_map<const GlobalValue*, uint64_t> g_gaddr;
static std::unordered_map<uint64_t, Function*> g_faddr;
static std::vector<StateP> g_work;
static std::vector<Viol> g_viol;
static std::map<std::string, int> g_violCount;
static std::set<std::string> g_incon;
struct ChkStat { uint64_t reached = 0, solver = 0, trivial = 0; };
static std::map<std::string, ChkStat> g_checks;
static std::map<std::string, uint64_t> g_reach;
static std::map<std::string, int64_t> g_params;
static uint64_t g_paths = 0, g_pathsAssume = 0, g_forks = 0, g_steps = 0, g_maxConstraints = 0, g_inputsMax = 0;
static uint64_t g_maxSteps = 50000000, g_maxViol = 6;
static double g_maxTime = 600, g_t0;
static int g_iteLimit = 300, g_iteStoreLimit = 64;
static bool g_uninitCheck = true;
static bool g_stepLimitIsViolation = false;
static std::string g_entry;
static std::vector<std::vector<std::pair<std::string, std::string>>> g_samplePaths;
static std::map<std::string, uint64_t> g_libmUse;
static uint64_t g_allocLimit = 15ull << 20;
static std::map<std::string, std::string> g_known;
static std::map<std::string, uint64_t> g_knownHit;
static std::unordered_map<std::string, uint64_t> g_forkSites;

struct PathEnd {};     // current state terminates
struct Refork {};      // current instruction must be re-executed / state was replaced

static State* S;  // current state
static DInst* CI;

static void inconclusive(const std::string& why) { g_incon.insert(why); }
[[noreturn]] static void endPath() { throw PathEnd(); }

static std::string locOf(Instruction* I)
{
  if (!I) return "?";
  if (const DebugLoc& dl = I->getDebugLoc())
  {
    DILocation* d = dl.get();
    return (d->getFilename() + ":" + std::to_string(d->getLine())).str();
  }
  return I->getFunction()->getName().str();
}
static std::string stackOf(State& s)
{
  std::ostringstream o;
  int n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < 12; --i, ++n)
  {
    Frame& f = s.st[i];
    Instruction* I = nullptr;
    auto& b = f.f->bb[f.bb];
    int pc = f.pc;
    if (i != (int)s.st.size() - 1 && pc > 0) pc = pc;
    if (pc < (int)b.in.size()) I = b.in[pc].I;
    o << (n ? " <- " : "") << locOf(I);
  }
  return o.str();
}
static std::string hexv(uint64_t v)
{
  char b[32];
  snprintf(b, sizeof b, "0x%" PRIx64, v);
  return b;
}
static bool addConstraint(State& s, E c)
{
  if (isTrue(c)) return true;
  if (c->op == O_AND && c->w == 1) return addConstraint(s, c->k[0]) && addConstraint(s, c->k[1]);
  for (size_t i = s.cs.size(); i-- > 0 && i + 64 > s.cs.size();)
    if (s.cs[i] == c) return true;
  s.cs.push_back(c);
  g_maxConstraints = std::max<uint64_t>(g_maxConstraints, s.cs.size());
  return true;
}
static uint64_t evalNow(State& s, E e)
{
  evalBegin();
  return evalExpr(e, s.model);
}
// native libm, for refinement and concrete execution
bool nativeLibm(const std::string& fn, unsigned w, const std::vector<uint64_t>& a, uint64_t& out)
{
  double x = 0, y = 0, r;
  if (w == 32)
  {
    float fx = b2f(a[0]), fy = a.size() > 1 ? b2f(a[1]) : 0, fr;
    if (fn == "sin") fr = sinf(fx);
    else if (fn == "cos") fr = cosf(fx);
    else if (fn == "tan") fr = tanf(fx);
    else if (fn == "asin") fr = asinf(fx);
    else if (fn == "acos") fr = acosf(fx);
    else if (fn == "atan") fr = atanf(fx);
    else if (fn == "atan2") fr = atan2f(fx, fy);
    else if (fn == "exp") fr = expf(fx);
    else if (fn == "log") fr = logf(fx);
    else if (fn == "pow") fr = powf(fx, fy);
    else if (fn == "hypot") fr = hypotf(fx, fy);
    else if (fn == "fmod") fr = fmodf(fx, fy);
    else if (fn == "remainder") fr = remainderf(fx, fy);
    else return false;
    out = f2b(fr);
    return true;
  }
  x = b2d(a[0]);
  y = a.size() > 1 ? b2d(a[1]) : 0;
  if (fn == "sin") r = sin(x);
  else if (fn == "cos") r = cos(x);
  else if (fn == "tan") r = tan(x);
  else if (fn == "asin") r = asin(x);
  else if (fn == "acos") r = acos(x);
  else if (fn == "atan") r = atan(x);
  else if (fn == "atan2") r = atan2(x, y);
  else if (fn == "exp") r = exp(x);
  else if (fn == "log") r = log(x);
  else if (fn == "pow") r = pow(x, y);
  else if (fn == "hypot") r = hypot(x, y);
  else if (fn == "fmod") r = fmod(x, y);
  else if (fn == "remainder") r = remainder(x, y);
  else return false;
  out = d2b(r);
  return true;
}
// Is there a model in which every libm application has its native value?  Starts from s.model-like `m`.
static SR refineLibm(State& s, E cond, Model& m)
{
  // variables reachable from cond through constraints
  for (int round = 0; round < 24; ++round)
  {
    std::vector<uint32_t> lib;
    {
      std::set<uint32_t> vs(exprVars(cond).begin(), exprVars(cond).end());
      for (E x : s.cs)
        for (uint32_t v : exprVars(x)) vs.insert(v);
      for (bool ch = true; ch;)
      {
        ch = false;
        for (uint32_t v : std::vector<uint32_t>(vs.begin(), vs.end()))
          for (E a : g_vars[v].args)
            for (uint32_t u : exprVars(a))
              if (vs.insert(u).second) ch = true;
      }
      for (uint32_t v : vs)
        if (!g_vars[v].fn.empty()) lib.push_back(v);
    }
    if (lib.empty()) return R_SAT;
    std::sort(lib.begin(), lib.end());
    // evaluate bottom-up with native values
    Model mm = m;
    E pin = mkTrue();
    E lemma = mkTrue();
    bool diff = false;
    for (uint32_t v : lib)
    {
      VarInfo& vi = g_vars[v];
      std::vector<uint64_t> av;
      E same = mkTrue();
      evalBegin();
      for (E a : vi.args)
      {
        av.push_back(evalExpr(a, mm));
        same = mkAnd1(same, mkEq(a, mkConst(av.back(), a->w)));
      }
      uint64_t nv;
      if (!nativeLibm(vi.fn, vi.w, av, nv)) continue;
      if (nv != mm.get(v)) diff = true;
      mm.set(v, nv);
      pin = mkAnd1(pin, mkAnd1(same, mkEq(vi.e, mkConst(nv, vi.w))));
      lemma = mkAnd1(lemma, mkImplies(same, mkEq(vi.e, mkConst(nv, vi.w))));
    }
    if (!diff) return R_SAT;
    // does the native-valued assignment itself work?
    {
      evalBegin();
      bool ok = evalExpr(cond, mm);
      for (E c : s.cs)
        if (ok && !evalExpr(c, mm)) ok = false;
      if (ok)
      {
        m = mm;
        return R_SAT;
      }
    }
    addConstraint(s, lemma);
    Model out;
    SR r = solveQuery(s.cs, cond, m, out);
    if (r != R_SAT) return r;
    m = out;
  }
  return R_UNKNOWN;
}
static void report(State& s, const std::string& kind, const std::string& label, const Model& m, E cond = nullptr)
{
  Model mm = m;
  SR rr = R_SAT;
  {
    State tmp;
    tmp.cs = s.cs;
    E c = cond ? cond : mkTrue();
    rr = refineLibm(tmp, c, mm);
  }
  if (rr == R_UNSAT) return;  // only an artefact of the abstraction of libm: refuted
  if (rr == R_UNKNOWN)
  {
    inconclusive("libm refinement did not settle: " + kind + " " + label);
    return;
  }
  const std::string key = kind + "|" + label + "|" + locOf(CI ? CI->I : nullptr);
  if (g_violCount[key]++ >= 2) return;
  Viol v;
  v.kind = kind;
  v.label = label;
  v.where = locOf(CI ? CI->I : nullptr);
  v.stack = stackOf(s);
  evalBegin();
  for (auto& i : s.in) v.inputs.push_back({i.name, hexv(evalExpr(i.e, mm))});
  for (auto& n : s.notes) v.notes.push_back({n.first, hexv(evalExpr(n.second, mm))});
  for (E c : s.cs)
    for (uint32_t id : exprVars(c))
      if (g_vars[id].name.compare(0, 7, "uninit:") == 0) v.uninit = true;
  if (cond)
    for (uint32_t id : exprVars(cond))
      if (g_vars[id].name.compare(0, 7, "uninit:") == 0) v.uninit = true;
  g_viol.push_back(v);
  if (g_viol.size() == 1) g_maxTime = std::min(g_maxTime, now() - g_t0 + 15);
  if (g_verbose) fprintf(stderr, "VIOL %s %s at %s\n  %s\n", kind.c_str(), label.c_str(), v.where.c_str(), v.stack.c_str());
}
[[noreturn]] static void violate(const std::string& kind, const std::string& label)
{
  report(*S, kind, label, S->model);
  endPath();
}
[[noreturn]] static void unsupported(const std::string& what)
{
  inconclusive("unsupported: " + what + " at " + locOf(CI ? CI->I : nullptr));
  if (g_verbose) fprintf(stderr, "unsupported: %s\n  %s\n", what.c_str(), stackOf(*S).c_str());
  endPath();
}
static StateP cloneState(State& s)
{
  ++g_forks;
  StateP n(new State(s));
  n->depth++;
  return n;
}
// Both outcomes of `c`: returns the value chosen for the current state; the other feasible outcome is queued as a
// clone which will re-execute the current instruction.
static bool branchOn(E c)
{
  if (isC(c)) return c->c;
  const bool v = evalNow(*S, c);
  E other = v ? mkNot(c) : c;
  // already implied?
  for (size_t i = S->cs.size(); i-- > 0;)
  {
    if (S->cs[i] == other) { fprintf(stderr, "internal: model violates constraint\n"); abort(); }
    if (S->cs[i] == c && v) return true;
    if (!v && S->cs[i] == mkNot(c)) return false;
  }
  Model out;
  SR r = solveQuery(S->cs, other, S->model, out);
  if (r == R_UNKNOWN) inconclusive("solver gave no answer for a branch at " + locOf(CI->I));
  if (r == R_SAT)
  {
    if (g_verbose) g_forkSites[locOf(CI->I)]++;
    StateP n = cloneState(*S);
    n->model = out;
    addConstraint(*n, other);
    g_work.push_back(std::move(n));
    addConstraint(*S, mkNot(other));
  }
  else if (r == R_UNKNOWN)
    addConstraint(*S, mkNot(other));
  return v;
}
// fork over all feasible values of e, current state takes the model's value
static uint64_t enumerate(E e)
{
  if (isC(e)) return e->c;
  const uint64_t v = evalNow(*S, e);
  E eq = mkEq(e, mkConst(v, e->w));
  branchOn(eq);
  return v;
}

// ---------------------------------------------------------------- memory access
static uint64_t allocObj(uint64_t size, uint8_t kind, const std::string& name, bool undef)
{
  if (size > g_allocLimit) unsupported("allocation of " + std::to_string(size) + " bytes");
  uint64_t id;
  if (kind == 1 && !S->mem.freeIds.empty())
  {
    id = S->mem.freeIds.back();
    S->mem.freeIds.pop_back();
  }
  else
    id = S->mem.next++;
  ObjP o = std::make_shared<Obj>();
  o->base = id << ASHIFT;
  o->size = size;
  o->kind = kind;
  o->name = std::make_shared<std::string>(name);
  o->c.assign(size, 0);
  if (undef && g_uninitCheck)
  {
    SB u;
    u.e = UNDEF;
    o->s.assign(size, u);
  }
  *S->mem.slotW(id) = o;
  return o->base;
}
static Obj* objAt(uint64_t addr) { return S->mem.find(addr >> ASHIFT); }
static std::string describe(uint64_t addr)
{
  Obj* o = objAt(addr);
  if (addr < (1u << 20)) return "null-ish pointer " + hexv(addr);
  if (!o) return "dangling or wild pointer";
  return *o->name + " size " + std::to_string(o->size) + " offset " + std::to_string((int64_t)(addr - o->base));
}
static Obj* check(uint64_t addr, uint64_t n, bool write)
{
  Obj* o = objAt(addr);
  if (!o) violate("memory", std::string(write ? "write" : "read") + " through " + describe(addr));
  const uint64_t off = addr - o->base;
  if (off + n > o->size)
    violate("memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes: " + describe(addr));
  if (write && o->ro) violate("memory", "write to constant " + describe(addr));
  if (o->kind == 3) violate("memory", "access to function " + describe(addr));
  return o;
}
static E readE(Obj* o, uint64_t off, unsigned n)
{
  // any undefined byte: materialise fresh unconstrained bytes
  bool und = false;
  for (unsigned i = 0; i < n; ++i)
    if (o->s[off + i].e == UNDEF) und = true;
  if (und)
  {
    Obj* w = S->mem.writable(o->base >> ASHIFT);
    unsigned i = 0;
    while (i < n)
    {
      if (w->s[off + i].e != UNDEF) { ++i; continue; }
      unsigned j = i;
      while (j < n && w->s[off + j].e == UNDEF && j - i < 8) ++j;
      E v = mkVar("uninit:" + *w->name + "+" + std::to_string(off + i), (j - i) * 8);
      for (unsigned k = i; k < j; ++k) { w->s[off + k].e = v; w->s[off + k].i = k - i; }
      i = j;
    }
    o = w;
  }
  E r = nullptr;
  int i = (int)n - 1;
  while (i >= 0)
  {
    const SB& b = o->s[off + i];
    E p;
    int j = i;
    if (!b.e)
    {
      p = mkConst(o->c[off + i], 8);
      --i;
    }
    else
    {
      while (j - 1 >= 0 && o->s[off + j - 1].e == b.e && o->s[off + j - 1].i + 1 == o->s[off + j].i) --j;
      const unsigned cnt = i - j + 1;
      const unsigned lo = o->s[off + j].i * 8;
      E src = b.e;
      if (lo + cnt * 8 > src->w) src = mkZExt(src, lo + cnt * 8);
      p = mkExtract(src, lo, cnt * 8);
      i = j - 1;
    }
    r = r ? mkConcat(r, p) : p;
  }
  return r;
}
static Val readScalar(uint64_t addr, unsigned w)
{
  const unsigned n = (w + 7) / 8;
  Obj* o = check(addr, n, false);
  const uint64_t off = addr - o->base;
  bool sym = false;
  if (!o->s.empty())
    for (unsigned i = 0; i < n; ++i)
      if (o->s[off + i].e) { sym = true; break; }
  if (!sym && n <= 8)
  {
    uint64_t v = 0;
    memcpy(&v, &o->c[off], n);
    return Val(v & maskw(w));
  }
  if (!sym)
  {
    std::vector<uint64_t> wd((n + 7) / 8, 0);
    memcpy(wd.data(), &o->c[off], n);
    Val v;
    v.e = mkBig(APInt(n * 8, wd).trunc(w));
    return v;
  }
  E e = readE(o, off, n);
  if (w != n * 8) e = mkExtract(e, 0, w);
  return mkv(e);
}
static void writeScalar(uint64_t addr, const Val& v, unsigned w)
{
  const unsigned n = (w + 7) / 8;
  check(addr, n, true);
  Obj* o = S->mem.writable(addr >> ASHIFT);
  const uint64_t off = addr - o->base;
  if (!v.e)
  {
    uint64_t x = v.c;
    memcpy(&o->c[off], &x, n);
    if (!o->s.empty())
      for (unsigned i = 0; i < n; ++i) o->s[off + i].e = nullptr;
    return;
  }
  if (v.e->op == O_CONST)
  {
    APInt a = constAP(v.e).zext(n * 8);
    memcpy(&o->c[off], a.getRawData(), n);
    if (!o->s.empty())
      for (unsigned i = 0; i < n; ++i) o->s[off + i].e = nullptr;
    return;
  }
  E e = v.e;
  if (w != n * 8) e = mkZExt(e, n * 8);
  if (o->s.empty()) o->s.resize(o->size);
  for (unsigned i = 0; i < n; ++i) { o->s[off + i].e = e; o->s[off + i].i = i; }
}
static unsigned tyw(Type* t)
{
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  return 0;
}
static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned aggN(Type* t)
{
  if (auto* s = dyn_cast<StructType>(t)) return s->getNumElements();
  if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements();
  return cast<FixedVectorType>(t)->getNumElements();
}
static Type* aggT(Type* t, unsigned i)
{
  if (auto* s = dyn_cast<StructType>(t)) return s->getElementType(i);
  if (auto* a = dyn_cast<ArrayType>(t)) return a->getElementType();
  return cast<FixedVectorType>(t)->getElementType();
}
static uint64_t aggOff(Type* t, unsigned i)
{
  if (auto* s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i);
  if (auto* v = dyn_cast<FixedVectorType>(t)) return i * (DL->getTypeSizeInBits(v->getElementType()) / 8);
  return i * DL->getTypeAllocSize(aggT(t, i));
}
static Val loadAt(uint64_t addr, Type* t)
{
  if (isAgg(t))
  {
    if (t->isVectorTy() && tyw(aggT(t, 0)) % 8 != 0) unsupported("load of sub-byte vector");
    Val v;
    v.agg = std::make_shared<std::vector<Val>>(aggN(t));
    for (unsigned i = 0; i < v.agg->size(); ++i) (*v.agg)[i] = loadAt(addr + aggOff(t, i), aggT(t, i));
    return v;
  }
  const unsigned w = tyw(t);
  if (!w)
  {
    if (t->isX86_FP80Ty()) unsupported("x86_fp80 load");
    unsupported("load type");
  }
  return readScalar(addr, w);
}
static Val zeroOf(Type* t)
{
  Val v;
  if (isAgg(t))
  {
    v.agg = std::make_shared<std::vector<Val>>(aggN(t));
    for (unsigned i = 0; i < v.agg->size(); ++i) (*v.agg)[i] = zeroOf(aggT(t, i));
  }
  else if (tyw(t) > 64)
    v.e = mkBig(APInt(tyw(t), 0));
  return v;
}
static void storeAt(uint64_t addr, const Val& v, Type* t)
{
  if (isAgg(t))
  {
    if (t->isVectorTy() && tyw(aggT(t, 0)) % 8 != 0) unsupported("store of sub-byte vector");
    for (unsigned i = 0; i < v.agg->size(); ++i) storeAt(addr + aggOff(t, i), (*v.agg)[i], aggT(t, i));
    return;
  }
  const unsigned w = tyw(t);
  if (!w) unsupported("store type");
  writeScalar(addr, v, w);
}
// make the (symbolic) address refer to one known object for n bytes; returns that object
static Obj* resolveObj(E a, uint64_t n, bool write)
{
  const uint64_t av = evalNow(*S, a);
  Obj* o = check(av, n, write);
  E off = mkSub(a, mkConst(o->base, 64));
  E inb = mkUle(off, mkConst(o->size - n, 64));
  if (!isTrue(inb))
  {
    const bool v = branchOn(inb);
    if (!v) { fprintf(stderr, "internal: resolve\n"); abort(); }
  }
  return o;
}
static Val loadV(const Val& a, Type* t)
{
  if (!a.e) return loadAt(a.c, t);
  const uint64_t n = DL->getTypeStoreSize(t);
  Obj* o = resolveObj(a.e, n, false);
  E off = mkSub(a.e, mkConst(o->base, 64));
  if (isC(off)) return loadAt(o->base + off->c, t);
  if (!isAgg(t) && tyw(t) <= 64)
  {
    const unsigned z = std::min(knownZeroLow(off), 12u);
    const uint64_t stride = 1ULL << z;
    uint64_t lo = off->ulo, hi = std::min<uint64_t>(off->uhi, o->size - n);
    lo = (lo + stride - 1) / stride * stride;
    if (hi >= lo && (hi - lo) / stride + 1 <= (uint64_t)g_iteLimit)
    {
      const uint64_t base = o->base;
      // balanced tree
      std::vector<std::pair<uint64_t, E>> v;
      for (uint64_t x = lo; x <= hi; x += stride) v.push_back({x, toE(readScalar(base + x, tyw(t)), tyw(t))});
      std::function<E(size_t, size_t)> tree = [&](size_t l, size_t r) -> E
      {
        if (l + 1 == r) return v[l].second;
        bool all = true;
        for (size_t i = l + 1; i < r; ++i)
          if (v[i].second != v[l].second) { all = false; break; }
        if (all) return v[l].second;
        const size_t m = (l + r) / 2;
        E x = tree(l, m), y = tree(m, r);
        if (x == y) return x;
        return mkIte(mkUlt(off, mkConst(v[m].first, 64)), x, y);
      };
      return mkv(tree(0, v.size()));
    }
  }
  const uint64_t x = enumerate(off);
  return loadAt(o->base + x, t);
}
static void storeV(const Val& a, const Val& v, Type* t)
{
  if (!a.e) { storeAt(a.c, v, t); return; }
  const uint64_t n = DL->getTypeStoreSize(t);
  Obj* o = resolveObj(a.e, n, true);
  const uint64_t base = o->base;
  E off = mkSub(a.e, mkConst(base, 64));
  if (isC(off)) { storeAt(base + off->c, v, t); return; }
  if (!isAgg(t) && tyw(t) <= 64)
  {
    const unsigned z = std::min(knownZeroLow(off), 12u);
    const uint64_t stride = 1ULL << z;
    uint64_t lo = off->ulo, hi = std::min<uint64_t>(off->uhi, o->size - n);
    lo = (lo + stride - 1) / stride * stride;
    if (stride >= n && hi >= lo && (hi - lo) / stride + 1 <= (uint64_t)g_iteStoreLimit)
    {
      const unsigned w = tyw(t);
      for (uint64_t x = lo; x <= hi; x += stride)
      {
        E old = toE(readScalar(base + x, w), w);
        writeScalar(base + x, mkv(mkIte(mkEq(off, mkConst(x, 64)), toE(v, w), old)), w);
      }
      return;
    }
  }
  const uint64_t x = enumerate(off);
  storeAt(base + x, v, t);
}
static uint64_t concAddr(const Val& a, uint64_t n, bool write)
{
  if (!a.e) return a.c;
  Obj* o = resolveObj(a.e, n ? n : 1, write);
  (void)o;
  return enumerate(a.e);
}
static void memCopy(uint64_t d, uint64_t s, uint64_t n)
{
  if (!n) return;
  Obj* so = check(s, n, false);
  check(d, n, true);
  Obj* dobj = S->mem.writable(d >> ASHIFT);
  so = objAt(s);
  const uint64_t doff = d - dobj->base, soff = s - so->base;
  if (so == dobj)
  {
    memmove(&dobj->c[doff], &dobj->c[soff], n);
    if (!dobj->s.empty())
    {
      std::vector<SB> t(dobj->s.begin() + soff, dobj->s.begin() + soff + n);
      std::copy(t.begin(), t.end(), dobj->s.begin() + doff);
    }
    return;
  }
  memcpy(&dobj->c[doff], &so->c[soff], n);
  if (!so->s.empty())
  {
    bool any = false;
    for (uint64_t i = 0; i < n && !any; ++i) any = so->s[soff + i].e != nullptr;
    if (any || !dobj->s.empty())
    {
      if (dobj->s.empty()) dobj->s.resize(dobj->size);
      for (uint64_t i = 0; i < n; ++i) dobj->s[doff + i] = so->s[soff + i];
    }
  }
  else if (!dobj->s.empty())
    for (uint64_t i = 0; i < n; ++i) dobj->s[doff + i].e = nullptr;
}
static void memSet(uint64_t d, const Val& v, uint64_t n)
{
  if (!n) return;
  check(d, n, true);
  Obj* o = S->mem.writable(d >> ASHIFT);
  const uint64_t off = d - o->base;
  if (!v.e)
  {
    memset(&o->c[off], (int)v.c, n);
    if (!o->s.empty())
      for (uint64_t i = 0; i < n; ++i) o->s[off + i].e = nullptr;
    return;
  }
  E b = v.e->w > 8 ? mkExtract(v.e, 0, 8) : v.e;
  for (uint64_t i = 0; i < n; ++i) writeScalar(d + i, mkv(b), 8);
}
static std::string readCStr(uint64_t a)
{
  std::string r;
  for (int i = 0; i < 4000; ++i)
  {
    Val v = readScalar(a + i, 8);
    if (v.e) { r += '?'; continue; }
    if (!v.c) break;
    r += (char)v.c;
  }
  return r;
}

// ---------------------------------------------------------------- constants
static uint64_t funcAddr(Function* F);
static Val constVal(Constant* C)
{
  Type* t = C->getType();
  if (auto* ci = dyn_cast<ConstantInt>(C))
  {
    if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue());
    Val v;
    v.e = mkBig(ci->getValue());
    return v;
  }
  if (auto* cf = dyn_cast<ConstantFP>(C))
  {
    APInt a = cf->getValueAPF().bitcastToAPInt();
    if (a.getBitWidth() <= 64) return Val(a.getZExtValue());
    Val v;
    v.e = mkBig(a);
    return v;
  }
  if (isa<ConstantPointerNull>(C)) return Val(0);
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return zeroOf(t);
  if (auto* f = dyn_cast<Function>(C)) return Val(funcAddr(f));
  if (auto* ga = dyn_cast<GlobalAlias>(C)) return constVal(ga->getAliasee());
  if (auto* g = dyn_cast<GlobalVariable>(C)) return Val(g_gaddr.at(g));
  if (isa<ConstantTokenNone>(C)) return Val(0);
  if (auto* ds = dyn_cast<ConstantDataSequential>(C))
  {
    Val v;
    v.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < ds->getNumElements(); ++i) v.agg->push_back(constVal(ds->getElementAsConstant(i)));
    return v;
  }
  if (isa<ConstantAggregate>(C))
  {
    Val v;
    v.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < C->getNumOperands(); ++i) v.agg->push_back(constVal(cast<Constant>(C->getOperand(i))));
    return v;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(C))
  {
    auto op = [&](unsigned i) { return constVal(cast<Constant>(ce->getOperand(i))); };
    switch (ce->getOpcode())
    {
      case Instruction::GetElementPtr:
      {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) break;
        return Val(op(0).c + off.getSExtValue());
      }
      case Instruction::PtrToInt: case Instruction::Trunc: return Val(op(0).c & maskw(tyw(t)));
      case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::ZExt: return op(0);
      case Instruction::Add: return Val((op(0).c + op(1).c) & maskw(tyw(t)));
      case Instruction::Sub: return Val((op(0).c - op(1).c) & maskw(tyw(t)));
      case Instruction::Mul: return Val((op(0).c * op(1).c) & maskw(tyw(t)));
      case Instruction::And: return Val(op(0).c & op(1).c);
      case Instruction::Or: return Val(op(0).c | op(1).c);
      case Instruction::Xor: return Val(op(0).c ^ op(1).c);
      case Instruction::ICmp:
      {
        const uint64_t a = op(0).c, b = op(1).c;
        switch (ce->getPredicate())
        {
          case CmpInst::ICMP_EQ: return Val(a == b);
          case CmpInst::ICMP_NE: return Val(a != b);
          case CmpInst::ICMP_UGT: return Val(a > b);
          case CmpInst::ICMP_ULT: return Val(a < b);
          default: break;
        }
        break;
      }
      default: break;
    }
    std::string s;
    raw_string_ostream os(s);
    ce->print(os);
    unsupported("constant expression " + s);
  }
  unsupported("constant kind");
}
static void initMem(uint64_t addr, Constant* C)
{
  Type* t = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
  if (auto* ds = dyn_cast<ConstantDataSequential>(C))
  {
    Obj* o = S->mem.writable(addr >> ASHIFT);
    StringRef raw = ds->getRawDataValues();
    memcpy(&o->c[addr - o->base], raw.data(), raw.size());
    return;
  }
  if (isa<ConstantAggregate>(C))
  {
    for (unsigned i = 0; i < C->getNumOperands(); ++i) initMem(addr + aggOff(t, i), cast<Constant>(C->getOperand(i)));
    return;
  }
  if (t->isX86_FP80Ty()) return;
  storeAt(addr, constVal(C), t);
}
static uint64_t funcAddr(Function* F)
{
  auto it = g_gaddr.find(F);
  if (it != g_gaddr.end()) return it->second;
  unsupported("function address " + F->getName().str());
}

// ---------------------------------------------------------------- decoding
static FnInfo* info(Function* F)
{
  auto& p = g_fn[F];
  if (p) return p.get();
  p.reset(new FnInfo);
  FnInfo* fi = p.get();
  fi->F = F;
  std::unordered_map<Value*, int> num;
  std::unordered_map<BasicBlock*, int> bbn;
  int n = 0;
  for (auto& a : F->args()) num[&a] = n++;
  fi->nargs = n;
  int bi = 0;
  for (auto& b : *F)
  {
    bbn[&b] = bi++;
    for (auto& i : b)
      if (!i.getType()->isVoidTy()) num[&i] = n++;
  }
  fi->nregs = n;
  auto opnd = [&](Value* v) -> Opnd
  {
    Opnd o;
    if (auto* c = dyn_cast<Constant>(v)) o.k = constVal(c);
    else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) {}
    else o.reg = num.at(v);
    return o;
  };
  for (auto& b : *F)
  {
    fi->bb.emplace_back();
    DBlock& db = fi->bb.back();
    for (auto& i : b)
    {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      if (auto* ii = dyn_cast<IntrinsicInst>(&i))
      {
        auto id = ii->getIntrinsicID();
        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume ||
            id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::prefetch)
          continue;
      }
      DInst d;
      d.I = &i;
      d.opc = i.getOpcode();
      d.ty = i.getType();
      d.w = tyw(d.ty);
      if (!d.ty->isVoidTy()) d.dst = num[&i];
      switch (d.opc)
      {
        case Instruction::PHI:
        {
          auto* ph = cast<PHINode>(&i);
          for (unsigned k = 0; k < ph->getNumIncomingValues(); ++k)
            d.phi.push_back({bbn[ph->getIncomingBlock(k)], opnd(ph->getIncomingValue(k))});
          db.nphi++;
          break;
        }
        case Instruction::Br:
        {
          auto* br = cast<BranchInst>(&i);
          if (br->isConditional()) d.ops.push_back(opnd(br->getCondition()));
          for (unsigned k = 0; k < br->getNumSuccessors(); ++k) d.succ.push_back(bbn[br->getSuccessor(k)]);
          break;
        }
        case Instruction::Switch:
        {
          auto* sw = cast<SwitchInst>(&i);
          d.ops.push_back(opnd(sw->getCondition()));
          d.kw = tyw(sw->getCondition()->getType());
          d.succ.push_back(bbn[sw->getDefaultDest()]);
          for (auto& c : sw->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), bbn[c.getCaseSuccessor()]});
          break;
        }
        case Instruction::Invoke:
        case Instruction::Call:
        {
          auto* cb = cast<CallBase>(&i);
          for (auto& a : cb->args()) d.ops.push_back(opnd(a.get()));
          d.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
          if (!d.callee)
            if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) d.callee = dyn_cast<Function>(ga->getAliaseeObject());
          if (d.callee) d.intrin = d.callee->getIntrinsicID();
          else d.ops.push_back(opnd(cb->getCalledOperand()));
          if (auto* iv = dyn_cast<InvokeInst>(&i))
          {
            d.succ.push_back(bbn[iv->getNormalDest()]);
            d.succ.push_back(bbn[iv->getUnwindDest()]);
          }
          break;
        }
        case Instruction::GetElementPtr:
        {
          auto* g = cast<GetElementPtrInst>(&i);
          if (g->getType()->isVectorTy()) { d.opc = 0; break; }
          d.ops.push_back(opnd(g->getPointerOperand()));
          int64_t off = 0;
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
          {
            Value* idx = it.getOperand();
            if (StructType* st = it.getStructTypeOrNull())
              off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            else
            {
              const int64_t sc = it.getSequentialElementStride(*DL);
              if (auto* ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * sc;
              else
              {
                d.gep.push_back({(int)d.ops.size(), sc});
                d.gepw.push_back(tyw(idx->getType()));
                d.ops.push_back(opnd(idx));
              }
            }
          }
          d.imm = (uint64_t)off;
          break;
        }
        case Instruction::Alloca:
        {
          auto* a = cast<AllocaInst>(&i);
          d.imm = DL->getTypeAllocSize(a->getAllocatedType());
          d.ops.push_back(opnd(a->getArraySize()));
          break;
        }
        case Instruction::Store:
          d.ops.push_back(opnd(i.getOperand(0)));
          d.ops.push_back(opnd(i.getOperand(1)));
          d.ty = i.getOperand(0)->getType();
          break;
        case Instruction::LandingPad:
          break;
        default:
          for (auto& o : i.operands()) d.ops.push_back(opnd(o.get()));
          if (i.getNumOperands()) d.kw = tyw(i.getOperand(0)->getType());
          break;
      }
      db.in.push_back(std::move(d));
    }
  }
  return fi;
}
static inline const Val& get(const Opnd& o, Frame& f) { return o.reg >= 0 ? f.r[o.reg] : o.k; }
static void jump(State& s, int to)
{
  Frame& f = s.st.back();
  const int from = f.bb;
  f.prev = from;
  f.bb = to;
  DBlock& b = f.f->bb[to];
  if (b.nphi)
  {
    static std::vector<Val> tmp;
    tmp.clear();
    for (unsigned i = 0; i < b.nphi; ++i)
    {
      DInst& d = b.in[i];
      d.seen = true;
      for (auto& p : d.phi)
        if (p.first == from) { tmp.push_back(get(p.second, f)); break; }
    }
    for (unsigned i = 0; i < b.nphi; ++i) f.r[b.in[i].dst] = tmp[i];
  }
  f.pc = b.nphi;
}
static void pushCall(State& s, Function* F, std::vector<Val> args)
{
  if (s.st.size() > 400) violate("stack", "call depth over 400 (runaway recursion)");
  FnInfo* fi = info(F);
  Frame fr;
  fr.f = fi;
  fr.r.resize(fi->nregs);
  for (size_t i = 0; i < args.size(); ++i)
  {
    if ((int)i < fi->nargs) fr.r[i] = args[i];
    else fr.va.push_back(args[i]);
  }
  // byval arguments: private copy
  for (auto& a : F->args())
    if (a.hasByValAttr())
    {
      const uint64_t n = DL->getTypeAllocSize(a.getParamByValType());
      const uint64_t b = allocObj(n, 1, "byval", true);
      memCopy(b, fr.r[a.getArgNo()].c, n);
      fr.allocas.push_back(b >> ASHIFT);
      fr.r[a.getArgNo()] = Val(b);
    }
  fr.bb = 0;
  fr.pc = 0;
  s.st.push_back(std::move(fr));
}
static void popFrame(State& s)
{
  for (uint32_t id : s.st.back().allocas)
  {
    s.mem.kill(id);
    s.mem.freeIds.push_back(id);
  }
  s.st.pop_back();
}

// ---------------------------------------------------------------- exceptions
static std::map<std::string, std::string> g_stdBase = {
    {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
static std::unordered_map<uint64_t, GlobalVariable*> g_gvAt;
static bool tiMatches(uint64_t ti, uint64_t want, int depth = 0)
{
  if (want == 0 || ti == want) return true;
  if (depth > 12) return false;
  auto* g = g_gvAt.count(ti) ? g_gvAt[ti] : nullptr;
  auto* gw = g_gvAt.count(want) ? g_gvAt[want] : nullptr;
  if (!g) return false;
  if (gw && g->getName() == gw->getName()) return true;
  if (!g->hasInitializer())
  {
    std::string n = g->getName().str();
    while (g_stdBase.count(n))
    {
      n = g_stdBase[n];
      if (gw && gw->getName() == n) return true;
    }
    return false;
  }
  auto* cs = dyn_cast<ConstantStruct>(g->getInitializer());
  if (!cs) return false;
  if (cs->getNumOperands() == 3)
    return tiMatches(constVal(cs->getOperand(2)).c, want, depth + 1);
  if (cs->getNumOperands() > 4)  // __vmi_class_type_info
    for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2)
      if (tiMatches(constVal(cs->getOperand(i)).c, want, depth + 1)) return true;
  return false;
}
[[noreturn]] static void unwind()
{
  // phase 1: is there a handler?
  bool handler = false;
  for (int i = (int)S->st.size() - 1; i >= 0 && !handler; --i)
  {
    Frame& f = S->st[i];
    DInst& d = f.f->bb[f.bb].in[f.pc];
    if (d.opc != Instruction::Invoke) continue;
    auto* lp = cast<InvokeInst>(d.I)->getLandingPadInst();
    for (unsigned k = 0; k < lp->getNumClauses(); ++k)
      if (lp->isCatch(k) && tiMatches(S->excTi, constVal(lp->getClause(k)).c)) handler = true;
  }
  if (!handler)
  {
    std::string n = g_gvAt.count(S->excTi) ? g_gvAt[S->excTi]->getName().str() : "?";
    violate("exception", "uncaught exception " + n);
  }
  while (!S->st.empty())
  {
    Frame& f = S->st.back();
    DInst& d = f.f->bb[f.bb].in[f.pc];
    if (d.opc == Instruction::Invoke)
    {
      auto* lp = cast<InvokeInst>(d.I)->getLandingPadInst();
      bool enter = lp->isCleanup();
      uint64_t sel = 0;
      for (unsigned k = 0; k < lp->getNumClauses(); ++k)
        if (lp->isCatch(k))
        {
          const uint64_t want = constVal(lp->getClause(k)).c;
          if (tiMatches(S->excTi, want)) { enter = true; sel = want ? (want >> ASHIFT) & 0x7fffffff : 1; break; }
        }
      if (enter)
      {
        jump(*S, d.succ[1]);
        Frame& g = S->st.back();
        DBlock& b = g.f->bb[g.bb];
        // landingpad is the first non-phi
        DInst& l = b.in[b.nphi];
        Val v;
        v.agg = std::make_shared<std::vector<Val>>(2);
        (*v.agg)[0] = Val(S->excPtr);
        (*v.agg)[1] = Val(sel);
        g.r[l.dst] = v;
        g.pc = b.nphi + 1;
        throw Refork();
      }
    }
    popFrame(*S);
  }
  endPath();
}
static void throwStd(const char* ti)
{
  GlobalVariable* g = M->getNamedGlobal(ti);
  S->excPtr = allocObj(64, 2, "std-exception", false);
  if (!g)
    violate("exception", std::string("uncaught exception ") + ti);
  S->excTi = g_gaddr[g];
  unwind();
}

// ---------------------------------------------------------------- libm
static E libmVar(const std::string& fn, unsigned w, std::vector<E> args)
{
  static std::map<std::pair<std::string, std::vector<E>>, E> memo;
  auto key = std::make_pair(fn + std::to_string(w), args);
  auto it = memo.find(key);
  E v;
  if (it != memo.end()) v = it->second;
  else
  {
    const FI r = fiLibm(fn, w, fiOf(args[0], w), args.size() > 1 ? fiOf(args[1], w) : FI{0, 0, false});
    const double lo = r.lo, hi = r.hi;
    const bool dom = !r.nan && std::isfinite(lo) && std::isfinite(hi);
    v = dom ? mkVarF("libm:" + fn, w, lo, hi) : mkVar("libm:" + fn, w);
    g_vars[v->aux].fn = fn;
    g_vars[v->aux].args = args;
    memo[key] = v;
  }
  g_libmUse[fn]++;
  // axioms (valid for the native function)
  auto C = [&](double d) { return mkFConst(d, w); };
  auto LE = [&](E a, E b) { return mkF2(F_LE, a, b); };
  auto LT = [&](E a, E b) { return mkF2(F_LT, a, b); };
  std::vector<E> ax;
  auto finE = [&](E a) { return LT(mkF1(F_ABS, a, w), C(w == 32 ? 1e30 : 1e200)); };
  if (fn == "atan2")
  {
    E y = args[0], x = args[1];
    ax.push_back(mkImplies(LT(C(0), y), LE(C(0), v)));
    ax.push_back(mkImplies(LT(y, C(0)), LE(v, C(0))));
    const double H = (w == 32 ? (double)nextafterf((float)M_PI_2, 10.f) : nextafter(M_PI_2, 10.0));
    ax.push_back(mkImplies(LT(C(0), x), mkAnd1(LE(v, C(H)), LE(C(-H), v))));
  }
  else if (fn == "hypot")
  {
    E a = mkF1(F_ABS, args[0], w), b = mkF1(F_ABS, args[1], w);
    E f = mkAnd1(finE(args[0]), finE(args[1]));
    ax.push_back(mkImplies(f, mkAnd1(LE(a, v), LE(b, v))));
    ax.push_back(mkImplies(f, LE(v, mkF2(F_MUL, mkF2(F_ADD, a, b), C(1.0000002)))));
    // v*v close to a*a+b*b
    E s = mkF2(F_ADD, mkF2(F_MUL, a, a), mkF2(F_MUL, b, b)), q = mkF2(F_MUL, v, v);
    const double u = w == 32 ? 1e-6 : 1e-14;
    ax.push_back(mkImplies(f, mkAnd1(LE(q, mkF2(F_ADD, mkF2(F_MUL, s, C(1 + u)), C(1e-30))), LE(mkF2(F_MUL, s, C(1 - u)), mkF2(F_ADD, q, C(1e-30))))));
  }
  else if (fn == "exp")
  {
    ax.push_back(mkImplies(LE(args[0], C(0)), mkAnd1(LE(C(0), v), LE(v, C(1)))));
    ax.push_back(mkImplies(LE(C(0), args[0]), LE(C(1), v)));
  }
  else if (fn == "log")
  {
    ax.push_back(mkImplies(LE(args[0], C(1)), mkOr1(LE(v, C(0)), mkFNan(v))));
    ax.push_back(mkImplies(LE(C(1), args[0]), LE(C(0), v)));
  }
  else if (fn == "fmod")
  {
    E x = args[0], y = args[1];
    E g = mkAnd1(finE(x), mkAnd1(finE(y), mkNot(mkF2(F_EQ, y, C(0)))));
    ax.push_back(mkImplies(g, mkAnd1(LT(mkF1(F_ABS, v, w), mkF1(F_ABS, y, w)), LE(mkF1(F_ABS, v, w), mkF1(F_ABS, x, w)))));
    ax.push_back(mkImplies(mkAnd1(g, LE(C(0), x)), LE(C(0), v)));
    ax.push_back(mkImplies(mkAnd1(g, LE(x, C(0))), LE(v, C(0))));
    ax.push_back(mkImplies(mkAnd1(g, LT(mkF1(F_ABS, x, w), mkF1(F_ABS, y, w))), mkF2(F_EQ, v, x)));
  }
  else if (fn == "remainder")
  {
    // exact: x - n*y; spelled out for |n| <= 2, where the subtraction does not round
    E x = args[0], y = mkF1(F_ABS, args[1], w);
    E g = mkAnd1(finE(x), mkAnd1(finE(y), LT(C(w == 32 ? 1e-30 : 1e-200), y)));
    auto M = [&](double k) { return mkF2(F_MUL, y, C(k)); };
    ax.push_back(mkImplies(g, LE(mkF1(F_ABS, v, w), M(0.5))));
    ax.push_back(mkImplies(mkAnd1(g, LT(mkF1(F_ABS, x, w), M(0.5))), mkF2(F_EQ, v, x)));
    ax.push_back(mkImplies(mkAnd1(g, mkAnd1(LT(M(0.5), x), LE(x, y))), mkF2(F_EQ, v, mkF2(F_SUB, x, y))));
    ax.push_back(mkImplies(mkAnd1(g, mkAnd1(LT(mkF1(F_NEG, M(1), w), x), LT(x, mkF1(F_NEG, M(0.5), w)))), mkF2(F_EQ, v, mkF2(F_ADD, x, y))));
    ax.push_back(mkImplies(mkAnd1(g, mkAnd1(LE(y, x), LE(x, M(1.4999)))), mkF2(F_EQ, v, mkF2(F_SUB, x, y))));
    ax.push_back(mkImplies(mkAnd1(g, mkAnd1(LE(mkF1(F_NEG, M(1.4999), w), x), LE(x, mkF1(F_NEG, M(1), w)))), mkF2(F_EQ, v, mkF2(F_ADD, x, y))));
    ax.push_back(mkImplies(mkAnd1(g, mkAnd1(LE(M(1.5001), x), LE(x, M(2.4999)))), mkF2(F_EQ, v, mkF2(F_SUB, x, M(2)))));
    ax.push_back(mkImplies(mkAnd1(g, mkAnd1(LE(mkF1(F_NEG, M(2.4999), w), x), LE(x, mkF1(F_NEG, M(1.5001), w)))), mkF2(F_EQ, v, mkF2(F_ADD, x, M(2)))));
    // up to four turns: within the rounding of the product
    for (int k = 3; k <= 4; ++k)
      for (int sg = -1; sg <= 1; sg += 2)
      {
        E n = M(k), lo = M(k - 0.4999), hi = M(k + 0.4999);
        E in = sg > 0 ? mkAnd1(LE(lo, x), LE(x, hi)) : mkAnd1(LE(mkF1(F_NEG, hi, w), x), LE(x, mkF1(F_NEG, lo, w)));
        E d = mkF2(F_SUB, v, sg > 0 ? mkF2(F_SUB, x, n) : mkF2(F_ADD, x, n));
        ax.push_back(mkImplies(mkAnd1(g, in), LE(mkF1(F_ABS, d, w), mkF2(F_MUL, y, C(w == 32 ? 1e-6 : 1e-14)))));
      }
  }
  else if (fn == "sin" || fn == "cos")
  {
    E a = args[0];
    if (fn == "cos") ax.push_back(mkImplies(mkAnd1(LE(C(-1.5707), a), LE(a, C(1.5707))), LE(C(0), v)));
    else
    {
      ax.push_back(mkImplies(mkAnd1(LE(C(0), a), LE(a, C(3.1415))), LE(C(0), v)));
      ax.push_back(mkImplies(mkAnd1(LE(a, C(0)), LE(C(-3.1415), a)), LE(v, C(0))));
    }
  }
  else if (fn == "tan")
  {
    E a = args[0];
    ax.push_back(mkImplies(mkAnd1(LE(C(0), a), LE(a, C(1.5707))), mkAnd1(LE(C(0), v), LT(v, C(1e5)))));
  }
  Model m2 = S->model;
  for (E x : ax)
    if (!isTrue(x))
    {
      std::vector<E> ps{x};
      while (!ps.empty())
      {
        E p = ps.back();
        ps.pop_back();
        g_axioms.insert(p);
        if (p->op == O_AND && p->w == 1) ps.push_back(p->k[0]), ps.push_back(p->k[1]);
      }
      bool have = false;
      for (E c : S->cs)
        if (c == x) { have = true; break; }
      if (!have) addConstraint(*S, x);
    }
  // keep the model consistent: use the native value
  std::vector<uint64_t> av;
  evalBegin();
  for (E a : args) av.push_back(evalExpr(a, S->model));
  uint64_t nv;
  if (nativeLibm(fn, w, av, nv))
  {
    // only if not already fixed by another value in this state
    bool isset = v->aux < S->model.has.size() && S->model.has[v->aux];
    bool used = false;
    if (isset)
      for (E c : S->cs)
        if (dependsOn(c, v->aux)) used = true;
    Model t = S->model;
    if (!isset || !used || true)
    {
      t.set(v->aux, nv);
      evalBegin();
      bool ok = true;
      for (E c : S->cs)
        if (!evalExpr(c, t)) { ok = false; break; }
      if (ok) S->model = t;
      else
      {
        evalBegin();
        bool cur = true;
        for (E c : S->cs)
          if (!evalExpr(c, S->model)) { cur = false; break; }
        if (!cur)
        {
          Model out;
          E all = mkTrue();
          for (E x : ax) all = mkAnd1(all, x);
          SR r = solveQuery(S->cs, all, S->model, out);
          if (r == R_SAT) S->model = out;
          else if (r == R_UNSAT) endPath();
          else { inconclusive("libm axioms: no model"); endPath(); }
        }
      }
    }
  }
  return v;
}
static Val doLibm(const std::string& fn, unsigned w, const std::vector<Val>& a)
{
  bool conc = true;
  for (auto& v : a)
    if (v.e) conc = false;
  if (conc)
  {
    std::vector<uint64_t> x;
    for (auto& v : a) x.push_back(v.c);
    uint64_t r;
    if (!nativeLibm(fn, w, x, r)) unsupported("libm " + fn);
    return Val(r);
  }
  std::vector<E> args;
  for (auto& v : a) args.push_back(toE(v, w));
  if (fn == "atan2" && isC(args[0]) && (args[0]->c & ~(1ULL << (w - 1))) == 0 && !fiOf(args[1], w).nan)
  {
    // on the axis: the sign of x decides
    const bool ng = args[0]->c != 0;
    const double pi = w == 32 ? (double)(float)M_PI : M_PI;
    return mkv(mkIte(mkExtract(args[1], w - 1, 1), mkFConst(ng ? -pi : pi, w), args[0]));
  }
  if (fn == "hypot" && w == 32)
  {
    // glibc: sqrt((double)x*x + (double)y*y), rounded to float
    E x = mkF1(F_EXT, args[0], 64), y = mkF1(F_EXT, args[1], 64);
    E r = mkF1(F_SQRT, mkF2(F_ADD, mkF2(F_MUL, x, x), mkF2(F_MUL, y, y)), 64);
    return mkv(mkF1(F_TRUNC, r, 32));
  }
  if (fn == "pow" && isC(args[1]))
  {
    const double p = w == 32 ? b2f(args[1]->c) : b2d(args[1]->c);
    if (p == 2.0) return mkv(mkF2(F_MUL, args[0], args[0]));
    if (p == 1.0) return mkv(args[0]);
    if (p == 0.5) return mkv(mkF1(F_SQRT, args[0], w));
  }
  return mkv(libmVar(fn, w, args));
}
static Val fmm(bool mx, unsigned w, const Val& a, const Val& b)
{
  if (!a.e && !b.e)
  {
    if (w == 32) return Val(f2b(mx ? fmaxf(b2f(a.c), b2f(b.c)) : fminf(b2f(a.c), b2f(b.c))));
    return Val(d2b(mx ? fmax(b2d(a.c), b2d(b.c)) : fmin(b2d(a.c), b2d(b.c))));
  }
  E x = toE(a, w), y = toE(b, w);
  E r = mx ? mkIte(mkF2(F_LT, x, y), y, x) : mkIte(mkF2(F_LT, y, x), y, x);
  r = mkIte(mkFNan(x), y, r);
  return mkv(r);
}

// ---------------------------------------------------------------- harness API and externals
static void setRet(DInst& d, const Val& v)
{
  if (d.dst >= 0) S->st.back().r[d.dst] = v;
}
static void pushInput(const std::string& name, unsigned w, E e)
{
  S->in.push_back({name, w, e});
  if (e->op == O_VAR) g_vars[e->aux].is_input = true;
  g_inputsMax = std::max<uint64_t>(g_inputsMax, S->in.size());
}
// The k-th input created on a path with a given name/domain is the same variable on every path.
static E inputVar(const std::string& name, unsigned w, int dom, int64_t lo, int64_t hi, double flo, double fhi)
{
  static std::map<std::tuple<size_t, std::string, unsigned, int, int64_t, int64_t, double, double>, E> memo;
  auto key = std::make_tuple(S->in.size(), name, w, dom, lo, hi, flo, fhi);
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  E e;
  if (dom == 1) e = mkVarU(name, w, (uint64_t)lo, (uint64_t)hi);
  else if (dom == 2) e = mkVarS(name, w, lo, hi);
  else if (dom == 3) e = mkVarF(name, w, flo, fhi);
  else e = mkVar(name, w);
  memo[key] = e;
  return e;
}
static void doCheck(E c, const std::string& label)
{
  auto& st = g_checks[label];
  ++st.reached;
  if (isTrue(c)) { ++st.trivial; return; }
  if (isFalse(c) || !evalNow(*S, c))
  {
    report(*S, "assert", label, S->model, mkNot(c));
    // continue on the part of the path where the assertion holds
    if (isFalse(c)) endPath();
    Model out;
    SR r = solveQuery(S->cs, c, S->model, out);
    if (r != R_SAT) endPath();
    S->model = out;
    addConstraint(*S, c);
    return;
  }
  Model out;
  SR r = solveQuery(S->cs, mkNot(c), S->model, out);
  if (r == R_UNSAT) { ++st.solver; return; }
  if (r == R_UNKNOWN)
  {
    inconclusive("solver gave no answer for assertion: " + label);
    return;
  }
  // does the violation survive the abstraction of libm?
  report(*S, "assert", label, out, mkNot(c));
  addConstraint(*S, c);
}
static std::map<std::string, std::function<bool(DInst&, std::vector<Val>&)>> g_ext;
static double asD(const Val& v) { return b2d(v.c); }
static std::string argStr(const Val& v)
{
  if (v.e) return "?";
  return readCStr(v.c);
}
static Val fpRound(const Val& a, unsigned w, uint32_t mode)
{
  if (!a.e) return Val(evalOp(F_RTI, w, mode, w, a.c, 0, 0));
  return mkv(mkF1(F_RTI, a.e, w, mode));
}
static Val fpToInt(const Val& a, unsigned kw, unsigned w, uint32_t mode)
{
  E x = toE(a, kw);
  return mkv(mkF1(F_F2SI, x, w, mode));
}
static void initExt()
{
#define EXT(n) g_ext[n] = [](DInst & d, std::vector<Val> & a) -> bool
  EXT("sx_u") { std::string n = argStr(a[0]); E e = inputVar(n, a[1].c, 1, (int64_t)a[2].c, (int64_t)a[3].c, 0, 0);
    pushInput(n, a[1].c, e); setRet(d, mkv(mkZExt(e, 64))); return true; };
  EXT("sx_s") { std::string n = argStr(a[0]); const unsigned w = a[1].c; E e = inputVar(n, w, 2, (int64_t)a[2].c, (int64_t)a[3].c, 0, 0);
    pushInput(n, w, e); setRet(d, mkv(mkSExt(e, 64))); return true; };
  EXT("sx_f32") { std::string n = argStr(a[0]); E e = inputVar(n, 32, 3, 0, 0, b2f(a[1].c), b2f(a[2].c));
    pushInput(n, 32, e); setRet(d, mkv(e)); return true; };
  EXT("sx_f64") { std::string n = argStr(a[0]); E e = inputVar(n, 64, 3, 0, 0, asD(a[1]), asD(a[2]));
    pushInput(n, 64, e); setRet(d, mkv(e)); return true; };
  EXT("sx_raw32") { std::string n = argStr(a[0]); E e = inputVar(n, 32, 0, 0, 0, 0, 0); pushInput(n, 32, e); setRet(d, mkv(e)); return true; };
  EXT("sx_raw64") { std::string n = argStr(a[0]); E e = inputVar(n, 64, 0, 0, 0, 0, 0); pushInput(n, 64, e); setRet(d, mkv(e)); return true; };
  EXT("sx_assume") {
    E c = toE(a[0], 32);
    c = mkNot(mkEq(c, mkConst(0, 32)));
    if (isTrue(c)) return true;
    if (isFalse(c)) { ++g_pathsAssume; endPath(); }
    if (!evalNow(*S, c))
    {
      Model out;
      SR r = solveQuery(S->cs, c, S->model, out);
      if (r == R_UNSAT) { ++g_pathsAssume; endPath(); }
      if (r == R_UNKNOWN) { inconclusive("solver gave no answer for an assumption at " + locOf(CI->I)); endPath(); }
      S->model = out;
    }
    addConstraint(*S, c);
    return true;
  };
  EXT("sx_check") { E c = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32))); doCheck(c, argStr(a[1])); return true; };
  EXT("sx_fail") { std::string l = argStr(a[0]); g_checks[l].reached++; report(*S, "assert", l, S->model); endPath(); };
  EXT("sx_pass") { g_checks[argStr(a[0])].reached++; g_checks[argStr(a[0])].trivial++; return true; };
  EXT("sx_reach") { g_reach[argStr(a[0])]++; return true; };
  EXT("sx_end") { ++g_paths; endPath(); };
  EXT("sx_fork") { const unsigned w = 64; setRet(d, Val(enumerate(toE(a[0], w)))); return true; };
  EXT("sx_param") { std::string n = argStr(a[0]); setRet(d, Val(g_params.count(n) ? (uint64_t)g_params[n] : a[1].c)); return true; };
  EXT("sx_note") { S->notes.push_back({argStr(a[0]), toE(a[1], 64)}); return true; };
  EXT("sx_is_symbolic") { setRet(d, Val(a[0].e ? 1 : 0)); return true; };
  EXT("sx_native") { setRet(d, Val(0)); return true; };
  EXT("sx_branch") {
    // evaluate the condition by forking even where the compiler merged it into data flow
    E c = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32)));
    const bool v = branchOn(c); setRet(d, Val(v)); return true; };
  EXT("sx_known") {
    // a listed finding: the condition characterises its inputs.  Reported, and excluded from what follows.
    E c = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32)));
    std::string l = argStr(a[1]);
    if (isFalse(c)) return true;
    if (isTrue(c)) { g_knownHit[l]++; endPath(); }
    Model out;
    SR r = solveQuery(S->cs, c, S->model, out);
    if (r == R_SAT) g_knownHit[l]++;
    if (r == R_UNKNOWN) { inconclusive("sx_known"); }
    if (evalNow(*S, c))
    {
      r = solveQuery(S->cs, mkNot(c), S->model, out);
      if (r != R_SAT) { if (r == R_UNKNOWN) inconclusive("sx_known"); endPath(); }
      S->model = out;
    }
    addConstraint(*S, mkNot(c));
    return true;
  };
  // memory
  auto alloc = [](DInst& d, std::vector<Val>& a) -> bool {
    const uint64_t n = enumerate(toE(a[0], 64));
    setRet(d, Val(allocObj(n, 2, "heap@" + locOf(d.I), true)));
    return true;
  };
  for (const char* n : {"_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t"}) g_ext[n] = alloc;
  g_ext["_ZnwmSt11align_val_t"] = alloc;
  EXT("calloc") { const uint64_t n = enumerate(toE(a[0], 64)) * enumerate(toE(a[1], 64)); setRet(d, Val(allocObj(n, 2, "calloc", false))); return true; };
  auto fr = [](DInst& d, std::vector<Val>& a) -> bool {
    const uint64_t p = a[0].e ? enumerate(a[0].e) : a[0].c;
    if (!p) return true;
    Obj* o = objAt(p);
    if (!o) violate("memory", "double free or free of wild pointer");
    if (o->kind != 2 || o->base != p) violate("memory", "invalid free of " + describe(p));
    S->mem.kill(p >> ASHIFT);
    return true;
  };
  for (const char* n : {"_ZdlPv", "_ZdaPv", "free", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "cfree"}) g_ext[n] = fr;
  auto mc = [](DInst& d, std::vector<Val>& a) -> bool {
    const uint64_t n = enumerate(toE(a[2], 64));
    if (n) memCopy(concAddr(a[0], n, true), concAddr(a[1], n, false), n);
    setRet(d, a[0]);
    return true;
  };
  g_ext["memcpy"] = mc;
  g_ext["memmove"] = mc;
  EXT("memset") { const uint64_t n = enumerate(toE(a[2], 64)); if (n) memSet(concAddr(a[0], n, true), a[1].e ? a[1] : Val(a[1].c & 255), n); setRet(d, a[0]); return true; };
  // failures
  EXT("__assert_fail") { violate("assertion-in-code", argStr(a[0])); };
  EXT("abort") { violate("abort", "abort() called"); };
  EXT("_ZSt9terminatev") { violate("abort", "std::terminate"); };
  EXT("__clang_call_terminate") { violate("abort", "exception escaped a noexcept function"); };
  EXT("exit") { ++g_paths; endPath(); };
  EXT("__cxa_pure_virtual") { violate("abort", "pure virtual call"); };
  EXT("__stack_chk_fail") { violate("abort", "stack smashing"); };
  // exceptions
  EXT("__cxa_allocate_exception") { setRet(d, Val(allocObj(enumerate(toE(a[0], 64)) + 8, 2, "exception", true))); return true; };
  EXT("__cxa_free_exception") { S->mem.kill(a[0].c >> ASHIFT); return true; };
  EXT("__cxa_throw") { S->excPtr = a[0].c; S->excTi = a[1].c; unwind(); };
  EXT("__cxa_begin_catch") { S->caught.push_back({S->excPtr, S->excTi}); setRet(d, a[0]); return true; };
  EXT("__cxa_end_catch") { if (!S->caught.empty()) S->caught.pop_back(); return true; };
  EXT("__cxa_get_exception_ptr") { setRet(d, a[0]); return true; };
  EXT("__cxa_rethrow") { if (S->caught.empty()) violate("abort", "rethrow without exception"); S->excPtr = S->caught.back().first; S->excTi = S->caught.back().second; unwind(); };
  EXT("_Unwind_Resume") { unwind(); };
  struct TS { const char* f; const char* ti; };
  for (TS t : {TS{"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, TS{"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},
               TS{"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, TS{"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"},
               TS{"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, TS{"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"},
               TS{"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, TS{"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"},
               TS{"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, TS{"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"},
               TS{"_ZSt20__throw_system_errori", "_ZTISt12system_error"}, TS{"_ZSt20__throw_domain_errorPKc", "_ZTISt12domain_error"}})
  {
    const char* ti = t.ti;
    g_ext[t.f] = [ti](DInst&, std::vector<Val>&) -> bool { throwStd(ti); return true; };
  }
  // runtime no-ops
  auto zero = [](DInst& d, std::vector<Val>&) -> bool { if (d.dst >= 0) setRet(d, zeroOf(d.ty)); return true; };
  for (const char* n : {"__cxa_atexit", "atexit", "printf", "puts", "putchar", "fprintf", "fputs", "fputc", "fwrite", "fflush", "vprintf",
                        "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "pthread_mutex_lock", "pthread_mutex_unlock", "usleep",
                        "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_mutex_init", "pthread_mutex_destroy",
                        "pthread_mutex_trylock", "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_signal", "pthread_cond_broadcast",
                        "__cxa_guard_release", "__cxa_guard_abort", "omp_set_num_threads", "omp_get_thread_num", "setvbuf"})
    g_ext[n] = zero;
  EXT("omp_get_max_threads") { setRet(d, Val(1)); return true; };
  EXT("omp_get_num_threads") { setRet(d, Val(1)); return true; };
  EXT("__cxa_guard_acquire") {
    Val v = readScalar(a[0].c, 8);
    if (v.c == 0) { writeScalar(a[0].c, Val(1), 8); setRet(d, Val(1)); } else setRet(d, Val(0));
    return true;
  };
  // libm
  for (const char* n : {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log"})
  {
    std::string s = n;
    g_ext[s] = [s](DInst& d, std::vector<Val>& a) -> bool { setRet(d, doLibm(s, 64, a)); return true; };
    g_ext[s + "f"] = [s](DInst& d, std::vector<Val>& a) -> bool { setRet(d, doLibm(s, 32, a)); return true; };
  }
  for (const char* n : {"atan2", "pow", "hypot", "fmod", "remainder"})
  {
    std::string s = n;
    g_ext[s] = [s](DInst& d, std::vector<Val>& a) -> bool { setRet(d, doLibm(s, 64, a)); return true; };
    g_ext[s + "f"] = [s](DInst& d, std::vector<Val>& a) -> bool { setRet(d, doLibm(s, 32, a)); return true; };
  }
  struct RS { const char* f; uint32_t m; };
  for (RS r : {RS{"floor", RM_RTN}, RS{"ceil", RM_RTP}, RS{"trunc", RM_RTZ}, RS{"round", RM_RNA}, RS{"rint", RM_RNE}, RS{"nearbyint", RM_RNE}})
  {
    const uint32_t m = r.m;
    g_ext[r.f] = [m](DInst& d, std::vector<Val>& a) -> bool { setRet(d, fpRound(a[0], 64, m)); return true; };
    g_ext[std::string(r.f) + "f"] = [m](DInst& d, std::vector<Val>& a) -> bool { setRet(d, fpRound(a[0], 32, m)); return true; };
  }
  for (const char* n : {"lround", "llround", "lrint", "llrint"})
  {
    const uint32_t m = n[0] == 'l' && strstr(n, "rint") ? RM_RNE : RM_RNA;
    g_ext[n] = [m](DInst& d, std::vector<Val>& a) -> bool { setRet(d, fpToInt(a[0], 64, 64, m)); return true; };
    g_ext[std::string(n) + "f"] = [m](DInst& d, std::vector<Val>& a) -> bool { setRet(d, fpToInt(a[0], 32, 64, m)); return true; };
  }
  EXT("sqrt") { setRet(d, mkv(mkF1(F_SQRT, toE(a[0], 64), 64))); return true; };
  EXT("sqrtf") { setRet(d, mkv(mkF1(F_SQRT, toE(a[0], 32), 32))); return true; };
  EXT("fabs") { setRet(d, mkv(mkF1(F_ABS, toE(a[0], 64), 64))); return true; };
  EXT("fabsf") { setRet(d, mkv(mkF1(F_ABS, toE(a[0], 32), 32))); return true; };
  EXT("fmin") { setRet(d, fmm(false, 64, a[0], a[1])); return true; };
  EXT("fmax") { setRet(d, fmm(true, 64, a[0], a[1])); return true; };
  EXT("fminf") { setRet(d, fmm(false, 32, a[0], a[1])); return true; };
  EXT("fmaxf") { setRet(d, fmm(true, 32, a[0], a[1])); return true; };
#undef EXT
}

// ---------------------------------------------------------------- instructions
static Val binop(unsigned opc, unsigned w, const Val& a, const Val& b)
{
  Op op;
  switch (opc)
  {
    case Instruction::Add: op = O_ADD; break;
    case Instruction::Sub: op = O_SUB; break;
    case Instruction::Mul: op = O_MUL; break;
    case Instruction::UDiv: op = O_UDIV; break;
    case Instruction::SDiv: op = O_SDIV; break;
    case Instruction::URem: op = O_UREM; break;
    case Instruction::SRem: op = O_SREM; break;
    case Instruction::And: op = O_AND; break;
    case Instruction::Or: op = O_OR; break;
    case Instruction::Xor: op = O_XOR; break;
    case Instruction::Shl: op = O_SHL; break;
    case Instruction::LShr: op = O_LSHR; break;
    case Instruction::AShr: op = O_ASHR; break;
    case Instruction::FAdd: op = F_ADD; break;
    case Instruction::FSub: op = F_SUB; break;
    case Instruction::FMul: op = F_MUL; break;
    case Instruction::FDiv: op = F_DIV; break;
    case Instruction::FRem: return doLibm("fmod", w, {a, b});
    default: unsupported("binop");
  }
  if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM)
  {
    E d = toE(b, w);
    if (isC(d))
    {
      if (constAP(d).isZero()) violate("arith", "integer division by zero");
    }
    else
    {
      E nz = mkNot(mkEq(d, mkConst(0, w)));
      if (!branchOn(nz)) violate("arith", "integer division by zero");
    }
    if (op == O_SDIV || op == O_SREM)
    {
      E n = toE(a, w);
      if (w <= 64)
      {
        E ov = mkAnd1(mkEq(d, mkConst(maskw(w), w)), mkEq(n, mkConst(1ULL << (w - 1), w)));
        if (!isFalse(ov) && branchOn(ov)) violate("arith", "signed division overflow");
      }
    }
  }
  if (!a.e && !b.e && w <= 64) return Val(evalOp(op, w, 0, w, a.c, b.c, 0));
  return mkv(mkBin(op, toE(a, w), toE(b, w)));
}
static Val icmp(unsigned pred, unsigned w, const Val& a, const Val& b)
{
  if (!a.e && !b.e)
  {
    const uint64_t x = a.c, y = b.c;
    const int64_t sx = sextw(x, w), sy = sextw(y, w);
    switch (pred)
    {
      case CmpInst::ICMP_EQ: return Val(x == y);
      case CmpInst::ICMP_NE: return Val(x != y);
      case CmpInst::ICMP_UGT: return Val(x > y);
      case CmpInst::ICMP_UGE: return Val(x >= y);
      case CmpInst::ICMP_ULT: return Val(x < y);
      case CmpInst::ICMP_ULE: return Val(x <= y);
      case CmpInst::ICMP_SGT: return Val(sx > sy);
      case CmpInst::ICMP_SGE: return Val(sx >= sy);
      case CmpInst::ICMP_SLT: return Val(sx < sy);
      default: return Val(sx <= sy);
    }
  }
  E x = toE(a, w), y = toE(b, w);
  switch (pred)
  {
    case CmpInst::ICMP_EQ: return mkv(mkEq(x, y));
    case CmpInst::ICMP_NE: return mkv(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_UGT: return mkv(mkBin(O_ULT, y, x));
    case CmpInst::ICMP_UGE: return mkv(mkBin(O_ULE, y, x));
    case CmpInst::ICMP_ULT: return mkv(mkBin(O_ULT, x, y));
    case CmpInst::ICMP_ULE: return mkv(mkBin(O_ULE, x, y));
    case CmpInst::ICMP_SGT: return mkv(mkBin(O_SLT, y, x));
    case CmpInst::ICMP_SGE: return mkv(mkBin(O_SLE, y, x));
    case CmpInst::ICMP_SLT: return mkv(mkBin(O_SLT, x, y));
    default: return mkv(mkBin(O_SLE, x, y));
  }
}
static Val fcmp(unsigned pred, unsigned w, const Val& a, const Val& b)
{
  E x = toE(a, w), y = toE(b, w);
  auto un = [&]() { return mkOr1(mkFNan(x), mkFNan(y)); };
  switch (pred)
  {
    case CmpInst::FCMP_FALSE: return Val(0);
    case CmpInst::FCMP_TRUE: return Val(1);
    case CmpInst::FCMP_OEQ: return mkv(mkF2(F_EQ, x, y));
    case CmpInst::FCMP_OGT: return mkv(mkF2(F_LT, y, x));
    case CmpInst::FCMP_OGE: return mkv(mkF2(F_LE, y, x));
    case CmpInst::FCMP_OLT: return mkv(mkF2(F_LT, x, y));
    case CmpInst::FCMP_OLE: return mkv(mkF2(F_LE, x, y));
    case CmpInst::FCMP_ONE: return mkv(mkOr1(mkF2(F_LT, x, y), mkF2(F_LT, y, x)));
    case CmpInst::FCMP_ORD: return mkv(mkNot(un()));
    case CmpInst::FCMP_UNO: return mkv(un());
    case CmpInst::FCMP_UEQ: return mkv(mkNot(mkOr1(mkF2(F_LT, x, y), mkF2(F_LT, y, x))));
    case CmpInst::FCMP_UGT: return mkv(mkNot(mkF2(F_LE, x, y)));
    case CmpInst::FCMP_UGE: return mkv(mkNot(mkF2(F_LT, x, y)));
    case CmpInst::FCMP_ULT: return mkv(mkNot(mkF2(F_LE, y, x)));
    case CmpInst::FCMP_ULE: return mkv(mkNot(mkF2(F_LT, y, x)));
    case CmpInst::FCMP_UNE: return mkv(mkNot(mkF2(F_EQ, x, y)));
  }
  return Val(0);
}
static Val castop(unsigned opc, unsigned kw, unsigned w, const Val& a)
{
  switch (opc)
  {
    case Instruction::Trunc: if (!a.e) return Val(a.c & maskw(w)); return mkv(mkExtract(a.e, 0, w));
    case Instruction::ZExt: if (!a.e && w <= 64) return a; return mkv(mkZExt(toE(a, kw), w));
    case Instruction::SExt: if (!a.e && w <= 64) return Val((uint64_t)sextw(a.c, kw) & maskw(w)); return mkv(mkSExt(toE(a, kw), w));
    case Instruction::PtrToInt: case Instruction::IntToPtr:
      if (w < kw) return castop(Instruction::Trunc, kw, w, a);
      return castop(Instruction::ZExt, kw, w, a);
    case Instruction::FPExt: return mkv(mkF1(F_EXT, toE(a, kw), w));
    case Instruction::FPTrunc: return mkv(mkF1(F_TRUNC, toE(a, kw), w));
    case Instruction::SIToFP: return mkv(mkF1(F_SI2F, toE(a, kw), w));
    case Instruction::UIToFP: return mkv(mkF1(F_UI2F, toE(a, kw), w));
    case Instruction::FPToSI:
      if (w < 32) return mkv(mkExtract(mkF1(F_F2SI, toE(a, kw), 32, RM_RTZ), 0, w));
      return mkv(mkF1(F_F2SI, toE(a, kw), w, RM_RTZ));
    case Instruction::FPToUI:
      if (w < 32) return mkv(mkExtract(mkF1(F_F2SI, toE(a, kw), 32, RM_RTZ), 0, w));
      if (w == 32) return mkv(mkExtract(mkF1(F_F2SI, toE(a, kw), 64, RM_RTZ), 0, 32));
      return mkv(mkF1(F_F2UI, toE(a, kw), w, RM_RTZ));
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: return a;
  }
  unsupported("cast");
}
// bitcast between vector/scalar types through a flat bit vector
static E flatten(const Val& v, Type* t)
{
  if (!isAgg(t)) return toE(v, tyw(t));
  E r = nullptr;
  for (unsigned i = 0; i < aggN(t); ++i)
  {
    E x = flatten((*v.agg)[i], aggT(t, i));
    r = r ? mkConcat(x, r) : x;
  }
  return r;
}
static Val unflatten(E e, Type* t)
{
  if (!isAgg(t)) return mkv(e);
  Val v;
  v.agg = std::make_shared<std::vector<Val>>(aggN(t));
  const unsigned w = tyw(aggT(t, 0));
  for (unsigned i = 0; i < aggN(t); ++i) (*v.agg)[i] = mkv(mkExtract(e, i * w, w));
  return v;
}
template <class F>
static Val lanes(Type* t, F f)
{
  Val v;
  v.agg = std::make_shared<std::vector<Val>>(aggN(t));
  for (unsigned i = 0; i < v.agg->size(); ++i) (*v.agg)[i] = f(i);
  return v;
}
static Val selectV(const Val& c, const Val& a, const Val& b, Type* t)
{
  if (!c.e) return c.c ? a : b;
  if (isAgg(t)) return lanes(t, [&](unsigned i) { return selectV(c, (*a.agg)[i], (*b.agg)[i], aggT(t, i)); });
  return mkv(mkIte(c.e, toE(a, tyw(t)), toE(b, tyw(t))));
}
static bool doIntrinsic(DInst& d, std::vector<Val>& a);

static void doCall(DInst& d)
{
  Frame& f = S->st.back();
  std::vector<Val> a;
  a.reserve(d.ops.size());
  for (auto& o : d.ops) a.push_back(get(o, f));
  Function* F = d.callee;
  if (!F)
  {
    if (cast<CallBase>(d.I)->isInlineAsm()) unsupported("inline asm");
    Val t = a.back();
    a.pop_back();
    uint64_t p = t.e ? enumerate(t.e) : t.c;
    auto it = g_faddr.find(p);
    if (it == g_faddr.end()) violate("memory", "call through invalid function pointer " + describe(p));
    F = it->second;
  }
  auto advance = [&]()
  {
    Frame& g = S->st.back();
    if (d.opc == Instruction::Invoke) jump(*S, d.succ[0]);
    else ++g.pc;
  };
  if (F->isIntrinsic())
  {
    if (!doIntrinsic(d, a)) unsupported("intrinsic " + F->getName().str());
    advance();
    return;
  }
  auto it = g_ext.find(F->getName().str());
  if (it != g_ext.end())
  {
    it->second(d, a);
    advance();
    return;
  }
  if (F->isDeclaration()) unsupported("call to unmodelled external " + F->getName().str());
  pushCall(*S, F, std::move(a));
}
static E ovf(Intrinsic::ID id, E a, E b, E& res)
{
  const unsigned w = a->w;
  E x, y;
  switch (id)
  {
    case Intrinsic::uadd_with_overflow: res = mkAdd(a, b); return mkUlt(res, a);
    case Intrinsic::usub_with_overflow: res = mkSub(a, b); return mkUlt(a, b);
    case Intrinsic::umul_with_overflow:
      x = mkBin(O_MUL, mkZExt(a, 2 * w), mkZExt(b, 2 * w));
      res = mkBin(O_MUL, a, b);
      return mkNot(mkEq(mkExtract(x, w, w), mkConst(0, w)));
    case Intrinsic::sadd_with_overflow: x = mkAdd(mkSExt(a, w + 1), mkSExt(b, w + 1)); res = mkAdd(a, b); return mkNot(mkEq(mkSExt(res, w + 1), x));
    case Intrinsic::ssub_with_overflow: x = mkSub(mkSExt(a, w + 1), mkSExt(b, w + 1)); res = mkSub(a, b); return mkNot(mkEq(mkSExt(res, w + 1), x));
    default:
      x = mkBin(O_MUL, mkSExt(a, 2 * w), mkSExt(b, 2 * w));
      res = mkBin(O_MUL, a, b);
      return mkNot(mkEq(mkSExt(res, 2 * w), x));
  }
}
static bool doIntrinsic(DInst& d, std::vector<Val>& a)
{
  const auto id = (Intrinsic::ID)d.intrin;
  Type* t = d.ty;
  if (t->isVectorTy())
  {
    // element-wise intrinsics on vectors
    const unsigned n = aggN(t), w = tyw(aggT(t, 0));
    auto A = [&](unsigned i, unsigned l) { return a[i].agg ? (*a[i].agg)[l] : a[i]; };
    Val r;
    r.agg = std::make_shared<std::vector<Val>>(n);
    for (unsigned i = 0; i < n; ++i)
    {
      Val x = A(0, i);
      Val o;
      switch (id)
      {
        case Intrinsic::fabs: o = mkv(mkF1(F_ABS, toE(x, w), w)); break;
        case Intrinsic::sqrt: o = mkv(mkF1(F_SQRT, toE(x, w), w)); break;
        case Intrinsic::floor: o = fpRound(x, w, RM_RTN); break;
        case Intrinsic::ceil: o = fpRound(x, w, RM_RTP); break;
        case Intrinsic::smax: o = selectV(icmp(CmpInst::ICMP_SGT, w, x, A(1, i)), x, A(1, i), aggT(t, 0)); break;
        case Intrinsic::smin: o = selectV(icmp(CmpInst::ICMP_SLT, w, x, A(1, i)), x, A(1, i), aggT(t, 0)); break;
        case Intrinsic::umax: o = selectV(icmp(CmpInst::ICMP_UGT, w, x, A(1, i)), x, A(1, i), aggT(t, 0)); break;
        case Intrinsic::umin: o = selectV(icmp(CmpInst::ICMP_ULT, w, x, A(1, i)), x, A(1, i), aggT(t, 0)); break;
        case Intrinsic::abs: o = selectV(icmp(CmpInst::ICMP_SLT, w, x, Val(0)), binop(Instruction::Sub, w, Val(0), x), x, aggT(t, 0)); break;
        case Intrinsic::fmuladd: o = mkv(mkF2(F_ADD, mkF2(F_MUL, toE(x, w), toE(A(1, i), w)), toE(A(2, i), w))); break;
        default: return false;
      }
      (*r.agg)[i] = o;
    }
    setRet(d, r);
    return true;
  }
  const unsigned w = d.w;
  switch (id)
  {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
    {
      const uint64_t n = enumerate(toE(a[2], 64));
      if (n) memCopy(concAddr(a[0], n, true), concAddr(a[1], n, false), n);
      return true;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline:
    {
      const uint64_t n = enumerate(toE(a[2], 64));
      if (n) memSet(concAddr(a[0], n, true), a[1], n);
      return true;
    }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation:
    case Intrinsic::ssa_copy: case Intrinsic::ptrmask:
      if (id == Intrinsic::ptrmask) return false;
      setRet(d, a[0]);
      return true;
    case Intrinsic::expect_with_probability: setRet(d, a[0]); return true;
    case Intrinsic::is_constant: setRet(d, Val(0)); return true;
    case Intrinsic::objectsize: setRet(d, Val(maskw(w))); return true;
    case Intrinsic::threadlocal_address: setRet(d, a[0]); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violate("abort", "trap");
    case Intrinsic::stacksave: setRet(d, Val(0)); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::invariant_start: setRet(d, Val(0)); return true;
    case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::sideeffect: return true;
    case Intrinsic::eh_typeid_for: setRet(d, Val(a[0].c ? (a[0].c >> ASHIFT) & 0x7fffffff : 1)); return true;
    case Intrinsic::umin: setRet(d, selectV(icmp(CmpInst::ICMP_ULT, w, a[0], a[1]), a[0], a[1], t)); return true;
    case Intrinsic::umax: setRet(d, selectV(icmp(CmpInst::ICMP_UGT, w, a[0], a[1]), a[0], a[1], t)); return true;
    case Intrinsic::smin: setRet(d, selectV(icmp(CmpInst::ICMP_SLT, w, a[0], a[1]), a[0], a[1], t)); return true;
    case Intrinsic::smax: setRet(d, selectV(icmp(CmpInst::ICMP_SGT, w, a[0], a[1]), a[0], a[1], t)); return true;
    case Intrinsic::abs:
      setRet(d, selectV(icmp(CmpInst::ICMP_SLT, w, a[0], Val(0)), binop(Instruction::Sub, w, Val(0), a[0]), a[0], t));
      return true;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
    {
      const unsigned ew = tyw(aggT(t, 0));
      E r;
      E o = ovf(id, toE(a[0], ew), toE(a[1], ew), r);
      Val v;
      v.agg = std::make_shared<std::vector<Val>>(2);
      (*v.agg)[0] = mkv(r);
      (*v.agg)[1] = mkv(o);
      setRet(d, v);
      return true;
    }
    case Intrinsic::usub_sat:
      setRet(d, selectV(icmp(CmpInst::ICMP_ULT, w, a[0], a[1]), Val(0), binop(Instruction::Sub, w, a[0], a[1]), t));
      return true;
    case Intrinsic::uadd_sat:
    {
      E r, o = ovf(Intrinsic::uadd_with_overflow, toE(a[0], w), toE(a[1], w), r);
      setRet(d, mkv(mkIte(o, mkConst(maskw(w), w), r)));
      return true;
    }
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat:
    {
      E r, o = ovf(id == Intrinsic::sadd_sat ? Intrinsic::sadd_with_overflow : Intrinsic::ssub_with_overflow, toE(a[0], w), toE(a[1], w), r);
      E sat = mkIte(mkBin(O_SLT, toE(a[0], w), mkConst(0, w)), mkConst(1ULL << (w - 1), w), mkConst(maskw(w) >> 1, w));
      setRet(d, mkv(mkIte(o, sat, r)));
      return true;
    }
    case Intrinsic::bswap:
    {
      E x = toE(a[0], w), r = nullptr;
      for (unsigned i = 0; i < w / 8; ++i)
      {
        E b = mkExtract(x, i * 8, 8);
        r = r ? mkConcat(r, b) : b;
      }
      setRet(d, mkv(r));
      return true;
    }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz:
    {
      if (!a[0].e)
      {
        const uint64_t x = a[0].c;
        if (id == Intrinsic::ctpop) setRet(d, Val(__builtin_popcountll(x)));
        else if (id == Intrinsic::ctlz) setRet(d, Val(x ? __builtin_clzll(x) - (64 - w) : w));
        else setRet(d, Val(x ? __builtin_ctzll(x) : w));
        return true;
      }
      E x = a[0].e, r;
      if (id == Intrinsic::ctpop)
      {
        r = mkConst(0, w);
        for (unsigned i = 0; i < w; ++i) r = mkAdd(r, mkZExt(mkExtract(x, i, 1), w));
      }
      else
      {
        r = mkConst(w, w);
        for (unsigned i = 0; i < w; ++i)
        {
          const unsigned bit = id == Intrinsic::ctlz ? i : w - 1 - i;
          r = mkIte(mkEq(mkExtract(x, bit, 1), mkConst(1, 1)), mkConst(id == Intrinsic::ctlz ? w - 1 - bit : bit, w), r);
        }
      }
      setRet(d, mkv(r));
      return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr:
    {
      E s = toE(a[2], w);
      E k = mkBin(O_UREM, s, mkConst(w, w));
      E x = toE(a[0], w), y = toE(a[1], w);
      E inv = mkSub(mkConst(w, w), k);
      E r = id == Intrinsic::fshl ? mkBin(O_OR, mkBin(O_SHL, x, k), mkBin(O_LSHR, y, inv))
                                  : mkBin(O_OR, mkBin(O_SHL, x, inv), mkBin(O_LSHR, y, k));
      r = mkIte(mkEq(k, mkConst(0, w)), id == Intrinsic::fshl ? x : y, r);
      setRet(d, mkv(r));
      return true;
    }
    case Intrinsic::fabs: setRet(d, mkv(mkF1(F_ABS, toE(a[0], w), w))); return true;
    case Intrinsic::sqrt: setRet(d, mkv(mkF1(F_SQRT, toE(a[0], w), w))); return true;
    case Intrinsic::floor: setRet(d, fpRound(a[0], w, RM_RTN)); return true;
    case Intrinsic::ceil: setRet(d, fpRound(a[0], w, RM_RTP)); return true;
    case Intrinsic::trunc: setRet(d, fpRound(a[0], w, RM_RTZ)); return true;
    case Intrinsic::round: setRet(d, fpRound(a[0], w, RM_RNA)); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: setRet(d, fpRound(a[0], w, RM_RNE)); return true;
    case Intrinsic::lround: case Intrinsic::llround:
      setRet(d, fpToInt(a[0], tyw(cast<CallBase>(d.I)->getArgOperand(0)->getType()), w, RM_RNA));
      return true;
    case Intrinsic::lrint: case Intrinsic::llrint:
      setRet(d, fpToInt(a[0], tyw(cast<CallBase>(d.I)->getArgOperand(0)->getType()), w, RM_RNE));
      return true;
    case Intrinsic::minnum: setRet(d, fmm(false, w, a[0], a[1])); return true;
    case Intrinsic::maxnum: setRet(d, fmm(true, w, a[0], a[1])); return true;
    case Intrinsic::copysign:
    {
      E m = mkF1(F_ABS, toE(a[0], w), w);
      E s = mkEq(mkExtract(toE(a[1], w), w - 1, 1), mkConst(1, 1));
      setRet(d, mkv(mkIte(s, mkF1(F_NEG, m, w), m)));
      return true;
    }
    case Intrinsic::fma: setRet(d, mkv(mkFma(toE(a[0], w), toE(a[1], w), toE(a[2], w)))); return true;
    case Intrinsic::fmuladd: setRet(d, mkv(mkF2(F_ADD, mkF2(F_MUL, toE(a[0], w), toE(a[1], w)), toE(a[2], w)))); return true;
    case Intrinsic::sin: setRet(d, doLibm("sin", w, a)); return true;
    case Intrinsic::cos: setRet(d, doLibm("cos", w, a)); return true;
    case Intrinsic::exp: setRet(d, doLibm("exp", w, a)); return true;
    case Intrinsic::log: setRet(d, doLibm("log", w, a)); return true;
    case Intrinsic::pow: setRet(d, doLibm("pow", w, a)); return true;
    case Intrinsic::powi:
    {
      const int p = (int)a[1].c;
      E x = toE(a[0], w), r = mkFConst(1.0, w);
      if (a[1].e || p < 0 || p > 8) return false;
      for (int i = 0; i < p; ++i) r = mkF2(F_MUL, r, x);
      setRet(d, mkv(r));
      return true;
    }
    case Intrinsic::fptosi_sat: return false;
    case Intrinsic::is_fpclass:
    {
      Type* at = cast<CallBase>(d.I)->getArgOperand(0)->getType();
      const unsigned kw = tyw(at);
      E x = toE(a[0], kw);
      const unsigned mask = a[1].c;
      E r = mkFalse();
      E ab = mkF1(F_ABS, x, kw);
      E inf = mkFConst(INFINITY, kw);
      E minn = kw == 32 ? mkConst(0x00800000, 32) : mkConst(0x0010000000000000ULL, 64);
      E neg = mkEq(mkExtract(x, kw - 1, 1), mkConst(1, 1));
      E isnan = mkFNan(x), isinf = mkF2(F_EQ, ab, inf), iszero = mkF2(F_EQ, x, mkFConst(0, kw));
      E isnorm = mkAnd1(mkF2(F_LE, minn, ab), mkF2(F_LT, ab, inf));
      E issub = mkAnd1(mkF2(F_LT, ab, minn), mkNot(iszero));
      if (mask & 3) r = mkOr1(r, isnan);
      if (mask & fcNegInf) r = mkOr1(r, mkAnd1(neg, isinf));
      if (mask & fcPosInf) r = mkOr1(r, mkAnd1(mkNot(neg), isinf));
      if (mask & fcNegZero) r = mkOr1(r, mkAnd1(neg, iszero));
      if (mask & fcPosZero) r = mkOr1(r, mkAnd1(mkNot(neg), iszero));
      if (mask & fcNegNormal) r = mkOr1(r, mkAnd1(neg, isnorm));
      if (mask & fcPosNormal) r = mkOr1(r, mkAnd1(mkNot(neg), isnorm));
      if (mask & fcNegSubnormal) r = mkOr1(r, mkAnd1(neg, issub));
      if (mask & fcPosSubnormal) r = mkOr1(r, mkAnd1(mkNot(neg), issub));
      setRet(d, mkv(r));
      return true;
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and:
    {
      Val r = (*a[0].agg)[0];
      const unsigned opc = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_or ? Instruction::Or : Instruction::And;
      for (size_t i = 1; i < a[0].agg->size(); ++i) r = binop(opc, w, r, (*a[0].agg)[i]);
      setRet(d, r);
      return true;
    }
    default: return false;
  }
}
static void step()
{
  Frame& f = S->st.back();
  DInst& d = f.f->bb[f.bb].in[f.pc];
  CI = &d;
  d.seen = true;
  ++S->steps;
  ++g_steps;
  auto op = [&](unsigned i) -> const Val& { return get(d.ops[i], f); };
  switch (d.opc)
  {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
    {
      if (isAgg(d.ty))
      {
        const Val a = op(0), b = op(1);
        f.r[d.dst] = lanes(d.ty, [&](unsigned i) { return binop(d.opc, tyw(aggT(d.ty, 0)), (*a.agg)[i], (*b.agg)[i]); });
      }
      else
        f.r[d.dst] = binop(d.opc, d.w, op(0), op(1));
      ++f.pc;
      return;
    }
    case Instruction::FNeg:
      if (isAgg(d.ty))
      {
        const Val a = op(0);
        f.r[d.dst] = lanes(d.ty, [&](unsigned i) { const unsigned w = tyw(aggT(d.ty, 0)); return mkv(mkF1(F_NEG, toE((*a.agg)[i], w), w)); });
      }
      else
        f.r[d.dst] = mkv(mkF1(F_NEG, toE(op(0), d.w), d.w));
      ++f.pc;
      return;
    case Instruction::ICmp: case Instruction::FCmp:
    {
      const unsigned pred = cast<CmpInst>(d.I)->getPredicate();
      Type* kt = d.I->getOperand(0)->getType();
      if (isAgg(kt))
      {
        const Val a = op(0), b = op(1);
        const unsigned kw = tyw(aggT(kt, 0));
        f.r[d.dst] = lanes(d.ty, [&](unsigned i)
                           { return d.opc == Instruction::ICmp ? icmp(pred, kw, (*a.agg)[i], (*b.agg)[i]) : fcmp(pred, kw, (*a.agg)[i], (*b.agg)[i]); });
      }
      else
        f.r[d.dst] = d.opc == Instruction::ICmp ? icmp(pred, d.kw, op(0), op(1)) : fcmp(pred, d.kw, op(0), op(1));
      ++f.pc;
      return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPExt: case Instruction::FPTrunc:
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
    case Instruction::PtrToInt: case Instruction::IntToPtr:
    {
      if (isAgg(d.ty))
      {
        const Val a = op(0);
        const unsigned kw = tyw(aggT(d.I->getOperand(0)->getType(), 0));
        f.r[d.dst] = lanes(d.ty, [&](unsigned i) { return castop(d.opc, kw, tyw(aggT(d.ty, 0)), (*a.agg)[i]); });
      }
      else
        f.r[d.dst] = castop(d.opc, d.kw, d.w, op(0));
      ++f.pc;
      return;
    }
    case Instruction::Freeze: case Instruction::AddrSpaceCast:
      f.r[d.dst] = op(0);
      ++f.pc;
      return;
    case Instruction::BitCast:
    {
      Type* st = d.I->getOperand(0)->getType();
      if (isAgg(st) || isAgg(d.ty)) f.r[d.dst] = unflatten(flatten(op(0), st), d.ty);
      else f.r[d.dst] = op(0);
      ++f.pc;
      return;
    }
    case Instruction::GetElementPtr:
    {
      Val b = op(0);
      if (!b.e)
      {
        uint64_t off = d.imm;
        bool sym = false;
        for (size_t i = 0; i < d.gep.size(); ++i)
        {
          const Val& x = op(d.gep[i].first);
          if (x.e) { sym = true; break; }
          off += (uint64_t)(sextw(x.c, d.gepw[i]) * d.gep[i].second);
        }
        if (!sym)
        {
          f.r[d.dst] = Val(b.c + off);
          ++f.pc;
          return;
        }
      }
      E r = mkAdd(toE(b, 64), mkConst(d.imm, 64));
      for (size_t i = 0; i < d.gep.size(); ++i)
      {
        const Val& x = op(d.gep[i].first);
        E xi = mkSExt(toE(x, d.gepw[i]), 64);
        r = mkAdd(r, mkBin(O_MUL, xi, mkConst((uint64_t)d.gep[i].second, 64)));
      }
      f.r[d.dst] = mkv(r);
      ++f.pc;
      return;
    }
    case Instruction::Load:
    {
      Val v = loadV(op(0), d.ty);
      Frame& g = S->st.back();
      g.r[d.dst] = v;
      ++g.pc;
      return;
    }
    case Instruction::Store:
    {
      const Val a = op(1), v = op(0);
      storeV(a, v, d.ty);
      ++S->st.back().pc;
      return;
    }
    case Instruction::Alloca:
    {
      const uint64_t n = enumerate(toE(op(0), 64)) * d.imm;
      const uint64_t b = allocObj(n, 1, "stack@" + f.f->F->getName().str(), true);
      f.allocas.push_back(b >> ASHIFT);
      f.r[d.dst] = Val(b);
      ++f.pc;
      return;
    }
    case Instruction::Br:
    {
      if (d.ops.empty()) { jump(*S, d.succ[0]); return; }
      const Val c = op(0);
      const bool t = c.e ? branchOn(c.e) : c.c;
      jump(*S, t ? d.succ[0] : d.succ[1]);
      return;
    }
    case Instruction::Switch:
    {
      const Val c = op(0);
      if (!c.e)
      {
        for (auto& k : d.cases)
          if (k.first == c.c) { jump(*S, k.second); return; }
        jump(*S, d.succ[0]);
        return;
      }
      const uint64_t mv = evalNow(*S, c.e);
      for (auto& k : d.cases)
        if (k.first == mv)
        {
          branchOn(mkEq(c.e, mkConst(mv, d.kw)));
          jump(*S, k.second);
          return;
        }
      // the model takes the default: split off every case
      for (auto& k : d.cases) branchOn(mkEq(c.e, mkConst(k.first, d.kw)));
      jump(*S, d.succ[0]);
      return;
    }
    case Instruction::Select:
    {
      const Val c = op(0);
      if (c.agg)
      {
        const Val a = op(1), b = op(2);
        f.r[d.dst] = lanes(d.ty, [&](unsigned i) { return selectV((*c.agg)[i], (*a.agg)[i], (*b.agg)[i], aggT(d.ty, 0)); });
      }
      else
        f.r[d.dst] = selectV(c, op(1), op(2), d.ty);
      ++f.pc;
      return;
    }
    case Instruction::Call: case Instruction::Invoke:
      doCall(d);
      return;
    case Instruction::Ret:
    {
      Val v;
      const bool has = !d.ops.empty();
      if (has) v = op(0);
      popFrame(*S);
      if (S->st.empty())
      {
        ++g_paths;
        endPath();
      }
      Frame& g = S->st.back();
      DInst& c = g.f->bb[g.bb].in[g.pc];
      if (has && c.dst >= 0) g.r[c.dst] = v;
      if (c.opc == Instruction::Invoke) jump(*S, c.succ[0]);
      else ++g.pc;
      return;
    }
    case Instruction::ExtractValue:
    {
      Val v = op(0);
      for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) { Val t = (*v.agg)[i]; v = t; }
      f.r[d.dst] = v;
      ++f.pc;
      return;
    }
    case Instruction::InsertValue:
    {
      std::function<Val(Val, ArrayRef<unsigned>)> ins = [&](Val base, ArrayRef<unsigned> idx) -> Val
      {
        if (idx.empty()) return op(1);
        Val r;
        r.agg = std::make_shared<std::vector<Val>>(*base.agg);
        (*r.agg)[idx[0]] = ins((*base.agg)[idx[0]], idx.slice(1));
        return r;
      };
      f.r[d.dst] = ins(op(0), cast<InsertValueInst>(d.I)->getIndices());
      ++f.pc;
      return;
    }
    case Instruction::ExtractElement:
    {
      const uint64_t i = enumerate(toE(op(1), 64));
      Val v = (*get(d.ops[0], S->st.back()).agg)[i];
      S->st.back().r[d.dst] = v;
      ++S->st.back().pc;
      return;
    }
    case Instruction::InsertElement:
    {
      const uint64_t i = enumerate(toE(op(2), 64));
      Val r;
      r.agg = std::make_shared<std::vector<Val>>(*op(0).agg);
      (*r.agg)[i] = op(1);
      f.r[d.dst] = r;
      ++f.pc;
      return;
    }
    case Instruction::ShuffleVector:
    {
      auto* sv = cast<ShuffleVectorInst>(d.I);
      const Val a = op(0), b = op(1);
      const int n = a.agg->size();
      f.r[d.dst] = lanes(d.ty, [&](unsigned i)
                         {
                           const int m = sv->getMaskValue(i);
                           if (m < 0) return zeroOf(aggT(d.ty, 0));
                           return m < n ? (*a.agg)[m] : (*b.agg)[m - n];
                         });
      ++f.pc;
      return;
    }
    case Instruction::Resume:
      S->excPtr = (*op(0).agg)[0].c;
      popFrame(*S);
      unwind();
    case Instruction::Unreachable:
      violate("abort", "unreachable code reached");
    case Instruction::AtomicRMW:
    {
      auto* rmw = cast<AtomicRMWInst>(d.I);
      const Val p = op(0), v = op(1);
      Val old = loadV(p, d.ty);
      Val n;
      switch (rmw->getOperation())
      {
        case AtomicRMWInst::Add: n = binop(Instruction::Add, d.w, old, v); break;
        case AtomicRMWInst::Sub: n = binop(Instruction::Sub, d.w, old, v); break;
        case AtomicRMWInst::Xchg: n = v; break;
        case AtomicRMWInst::Or: n = binop(Instruction::Or, d.w, old, v); break;
        case AtomicRMWInst::And: n = binop(Instruction::And, d.w, old, v); break;
        default: unsupported("atomicrmw");
      }
      storeV(p, n, d.ty);
      S->st.back().r[d.dst] = old;
      ++S->st.back().pc;
      return;
    }
    case Instruction::AtomicCmpXchg:
    {
      Type* t = d.I->getOperand(1)->getType();
      const unsigned w = tyw(t);
      const Val p = op(0), c = op(1), n = op(2);
      Val old = loadV(p, t);
      Val eq = icmp(CmpInst::ICMP_EQ, w, old, c);
      storeV(p, selectV(eq, n, old, t), t);
      Val r;
      r.agg = std::make_shared<std::vector<Val>>(2);
      (*r.agg)[0] = old;
      (*r.agg)[1] = eq;
      S->st.back().r[d.dst] = r;
      ++S->st.back().pc;
      return;
    }
    case Instruction::Fence: ++f.pc; return;
    default:
      unsupported(std::string("instruction ") + d.I->getOpcodeName());
  }
}
static size_t rssMB()
{
  std::ifstream f("/proc/self/statm");
  size_t a = 0, b = 0;
  f >> a >> b;
  return b * 4096 / (1 << 20);
}
static size_t g_maxMB = 6000;
static bool runState()
{
  // executes S until it ends; returns false when the global budget is exhausted
  uint64_t n = 0;
  for (;;)
  {
    try
    {
      for (;;)
      {
        step();
        if ((++n & 0xfff) == 0)
        {
          if (now() - g_t0 > g_maxTime) { inconclusive("time budget exhausted"); return false; }
          if (S->steps > g_maxSteps)
          {
            if (g_stepLimitIsViolation) violate("hang", "step bound exceeded");
            inconclusive("step bound exceeded at " + locOf(CI->I));
            return true;
          }
          if ((n & 0xfffff) == 0 && rssMB() > g_maxMB) { inconclusive("memory budget exhausted"); return false; }
        }
      }
    }
    catch (Refork&) { continue; }
    catch (PathEnd&) { return true; }
  }
}
static std::string jesc(const std::string& s)
{
  std::string r;
  for (char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static int realMain(int argc, char** argv)
{
  std::string file, out, repo = "/repo/";
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") g_entry = nx();
    else if (a == "--out") out = nx();
    else if (a == "--param") { std::string p = nx(); auto e = p.find('='); g_params[p.substr(0, e)] = strtoll(p.c_str() + e + 1, nullptr, 0); }
    else if (a == "--max-time") g_maxTime = atof(nx().c_str());
    else if (a == "--max-steps") g_maxSteps = strtoull(nx().c_str(), 0, 0);
    else if (a == "--max-viol") g_maxViol = strtoull(nx().c_str(), 0, 0);
    else if (a == "--solver-ms") g_timeout_ms = atoi(nx().c_str());
    else if (a == "--max-mb") g_maxMB = atoi(nx().c_str());
    else if (a == "--ite") g_iteLimit = atoi(nx().c_str());
    else if (a == "--ite-store") g_iteStoreLimit = atoi(nx().c_str());
    else if (a == "--no-uninit") g_uninitCheck = false;
    else if (a == "--hang") g_stepLimitIsViolation = true;
    else if (a == "--repo") repo = nx();
    else if (a == "-v") g_verbose = true;
    else file = a;
  }
  g_t0 = now();
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(file, err, ctx);
  if (!mod) { err.print(argv[0], errs()); return 3; }
  M = mod.get();
  DL = &M->getDataLayout();
  initExt();
  StateP init(new State);
  S = init.get();
  try
  {
    for (auto& F : *M)
    {
      if (F.isIntrinsic()) continue;
      ObjP o = std::make_shared<Obj>();
      const uint64_t id = S->mem.next++;
      o->base = id << ASHIFT;
      o->size = 1;
      o->kind = 3;
      o->name = std::make_shared<std::string>(F.getName().str());
      o->c.assign(1, 0);
      *S->mem.slotW(id) = o;
      g_gaddr[&F] = o->base;
      g_faddr[o->base] = &F;
      if (F.isWeakForLinker() && F.isDeclaration()) g_gaddr[&F] = 0;
      if (F.hasExternalWeakLinkage()) g_gaddr[&F] = 0;
    }
    for (auto& G : M->globals())
    {
      uint64_t n = 64;
      if (G.getValueType()->isSized()) n = std::max<uint64_t>(1, DL->getTypeAllocSize(G.getValueType()));
      if (!G.hasInitializer()) n = std::max<uint64_t>(n, 64);
      const uint64_t b = allocObj(n, 0, "global " + G.getName().str(), false);
      g_gaddr[&G] = b;
      g_gvAt[b] = &G;
    }
    for (auto& G : M->globals())
      if (G.hasInitializer()) initMem(g_gaddr[&G], G.getInitializer());
    for (auto& G : M->globals())
      if (G.isConstant() && G.hasInitializer()) S->mem.writable(g_gaddr[&G] >> ASHIFT)->ro = true;
  }
  catch (PathEnd&)
  {
    fprintf(stderr, "initialisation failed\n");
    for (auto& s : g_incon) fprintf(stderr, "  %s\n", s.c_str());
    return 3;
  }
  // global constructors run first, in order, then the entry
  std::vector<std::pair<uint64_t, Function*>> ctors;
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors"))
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto& o : ca->operands())
      {
        auto* cs = cast<ConstantStruct>(o);
        if (auto* F = dyn_cast<Function>(cs->getOperand(1)))
          ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
      }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  Function* entry = M->getFunction(g_entry);
  if (!entry || entry->isDeclaration()) { fprintf(stderr, "no entry %s\n", g_entry.c_str()); return 3; }
  bool budget = true;
  for (auto& c : ctors)
  {
    pushCall(*S, c.second, {});
    runState();
    if (!S->st.empty() || !g_work.empty() || !g_viol.empty() || !g_incon.empty())
    {
      fprintf(stderr, "global constructor %s failed\n", c.second->getName().str().c_str());
      for (auto& s : g_incon) fprintf(stderr, "  %s\n", s.c_str());
      return 3;
    }
  }
  g_paths = 0;
  pushCall(*S, entry, {});
  g_work.push_back(std::move(init));
  while (!g_work.empty())
  {
    StateP cur = std::move(g_work.back());
    g_work.pop_back();
    S = cur.get();
    const uint64_t before = g_paths;
    if (!runState()) { budget = false; break; }
    if (g_paths > before)
    {
      // reservoir of completed paths, replayed natively by the driver to validate the translation
      static uint64_t lcg = 88172645463325252ULL;
      lcg ^= lcg << 13; lcg ^= lcg >> 7; lcg ^= lcg << 17;
      size_t slot = g_samplePaths.size() < 6 ? g_samplePaths.size() : lcg % g_paths;
      if (slot < 6)
      {
        std::vector<std::pair<std::string, std::string>> v;
        evalBegin();
        for (auto& i : cur->in) v.push_back({i.name, hexv(evalExpr(i.e, cur->model))});
        if (slot < g_samplePaths.size()) g_samplePaths[slot] = v;
        else g_samplePaths.push_back(v);
      }
    }
    if (g_viol.size() >= g_maxViol) break;
    if (now() - g_t0 > g_maxTime) { if (!g_work.empty()) { inconclusive("time budget exhausted"); budget = false; break; } }
  }
  (void)budget;
  // functions of the repository that were executed
  std::map<std::string, std::set<std::string>> fns;
  for (auto& p : g_fn)
    for (auto& b : p.second->bb)
      for (auto& d : b.in)
        if (d.seen)
          if (DILocation* l = d.I->getDebugLoc().get())
            for (; l; l = l->getInlinedAt())
            {
              DISubprogram* sp = l->getScope()->getSubprogram();
              if (!sp) continue;
              std::string fn = sp->getFilename().str();
              if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
              if (fn.compare(0, repo.size(), repo) == 0) fns[fn.substr(repo.size())].insert(sp->getName().str());
            }
  std::ostringstream o;
  o << "{\n\"entry\":\"" << g_entry << "\",\n\"paths\":" << g_paths << ",\"paths_assume_false\":" << g_pathsAssume
    << ",\"forks\":" << g_forks << ",\"instructions\":" << g_steps << ",\n\"inputs\":" << g_inputsMax << ",\"max_constraints\":" << g_maxConstraints
    << ",\"exprs\":" << g_nexprs << ",\n\"queries\":" << g_ss.queries << ",\"sat\":" << g_ss.sat << ",\"unsat\":" << g_ss.unsat
    << ",\"unknown\":" << g_ss.unknown << ",\"cache_hits\":" << g_ss.cache << ",\"by_bv\":" << g_ss.by_bv << ",\"by_fp\":" << g_ss.by_fp
    << ",\"by_arith_unsat\":" << g_ss.by_arith_unsat << ",\"by_arith_sat\":" << g_ss.by_arith_sat << ",\"by_search\":" << g_ss.by_search
    << ",\"by_box\":" << g_ss.by_box << ",\"by_ext\":" << g_ss.by_ext << ",\n\"solver_s\":" << g_ss.time << ",\"max_query_s\":" << g_ss.maxtime << ",\"wall_s\":" << now() - g_t0
    << ",\"rss_mb\":" << rssMB() << ",\n\"params\":{";
  const char* sep = "";
  for (auto& p : g_params) { o << sep << "\"" << jesc(p.first) << "\":" << p.second; sep = ","; }
  o << "},\n\"checks\":{";
  sep = "";
  for (auto& c : g_checks)
  {
    o << sep << "\"" << jesc(c.first) << "\":{\"reached\":" << c.second.reached << ",\"by_solver\":" << c.second.solver << ",\"trivial\":" << c.second.trivial << "}";
    sep = ",\n";
  }
  o << "},\n\"reach\":{";
  sep = "";
  for (auto& c : g_reach) { o << sep << "\"" << jesc(c.first) << "\":" << c.second; sep = ","; }
  o << "},\n\"known\":{";
  sep = "";
  for (auto& c : g_knownHit) { o << sep << "\"" << jesc(c.first) << "\":" << c.second; sep = ","; }
  o << "},\n\"libm\":{";
  sep = "";
  for (auto& c : g_libmUse) { o << sep << "\"" << jesc(c.first) << "\":" << c.second; sep = ","; }
  o << "},\n\"inconclusive\":[";
  sep = "";
  for (auto& c : g_incon) { o << sep << "\"" << jesc(c) << "\""; sep = ","; }
  o << "],\n\"samples\":[";
  sep = "";
  for (auto& c : g_samplePaths)
  {
    o << sep << "{\"inputs\":[";
    const char* s2 = "";
    for (auto& i : c) { o << s2 << "[\"" << jesc(i.first) << "\",\"" << i.second << "\"]"; s2 = ","; }
    o << "]}";
    sep = ",\n";
  }
  o << "],\n\"functions\":{";
  sep = "";
  for (auto& f : fns)
  {
    o << sep << "\"" << jesc(f.first) << "\":[";
    const char* s2 = "";
    for (auto& n : f.second) { o << s2 << "\"" << jesc(n) << "\""; s2 = ","; }
    o << "]";
    sep = ",\n";
  }
  o << "},\n\"violations\":[";
  sep = "";
  for (auto& v : g_viol)
  {
    o << sep << "{\"kind\":\"" << jesc(v.kind) << "\",\"label\":\"" << jesc(v.label) << "\",\"where\":\"" << jesc(v.where) << "\",\"stack\":\""
      << jesc(v.stack) << "\",\"uninit\":" << (v.uninit ? "true" : "false") << ",\"inputs\":[";
    const char* s2 = "";
    for (auto& i : v.inputs) { o << s2 << "[\"" << jesc(i.first) << "\",\"" << i.second << "\"]"; s2 = ","; }
    o << "],\"notes\":[";
    s2 = "";
    for (auto& i : v.notes) { o << s2 << "[\"" << jesc(i.first) << "\",\"" << i.second << "\"]"; s2 = ","; }
    o << "]}";
    sep = ",\n";
  }
  o << "]\n}\n";
  if (out.empty()) fputs(o.str().c_str(), stdout);
  else std::ofstream(out) << o.str();
  if (g_verbose)
  {
    std::vector<std::pair<uint64_t, std::string>> v;
    for (auto& p : g_forkSites) v.push_back({p.second, p.first});
    std::sort(v.rbegin(), v.rend());
    for (size_t i = 0; i < v.size() && i < 15; ++i) fprintf(stderr, "forks %8lu %s\n", v[i].first, v[i].second.c_str());
  }
  fflush(stdout);
  _exit(!g_viol.empty() ? 1 : !g_incon.empty() ? 2 : 0);
}
int main(int argc, char** argv)
{
  // deep recursions over expression DAGs need a large stack
  struct rlimit rl;
  getrlimit(RLIMIT_STACK, &rl);
  const rlim_t want = 1024ul << 20;
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want && !getenv("SYMEX_STACK"))
  {
    rl.rlim_cur = (rl.rlim_max == RLIM_INFINITY || rl.rlim_max > want) ? want : rl.rlim_max;
    setrlimit(RLIMIT_STACK, &rl);
    setenv("SYMEX_STACK", "1", 1);
    execv("/proc/self/exe", argv);
  }
  return realMain(argc, argv);
}
