// Native side of sx.h: runs a harness compiled with the ordinary compiler against /repo's real code on the concrete
// values of a counterexample.  usage: prog INPUTS [param=value...]
// exit 0: no assertion failed, 77: an assumption does not hold, 1: assertion failed (label printed)
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include <exception>
static std::vector<std::pair<std::string, uint64_t>> g_in;
static size_t g_pos = 0;
static std::map<std::string, int64_t> g_par;
extern "C" void SX_ENTRY();
static uint64_t next(const char* name)
{
  while (g_pos < g_in.size() && g_in[g_pos].first.rfind("uninit:", 0) == 0) ++g_pos;
  if (g_pos >= g_in.size()) return 0;
  if (g_in[g_pos].first != name)
  {
    fprintf(stderr, "replay: expected input %s, harness asks for %s\n", g_in[g_pos].first.c_str(), name);
    exit(78);
  }
  return g_in[g_pos++].second;
}
extern "C" {
uint64_t sx_u(const char* n, unsigned bits, uint64_t lo, uint64_t hi)
{
  uint64_t v = next(n);
  if (bits < 64) v &= (1ULL << bits) - 1;
  if (v < lo) v = lo; if (v > hi) v = hi;
  return v;
}
int64_t sx_s(const char* n, unsigned bits, int64_t lo, int64_t hi)
{
  uint64_t v = next(n);
  int64_t s = (int64_t)(v << (64 - bits)) >> (64 - bits);
  if (s < lo) s = lo; if (s > hi) s = hi;
  return s;
}
float sx_f32(const char* n, float lo, float hi) { uint32_t v = (uint32_t)next(n); float f; memcpy(&f, &v, 4); if (!(f >= lo)) f = lo; if (f > hi) f = hi; return f; }
double sx_f64(const char* n, double lo, double hi) { uint64_t v = next(n); double f; memcpy(&f, &v, 8); if (!(f >= lo)) f = lo; if (f > hi) f = hi; return f; }
uint32_t sx_raw32(const char* n) { return (uint32_t)next(n); }
uint64_t sx_raw64(const char* n) { return next(n); }
void sx_assume(int c) { if (!c) { printf("SX-ASSUME\n"); fflush(stdout); _Exit(77); } }
void sx_check(int c, const char* l) { if (!c) { printf("SX-FAILED %s\n", l); fflush(stdout); _Exit(1); } }
void sx_fail(const char* l) { sx_check(0, l); }
void sx_pass(const char*) {}
void sx_reach(const char* l) { printf("SX-REACH %s\n", l); }
void sx_end() { printf("SX-END\n"); fflush(stdout); _Exit(0); }
uint64_t sx_fork(uint64_t v) { return v; }
int64_t sx_param(const char* n, int64_t d) { return g_par.count(n) ? g_par[n] : d; }
void sx_note(const char* n, uint64_t v) { printf("SX-NOTE %s %llu 0x%llx\n", n, (unsigned long long)v, (unsigned long long)v); }
int sx_is_symbolic(uint64_t) { return 0; }
int sx_native() { return 1; }
int sx_branch(int c) { return c; }
void sx_known(int c, const char* l) { if (c) { printf("SX-KNOWN %s\n", l); fflush(stdout); _Exit(79); } }
}
int main(int argc, char** argv)
{
  if (argc < 2) return 99;
  std::ifstream f(argv[1]);
  std::string n, v;
  while (f >> n >> v) g_in.push_back({n, strtoull(v.c_str(), nullptr, 16)});
  for (int i = 2; i < argc; ++i) { char* e = strchr(argv[i], '='); if (e) g_par[std::string(argv[i], e)] = strtoll(e + 1, nullptr, 0); }
  try { SX_ENTRY(); }
  catch (const std::exception& e) { printf("SX-EXCEPTION %s\n", e.what()); fflush(stdout); _Exit(3); }
  printf("SX-END\n");
  return 0;
}
