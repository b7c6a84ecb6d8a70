// Interface between the harnesses and the symbolic executor (engine/) or the native replay (rt/native.cpp).
#ifndef SX_H
#define SX_H
#include <cstdint>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sx_u(const char* name, unsigned bits, uint64_t lo, uint64_t hi);   // unsigned input in [lo, hi]
int64_t sx_s(const char* name, unsigned bits, int64_t lo, int64_t hi);      // signed input in [lo, hi]
float sx_f32(const char* name, float lo, float hi);                         // any float in [lo, hi]
double sx_f64(const char* name, double lo, double hi);
uint32_t sx_raw32(const char* name);                                        // any bit pattern
uint64_t sx_raw64(const char* name);
void sx_assume(int c);
void sx_check(int c, const char* label);                                    // the assertion to discharge
void sx_fail(const char* label);
void sx_pass(const char* label);
void sx_reach(const char* label);                                           // non-vacuity witness
void sx_end() __attribute__((noreturn));
uint64_t sx_fork(uint64_t v);                                               // one path per feasible value
int64_t sx_param(const char* name, int64_t def);                            // bound chosen by the driver
void sx_note(const char* name, uint64_t v);
int sx_is_symbolic(uint64_t v);
int sx_native();
int sx_branch(int c);
void sx_known(int c, const char* label);                                    // listed finding, excluded from then on
#ifdef __cplusplus
}
static inline int sx_int(const char* name, int lo, int hi) { return static_cast<int>(sx_s(name, 32, lo, hi)); }
static inline bool sx_bool(const char* name) { return sx_u(name, 1, 0, 1) != 0; }
static inline float sx_rawf(const char* name) { union { uint32_t u; float f; } x; x.u = sx_raw32(name); return x.f; }
static inline double sx_rawd(const char* name) { union { uint64_t u; double f; } x; x.u = sx_raw64(name); return x.f; }
#endif
#endif
