// The harnesses run the parallel regions with a team of one thread (stated in DESIGN.md).
#ifndef SX_OMP_H
#define SX_OMP_H
static inline int omp_get_num_threads() { return 1; }
static inline int omp_get_max_threads() { return 1; }
static inline int omp_get_thread_num() { return 0; }
static inline int omp_get_num_procs() { return 1; }
static inline void omp_set_num_threads(int) {}
#endif
