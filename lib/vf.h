/* Dual-mode verification header.
 *   VF_CBMC + VF_PROOF   : contracts proved by goto-instrument --dfcc + cbmc, no bound
 *   VF_CBMC + VF_BOUNDED : same harness, loops unwound; looks for a concrete counterexample
 *   VF_REPLAY            : same harness compiled natively, inputs read from the counterexample
 */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

#ifdef VF_CBMC
size_t nondet_size(void); int nondet_int(void); long long nondet_ll(void);
unsigned char nondet_uc(void); _Bool nondet_bool(void); unsigned nondet_uint(void);
#define ASSUME(c) __CPROVER_assume(c)
#define ENSURE(id, c) __CPROVER_assert((c), "ENSURE:" id)
#ifdef VF_NOREACH
#define REACH(id) __CPROVER_assert(1, "REACH:" id)
#else
#define REACH(id) __CPROVER_assert(0, "REACH:" id)
#endif
#define ND_DEF(fn_, ty_, nd_) \
  static inline ty_ fn_(const char *name) { ty_ v = nd_(); __CPROVER_input(name, v); return v; }
ND_DEF(nd_size, size_t, nondet_size)
ND_DEF(nd_int, int, nondet_int)
ND_DEF(nd_uint, unsigned, nondet_uint)
ND_DEF(nd_ll, long long, nondet_ll)
ND_DEF(nd_uc, unsigned char, nondet_uc)
ND_DEF(nd_bool, _Bool, nondet_bool)
static inline char nd_char(const char *name) { return (char) nd_uc(name); }
static inline long long nd_range(const char *name, long long lo, long long hi) {
  long long v = nondet_ll(); __CPROVER_assume(v >= lo && v <= hi); __CPROVER_input(name, v); return v; }
#define VF_END() __CPROVER_assume(0)
/* p has room for n more bytes in its object */
#define VF_ROOM(p, n) (__CPROVER_w_ok((p), (n)))
#else
/* native replay */
extern long long vf_next(const char *name);
extern void vf_violation(const char *id) __attribute__((noreturn));
extern void vf_assume_failed(const char *what) __attribute__((noreturn));
extern void vf_end(void) __attribute__((noreturn));
#define ASSUME(c) do { if (!(c)) vf_assume_failed(#c); } while (0)
#define ENSURE(id, c) do { if (!(c)) vf_violation(id); } while (0)
#define REACH(id) ((void) 0)
static inline size_t nd_size(const char *n) { return (size_t) vf_next(n); }
static inline int nd_int(const char *n) { return (int) vf_next(n); }
static inline unsigned nd_uint(const char *n) { return (unsigned) vf_next(n); }
static inline long long nd_ll(const char *n) { return vf_next(n); }
static inline unsigned char nd_uc(const char *n) { return (unsigned char) vf_next(n); }
static inline char nd_char(const char *n) { return (char) vf_next(n); }
#ifdef VF_ENUM
extern long long vf_range(const char *name, long long lo, long long hi);
static inline long long nd_range(const char *n, long long lo, long long hi) { return vf_range(n, lo, hi); }
static inline _Bool nd_bool(const char *n) { return vf_range(n, 0, 1) != 0; }
#else
static inline long long nd_range(const char *n, long long lo, long long hi) { return vf_next(n); }
static inline _Bool nd_bool(const char *n) { return vf_next(n) != 0; }
#endif
#define VF_END() vf_end()
#define VF_ROOM(p, n) 1
#define __CPROVER_assigns(...)
#define __CPROVER_requires(...)
#define __CPROVER_ensures(...)
#define __CPROVER_frees(...)
#endif

/* A size taken from [0, proof_max] in proof mode and from [0, b] in bounded mode. */
#ifndef VF_N
#define VF_N 4
#endif
#ifdef VF_PROOF
#define VF_LIM(proof_, b_) (proof_)
#else
#define VF_LIM(proof_, b_) (b_)
#endif
#define VF_BIG ((size_t) 1 << 30)

#endif
