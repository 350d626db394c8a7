/* Contracts of libc memory and string functions.
 *
 * Proof mode: calls go to the contracts below, which check the callee's precondition and return anything the C standard
 * allows. Content clauses ("dst[i] == src[i] for every i") are instantiated at witness indices chosen by the harness;
 * a harness proves its own pointwise postcondition for an arbitrary witness, hence for all.
 * Bounded mode: plain loop models with exact-size objects. Native replay: the real libc.
 */
#ifndef VF_LIBC_H
#define VF_LIBC_H
#include "vf.h"
#ifdef VF_CBMC

#if defined(VF_PROOF) || defined(VF_OPAQUE)
const char *vf_rp0, *vf_rp1, *vf_rp2, *vf_rp3;
size_t vf_rn0, vf_rn1, vf_rn2, vf_rn3;
size_t vf_w0, vf_w1, vf_w2;   /* witnesses of memcpy/memmove, relative to dst */
size_t vf_r0, vf_r1, vf_r2;   /* witnesses of realloc, relative to the object */
size_t vf_c0; /* witness of memcmp equality */
#define VF_START() (vf_rp0 = vf_rp1 = vf_rp2 = vf_rp3 = 0, vf_w0 = vf_w1 = vf_w2 = vf_r0 = vf_r1 = vf_r2 = vf_c0 = 0)
#define VF_WITNESS(a, b, c) (vf_w0 = (a), vf_w1 = (b), vf_w2 = (c))
#define VF_RWITNESS(a, b, c) (vf_r0 = (a), vf_r1 = (b), vf_r2 = (c))
#define VF_CWITNESS(a) (vf_c0 = (a))

static inline void vf_reg(const char *p, size_t n) {
  if (!vf_rp0) { vf_rp0 = p; vf_rn0 = n; }
  else if (!vf_rp1) { vf_rp1 = p; vf_rn1 = n; }
  else if (!vf_rp2) { vf_rp2 = p; vf_rn2 = n; }
  else { vf_rp3 = p; vf_rn3 = n; }
}
#define VF_SL(i) if (vf_rp##i && __CPROVER_same_object(s, vf_rp##i)) { \
    size_t b_ = __CPROVER_POINTER_OFFSET(vf_rp##i) + vf_rn##i, o_ = __CPROVER_POINTER_OFFSET(s); \
    if (o_ <= b_) return b_ - o_; }
size_t strlen(const char *s) {
  __CPROVER_assert(__CPROVER_r_ok(s, 1), "strlen: argument readable");
  VF_SL(0) VF_SL(1) VF_SL(2) VF_SL(3)
  size_t r = nondet_size();
  ASSUME(r < __CPROVER_OBJECT_SIZE(s) - __CPROVER_POINTER_OFFSET(s) && s[r] == '\0');
  return r;
}
static inline void* vf_memxfer(void *dst, const void *src, size_t n) {
  __CPROVER_assert(n == 0 || __CPROVER_r_ok(src, n), "memcpy/memmove: source readable");
  __CPROVER_assert(n == 0 || __CPROVER_w_ok(dst, n), "memcpy/memmove: destination writable");
  if (n) {
    char *d = dst; const char *s = src;
    char v0 = vf_w0 < n ? s[vf_w0] : 0, v1 = vf_w1 < n ? s[vf_w1] : 0, v2 = vf_w2 < n ? s[vf_w2] : 0;
    __CPROVER_havoc_slice(dst, n);
    if (vf_w0 < n) ASSUME(d[vf_w0] == v0);
    if (vf_w1 < n) ASSUME(d[vf_w1] == v1);
    if (vf_w2 < n) ASSUME(d[vf_w2] == v2);
  }
  return dst;
}
void* memmove(void *dst, const void *src, size_t n) { return vf_memxfer(dst, src, n); }
#ifndef VF_OWN_MEMCPY
void* memcpy(void *dst, const void *src, size_t n) {
  __CPROVER_assert(n == 0 || !__CPROVER_same_object(dst, src) || (const char*) dst + n <= (const char*) src ||
                   (const char*) src + n <= (const char*) dst, "memcpy: regions do not overlap");
  return vf_memxfer(dst, src, n);
}
#endif
int memcmp(const void *a_, const void *b_, size_t n) {
  const char *a = a_, *b = b_;
  __CPROVER_assert(n == 0 || (__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n)), "memcmp: arguments readable");
  int r = nondet_int();
  if (n == 0) return 0;
#define VF_EQ(i) (i >= n || a[i] == b[i])
  if (r == 0) ASSUME(VF_EQ(vf_c0) && VF_EQ(0) && VF_EQ(1) && VF_EQ(2) && VF_EQ(3) && VF_EQ(4) && VF_EQ(5) && VF_EQ(6) && VF_EQ(7));
  else { size_t i = nondet_size(); ASSUME(i < n && a[i] != b[i]); }
  return r;
}
#ifndef VF_OWN_REALLOC
void* realloc(void *p, size_t n) {
  char *q = malloc(n);
  if (p) {
    const char *o = p;
    size_t on = __CPROVER_OBJECT_SIZE(p);
    if (vf_r0 < n && vf_r0 < on) q[vf_r0] = o[vf_r0];
    if (vf_r1 < n && vf_r1 < on) q[vf_r1] = o[vf_r1];
    if (vf_r2 < n && vf_r2 < on) q[vf_r2] = o[vf_r2];
    free(p);
  }
  return q;
}
#endif
#else /* bounded */
#define VF_START() ((void) 0)
#define VF_WITNESS(a, b, c) ((void) 0)
#define VF_RWITNESS(a, b, c) ((void) 0)
#define VF_CWITNESS(a) ((void) 0)
#define vf_reg(p_, n_) ((void) 0)
static inline void* vf_malloc(size_t n) {
  switch (n) { /* constant-size objects: keeps the SAT encoding small and bounds exact */
    case 0: return malloc(0); case 1: return malloc(1); case 2: return malloc(2); case 3: return malloc(3);
    case 4: return malloc(4); case 5: return malloc(5); case 6: return malloc(6); case 7: return malloc(7);
    case 8: return malloc(8); case 9: return malloc(9); case 10: return malloc(10); case 11: return malloc(11);
    case 12: return malloc(12); case 16: return malloc(16);
    default: return malloc(n);
  }
}
void* memcpy(void *d, const void *s, size_t n) {
  __CPROVER_assert(n == 0 || !__CPROVER_same_object(d, s) || (const char*) d + n <= (const char*) s ||
                   (const char*) s + n <= (const char*) d, "memcpy: regions do not overlap");
  for (size_t i = 0; i < n; ++i) ((char*) d)[i] = ((const char*) s)[i];
  return d;
}
void* memmove(void *d, const void *s, size_t n) {
  if (__CPROVER_same_object(d, s) && (const char*) d > (const char*) s) {
    for (size_t i = n; i > 0; --i) ((char*) d)[i - 1] = ((const char*) s)[i - 1];
  } else {
    for (size_t i = 0; i < n; ++i) ((char*) d)[i] = ((const char*) s)[i];
  }
  return d;
}
void* vf_realloc(void *p, size_t n) {
  char *q = vf_malloc(n);
  if (p) {
    size_t on = __CPROVER_OBJECT_SIZE(p);
    for (size_t i = 0; i < on && i < n; ++i) q[i] = ((char*) p)[i];
    free(p);
  }
  return q;
}
#define malloc(n_) vf_malloc(n_)
#define realloc(p_, n_) vf_realloc(p_, n_)
#endif
#else
#define VF_START() ((void) 0)
#define VF_WITNESS(a, b, c) ((void) 0)
#define VF_RWITNESS(a, b, c) ((void) 0)
#define VF_CWITNESS(a) ((void) 0)
#define vf_reg(p_, n_) ((void) 0)
#endif

/* n nondeterministic bytes (logged one by one when bounded, so they can be replayed).
 * VF_OPAQUE: the code under test never branches on these bytes, so a counterexample is only its sizes and positions;
 * the bounded search keeps using the contracts and the replay fills in distinct pseudo-random bytes. */
static inline void vf_fill(char *p, size_t n) {
#if defined(VF_REPLAY) && defined(VF_OPAQUE) && !defined(VF_LOGGED)
  static unsigned seed = 2463534242u;
  for (size_t i = 0; i < n; ++i) { seed ^= seed << 13; seed ^= seed >> 17; seed ^= seed << 5; p[i] = (char) (1 + seed % 255); }
#elif !defined(VF_PROOF) && (!defined(VF_OPAQUE) || defined(VF_LOGGED))
  for (size_t i = 0; i < n; ++i) p[i] = nd_char("byte");
#endif
}
static inline char* vf_bytes(size_t n) {
  char *s = malloc(n);
  vf_fill(s, n);
  return s;
}
/* A C string of arbitrary length n (bounded mode: <= bound): [n] is NUL; no NUL before (instantiated at witness k). */
static inline char* vf_cstr(size_t bound, size_t *np, size_t k) {
  size_t n = nd_size("strlen");
  ASSUME(n <= VF_LIM(VF_BIG, bound));
  char *s = vf_bytes(n + 1);
  s[n] = '\0';
#if defined(VF_CBMC) && (defined(VF_PROOF) || defined(VF_OPAQUE))
  if (k < n) ASSUME(s[k] != '\0');
  vf_reg(s, n);
#else
  for (size_t i = 0; i < n; ++i) ASSUME(s[i] != '\0');
#endif
  if (np) *np = n;
  return s;
}
#endif
