// Formatted text in the string builder and in the pool: complete whatever its length.
//@ entry: p_xprintf nodfcc props=C19 functions=xstr_printf_va native=n_printf unwind=4 rename=xstr.c:xstr_cat2
//@ entry: p_pprintf nodfcc props=C22 functions=pool_printf_va,_printf_estimate_size,_printf_va native=n_printf unwind=4 rename=pool.c:pool_alloc
//@ entry: p_repeat defs=VF_REP props=C19 functions=xstr_cat_repeat native=n_printf unwind=4 rename=xstr.c:xstr_cat2
//@ loop: xstr.c xstr_cat_repeat 0 p_repeat
//@   __CPROVER_assigns(i, g_added)
//@   __CPROVER_loop_invariant(i >= 0 && i <= g_want && g_added == g_want - i)
//@ entry: n_printf mode=native props=C19,C22 functions=xstr_printf,xstr_printf_va,xstr_cat_repeat,pool_printf,pool_printf_va
//@ assume: vsnprintf writes as much of the formatted text as fits, always NUL-terminated, and returns the text's full length (below 2^30)
#include <stddef.h>
static long g_want, g_added;
#include "vf.h"
#include "vf_log.h"
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#ifdef VF_PROOF
static int vf_vsnprintf(char *b, size_t n, const char *f, va_list va);
#define vsnprintf(b, n, f, v) vf_vsnprintf(b, n, f, v)
#include "xstr.h"
#include "pool.h"
#ifdef VF_REN_xstr_cat2
void xstr_cat2(struct xstr *x, const void *p, size_t n);
#endif
#ifdef VF_REN_pool_alloc
void* pool_alloc(struct pool *pool, size_t siz);
#endif
#endif
#include "xstr.c"
#include "pool.c"
#ifdef VF_PROOF
static int g_len; static size_t g_k; static char g_ch; static const char *g_fmt; static int g_cats;
static int vf_vsnprintf(char *b, size_t n, const char *f, va_list va) {
  ENSURE("format/text-and-room", f == g_fmt && (n == 0 || __CPROVER_w_ok(b, n)));
  if (n) {
    size_t m = g_len < n - 1 ? g_len : n - 1;
    /* fresh memory is arbitrary already */
    if (g_k < m) b[g_k] = g_ch;
    b[m] = 0;
  }
  return g_len;
}
#ifdef VF_REN_xstr_cat2
void xstr_cat2(struct xstr *x, const void *p, size_t n) {
  if (g_fmt) {
    ++g_cats;
    ENSURE("printf/whole-text-appended", n == g_len && __CPROVER_r_ok(p, n));
    ENSURE("printf/text-unchanged", g_k >= n || ((const char*) p)[g_k] == g_ch);
  } else {
    ++g_added;
    ENSURE("repeat/the-character", n == 1 && *(const char*) p == g_ch);
  }
}
static int call(struct xstr *x, const char *f, ...) { va_list va; va_start(va, f); int r = xstr_printf_va(x, f, va); va_end(va); return r; }
void p_xprintf(void) {
  static struct xstr x;
  static char fmt[1];
  g_len = nd_int("len"); g_k = nd_size("k"); g_ch = nd_char("ch"); g_fmt = fmt; g_cats = 0;
  ASSUME(g_len >= 0 && g_len < (1 << 30));
  int rc = call(&x, fmt, 1);
  REACH("printf");
  ENSURE("printf/appended-once", rc == 0 && g_cats == 1);
}
#ifdef VF_REP
void p_repeat(void) {
  static struct xstr x;
  int n = nd_int("n");
  ASSUME(n <= 1 << 30);
  g_fmt = 0; g_ch = nd_char("ch"); g_added = 0; g_want = n > 0 ? n : 0;
  xstr_cat_repeat(&x, g_ch, n);
  REACH("repeat");
  ENSURE("repeat/count", g_added == g_want);
}
#endif
#endif
#ifdef VF_REN_pool_alloc
static size_t g_sz; static int g_allocs;
void* pool_alloc(struct pool *pool, size_t siz) { ++g_allocs; g_sz = siz; void *p = malloc(siz); return p; }
static char* callp(struct pool *x, const char *f, ...) { va_list va; va_start(va, f); char *r = pool_printf_va(x, f, va); return r; }
void p_pprintf(void) {
  static struct pool p;
  static char fmt[1];
  g_len = nd_int("len"); g_k = nd_size("k"); g_ch = nd_char("ch"); g_fmt = fmt; g_allocs = 0;
  ASSUME(g_len >= 0 && g_len < (1 << 30));
  char *r = nd_bool("va") ? callp(&p, fmt, 1) : pool_printf(&p, fmt, 1);
  REACH("printf");
  ENSURE("pool-printf/room-from-the-pool", g_allocs == 1 && g_sz > g_len);
  ENSURE("pool-printf/whole-text", (g_k >= g_len || r[g_k] == g_ch) && r[g_len] == 0);
}
#endif
#else
void n_printf(void) {
  int n = nd_range("length", 0, 2200), how = nd_range("how", 0, 2);
  char *b = malloc(n + 1); for (int i = 0; i < n; ++i) b[i] = 33 + i * 7 % 90; b[n] = 0;
  if (how == 0) {
    struct xstr *x = xstr_create_empty();
    xstr_cat(x, "pre");
    ENSURE("printf/succeeds", xstr_printf(x, "%s%d", b, 7) == 0);
    ENSURE("printf/whole-text-appended", xstr_size(x) == n + 4 && !memcmp(xstr_ptr(x), "pre", 3) && !memcmp(xstr_ptr(x) + 3, b, n) && !strcmp(xstr_ptr(x) + 3 + n, "7"));
    xstr_destroy(x);
  } else if (how == 1) {
    struct xstr *x = xstr_create_empty();
    xstr_cat_repeat(x, 'z', n - 3);
    ENSURE("repeat/count", xstr_size(x) == (n > 3 ? n - 3 : 0) && strspn(xstr_ptr(x), "z") == xstr_size(x));
    xstr_destroy(x);
  } else {
    struct pool *p = pool_create_preallocated(16);
    char *a = pool_printf(p, "%s%d", b, 8), *c = pool_printf(p, "%s", b);
    ENSURE("pool-printf/whole-text", !strncmp(a, b, n) && !strcmp(a + n, "8") && !strcmp(c, b));
    pool_destroy(p);
  }
  free(b);
}
#endif
