// Memory pool: each block lies in the pool's free region, which then starts behind it; all older memory stays owned.
//@ entry: h_alloc props=C22 functions=pool_alloc,_extend,pool_calloc unwind=2 bunwind=3 N=100 defs=VF_OPAQUE
//@ entry: h_create props=C22 functions=pool_create,pool_create_empty,pool_create_preallocated,_extend native=n_fill unwind=2 bunwind=3 N=100 defs=VF_OPAQUE
//@ entry: h_strdup props=C22 functions=pool_strdup unwind=2 bunwind=3 N=20 defs=VF_OPAQUE
//@ entry: h_strndup props=C22 functions=pool_strndup rename=utils.h:utils_strnlen unwind=2 bunwind=8 N=4 defs=VF_OPAQUE
//@ entry: h_strnlen props=C22 functions=utils_strnlen unwind=2 bunwind=8 N=4
//@ loop: utils.h utils_strnlen 0 h_strnlen
//@   __CPROVER_assigns(i)
//@   __CPROVER_loop_invariant(i <= maxlen && i <= g_n &&  (i <= g_k || g_k >= g_n || s[g_k] != '\0'))
//@ entry: h_destroy props=C22 functions=pool_destroy unwind=2 bunwind=6 N=4 mode=bounded bflags=--memory-leak-check
//@ entry: h_printf mode=native props=C22 functions=pool_printf,pool_printf_va,_printf_va,_printf_estimate_size
//@ entry: n_fill mode=native props=C22 functions=pool_create_preallocated,pool_alloc,_extend nlimit=30
//@ entry: h_seq mode=native props=C22 functions=pool_alloc,pool_calloc,pool_strdup,pool_strndup,pool_destroy nlimit=30
//@ assume: malloc never fails (xmalloc aborts instead); one block is below 1 GiB
#include <stddef.h>
static size_t g_k, g_n;
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#ifdef VF_REN_utils_strnlen
static size_t utils_strnlen(const char *s, size_t maxlen) { /* contract, proved by h_strnlen */
  size_t n = strlen(s);
  return n < maxlen ? n : maxlen;
}
#endif
#include "pool.c"

static struct pool* mk(void) {
  struct pool *p = malloc(sizeof(*p));
  p->on_pool_destroy = 0;
  p->user_data = 0;
  if (nd_bool("fresh")) {
    p->usiz = p->asiz = 0; p->heap = 0; p->unit = 0;
  } else {
    p->asiz = nd_size("asiz"); p->usiz = nd_size("usiz");
    ASSUME(p->asiz <= VF_LIM(VF_BIG, 100) && p->usiz <= p->asiz && p->asiz % 8 == 0 && p->usiz % 8 == 0);
    p->unit = malloc(sizeof(*p->unit));
    p->unit->next = 0;
    p->unit->heap = vf_bytes(p->asiz);
    p->heap = (char*) p->unit->heap + p->usiz;
  }
  return p;
}
#ifdef VF_CBMC
#define ROOM_HERE(p) __CPROVER_w_ok((p)->heap, (p)->asiz - (p)->usiz)
#define SAMEOBJ(a, b) __CPROVER_same_object(a, b)
#else
#define ROOM_HERE(p) 1
#define SAMEOBJ(a, b) ((char*) (a) >= (char*) (b) && (char*) (a) <= (char*) (b) + p->asiz)
#endif
#define INV(p, id) \
  ENSURE(id "/free-region-within-unit", (p)->usiz <= (p)->asiz && (!(p)->unit || ((p)->heap == (char*) (p)->unit->heap + (p)->usiz && ROOM_HERE(p)))); \
  ENSURE(id "/aligned", (p)->usiz % 8 == 0)

void h_alloc(void) {
  VF_START();
  struct pool *p = mk();
  struct pool_unit *ou = p->unit; char *oh = p->heap; size_t ouz = p->usiz, oaz = p->asiz;
  char *ob = ou ? ou->heap : 0;
  size_t n = nd_size("n"), k = nd_size("k");
  ASSUME(n <= VF_LIM(VF_BIG, VF_N));
  char w = ou && k < ouz ? ob[k] : 0; /* any byte handed out before */
  _Bool cl = nd_bool("calloc");
#ifdef VF_CBMC
  ASSUME(!cl || n);
  char *b = cl ? pool_calloc(p, n) : pool_alloc(p, n);
#else
  char *b = cl ? pool_calloc(p, n) : pool_alloc(p, n);
  if (b) memset(b, cl ? 0 : 1, cl ? 0 : n);
#endif
  REACH("alloc");
  INV(p, "alloc");
  if (n) {
    ENSURE("alloc/usable", b && VF_ROOM(b, n));
    ENSURE("alloc/aligned", ((b - (char*) p->unit->heap) & 7) == 0);
    ENSURE("alloc/inside-current-unit", SAMEOBJ(b, p->unit->heap) && b + n <= p->heap && b >= (char*) p->unit->heap);
    ENSURE("alloc/behind-older-blocks", p->unit != ou || b >= oh);
    ENSURE("calloc/zeroed", !cl || k >= n || b[k] == 0);
  }
  ENSURE("alloc/older-memory-owned", p->unit == ou || (p->unit && p->unit->next == ou));
  ENSURE("alloc/older-memory-kept", !ou || (ou->heap == ob && (k >= ouz || ob[k] == w)));
  ENSURE("alloc/older-unit-untouched", p->unit != ou || !ou || (p->asiz == oaz && p->usiz >= ouz));
}

static int g_dtor;
static void dtor(struct pool *p) { ++g_dtor; }
void h_create(void) {
  VF_START();
  size_t n = nd_size("n");
  ASSUME(n <= VF_LIM(VF_BIG, VF_N));
  g_dtor = 0;
  int op = nd_int("op");
  struct pool *p = op == 0 ? pool_create_empty() : op == 1 ? pool_create(dtor) : pool_create_preallocated(n);
  REACH("create");
  INV(p, "create");
  ENSURE("create/nothing-used", p->usiz == 0);
  ENSURE("create/empty", !(op == 0 || op == 1) || (p->asiz == 0 && p->unit == 0));
  ENSURE("create/preallocated", op == 0 || op == 1 || (p->asiz >= n && p->unit && p->unit->next == 0));
  ENSURE("create/dtor", p->on_pool_destroy == (op == 1 ? dtor : 0));
}

void h_strdup(void) {
  VF_START();
  struct pool *p = mk();
  size_t n, k = nd_size("k");
  char *s = vf_cstr(VF_N, &n, k);
  char c = k <= n ? s[k] : 0;
  VF_WITNESS(k, k, k);
  char *d = pool_strdup(p, s);
  REACH("strdup");
  INV(p, "strdup");
  ENSURE("strdup/copy", d != s && VF_ROOM(d, n + 1) && d[n] == 0 && (k >= n || d[k] == c));
  ENSURE("strdup/in-pool", SAMEOBJ(d, p->unit->heap) && d + n + 1 <= p->heap);
  ENSURE("strdup/null", pool_strdup(p, 0) == 0);
}

void h_strnlen(void) {
  VF_START();
  size_t m = nd_size("m"), k = nd_size("k");
  g_k = k;
  char *s = vf_cstr(VF_N, &g_n, k);
  size_t r = utils_strnlen(s, m);
  REACH("strnlen");
  ENSURE("strnlen/within", r <= m && r <= g_n);
  ENSURE("strnlen/no-nul-before", k >= r || s[k] != 0);
  ENSURE("strnlen/stops-at-nul-or-limit", r == m || s[r] == 0);
}

void h_strndup(void) {
  VF_START();
  struct pool *p = mk();
  size_t n, k = nd_size("k"), m = nd_size("m");
  g_k = k;
  char *s = vf_cstr(VF_N, &n, k);
  g_n = n;
  size_t l = m < n ? m : n;
  char c = k <= n ? s[k] : 0;
  VF_WITNESS(k, k, k);
  char *d = pool_strndup(p, s, m);
  REACH("strndup");
  INV(p, "strndup");
  ENSURE("strndup/copy", VF_ROOM(d, l + 1) && (k >= l || d[k] == c));
  ENSURE("strndup/terminated", d[l] == 0);
  ENSURE("strndup/in-pool", SAMEOBJ(d, p->unit->heap) && d + l + 1 <= p->heap);
}

void h_destroy(void) {
  struct pool *p = malloc(sizeof(*p));
  unsigned n = nd_uint("n");
  ASSUME(n <= 4);
  g_dtor = 0;
  p->unit = 0;
  p->on_pool_destroy = nd_bool("d") ? dtor : 0;
  int want = p->on_pool_destroy != 0;
  void *wu = 0, *wh = 0;
  for (unsigned i = 0; i < n; ++i) {
    struct pool_unit *u = malloc(sizeof(*u));
    u->heap = malloc(8); u->next = p->unit; p->unit = u;
    if (i == 1) { wu = u; wh = u->heap; }
  }
  pool_destroy(p);
  REACH("destroy");
  ENSURE("destroy/callback-once", g_dtor == want);
  pool_destroy(0);
}

void h_printf(void) {
  struct pool *p = pool_create_empty();
  int n = nd_range("n", 0, 20);
  char s[32];
  memset(s, 'a', sizeof(s)); s[n] = 0;
  char want[64];
  snprintf(want, sizeof(want), "%s/%d-%s", s, n, s);
  char *r = pool_printf(p, "%s/%d-%s", s, n, s);
  char *r2 = pool_printf(p, "%s", s);
  ENSURE("printf/text", strcmp(r, want) == 0 && strcmp(r2, s) == 0);
  pool_destroy(p);
}

/* blocks filled up to their end, ASan checks the bounds; one allocation may be larger than all before */
void n_fill(void) {
  size_t pre = nd_range("pre", 0, 130), n = nd_range("size", 1, 41), big = (size_t[]) { 0, 100, 5000, 70000 }[nd_range("big", 0, 3)];
  struct pool *p = pre == 0 ? pool_create_empty() : pre == 130 ? pool_create(0) : pool_create_preallocated(pre);
  char *b[40], *g = 0;
  for (int i = 0; i < 40; ++i) {
    b[i] = pool_alloc(p, n); memset(b[i], i, n);
    ENSURE("fill/aligned", ((uintptr_t) b[i] & 7) == 0);
    if (i == 20 && big) { g = pool_alloc(p, big); memset(g, 99, big); }
  }
  for (int i = 0; i < 40; ++i) ENSURE("fill/distinct", b[i][0] == i && b[i][n - 1] == i);
  if (g) ENSURE("fill/distinct", g[0] == 99 && g[big - 1] == 99);
  pool_destroy(p);
}

void h_seq(void) { /* blocks of several sizes keep their content; ASan checks the bounds */
  static const size_t sz[] = { 0, 1, 7, 8, 9, 40 };
  struct pool *p = nd_bool("pre") ? pool_create_preallocated(16) : pool_create(0);
  char *b[6]; size_t n[6];
  int cnt = 5;
  for (int i = 0; i < cnt; ++i) {
    int op = nd_range("op", 0, 1);
    n[i] = sz[nd_range("sz", 0, 5)];
    if (op == 0) { b[i] = pool_alloc(p, n[i]); if (n[i]) memset(b[i], 'A' + i, n[i]); }
    else {
      char t[64]; memset(t, 'A' + i, 63); t[n[i]] = 0;
      b[i] = pool_strdup(p, t);
      ENSURE("seq/terminated", b[i][n[i]] == 0);
    }
    ENSURE("seq/aligned", ((uintptr_t) b[i] & 7) == 0);
  }
  for (int i = 0; i < cnt; ++i)
    for (size_t j = 0; j < n[i]; ++j) ENSURE("seq/blocks-distinct", b[i][j] == 'A' + i);
  pool_destroy(p);
}
