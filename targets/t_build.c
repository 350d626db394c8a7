// Building: every rule is completed once and before what depends on it, cycles and doubly claimed products are fatal.
//@ entry: p_build props=C25 functions=node_build defs=VF_PB rename=script.c:_build_subnodes,script.c:node_fatal,script.c:node_info native=n_graph link=* forked unwind=13 fpr=node_build.function_pointer_call.1/h_build
//@ entry: p_subnodes props=C25 functions=_build_subnodes defs=VF_PS fn=p_subnodes rename=script.c:node_build native=n_graph link=* forked unwind=13
//@ loop: script.c _build_subnodes 0 p_subnodes
//@   __CPROVER_assigns(nn, g_cur, g_left, CH[0].next, CH[1].next, g_pending)
//@   __CPROVER_loop_invariant(g_left >= 0 && !g_pending && ((nn == 0 && g_left == 0) || (nn == &CH[g_cur] && g_left > 0 && (g_cur == 0 || g_cur == 1))))
//@ entry: p_product props=C25 functions=node_product_add_raw defs=VF_PP rename=script.c:node_fatal native=n_claims link=* forked unwind=13
//@ entry: p_products props=C25 functions=node_product_add,node_by_product,node_by_product_raw defs=VF_PA rename=script.c:node_fatal,script.c:node_product_add_raw native=n_claims link=* forked unwind=13
//@ loop: script.c node_product_add 0 p_products
//@   __CPROVER_assigns(prod, g_left, g_pending, g_norm, g_copy, iter.item, iter.len)
//@   __CPROVER_loop_invariant(g_left >= 0 && !g_pending)
//@ entry: p_consumes props=C25 functions=node_consumes_resolve defs=VF_PC rename=script.c:node_fatal,script.c:node_build,script.c:node_value,script.c:node_by_product native=n_graph link=* forked unwind=13 fpr=node_consumes_resolve.function_pointer_call.1/h_resolved,node_consumes_resolve.function_pointer_call.2/h_resolved
//@ loop: script.c node_consumes_resolve 0 p_consumes
//@   __CPROVER_assigns(nn, rlist.num, g_left, g_cur, g_len, g_pushed, g_due, g_kind, CH[0].next, CH[1].next, g_val[0], g_val[1])
//@   __CPROVER_loop_invariant(g_left >= 0 && g_due == 0 && rlist.num == g_pushed && g_pushed >= 0 && g_pushed <= 1000000 && ((nn == 0 && g_left == 0) || (nn == &CH[g_cur] && g_left > 0 && (g_cur == 0 || g_cur == 1))))
//@ loop: script.c node_consumes_resolve 1 p_consumes
//@   __CPROVER_assigns(cv, rlist.num, g_len, g_pushed, g_due, iter.item, iter.len)
//@   __CPROVER_loop_invariant(g_len >= 0 && g_due == 0 && rlist.num == g_pushed && g_pushed >= 0 && g_pushed <= 1000000)
//@ loop: script.c node_consumes_resolve 2 p_consumes
//@   __CPROVER_assigns(i, rlist.num, g_pushed, g_due, g_cvp, g_kind, g_val[0])
//@   __CPROVER_loop_invariant(i >= 0 && i <= PATHS.num && g_due == 0 && rlist.num == g_pushed && g_pushed >= 0 && g_pushed <= 1000000)
//@ loop: script.c node_consumes_resolve 3 p_consumes
//@   __CPROVER_assigns(i, rlist.num, g_st, g_pn, g_done, g_at, g_ex, g_buf, g_cvp)
//@   __CPROVER_loop_invariant(i >= 0 && i <= rlist.num && g_done + rlist.num == g_pushed && g_done >= 0 && g_done <= 1000000 && rlist.num <= 1000000 && g_pushed <= 1000000 && g_st == 0)
//@ loop: script.c node_consumes_resolve 4 p_consumes
//@   __CPROVER_assigns(i, g_st, g_done, g_at, g_ex, g_buf, g_cvp)
//@   __CPROVER_loop_invariant(i >= 0 && i <= rlist.num && g_done + rlist.num - i == g_pushed && g_done >= 0 && g_done <= 1000000 && rlist.num <= 1000000 && g_pushed <= 1000000 && g_st == 0)
//@ entry: n_graph mode=native forked=60 link=* props=C25 functions=node_build,node_consumes_resolve,node_by_product,node_run_setup,node_cc_setup nlimit=60 cost=12 N=3 NT=4
//@ entry: n_claims mode=native forked=60 link=* props=C25 functions=node_product_add_raw,node_product_add,node_configure_setup,node_cc_setup,node_run_setup nlimit=60 cost=9
//@ assume: node_build's proof covers one activation; that a rule is not entered twice follows by induction over the activations (a second entry finds the rule busy or complete)
#ifdef VF_CBMC
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "env.h"
#include "script.h"
#include "utils.h"
#include "paths.h"
#include "map.h"
#include "ulist.h"
#include <errno.h>
struct env g_env;
static struct sctx S;
#if defined(VF_PB)
static struct unit U;
static int g_subs, g_built, g_pushed, g_popped, g_fatal_due, g_was_built;
struct ulist* g_stk;
struct unit* unit_peek(void) { return &U; }
void unit_push(struct unit *u, struct node *n) { ENSURE("build/context-for-the-action", u == &U && g_subs && !g_built && !g_pushed); g_pushed = 1; }
struct unit* unit_pop(void) { ENSURE("build/context-after-the-action", g_built && g_pushed && !g_popped); g_popped = 1; return &U; }
static void _build_subnodes(struct node *n);
void node_info(struct node *n, const char *fmt, ...) { }
__attribute__((noreturn)) void node_fatal(int rc, struct node *n, const char *fmt, ...) {
  ENSURE("build/only-a-cycle-is-fatal", g_fatal_due && rc == AK_ERROR_CYCLIC_BUILD_DEPS && !g_built);
  VF_END(); while (1);
}
void h_build(struct node *n);
#include "script.c"
static struct xnode X;
static void _build_subnodes(struct node *n) {
  ENSURE("build/parts-first", n == &X.base && !g_subs && !g_built && !g_was_built);
  g_subs = 1;
}
void h_build(struct node *n) {
  ENSURE("build/action-once-after-its-parts", n == &X.base && g_subs && !g_built && g_pushed && !g_popped);
  /* what an action may rely on: another request for this rule finds it busy */
  ENSURE("build/busy-while-acting", X.bld_calls == 1 && !(X.base.flags & NODE_FLG_BUILT));
  g_built = 1;
}
void p_build(void) {
  VF_START();
  g_subs = g_built = g_pushed = g_popped = g_fatal_due = 0;
  X.base.flags = nd_uint("flags");
  X.base.build = nd_bool("has-action") ? h_build : 0;
  X.base.unit = &U;
  X.bld_calls = nd_range("calls", 0, 1);
  g_env.verbose = nd_bool("verbose");
  X.base.name = "n";
  unsigned calls = X.bld_calls, fl = X.base.flags;
  g_was_built = (X.base.flags & NODE_FLG_BUILT) != 0;
  g_fatal_due = X.bld_calls == 1;
  node_build(&X.base);
  REACH("build");
  ENSURE("build/complete", X.base.flags == (fl | NODE_FLG_BUILT));
  ENSURE("build/not-repeated", !g_was_built || (!g_subs && !g_built));
  ENSURE("build/done", g_was_built || (g_subs && g_built == (X.base.build != 0)));
  ENSURE("build/context-restored", g_pushed == g_popped && g_pushed == g_built);
  ENSURE("build/not-busy-afterwards", X.bld_calls == calls);
  ENSURE("build/busy-rule-refused", g_was_built || !X.base.build || calls == 0);
}
#elif defined(VF_PS)
/* the list of parts: an arbitrary number, two objects taken in turns */
static struct node CH[2], P;
static int g_cur, g_left, g_pending;
void node_build(struct node *n);
#include "script.c"
void node_build(struct node *n) {
  ENSURE("build/each-part-in-order", g_left > 0 && n == &CH[g_cur]);
  --g_left;
  g_cur = !g_cur;
  CH[!g_cur].next = g_left > 0 ? &CH[g_cur] : 0;
}
void p_subnodes(void) {
  VF_START();
  g_left = nd_range("parts", 0, 1000000);
  g_cur = 0; g_pending = 0;
  P.child = g_left > 0 ? &CH[0] : 0;
  _build_subnodes(&P);
  REACH("subnodes");
  ENSURE("build/all-parts", g_left == 0);
}
#elif defined(VF_PP)
static struct node N1, N2;
static char g_prod[1], g_dir[1];
static struct node *g_owner; static int g_put, g_mk, g_has_dir;
void* map_get(struct map *m, const void *k) { ENSURE("product/asked-for-this-one", m == S.products && k == g_prod); return g_owner; }
void map_put_str(struct map *m, const char *k, void *v) {
  ENSURE("product/claimed-only-when-free", m == S.products && k == g_prod && v == &N1 && g_owner == 0 && !g_put);
  g_put = 1;
}
static char *g_buf;
char* utils_strncpy(char *d, const char *s, size_t n) { ENSURE("product/copied", s == g_prod && n == PATH_MAX && __CPROVER_w_ok(d, n)); g_buf = d; return d; }
char* path_dirname(char *p) { ENSURE("product/directory", p == g_buf); return g_has_dir ? &g_dir[0] : (char*) 0; }
int path_mkdirs(const char *p) { ENSURE("product/directory-made", p == g_dir && !g_owner); g_mk = 1; return 0; }
__attribute__((noreturn)) void node_fatal(int rc, struct node *n, const char *fmt, ...) {
  ENSURE("product/only-a-second-claim-is-fatal", rc != 0 && n == &N1 && g_owner == &N2);
  VF_END(); while (1);
}
#include "script.c"
void p_product(void) {
  VF_START();
  N1.ctx = N2.ctx = &S; N2.name = "other"; S.products = (struct map*) g_dir;
  g_owner = nd_bool("free") ? 0 : nd_bool("own") ? &N1 : &N2;
  g_put = g_mk = 0; g_has_dir = nd_bool("dir");
  node_product_add_raw(&N1, g_prod);
  REACH("product");
  ENSURE("product/second-claim-refused", g_owner != &N2);
  ENSURE("product/claimed", g_put == (g_owner == 0));
  ENSURE("product/place-exists", g_owner || g_mk == g_has_dir);
}
#elif defined(VF_PA)
static struct node N1, N2;
static int g_left, g_pending, g_norm; static int g_list;
static char g_prod[8], g_item[1], *g_out, *g_copy;
void vlist_iter_init(const char *v, struct vlist_iter *it) { ENSURE("products/listed", g_list && v == g_prod); }
bool vlist_iter_next(struct vlist_iter *it) {
  ENSURE("products/each-one", !g_pending);
  if (g_left == 0) return false;
  --g_left; it->item = g_item; it->len = nd_range("len", 0, PATH_MAX - 1); g_pending = 1; g_norm = 0;
  return true;
}
char* utils_strnncpy(char *d, const char *s, size_t sl, size_t n) { ENSURE("products/item", s == g_item && n == PATH_MAX && __CPROVER_w_ok(d, n) && g_pending == 1); g_copy = d; g_pending = 2; return d; }
static char g_norms[1];
char* path_normalize(const char *p, char *buf) {
  ENSURE("products/absolute-path-of-the-item", g_list ? g_pending == 2 && p == g_copy : p == g_prod);
  ENSURE("products/room", buf == g_out || __CPROVER_w_ok(buf, PATH_MAX));
  g_norm = 1;
  return g_norms;
}
static struct node *g_owner;
void* map_get(struct map *m, const void *k) { ENSURE("products/looked-up", m == S.products && (k == g_norms ? g_norm : k == g_prod)); return g_owner; }
void node_product_add_raw(struct node *n, const char *prod);
__attribute__((noreturn)) void node_fatal(int rc, struct node *n, const char *fmt, ...) { ENSURE("products/no-error", 0); VF_END(); while (1); }
#include "script.c"
void node_product_add_raw(struct node *n, const char *prod) {
  ENSURE("products/registered-by-absolute-path", n == &N1 && prod == g_norms && g_norm && (!g_list || g_pending == 2));
  g_pending = 0; g_norm = 0;
  if (!g_list) { ENSURE("products/once", g_left == 1); g_left = 0; }
}
void p_products(void) {
  VF_START();
  N1.ctx = N2.ctx = &S; S.products = (struct map*) g_item;
  g_list = nd_bool("list"); g_pending = g_norm = 0;
  g_left = g_list ? nd_range("items", 0, 1000000) : 1;
  for (int i = 0; i < 7; ++i) g_prod[i] = nd_char("prod");
  g_prod[7] = 0;
  ASSUME(is_vlist(g_prod) == g_list);
  node_product_add(&N1, g_prod, 0);
  REACH("products");
  ENSURE("products/all", g_left == 0 && !g_pending);
  g_list = 0; g_norm = 0;
  g_owner = nd_bool("claimed") ? &N2 : 0;
  ENSURE("products/found", node_by_product(&N1, g_prod, 0) == g_owner && g_norm);
  ENSURE("products/found-raw", node_by_product_raw(&N1, g_prod) == g_owner);
}
#elif defined(VF_PC)
/* what a rule consumes: an arbitrary list of words and lists; each is either found after the rule producing it was built,
 * or found in the source directory, or the build ends */
static struct node CH[2], N1, PN; static struct unit U; static struct ulist PATHS;
static int g_left, g_cur, g_len, g_pushed, g_due, g_kind, g_st, g_pn, g_done, g_at, g_ex, g_where;
static char g_val[2], g_item[1], g_word[1], *g_buf, *g_cvp; static int g_hascb;
struct unit* unit_peek(void) { return &U; }
struct pool* pool_create_empty(void) { return (struct pool*) g_item; }
void pool_destroy(struct pool *p) { }
char* pool_strndup(struct pool *p, const char *s, size_t n) { ENSURE("consumes/item-copied", s == g_item); return g_word; }
void vlist_iter_init(const char *v, struct vlist_iter *it) { ENSURE("consumes/list", v == g_val && g_kind == 1); g_len = nd_range("items", 0, 100000); }
bool vlist_iter_next(struct vlist_iter *it) {
  ENSURE("consumes/each-item", g_due == 0);
  if (g_len == 0) return false;
  --g_len; it->item = g_item; it->len = 1; g_due = 1; return true;
}
void ulist_push(struct ulist *l, const void *e) {
  char *v = *(char**) e;
  ASSUME(g_pushed < 1000000);
  ENSURE("consumes/once", g_due == 1 && v == (g_kind == 1 ? g_word : g_val));
  g_due = 0; ++g_pushed; ++l->num;
}
void* ulist_get(const struct ulist *l, unsigned i) {
  ENSURE("consumes/in-range", i < l->num && g_st == 0 && g_due == 0);
  if (l == &PATHS) { g_cvp = nd_bool("null") ? (char*) 0 : g_val; g_val[0] = nd_char("c"); g_kind = 2; g_due = g_cvp && g_val[0]; }
  else { g_at = i; g_cvp = g_word; g_st = 1; }
  return &g_cvp;
}
void ulist_remove(struct ulist *l, unsigned i) {
  ENSURE("consumes/only-found-ones-are-dropped", g_st == 0 && g_ex && i == g_at);
  --l->num;
}
void ulist_destroy_keep(struct ulist *l) { }
void unit_ch_cache_dir(struct unit *u, char prev[PATH_MAX]) { ENSURE("consumes/cache-directory-first", u == &U && g_where == 0); g_where = 1; }
void unit_ch_src_dir(struct unit *u, char prev[PATH_MAX]) { ENSURE("consumes/then-source-directory", u == &U && g_where == 3); g_where = 2; }
static int vf_chdir(const char *p) { g_where = g_where == 1 ? 3 : 4; return 0; }
#define chdir vf_chdir
char* path_normalize(const char *p, char *b) { ENSURE("consumes/path", g_where == 2 && g_st == 1 && p == g_word && __CPROVER_w_ok(b, PATH_MAX)); g_buf = b; g_st = 3; return b; }
bool path_is_exist(const char *p) {
  ENSURE("consumes/looked-for-after-its-rule", g_st == 3 && p == g_buf);
  g_ex = nd_bool("exists");
  if (g_ex) ++g_done;
  g_st = g_ex && g_hascb ? 4 : 0;
  return g_ex;
}
void h_resolved(const char *p, void *o) { ENSURE("consumes/reported", g_st == 4 && p == g_buf && o == g_word); g_st = 0; }
struct node* node_by_product(struct node *n, const char *prod, char buf[PATH_MAX]);
const char* node_value(struct node *n);
void node_build(struct node *n);
__attribute__((noreturn)) void node_fatal(int rc, struct node *n, const char *fmt, ...) {
  ENSURE("consumes/only-missing-ones-are-fatal", rc == AK_ERROR_DEPENDENCY_UNRESOLVED && g_where == 2 && !g_ex);
  VF_END(); while (1);
}
#include "script.c"
const char* node_value(struct node *n) {
  ENSURE("consumes/each-word", g_left > 0 && n == &CH[g_cur] && g_due == 0);
  --g_left; g_cur = !g_cur;
  CH[!g_cur].next = g_left > 0 ? &CH[g_cur] : 0;
  if (nd_bool("null")) return 0;
  g_val[0] = nd_char("v0"); g_val[1] = 0;
  g_kind = is_vlist(g_val) ? 1 : 2;
  g_due = g_kind == 2 && g_val[0] != 0;
  return g_val;
}
struct node* node_by_product(struct node *n, const char *prod, char *buf) {
  ENSURE("consumes/producer-asked-for", n == &N1 && g_st == 1 && g_where == 1 && prod == g_word && __CPROVER_w_ok(buf, PATH_MAX));
  g_buf = buf; g_pn = nd_bool("produced"); g_st = g_pn ? 2 : 3;
  return g_pn ? &PN : (struct node*) 0;
}
void node_build(struct node *n) { ENSURE("consumes/producer-built", n == &PN && g_st == 2); g_st = 3; }
void p_consumes(void) {
  VF_START();
  g_left = nd_range("words", 0, 100000); g_cur = 0; g_pushed = g_due = g_kind = g_st = g_done = g_where = g_ex = g_len = g_at = g_pn = 0;
  PATHS.num = nd_range("paths", 0, 100000);
  int has = nd_bool("has-paths");
  g_hascb = nd_bool("reported");
  struct node *first = g_left > 0 ? &CH[0] : 0;
  node_consumes_resolve(&N1, first, has ? &PATHS : (struct ulist*) 0, g_hascb ? h_resolved : 0, g_word);
  REACH("consumes");
  ENSURE("consumes/all-found", g_left == 0 && g_done == g_pushed && g_st == 0);
  ENSURE("consumes/directory-restored", g_where == 0 || g_where == 3 || g_where == 4);
}
#endif
#else
#include "vf_build.h"
/* up to four rules, every way they can consume each other's products */
static int g_n, g_edge[4][4], g_var, g_order[4], g_dup;
static int vb_cmd(int argc, char **argv, const char *name, void (*out)(const char *buf, size_t n)) {
  int i = name[0] == 'r' ? name[1] - '0' : g_n - 1;
  ENSURE("graph/rule-built-once", i < g_n && !vb->seen[i]);
  for (int j = 0; j < g_n; ++j)
    if (g_edge[i][j] && !vb->seen[j]) { fprintf(stderr, "rule %d before %d\n", i, j); vb->seen[100] = 1; }
  vb->seen[i] = 1;
  if (name[0] == 'r') {
    char t[64]; snprintf(t, sizeof(t), "%sp%d%s", g_dup == 1 ? "" : "", i, i == 0 ? ".c" : "");
    vb_file(t, 0, "%d", i);
  } else vb_file(argv[argc - 1], 0, "obj");
  return 0;
}
static int cyclic(void) {
  int r[4][4];
  memcpy(r, g_edge, sizeof(r));
  for (int k = 0; k < g_n; ++k) for (int i = 0; i < g_n; ++i) for (int j = 0; j < g_n; ++j) r[i][j] |= r[i][k] && r[k][j];
  for (int i = 0; i < g_n; ++i) if (r[i][i]) return 1;
  return 0;
}
/* product names: p0.c, p1, p2, p3; in variant 2 the last rule compiles p0.c, in variant 1 rule 1 is in a subdirectory */
static const char *prod(int i, int from) {
  static char t[8][64]; static int k; char *b = t[k++ % 8];
  const char *pre = g_var == 1 ? (from == 1 && i != 1 ? "../" : from != 1 && i == 1 ? "sub/" : "") : "";
  if (g_var == 2 && i == g_n - 1) snprintf(b, 64, "p0.o");
  else snprintf(b, 64, "%sp%d%s", pre, i, i == 0 ? ".c" : "");
  return b;
}
static size_t rule(char *b, int i) {
  size_t n = 0;
  int cc = g_var == 2 && i == g_n - 1;
  n += cc ? sprintf(b + n, "cc {\n autark-cache/p0.c\n") : sprintf(b + n, "run {\n exec { r%d }\n produces { %s }\n", i, prod(i, i));
  n += sprintf(b + n, " consumes {\n");
  for (int j = 0; j < g_n; ++j) if (g_edge[i][j] && !(cc && j == 0)) n += sprintf(b + n, "  %s\n", prod(j, i));
  n += sprintf(b + n, " }\n}\n");
  return n;
}
void n_graph(void) {
  char b[8192] = ""; size_t n = 0;
  g_n = VF_N; g_dup = 0;
  g_var = nd_range("variant", 0, 3);
  vb_start();
  memset(g_edge, 0, sizeof(g_edge));
  for (int i = 0; i < g_n; ++i) for (int j = 0; j < g_n; ++j) {
    if (g_var == 2 && i == g_n - 1 && j == 0) { g_edge[i][j] = 1; continue; }
    if (i == j && g_n == 4) continue; /* a rule consuming its own product is tried with three rules */
    g_edge[i][j] = nd_bool("consumes");
  }
  if (g_var == 1) {
    char c[4096]; mkdir("sub", 0755);
    c[rule(c, 1)] = 0;
    vb_file("sub/Autark", VB_T0, "%s", c);
  }
  for (int i = 0; i < g_n; ++i) {
    if (g_var == 1 && i == 1) n += sprintf(b + n, "include { sub/Autark }\n");
    else if (g_var == 3 && i == 1) { n += sprintf(b + n, "if { defined { VX }\n"); n += rule(b + n, i); n += sprintf(b + n, "}\n"); }
    else n += rule(b + n, i);
  }
  vb_file("Autark", VB_T0, "%s", b);
  int rc = vb_build("-DVX=1", 0);
  ENSURE("graph/dependencies-first", !vb->seen[100]);
  if (cyclic()) ENSURE("graph/cycle-is-fatal", rc != 0);
  else {
    ENSURE("graph/build-succeeds", rc == 0);
    for (int i = 0; i < g_n; ++i) ENSURE("graph/every-rule-built", vb->seen[i]);
  }
}
/* two rules of any kind which claim the same product, written the same way or not */
static const char *rules[] = {
  "run {\n exec { r0 }\n produces { x.o }\n}\n",
  "run {\n exec { r1 }\n produces { y x.o }\n}\n",
  "run {\n exec { r2 }\n produces { ./x.o }\n}\n",
  "run {\n exec { r3 }\n produces { a/../x.o }\n}\n",
  "cc {\n x.c\n}\n",
  "configure {\n x.o.in\n}\n",
  "run {\n exec { r3 }\n produces { ${VL} }\n}\n",
  "foreach {\n F\n x.o z.o\n run {\n exec { r3 ${F} }\n produces { ${F} }\n}\n}\n",
  "include { sub/Autark }\n",
  "run {\n exec { r1 }\n produces { other }\n}\n",
};
void n_claims(void) {
  g_n = 4; g_dup = 1; g_var = 0;
  vb_start(); memset(g_edge, 0, sizeof(g_edge));
  int k = sizeof(rules) / sizeof(rules[0]);
  int a = nd_range("first", 0, k - 1), b = nd_range("second", 0, k - 1);
  int same = nd_bool("one-rule-twice");
  mkdir("sub", 0755);
  vb_file("sub/Autark", VB_T0, "run {\n exec { r2 }\n produces { ../x.o }\n}\n");
  vb_file("x.c", VB_T0, "x"); vb_file("x.o.in", VB_T0, "x");
  if (same) { /* a rule may name its product more than once */
    ASSUME(a == 0 && b == 0);
    vb_file("Autark", VB_T0, "run {\n exec { r0 }\n produces { x.o ./x.o x.o }\n}\n");
    ENSURE("claims/own-product", vb_build("-J", "1", 0) == 0);
    return;
  }
  vb_file("Autark", VB_T0, "set { VL q x.o }\n%s%s", rules[a], rules[b]);
  int rc = vb_build("-J", "1", 0);
  int clash = a != k - 1 && b != k - 1;
  if (clash || a == b) { ENSURE("claims/second-claim-is-fatal", rc != 0); ENSURE("claims/nothing-run", vb->cmds == 0); }
  else ENSURE("claims/distinct-products", rc == 0);
}
#endif
