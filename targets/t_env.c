// Variables: lookup goes from the nearest unit outwards, definitions stay in their unit.
//@ entry: p_get props=C17 functions=node_env_get defs=VF_PG native=n_scope link=* forked unwind=3
//@ loop: script.c node_env_get 0 p_get
//@   __CPROVER_assigns(n, ret, g_left, g_cur, CH[0].parent, CH[1].parent, JK0.parent, JK1.parent, g_found)
//@   __CPROVER_loop_invariant(g_left >= 0 && (g_cur == 0 || g_cur == 1) && !g_found && CHAIN(n))
//@ entry: p_set props=C17 functions=node_env_set defs=VF_PS rename=script.c:node_info native=n_scope link=* forked unwind=3
//@ loop: script.c node_env_set 0 p_set
//@   __CPROVER_assigns(n)
//@   __CPROVER_loop_invariant(g_sets == 0 && CHAIN(n))
//@ entry: p_setnode props=C17 functions=node_env_set_node defs=VF_PN native=n_scope link=* forked unwind=3
//@ loop: script.c node_env_set_node 0 p_setnode
//@   __CPROVER_assigns(n)
//@   __CPROVER_loop_invariant(g_sets == 0 && CHAIN(n))
//@ entry: p_raw props=C17 functions=unit_env_get_raw,unit_env_get_node,unit_env_remove defs=VF_PW native=n_scope link=* forked unwind=3
//@ entry: p_store props=C17 functions=unit_env_set_val,unit_env_set_node defs=VF_PV native=n_scope link=* forked unwind=3
//@ entry: p_subst props=C17,C30 functions=_subst_value,_subst_setval defs=VF_PB native=n_scope link=* forked unwind=6
//@ entry: p_setwhere props=C17 functions=_unit_for_set,_set_init_impl defs=VF_PI native=n_scope link=* forked unwind=8
//@ entry: p_stack props=C17 functions=unit_push,unit_pop,unit_peek,unit_root defs=VF_PK rename=autark_core.c:unit_ch_dir native=n_deep link=* forked unwind=3
//@ entry: n_scope mode=native forked=60 link=* props=C17 functions=node_env_get,unit_env_get_raw,unit_env_set_node,_subst_value,_unit_for_set,unit_parent,_set_value_get nlimit=90 cost=15
//@ entry: n_deep mode=native forked=60 link=* props=C17 functions=unit_push,unit_pop,_set_value_get nlimit=30 cost=4
//@ assume: the chain of parents is finite; every unit found there is a different one (a script node creates its unit)
#ifdef VF_CBMC
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "env.h"
#include "script.h"
#include "utils.h"
#include "map.h"
#include "ulist.h"
static struct unit U;
static char g_key[3], g_val[3], g_osv[3];
#if defined(VF_PG) || defined(VF_PS) || defined(VF_PN)
/* The chain of parents: nodes with a unit (two in turns) separated by any number of nodes without one (JK0, JK1);
 * a node with a unit gets its parent when the unit has been used, until then moving on from it leads to BAD. */
static struct node CH[2], JK0, JK1, BAD;
static int g_left, g_cur, g_sets;
static const char *g_found; static int g_os;
#define TGT (g_left > 0 ? &CH[g_cur] : (struct node*) 0)
#define CHAIN(n) (((n) == TGT || (n) == &JK0 || (n) == &JK1) && (JK0.parent == &JK1 || JK0.parent == TGT) && (JK1.parent == &JK0 || JK1.parent == TGT) && (g_left == 0 || CH[g_cur].parent == &BAD))
static struct node* next_of(void) {
  struct node *t = TGT;
  JK0.parent = nd_bool("more") ? &JK1 : t;
  JK1.parent = nd_bool("more") ? &JK0 : t;
  return nd_bool("plain-first") ? &JK0 : t;
}
static void used(void) { /* the unit of CH[g_cur] has been dealt with */
  struct node *c = &CH[g_cur];
  --g_left; g_cur = 1 - g_cur;
  CH[g_cur].parent = &BAD; 
  c->parent = next_of();
}
static struct node* chain_init(void) {
  g_left = nd_range("units", 0, 1000000); g_cur = 0; g_sets = g_os = 0; g_found = 0;
  CH[0].unit = CH[1].unit = &U; JK0.unit = JK1.unit = 0; BAD.unit = 0; BAD.parent = &BAD;
  CH[0].parent = CH[1].parent = &BAD;
  g_env.verbose = nd_bool("verbose");
  return next_of();
}
static char* vf_getenv(const char *k) { ENSURE("lookup/environment-last", k == g_key && g_left == 0 && !g_os && !g_found); g_os = 1; return nd_bool("in-environment") ? &g_osv[0] : (char*) 0; }
#define getenv vf_getenv
struct env g_env;
#endif
#if defined(VF_PG)
const char* unit_env_get_raw(struct unit *u, const char *key) {
  ENSURE("lookup/each-unit-once-nearest-first", u == &U && g_left > 0 && key == g_key && !g_found);
  used();
  if (nd_bool("defined")) { g_found = g_val; return g_val; }
  return 0;
}
#include "script.c"
void p_get(void) {
  VF_START();
  struct node *n = chain_init();
  const char *r = node_env_get(n, g_key);
  ENSURE("lookup/nearest-value", g_found ? r == g_val && !g_os : g_os && g_left == 0 && (r == 0 || r == g_osv));
  REACH("p_get"); if (g_found) REACH("p_get/found");
}
#endif
#if defined(VF_PS) || defined(VF_PN)
static int g_first, g_null;
void unit_env_set_val(struct unit *u, const char *key, const char *val) { ENSURE("define/nearest-unit-only", u == &U && g_left == g_first && !g_sets && key == g_key && val == g_val && !g_null); g_sets = 1; }
void unit_env_remove(struct unit *u, const char *key) { ENSURE("define/nearest-unit-only", u == &U && g_left == g_first && !g_sets && key == g_key && g_null); g_sets = 2; }
static struct node *g_n;
void unit_env_set_node(struct unit *u, const char *key, struct node *n, unsigned tag) { ENSURE("define/nearest-unit-only", u == &U && g_left == g_first && !g_sets && key == g_key && n == g_n && tag == 7); g_sets = 3; }
#ifdef VF_PS
void node_info(struct node *n, const char *fmt, ...);
#endif
#include "script.c"
#ifdef VF_PS
void node_info(struct node *n, const char *fmt, ...) { }
#endif
#define ANON (g_key[0] == '_' && g_key[1] == 0)
void p_set(void) {
  VF_START();
  struct node *n = chain_init();
  g_n = n; g_first = g_left; g_null = nd_bool("unset");
  g_key[0] = nd_char("k0"); g_key[1] = nd_char("k1"); g_key[2] = 0;
#ifdef VF_PS
  node_env_set(n, g_key, g_null ? (char*) 0 : &g_val[0]);
  ENSURE("define/done", g_sets == (ANON || g_first == 0 ? 0 : g_null ? 2 : 1));
#else
  node_env_set_node(n, g_key, 7);
  ENSURE("define/done", g_sets == (ANON || g_first == 0 ? 0 : 3));
#endif
  REACH("p_set");
}
void p_setnode(void) { p_set(); }
#endif
#if defined(VF_PW) || defined(VF_PV)
static struct unit_env_item IT, *g_put; static struct map *M; static int g_asked, g_has; static struct node NN;
void* map_get(struct map *m, const void *k) { ENSURE("unit/own-table", m == M && k == (void*) g_key && !g_asked); g_asked = 1; return g_has ? &IT : (struct unit_env_item*) 0; }
int map_remove(struct map *m, const void *k) { ENSURE("unit/own-table", m == M && k == (void*) g_key && !g_asked); g_asked = 2; return 1; }
void map_put_str(struct map *m, const char *k, void *v) { ENSURE("unit/own-table", m == M && k == g_key && !g_asked); g_asked = 3; g_put = v; }
const char* node_value(struct node *n) { ENSURE("unit/value-of-the-definition", n == &NN && g_asked == 1 && IT.val == 0); g_asked = 4; return g_osv; }
#define map_remove map_remove__x
#define map_put_str map_put_str__x
#include "map.h"
#undef map_remove
#undef map_put_str
#include "autark_core.c"
static char M_[8];
static void raw_init(void) { M = (struct map*) M_; U.env = M; g_asked = 0; g_put = 0; }
void p_raw(void) {
  VF_START(); raw_init(); g_env.pool = 0;
  g_has = nd_bool("defined");
  IT.val = nd_bool("text") ? &g_val[0] : (char*) 0; IT.n = &NN; IT.tag = nd_uint("tag");
  int op = nd_range("op", 0, 3);
  if (op == 0) {
    const char *r = unit_env_get_raw(&U, g_key);
    ENSURE("unit/lookup", g_has ? (IT.val ? r == g_val : r == g_osv && g_asked == 4) : r == 0);
  } else if (op == 1) {
    unsigned t = 99; struct node *r = unit_env_get_node(&U, g_key, &t);
    ENSURE("unit/definition", g_has ? r == &NN && t == IT.tag : r == 0 && t == 0);
  } else if (op == 2) {
    struct node *r = unit_env_get_node(&U, g_key, 0);
    ENSURE("unit/definition", r == (g_has ? &NN : (struct node*) 0));
  } else { unit_env_remove(&U, g_key); ENSURE("unit/removed", g_asked == 2); }
  REACH("p_raw");
}
void p_store(void) {
  VF_START(); raw_init(); g_env.pool = 0;
  if (nd_bool("node")) {
    unsigned t = nd_uint("tag");
    unit_env_set_node(&U, g_key, &NN, t);
    ENSURE("unit/stored-node", g_put && g_asked == 3 && g_put->n == &NN && g_put->val == 0 && g_put->tag == t);
  } else if (nd_bool("null")) {
    unit_env_set_val(&U, g_key, 0);
    ENSURE("unit/stored-nothing", g_put && g_asked == 3 && g_put->val == 0 && g_put->n == 0);
  } else {
    size_t n, k = nd_size("k");
    char *s = vf_cstr(6, &n, k);
    ASSUME(k <= n);
    VF_WITNESS(k, 0, 0);
    unit_env_set_val(&U, g_key, s);
    ENSURE("unit/stored-text", g_put && g_asked == 3 && g_put->val && g_put->n == 0 && g_put->val != s);
    ENSURE("unit/stored-text-is-the-text", __CPROVER_r_ok(g_put->val, n + 1) && g_put->val[k] == s[k]);
  }
  REACH("p_store");
}
#endif
#ifdef VF_PB
static struct node N, K, D; static struct node_foreach FE; static int g_fe, g_keyv, g_vd, g_asked, g_same; static char g_fev[3], g_dv[3];
#include <stdarg.h>
const char* node_value(struct node *n) {
  if (n == &K) return g_keyv ? &g_key[0] : (char*) 0;
  ENSURE("reference/default", n == &D || n == 0);
  return n == &D && g_vd ? &g_dv[0] : (char*) 0;
}
void node_warn(struct node *n, const char *fmt, ...) { }
struct node_foreach* node_find_parent_foreach(struct node *n) { ENSURE("reference/own-loop", n == &N); return g_fe ? &FE : (struct node_foreach*) 0; }
static const char *g_vv;
const char* node_env_get(struct node *n, const char *key) { ENSURE("reference/looked-up-here", n == &N && key == g_key && !g_asked); g_asked = 1; g_vv = nd_bool("defined") ? &g_val[0] : (char*) 0; return g_vv; }
static int vf_strcmp(const char *a, const char *b) {
  if (a[0] != b[0]) return 1; if (a[0] == 0) return 0;
  if (a[1] != b[1]) return 1; return 0;
}
#define strcmp vf_strcmp
#include "node_subst.c"
#undef strcmp
void p_subst(void) {
  VF_START();
  N.child = nd_bool("has-key") ? &K : (struct node*) 0;
  K.next = nd_bool("has-default") ? &D : (struct node*) 0; D.next = 0;
  g_fe = nd_bool("in-loop"); g_keyv = nd_bool("key"); g_vd = nd_bool("default"); g_asked = 0; g_vv = 0;
  g_key[0] = nd_char("k"); g_key[1] = 0; char fn[2] = { nd_char("f"), 0 };
  FE.name = fn; FE.value = g_fev; FE.access_cnt = nd_range("cnt", 0, 1000); int cnt = FE.access_cnt;
  g_val[0] = nd_char("v"); g_val[1] = 0; g_fev[0] = nd_char("fv"); g_fev[1] = 0; g_dv[0] = nd_char("d"); g_dv[1] = 0;
  char *old = 0;
  if (nd_bool("cached")) { old = malloc(2); old[0] = nd_char("o"); old[1] = 0; }
  N.impl = old;
  const char *r = _subst_value(&N);
  if (!N.child) ENSURE("reference/empty", r[0] == 0);
  else {
    const char *dv = K.next && g_vd ? &g_dv[0] : (char*) 0;
    int loop = g_keyv && g_fe && fn[0] == g_key[0];
    const char *want = !g_keyv ? dv : loop ? g_fev : g_vv ? g_vv : dv;
    ENSURE("reference/defined", r != 0);
    ENSURE("reference/value", want ? r[0] == want[0] && (want[0] == 0 || r[1] == 0) : r[0] == 0);
    ENSURE("reference/loop-variable-counted", FE.access_cnt == cnt + loop && g_asked == (g_keyv && !loop));
    ENSURE("reference/owned", !loop && !g_vv || r == N.impl);
  }
  REACH("p_subst");
}
#endif
#ifdef VF_PI
static struct node N, K, KC, OTHER; static struct unit UR, UP; static int g_where, g_haskey, g_put; static struct node *g_prev;
const char* node_value(struct node *n) { ENSURE("set/key", n == (g_where == 1 || g_where == 2 ? &KC : &K)); return g_haskey ? &g_key[0] : (char*) 0; }
struct unit* unit_root(void) { return &UR; }
struct unit* unit_peek(void) { return &U; }
struct unit* unit_parent(struct node *n) { ENSURE("set/parent-of-this", n == &N); return &UP; }
void node_warn(struct node *n, const char *fmt, ...) { }
#define WANT (g_where == 1 ? &UR : g_where == 2 ? &UP : &U)
struct node* unit_env_get_node(struct unit *u, const char *key, unsigned *t) { ENSURE("set/unit", u == WANT && key == g_key && !g_put); *t = nd_uint("tag"); return g_prev; }
void unit_env_set_node(struct unit *u, const char *key, struct node *n, unsigned tag) { ENSURE("set/unit", u == WANT && key == g_key && n == &N && !g_put && tag == 0); g_put = 1; }
static int vf_strcmp(const char *a, const char *b) { /* names of at most six characters */
  for (int i = 0; i < 7; ++i) { if (a[i] != b[i]) return 1; if (!a[i]) return 0; }
  return 0;
}
#define strcmp vf_strcmp
#include "node_set.c"
#undef strcmp
static char g_name[8];
void p_setwhere(void) {
  VF_START();
  g_put = 0; g_haskey = nd_bool("key");
  g_where = nd_range("where", 0, 3); /* own unit, root, parent, some other rule as the name */
  K.type = g_where == 1 || g_where == 2 ? NODE_TYPE_BAG : nd_uint("type");
  if (g_where == 0) ASSUME(K.type != NODE_TYPE_BAG);
  if (g_where == 3) { K.type = NODE_TYPE_BAG; }
  const char *names[] = { "x", "root", "parent", "other" };
  K.value = names[g_where]; K.child = &KC;
  N.child = nd_bool("has-name") ? &K : (struct node*) 0;
  int w = nd_range("previous", 0, 2);
  g_prev = w == 0 ? 0 : w == 1 ? &OTHER : &N;
  N.recur_next.n = 0;
  _set_init_impl(&N);
  int ok = N.child && g_haskey && g_where != 3;
  ENSURE("set/registered-in-its-unit", g_put == ok);
  ENSURE("set/previous-definition-kept-for-self-reference", N.recur_next.n == (ok && w == 1 ? &OTHER : (struct node*) 0));
  REACH("p_setwhere");
}
#endif
#ifdef VF_PK
#include <unistd.h>
static int g_ch; static struct unit *g_top; static unsigned g_n0; static int g_env_set;
static struct unit_ctx g_store[3];
/* the stack below the top: any depth, its top and bottom entries known */
void* ulist_get(const struct ulist *l, unsigned i) {
  ENSURE("stack/within", l == &g_env.stack_units && i < l->num);
  return i == 0 && l->num != 1 ? &g_store[0] : i == l->num - 1 ? (l->num > g_n0 ? &g_store[2] : &g_store[1]) : 0;
}
void ulist_push(struct ulist *l, const void *d) { ENSURE("stack/pushed-once", l == &g_env.stack_units && l->num == g_n0); g_store[2] = *(struct unit_ctx*) d; ++l->num; }
void ulist_pop(struct ulist *l) { ENSURE("stack/popped-once", l == &g_env.stack_units && l->num == g_n0 + 1); --l->num; struct unit_ctx junk; g_store[2] = junk; }
static int vf_setenv(const char *k, const char *v, int o) { ENSURE("stack/unit-in-environment", v == g_top->rel_path && o); g_env_set = 1; return 0; }
static int vf_unsetenv(const char *k) { ENSURE("stack/no-unit-in-environment", g_top == 0); g_env_set = 2; return 0; }
#define setenv vf_setenv
#define unsetenv vf_unsetenv
void unit_ch_dir(struct unit_ctx *ctx, char *prev);
#include "autark_core.c"
void unit_ch_dir(struct unit_ctx *ctx, char *prev) { ENSURE("stack/directory-of-the-top", ctx->unit == g_top && prev == 0); g_ch = 1; }
void p_stack(void) {
  VF_START();
  static struct unit A, B, C; static struct node X;
  A.rel_path = "a"; B.rel_path = "b"; C.rel_path = "c";
  g_n0 = nd_range("depth", 0, 1000000); g_env.stack_units.num = g_n0;
  g_store[0].unit = &A; g_store[1].unit = g_n0 == 1 ? &A : &B; g_store[0].flags = g_store[1].flags = nd_uint("fl");
  if (g_n0 == 1) g_store[0] = g_store[1];
  g_ch = g_env_set = 0; g_top = &C; g_env.pool = 0;
  X.flags = nd_uint("flags");
  unit_push(&C, nd_bool("node") ? &X : (struct node*) 0);
  ENSURE("stack/pushed", g_ch && g_env_set == 1 && g_env.stack_units.num == g_n0 + 1 && unit_peek() == &C && unit_root() == (g_n0 ? &A : &C));
  g_ch = g_env_set = 0; g_top = g_n0 == 0 ? (struct unit*) 0 : g_n0 == 1 ? &A : &B;
  struct unit *r = unit_pop();
  ENSURE("stack/returns-the-popped-unit", r == &C);
  ENSURE("stack/previous-is-current-again", g_n0 ? g_ch && g_env_set == 1 && unit_peek() == g_top && unit_root() == &A : g_env_set == 2);
  REACH("p_stack");
}
#endif
#else
#include "vf_build.h"
static char want[4][128]; static int g_shown;
static int vb_cmd(int argc, char **argv, const char *name, void (*out)(const char *buf, size_t n)) {
  if (strcmp(name, "show")) return 0;
  char b[256] = "";
  for (int i = 2; i < argc; ++i) { strcat(b, "|"); strcat(b, argv[i]); }
  int u = argv[1][0] - '0';
  ++vb->seen[100 + u];
  if (strcmp(b, want[u])) { if (getenv("VF_SHOW")) fprintf(stderr, "unit %d: %s, not %s\n", u, b, want[u]); vb->seen[110 + u] = 1; }
  return 0;
}
/* units: 0 root, 1 a (in root), 2 b (in a), 3 c (in root) */
void n_scope(void) {
  vb_start();
  mkdir("a", 0755); mkdir("a/b", 0755); mkdir("c", 0755);
  int dr = nd_range("root-def", 0, 3), da = nd_range("a-def", 0, 4), db = nd_range("b-def", 0, 3), dc = nd_range("c-def", 0, 2);
  int env = nd_range("env", 0, 2), dflt = nd_bool("default"), late = nd_bool("late");
  ASSUME(!(dc == 2 && dr)); /* one definition per unit */
  const char *d[4]; char t[4][128]; memset(t, 0, sizeof(t));
  if (dr == 1) strcpy(t[0], "set { X vR }"); /* 2: -DX=vD, 3: -DX= */
  if (da == 1) strcpy(t[1], "set { X vA }");
  else if (da == 3) strcpy(t[1], "set { X ..${X} more }");
  else if (da == 4) strcpy(t[1], "set { X vA }\nset { X ..${X} more }");
  if (db == 1) strcpy(t[2], "set { X vB }"); else if (db == 2) strcpy(t[2], "set { X }"); else if (db == 3) strcpy(t[2], "let { X vL }");
  if (da == 2) strcat(t[2], "\nset { parent { X } vP }");
  if (dc == 1) strcpy(t[3], "set { X vC }"); else if (dc == 2) strcpy(t[3], "set { root { X } vT }");
  const char *inc[] = { "include { a/Autark }\ninclude { c/Autark }", "include { b/Autark }", "", "" };
  const char *file[] = { "Autark", "a/Autark", "a/b/Autark", "c/Autark" };
  for (int i = 0; i < 4; ++i) {
    char use[128]; snprintf(use, sizeof(use), "run { exec { show %d ${X%s} } }", i, dflt ? " vF" : "");
    if (late) vb_file(file[i], VB_T0, "%s\n%s\n%s\n", use, inc[i], t[i]); else vb_file(file[i], VB_T0, "%s\n%s\n%s\n", t[i], inc[i], use);
  }
  if (env) setenv("X", env == 1 ? "vE" : "", 1); else unsetenv("X");
  const char *os = env == 1 ? "|vE" : env == 2 ? "" : 0;
  const char *root = dr == 1 ? "|vR" : dr == 2 ? "|vD" : dr == 3 ? "" : dc == 2 ? "|vT" : os;
  char am[64];
  const char *a = da == 1 ? "|vA" : da == 2 ? "|vP" : root;
  if (da == 3) { snprintf(am, sizeof(am), "%s|more", root ? root : ""); a = am; }
  if (da == 4) a = "|vA|more";
  const char *b = db == 1 ? "|vB" : db == 2 ? "" : db == 3 ? "|vL" : a;
  const char *c = dc == 1 ? "|vC" : root;
  const char *v[] = { root, a, b, c };
  for (int i = 0; i < 4; ++i) strcpy(want[i], v[i] ? v[i] : dflt ? "|vF" : "");
  memset(vb->seen, 0, 200);
  int rc = dr == 2 ? vb_build("-DX=vD", 0) : dr == 3 ? vb_build("-DX=", 0) : vb_build(0);
  unsetenv("X");
  ENSURE("scope/build-succeeds", rc == 0);
  for (int i = 0; i < 4; ++i) { ENSURE("scope/each-rule-run", vb->seen[100 + i] == 1); ENSURE("scope/value-of-the-nearest-definition", !vb->seen[110 + i]); }
}
/* deeply nested rules and scripts */
void n_deep(void) {
  vb_start();
  int depth = nd_range("depth", 1, 60), how = nd_range("how", 0, 2);
  char b[8192] = "", e[2048] = "";
  if (how == 0) { for (int i = 0; i < depth; ++i) { strcat(b, "^{ a "); strcat(e, " }"); } strcat(b, "${X}"); strcat(b, e); vb_file("Autark", VB_T0, "set { X vR }\nrun { exec { show 0 %s } }\n", b); }
  if (how == 1) { for (int i = 0; i < depth; ++i) { strcat(b, "if { eq { a a } "); strcat(e, " }"); } strcat(b, "run { exec { show 0 ${X} } }"); strcat(b, e); vb_file("Autark", VB_T0, "%s\nset { X vR }\n", b); }
  if (how == 2) {
    char f[512] = "", p[64];
    vb_file("Autark", VB_T0, "set { X vR }\ninclude { d/Autark }\n");
    for (int i = 0; i < depth; ++i) {
      strcat(f, i ? "/d" : "d"); mkdir(f, 0755);
      char n[600]; snprintf(n, sizeof(n), "%s/Autark", f);
      vb_file(n, VB_T0, i == depth - 1 ? "run { exec { show 0 ${X} } }\n" : "set { Y y%d }\ninclude { d/Autark }\n", i);
    }
  }
  char w[128] = "|"; if (how == 0) for (int i = 0; i < depth; ++i) strcat(w, "a");
  strcat(w, "vR"); strcpy(want[0], depth < 60 || how ? w : w);
  memset(vb->seen, 0, 200);
  unsetenv("X");
  int rc = vb_build(0);
  ENSURE("deep/build-succeeds", rc == 0);
  ENSURE("deep/run-once", vb->seen[100] == 1);
  ENSURE("deep/value", !vb->seen[110]);
}
#endif
