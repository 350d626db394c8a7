// Conditions and conditionals: truth value of a condition, replacement of the conditional by the selected branch.
//@ entry: p_or props=C14 functions=_if_OR_eval native=n_cond link=* forked rename=node_if.c:_if_cond_eval unwind=2
//@ entry: p_and props=C14 functions=_if_AND_eval native=n_cond link=* forked rename=node_if.c:_if_cond_eval unwind=2
//@ entry: p_defined props=C14 functions=_if_defined_eval native=n_cond link=* forked unwind=2
//@ entry: p_compare props=C14 functions=_if_matched_eval,_if_prefix_eval,_if_contains_eval native=n_cond link=* forked unwind=2
//@ entry: p_cond props=C14 functions=_if_cond_eval native=n_cond link=* forked rename=node_if.c:_if_OR_eval,node_if.c:_if_AND_eval,node_if.c:_if_defined_eval,node_if.c:_if_matched_eval,node_if.c:_if_prefix_eval,node_if.c:_if_contains_eval unwind=11
//@ entry: p_init props=C15 functions=_if_init native=n_if link=* forked rename=node_if.c:_if_cond_eval,node_if.c:_if_pull_if,node_if.c:_if_pull_else unwind=2
//@ loop: node_if.c _if_OR_eval 0 p_or
//@   __CPROVER_assigns(nn, __CPROVER_object_whole(&X), g_idx, g_any, g_all, g_end)
//@   __CPROVER_loop_invariant((nn == 0) == g_end && (nn == 0 || nn == &X) && (!g_empty || (g_end && !g_idx)) && !g_any)
//@ loop: node_if.c _if_AND_eval 0 p_and
//@   __CPROVER_assigns(nn, __CPROVER_object_whole(&X), g_idx, g_any, g_all, g_end)
//@   __CPROVER_loop_invariant((nn == 0) == g_end && (nn == 0 || nn == &X) && (!g_empty || (g_end && !g_idx)) && g_all)
//@ loop: node_if.c _if_defined_eval 0 p_defined
//@   __CPROVER_assigns(nn, __CPROVER_object_whole(&X), g_idx, g_any, g_all, g_end)
//@   __CPROVER_loop_invariant((nn == 0) == g_end && (nn == 0 || nn == &X) && !g_any)
//@ entry: n_cond mode=native forked link=* props=C14 functions=_if_cond_eval,_if_OR_eval,_if_AND_eval,_if_defined_eval,_if_matched_eval,_if_prefix_eval,_if_contains_eval nlimit=60 cost=9 N=2 NT=3
//@ entry: n_if mode=native forked link=* props=C15 functions=_if_init,_if_pull_if,_if_pull_else,_in_sources_init nlimit=60 cost=9 N=1 NT=2
//@ assume: a list of operands is represented by its current element only: reading one element yields an arbitrary next one (sound for readers that never go back)
//@ assume: node_value, node_env_get are used through their contracts
#ifdef VF_CBMC
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "script.h"
#include "env.h"
struct env g_env;
/* one physical node stands for the current element of a sibling list of any length */
static struct node X, P, Q0;
static int g_end, g_hit, g_idx, g_any, g_all, g_empty, g_fatal;
static const char *g_key;
static void step(void) { X.next = nd_bool("more") ? &X : 0; }
#undef g_end
#define g_end_now (X.next == 0)
void node_fatal(int rc, struct node *n, const char *fmt, ...) { VF_END(); while (1); }
void node_info(struct node *n, const char *fmt, ...) { }
static const char *g_val1, *g_val2; static struct node *g_n1, *g_n2; static int g_mode, g_cmp; static const char *g_ca, *g_cb;
const char* node_value(struct node *n);
const char* node_env_get(struct node *n, const char *key);
struct node* node_find_prev_sibling(struct node *n) { return 0; }
static int g_inited; static struct node *g_init_n;
void node_init(struct node *n) { g_init_n = n; }
static int vf_cmp(const char *a, const char *b) { g_ca = a; g_cb = b; return g_cmp ? 0 : 1; }
#if defined(VF_REN__if_cond_eval)
static bool _if_cond_eval(struct node *n, struct node *mn);
#endif
#if defined(VF_REN__if_OR_eval)
static bool _if_OR_eval(struct node *n, struct node *mn);
static bool _if_AND_eval(struct node *n, struct node *mn);
static bool _if_defined_eval(struct node *mn);
static bool _if_matched_eval(struct node *mn);
static bool _if_prefix_eval(struct node *mn);
static bool _if_contains_eval(struct node *mn);
#include "utils.h"
static struct { int n; int first_zero; } g_list; static int g_it;
static bool vf_vnext(struct vlist_iter *it) {
  static char z[2], o[2];
  if (g_it >= g_list.n) return false;
  z[0] = '0'; o[0] = 'a';
  int zero = g_it == 0 ? g_list.first_zero : nd_bool("zero");
  it->item = zero ? z : o;
  it->len = zero ? 1 : nd_range("len", 1, 1000000);
  if (!zero && it->len == 1) o[0] = nd_char("c");
  ASSUME(zero || o[0] != '0' || it->len > 1);
  if (!zero && it->len > 1) o[0] = nd_char("c");
  ++g_it;
  return true;
}
#define vlist_iter_next vf_vnext
#endif
#ifdef VF_REN__if_pull_if
static void _if_pull_if(struct node *n);
static void _if_pull_else(struct node *n);
#endif
#include "utils.h"
static int g_sw_called; static const char *g_sa, *g_sb;
static bool vf_startswith(const char *a, const char *b) { g_sa = a; g_sb = b; return g_cmp; }
static char *vf_strstr(const char *a, const char *b) { g_ca = a; g_cb = b; return g_cmp ? (char*) a : 0; }
#define utils_startswith vf_startswith
#define strstr vf_strstr
#ifndef VF_REN__if_OR_eval
#define strcmp vf_cmp
#endif
#include "node_if.c"
#undef strcmp
#ifdef VF_REN__if_cond_eval
static int g_pulled_if, g_pulled_else, g_truth; static struct node *g_cond_n;
static bool _if_cond_eval(struct node *n, struct node *mn) { /* contract: some truth value, per element */
#ifdef VF_REN__if_pull_if
  g_cond_n = mn;
  ENSURE("if/condition-set-up-first", g_init_n == mn);
  return g_truth;
#else
  ENSURE("operand-evaluated-in-its-list", n == &P && mn == &X);
  bool r = nd_bool("operand");
  g_idx = 1;
  if (r) g_any = 1; else g_all = 0;
  step();
  g_end = X.next == 0;
  return r;
#endif
}
#endif
#ifdef VF_REN__if_pull_if
static void _if_pull_if(struct node *n) { ++g_pulled_if; }
static void _if_pull_else(struct node *n) { ++g_pulled_else; }
void p_init(void) {
  VF_START();
  g_pulled_if = g_pulled_else = 0; g_cond_n = g_init_n = 0; g_truth = nd_bool("truth");
  P.child = nd_bool("has-condition") ? &X : 0;
  P.init = _if_init;
  _if_init(&P);
  REACH("init");
  ENSURE("if/condition-required", P.child == &X && g_cond_n == &X);
  ENSURE("if/branch-selected", g_pulled_if == g_truth && g_pulled_else == !g_truth);
  ENSURE("if/once", P.init == 0);
}
#endif
#ifdef VF_REN__if_OR_eval
static int g_called; static bool g_sub;
#define SUBS(id) { g_called = id; return g_sub; }
static bool _if_OR_eval(struct node *n, struct node *mn) SUBS(5)
static bool _if_AND_eval(struct node *n, struct node *mn) SUBS(6)
static bool _if_defined_eval(struct node *mn) SUBS(2)
static bool _if_matched_eval(struct node *mn) SUBS(1)
static bool _if_prefix_eval(struct node *mn) SUBS(3)
static bool _if_contains_eval(struct node *mn) SUBS(4)
const char* node_value(struct node *n) { return n == &X ? g_val1 : 0; }
const char* node_env_get(struct node *n, const char *key) { return 0; }
void p_cond(void) {
  VF_START();
  static char op[12], val[4];
  int id = nd_range("op", 1, 7);
  bool neg = nd_bool("neg");
  char *o = op;
  if (neg) *o++ = '!';
#define PUT(s) { const char t_[12] = s; o[0] = t_[0]; o[1] = t_[1]; o[2] = t_[2]; o[3] = t_[3]; o[4] = t_[4]; o[5] = t_[5]; o[6] = t_[6]; o[7] = t_[7]; o[8] = t_[8]; o[9] = t_[9]; }
  if (id == 1) PUT("eq") else if (id == 2) PUT("defined") else if (id == 3) PUT("prefix") else if (id == 4) PUT("contains")
  else if (id == 5) PUT("or") else if (id == 6) PUT("and") else PUT("$")
  X.value = op; X.type = id == 7 ? (1u << nd_range("vt", 1, 6)) : NODE_TYPE_BAG;
  X.flags = neg ? NODE_FLG_NEGATE : 0;
  g_env.verbose = nd_bool("verbose");
  g_called = 0; g_sub = nd_bool("sub"); g_it = 0;
  int isnull = nd_bool("null"), islist = nd_bool("list");
  val[0] = islist ? '\1' : nd_char("v0"); val[1] = nd_char("v1"); val[2] = nd_char("v2"); val[3] = 0;
  ASSUME(islist || val[0] != '\1');
  g_list.n = nd_range("items", 0, 1000); g_list.first_zero = nd_bool("first-zero");
  g_val1 = isnull ? 0 : (const char*) val;
  bool r = _if_cond_eval(&P, &X);
  REACH("cond");
  bool want;
  if (id == 7) {
    if (isnull) want = false;
    else if (islist) want = g_list.n > 1 || (g_list.n == 1 && !g_list.first_zero);
    else want = val[0] != 0 && !(val[0] == '0' && val[1] == 0);
    ENSURE("cond/value-truth", r == (want != neg));
  } else {
    ENSURE("cond/operator-dispatch", g_called == id);
    ENSURE("cond/negation", r == (g_sub != neg));
  }
}
#endif
#if !defined(VF_REN__if_cond_eval) && !defined(VF_REN__if_OR_eval)
static const char *g_look;
static int g_list_mode;
static const char g_vals[2] = "v";
const char* node_value(struct node *n) {
  if (!g_list_mode) return n == &X ? g_val1 : n == &Q0 ? g_val2 : 0;
  ENSURE("operand-evaluated-in-its-list", n == &X);
  g_idx = 1;
  step(); g_end = X.next == 0;
  int k = nd_range("value", 0, 2);

  return k == 0 ? (const char*) 0 : k == 1 ? (const char*) "" : (const char*) "v";
}
const char* node_env_get(struct node *n, const char *key) {
  ENSURE("defined/looked-up-from-the-conditional", n == &P && key[0] == 'v');
  bool r = nd_bool("defined");
  if (r) g_any = 1;
  return r ? "" : 0;
}
#endif
static void list(void) {
  VF_START();
  g_empty = nd_bool("empty");
  Q0.child = g_empty ? 0 : &X; Q0.parent = &P;
  g_end = g_empty; g_idx = g_any = 0; g_all = 1;
  X.next = nd_bool("x") ? &X : 0;
}
#if defined(VF_REN__if_cond_eval) && !defined(VF_REN__if_pull_if)
void p_or(void) {
  list();
  bool r = _if_OR_eval(&P, &Q0);
  REACH("or");
  ENSURE("or/true-only-by-a-true-operand", r == (bool) g_any);
  ENSURE("or/false-only-after-all-operands", r || g_end);
}
void p_and(void) {
  list();
  bool r = _if_AND_eval(&P, &Q0);
  REACH("and");
  ENSURE("and/false-only-by-a-false-operand", r || !g_all || g_empty);
  ENSURE("and/true-only-after-all-operands", !r || (g_all && g_end && !g_empty));
}
#endif
#if !defined(VF_REN__if_cond_eval) && !defined(VF_REN__if_OR_eval)
void p_defined(void) {
  list();
  g_list_mode = 1;
  bool r = _if_defined_eval(&Q0);
  REACH("defined");
  ENSURE("defined/true-only-by-a-defined-name", r == (bool) g_any);
  ENSURE("defined/false-only-after-all-names", r || g_end);
}
void p_compare(void) {
  VF_START();
  g_list_mode = 0;
  size_t n, m;
  char *a = vf_cstr(3, &n, 0), *b = vf_cstr(3, &m, 0);
  int na = nd_bool("null1"), nb = nd_bool("null2"), kids = nd_range("kids", 0, 2);
  if (kids < 1) na = 1;
  if (kids < 2) nb = 1;
  g_val1 = na ? 0 : a; g_val2 = nb ? 0 : b;
  P.child = kids > 0 ? &X : 0; X.next = kids > 1 ? &Q0 : 0; Q0.next = 0;
  g_cmp = nd_bool("holds"); g_ca = g_cb = g_sa = g_sb = 0;
  bool r = _if_matched_eval(&P);
  REACH("compare");
  ENSURE("eq/value", r == (!na && !nb ? g_cmp : na && nb));
  ENSURE("eq/of-the-operands", na || nb || (g_ca == a && g_cb == b));
  g_ca = g_cb = 0;
  r = _if_prefix_eval(&P);
  ENSURE("prefix/value", na || nb || (r == g_cmp && g_sa == a && g_sb == b));
  r = _if_contains_eval(&P);
  ENSURE("contains/value", na || nb || (r == g_cmp && g_ca == a && g_cb == b));
}
#endif
#else
#include "vf_rule.h"
/* variables of the scripts below */
static const struct { const char *name, *text; const char *str; int defined, truth; } V[] = {
  { "E", "''", "", 1, 0 }, { "Z", "0", "0", 1, 0 }, { "A", "ab", "ab", 1, 1 }, { "B", "b", "b", 1, 1 },
  { "L", "0 0", "\1" "0\1" "0", 1, 1 }, { "U", 0, "", 0, 0 }, { "ZZ", "00", "00", 1, 1 }, { "L1", "..${Z}", "\1" "0", 1, 0 } };
static const char *OPS[] = { "ab", "b", "${A}", "${E}", "${U}", "abc", "${B}" };
static const char *OPV[] = { "ab", "b", "ab", "", "", "abc", "b" };
static int leaf(int rich) {
  if (!rich) {
    static const char *t[] = { "${A}", "${Z}", "!${A}", "eq { a b }", "!eq { a b }", "defined { U Z }" };
    static const int v[] = { 1, 0, 0, 0, 1, 1 };
    int i = nd_range("leaf", 0, 5);
    vs("%s ", t[i]);
    return v[i];
  }
  int neg = nd_bool("neg"), k = nd_range("kind", 0, 4), r;
  if (neg) vs("!");
  if (k == 0) { int i = nd_range("var", 0, 7); vs("${%s} ", V[i].name); r = V[i].truth; }
  else if (k == 1) {
    int n = nd_range("names", 1, 3); r = 0;
    vs("defined { ");
    for (int i = 0; i < n; ++i) { int j = nd_range("name", 0, 5); if (j == 1 || j == 3 || j == 4) j = 0; vs("%s ", V[j].name); r |= V[j].defined; }
    vs("} ");
  } else {
    int a = nd_range("a", 0, 6), b = nd_range("b", 0, 6);
    vs("%s { %s %s } ", k == 2 ? "eq" : k == 3 ? "prefix" : "contains", OPS[a], OPS[b]);
    const char *x = OPV[a], *y = OPV[b];
    r = k == 2 ? !strcmp(x, y) : k == 3 ? !strncmp(x, y, strlen(y)) : strstr(x, y) != 0;
  }
  return neg ? !r : r;
}
static int expr(int depth) {
  int k = nd_range("expr", 0, 2);
  if (depth == 0) return leaf(0);
  if (k == 0) return leaf(depth == VF_N);
  int neg = nd_bool("neg"), n = nd_range("n", 1, depth == VF_N ? 3 : 2), r = k == 1 ? 0 : 1;
  vs("%s%s { ", neg ? "!" : "", k == 1 ? "or" : "and");
  for (int i = 0; i < n; ++i) { int e = n == 3 || depth < VF_N || i == 1 ? leaf(0) : expr(depth - 1); if (k == 1) r |= e; else r &= e; }
  vs("} ");
  return neg ? !r : r;
}
void n_cond(void) {
  unsetenv("U");
  vs_len = 0;
  for (int i = 0; i < 8; ++i) if (V[i].text) vs("set { %s %s }\n", V[i].name, V[i].text);
  vs("if { ");
  int want = expr(VF_N);
  vs(" taken { } } else { skipped { } }\nlast { }\n");
  struct sctx *s = vs_open();
  node_init(s->root);
  int t = 0, e = 0;
  for (struct node *n = s->root->child; n; n = n->next) { t |= !strcmp(n->value, "taken"); e |= !strcmp(n->value, "skipped"); }
  ENSURE("condition/truth-value", t == want && e == !want);
}
/* random-access expected sequence */
static char want[64][16]; static int nwant, nid, unt[64], nunt;
static const char *const wf[] = { "w%d", "else%d", "if%d", "els%d" }; /* words like the keywords */
static void lst(int depth, int max, int live, int words);
static void item(int depth, int live, int words) {
  int k = depth > 0 ? nd_range("item", 0, words ? 1 : 2) : 0;
  if (k == 0) {
    int id = nid++;
    if (words) { vs(wf[id & 3], id); vs(" "); } else vs("set { s%d v } ", id);
    if (live) snprintf(want[nwant++], 16, words ? wf[id & 3] : "s%d", id); else unt[nunt++] = id;
  } else if (k == 1) {
    int c = nd_bool("cond"), els = nd_bool("else");
    vs("if { %s{ a a } ", c ? "eq" : "!eq");
    lst(depth - 1, 2, live && c, words);
    vs("} ");
    if (els) { vs("else { "); lst(depth - 1, 2, live && !c, words); vs("} "); }
  } else { vs("in-sources { "); lst(depth - 1, 2, live, words); vs("} "); }
}
static void lst(int depth, int max, int live, int words) {
  int n = nd_range("len", 0, max);
  for (int i = 0; i < n; ++i) item(depth, live, words);
}
void n_if(void) {
  vs_len = 0; nwant = nid = nunt = 0;
  int words = nd_bool("inside-a-value");
  if (words) { vs("set { V "); item(0, 1, 1); lst(VF_N, 2, 1, 1); vs("wz wy }\n"); }
  else { lst(VF_N, 3, 1, 0); vs("\n"); }
  struct sctx *s = vs_open();
  node_init(s->root);
  if (words) {
    char w[512] = { 0 };
    for (int i = 0; i < nwant; ++i) { strcat(w, "\1"); strcat(w, want[i]); }
    strcat(w, "\1wz\1wy");
    const char *v = node_env_get(s->root, "V");
    ENSURE("if/value-from-the-selected-branches-in-order", v && !strcmp(v, w));
  } else {
    int i = 0;
    for (struct node *n = s->root->child; n; n = n->next, ++i) {
      ENSURE("if/selected-nodes-in-order", i < nwant && !strcmp(n->value, "set") && n->child && !strcmp(n->child->value, want[i]));
      ENSURE("if/nodes-belong-to-the-place-of-the-conditional", n->parent == s->root);
      ENSURE("if/selected-nodes-are-set-up", node_is_init(n) && node_env_get(s->root, want[i]));
    }
    ENSURE("if/no-selected-node-lost", i == nwant);
    for (i = 0; i < nunt; ++i) { char b[16]; snprintf(b, 16, "s%d", unt[i]); ENSURE("if/untaken-branch-not-set-up", !node_env_get(s->root, b)); }
  }
}
#endif
