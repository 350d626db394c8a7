// Loops and macro calls.
//@ entry: n_macro mode=native forked=60 link=* props=C30 functions=_call_macro_visit,_call_init,_call_clone_children,node_clone_and_register,_macro_init,node_init nlimit=90 cost=18 defs=SPLIT=4
//@ entry: n_args mode=native forked=60 link=* props=C30 functions=_call_macro_visit,_call_init nlimit=60 cost=5 defs=SPLIT=2
//@ entry: n_loop mode=native forked=60 link=* props=C30 functions=_run_on_resolve,_run_setup_foreach,_foreach_setup,_subst_value,_run_on_resolve_do defs=VF_LOOP,SPLIT=3 nlimit=90 cost=18
//@ entry: p_prod props=C30,C25 functions=_run_setup_foreach defs=VF_RUN,VF_PROD native=n_loop link=* forked unwind=15
//@ loop: node_run.c _run_setup_foreach 0 p_prod
//@   __CPROVER_assigns(iter.item, iter.len, FE.value, LAZY, PN.child, g_items, g_off, g_ilen, g_last)
//@   __CPROVER_loop_invariant(g_items >= 0 && g_left == 0 && g_last == 0 && FE.value == 0)
//@ loop: node_run.c _run_setup_foreach 1 p_prod
//@   __CPROVER_assigns(nn, LAZY, g_last)
//@   __CPROVER_loop_invariant(LINV(nn) && g_last == 0 && FE.value == buf && buf[g_ilen] == 0 && (g_k >= g_ilen || buf[g_k] == TXT[g_off + g_k]))
//@ entry: p_items props=C30,C03 functions=_run_on_resolve defs=VF_RUN,VF_ITEMS rename=node_run.c:_run_on_resolve_do native=n_loop link=* forked unwind=15
//@ loop: node_run.c _run_on_resolve 0 p_items
//@   __CPROVER_assigns(i, flist, flist_.num, g_pushed, g_path, g_o, RO.flags)
//@   __CPROVER_loop_invariant(i >= 0 && i <= r->resolve_outdated.num && g_path == 0 && g_o == 0 && g_pushed == i && flist_.num == i && (i ? flist == &flist_ : flist == &ctx->consumes_foreach) && (g_w >= i || !g_wother))
//@ loop: node_run.c _run_on_resolve 1 p_items
//@   __CPROVER_assigns(i, FE.value, g_done, g_cur, g_rel, g_item)
//@   __CPROVER_loop_invariant(i >= 0 && i <= flist->num && g_done == i && FE.value == 0 && g_cur == 0 && g_rel == 0)
//@ loop: node_run.c _run_on_resolve 2 p_items
//@   __CPROVER_assigns(iter.item, iter.len, FE.value, g_items, g_off, g_ilen, g_cur)
//@   __CPROVER_loop_invariant(g_items >= 0 && FE.value == 0 && g_cur == 0)
//@ entry: p_consumed props=C30,C03 functions=_run_on_resolve_init defs=VF_RUN,VF_CONS native=n_loop link=* forked unwind=15
//@ loop: node_run.c _run_on_resolve_init 0 p_consumed
//@   __CPROVER_assigns(iter.item, iter.len, g_items, g_off, g_ilen, g_cur, g_path, g_pushed, paths.num)
//@   __CPROVER_loop_invariant(g_items >= 0 && g_cur == 0 && g_path == 0 && g_pushed >= 0 && g_pushed <= g_total - g_items && paths.num == g_pushed && g_pushed == g_total - g_items)
//@ entry: p_fe_setup props=C30 functions=_foreach_setup defs=VF_FE native=n_loop link=* forked nodfcc unwind=4
//@ entry: p_clone props=C30 functions=_call_clone_children defs=VF_CALL,VF_CLONE rename=node_call.c:_call_clone_children native=n_macro link=* forked unwind=13
//@ loop: node_call.c _call_clone_children 0 p_clone
//@   __CPROVER_assigns(c, next, g_left, g_cur, CH[0].next, CH[1].next, C[0].next, C[1].next, C[0].parent, C[1].parent, C[0].child, C[1].child, NN.child, g_n, g_c, g_phase)
//@   __CPROVER_loop_invariant(g_left >= 0 && (g_cur == 0 || g_cur == 1) && (c == 0 ? g_left == 0 : g_left > 0 && c == &CH[g_cur]) && g_phase == 0 && g_n == g_num - g_left && g_n >= 0 && (g_c == 0 || g_c == 1))
//@   __CPROVER_loop_invariant(g_n == 0 ? next == &NN.child && NN.child == 0 : next == &C[!g_c].next && C[!g_c].next == 0 && (g_n > 1 ? NN.child != 0 : NN.child == &C[!g_c]))
//@ entry: p_visit props=C30 functions=_call_macro_visit defs=VF_CALL,VF_VISIT rename=node_call.c:_call_clone_children native=n_macro link=* forked nodfcc unwind=4
//@ entry: p_call props=C30 functions=_call_init,_call_remove defs=VF_CALL,VF_INIT,VF_ARGS rename=node_call.c:_call_clone_children native=n_args link=* forked nodfcc unwind=70 flags=--max-field-sensitivity-array-size,70
//@ entry: p_bind props=C30 functions=_call_init defs=VF_CALL,VF_INIT fn=p_call rename=node_call.c:_call_clone_children native=n_args link=* forked unwind=13
//@ loop: node_call.c _call_init 1 p_bind
//@   __CPROVER_assigns(i, g_bound, g_fresh, ITEM_)
//@   __CPROVER_loop_invariant(i >= g_first && i <= g_num && g_bound == i - g_first && !g_fresh)
//@ entry: p_copy props=C30 functions=node_clone_and_register defs=VF_COPY native=n_macro link=* forked nodfcc unwind=4
//@ assume: p_visit: where a part of the body already has siblings, two of them stand for any row (n_macro: longer ones)
//@ assume: ulist, pool, xstr and map functions and node_value are used through their contracts
#ifdef VF_COPY
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "script_impl.h"
#define _AMALGAMATE_ /* included above */
static struct xnode g_src, g_new; static struct sctx g_ctx; static char g_t[4]; static int g_made, g_pushed;
void* xmalloc(size_t size) { void *p = malloc(size); ASSUME(p); return p; }
#include "script.c"
void* pool_calloc(struct pool *p, size_t n) { ENSURE("copy/room", n == sizeof(struct xnode) && !g_made); g_made = 1; g_new = (struct xnode) { 0 }; return &g_new; }
void ulist_push(struct ulist *l, const void *e) { ENSURE("copy/registered", l == &g_ctx.nodes && *(struct xnode**) e == &g_new && !g_pushed && g_new.base.index == l->num); g_pushed = 1; }
void p_copy(void) {
  struct node *s = &g_src.base, *n = &g_new.base;
  g_made = g_pushed = 0; g_ctx.nodes.num = nd_range("nodes", 0, 1000000);
  s->type = nd_uint("type"); s->flags = nd_uint("flags"); s->lnum = nd_uint("line"); s->index = nd_uint("index"); s->value = nd_bool("v") ? g_t : (char*) 0; s->name = nd_bool("n") ? g_t + 1 : (char*) 0; s->vfile = nd_bool("f") ? g_t + 2 : (char*) 0;
  s->ctx = &g_ctx; s->child = nd_bool("c") ? n : (struct node*) 0; s->next = s->parent = nd_bool("p") ? s : (struct node*) 0; s->impl = nd_bool("i") ? g_t : (char*) 0;
  struct node o = *s;
  struct node *r = node_clone_and_register(s);
  REACH("copy");
  ENSURE("copy/new-node", r == n && g_made && g_pushed);
  ENSURE("copy/same-word", n->type == o.type && n->value == o.value && n->lnum == o.lnum && n->ctx == &g_ctx && (n->flags & NODE_FLG_NEGATE) == (o.flags & NODE_FLG_NEGATE));
  ENSURE("copy/nothing-of-its-history", n->flags == (o.flags & NODE_FLG_NEGATE) && n->child == 0 && n->next == 0 && n->parent == 0 && n->impl == 0 && n->value_get == 0 && n->init == 0 && n->setup == 0 && n->build == 0 && n->post_build == 0 && n->dispose == 0);
  ENSURE("copy/original-untouched", s->type == o.type && s->flags == o.flags && s->value == o.value && s->child == o.child && s->next == o.next && s->parent == o.parent && s->index == o.index && s->impl == o.impl);
}
#elif defined(VF_CBMC)
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "env.h"
#include "script.h"
#include "deps.h"
#include "utils.h"
#include "xstr.h"
#include "pool.h"
#include "paths.h"
#include "alloc.h"
struct env g_env;
static struct unit U; static struct node N; static struct node_foreach FE;
struct unit* unit_peek(void) { return &U; }
/* children: two nodes in turns */
static struct node CH[2], JK; static int g_left, g_cur2;
#ifdef VF_RUN
#define LAZY g_left, g_cur2, CH[0].next, CH[1].next, JK.next
#define LINV(p) (g_left >= 0 && (g_cur2 == 0 || g_cur2 == 1) && ((p) == 0 ? g_left == 0 : g_left > 0 && ((p) == &CH[g_cur2] || ((p) == &JK && JK.next == &CH[g_cur2]))))
static struct node *list_first(int junk) {
  if (g_left == 0) return 0;
  if (!junk) return &CH[g_cur2];
  JK.next = &CH[g_cur2]; return &JK;
}
static void list_next(int junk) { --g_left; g_cur2 = !g_cur2; CH[!g_cur2].next = list_first(junk); }
/* the items of the loop: g_items left, the current one is g_ilen characters at TXT + g_off */
static char *TXT, *LIST; static int g_items, g_off, g_ilen, g_k, g_words, g_in, g_has, g_begun, g_total; static struct node PN; static const char *g_last; static char g_val[2];
static int g_cur, g_done, g_pushed, g_rel, g_o, g_w, g_wother, g_fe_cons; static char *g_path; static char g_paths[4], g_dep[2];
static struct _x { char x[2]; } g_pl; static struct node_resolve R; static struct resolve_outdated RO;
static void vf_vinit(const char *v, struct vlist_iter *it) { ENSURE("loop/items-of-the-loop", v == LIST && FE.value == 0); it->item = v; it->len = 0; }
static bool vf_vnext(struct vlist_iter *it) {
  ENSURE("loop/item-done", g_left == 0 && g_cur == 0 && g_last == 0 && FE.value == 0);
  if (g_items == 0) return false;
  --g_items;
  g_off = nd_range("off", 0, 100); g_ilen = nd_range("len", 1, 100);
  it->item = TXT + g_off; it->len = g_ilen;
#ifdef VF_PROD
  g_left = g_words; g_cur2 = 0; PN.child = list_first(nd_bool("junk"));
#else
  g_cur = 1;
#endif
  return true;
}
#define vlist_iter_init vf_vinit
#define vlist_iter_next vf_vnext
#define ITEM(p) ((p) != 0 && (g_k >= g_ilen || (p)[g_k] == TXT[g_off + g_k]))
struct node_foreach* node_find_parent_foreach(struct node *n) { ENSURE("loop/own-loop", n == &N); return g_in ? &FE : (struct node_foreach*) 0; }
struct node* node_find_direct_child(struct node *n, int type, const char *v) { ENSURE("loop/part", n == &N && type == NODE_TYPE_BAG); return g_has ? &PN : (struct node*) 0; }
const char* node_value(struct node *n) {
#ifdef VF_PROD
  ENSURE("products/each-word-for-each-item", g_left > 0 && n == &CH[g_cur2] && g_last == 0 && ITEM(FE.value) && FE.value[g_ilen] == 0);
  list_next(nd_bool("junk"));
#endif
  return g_last = g_val;
}
#ifdef VF_PROD
void node_product_add(struct node *n, const char *p, char b[PATH_MAX]) { ENSURE("products/claimed", n == &N && p == g_last && p != 0 && b == 0 && ITEM(FE.value)); g_last = 0; }
#endif
#ifdef VF_CONS
static void h_cons(void); static int g_calls;
char* pool_strndup(struct pool *p, const char *s, size_t n) { ENSURE("consumed/item-copied", g_cur == 1 && n == g_ilen && ITEM(s)); g_cur = 0; return g_path = g_paths; }
void ulist_push(struct ulist *l, const void *e) { ENSURE("consumed/item-kept", g_path && *(char**) e == g_path); g_path = 0; ASSUME(g_pushed < 1000000); ++g_pushed; ++l->num; }
void ulist_destroy_keep(struct ulist *l) { }
#endif
#ifdef VF_ITEMS
static struct ulist *L_all; static char *g_item;
static void _run_on_resolve_do(struct node_resolve *r, struct node *n);
char* pool_strdup(struct pool *p, const char *s) { ENSURE("items/changed-file", s == RO.path && RO.flags == 'f'); return g_path = g_paths; }
void ulist_push(struct ulist *l, const void *e) { ENSURE("items/changed-file-kept", g_path && *(char**) e == g_path); g_path = 0; ++g_pushed; ++l->num; }
void ulist_destroy_keep(struct ulist *l) { }
void* ulist_get(const struct ulist *l, unsigned i) {
  ENSURE("items/inside", i < l->num && FE.value == 0);
  if (l == &R.resolve_outdated) {
    RO.flags = i == g_w && g_wother ? 0 : nd_bool("list-file") ? 'f' : 0;
    if (RO.flags != 'f') g_o = 1;
    return &RO;
  }
  /* everything unless nothing but list files has changed */
  ENSURE("items/all-or-the-changed", l == L_all ? (R.resolve_outdated.num == 0 || g_o) : !g_o && g_pushed == R.resolve_outdated.num && l->num == g_pushed && (g_w >= g_pushed || !g_wother));
  ENSURE("items/each-in-order", i == g_done && g_cur == 0);
  g_cur = 1; g_item = &g_paths[2];
  return &g_item;
}
char* path_relativize_cwd(const char *from, const char *to, const char *cwd) { ENSURE("items/path-as-seen-by-the-command", g_cur == 1 && to == g_item && from == ((N.flags & NODE_FLG_IN_CACHE) ? U.cache_dir : U.dir) && cwd == from && (N.flags & (NODE_FLG_IN_CACHE | NODE_FLG_IN_SRC))); g_rel = 1; return &g_paths[3]; }
static void vf_free(void *p) { ENSURE("items/path-released", g_rel == 1 && p == &g_paths[3]); g_rel = 0; }
#define free vf_free
int deps_open(const char *p, int mode, struct deps *d) {
  ENSURE("items/all-run", g_in ? FE.value == 0 && g_cur == 0 && g_rel == 0 && (g_fe_cons ? g_done == (g_o || R.resolve_outdated.num == 0 ? L_all->num : g_pushed) : g_items == 0) : g_done == 1);
  VF_END(); while (1);
}
#endif
#include "node_run.c"
static void rinit(void) {
  TXT = malloc(201); LIST = malloc(2);
  g_off = g_ilen = g_left = g_cur2 = g_cur = g_done = g_pushed = g_rel = g_o = g_total = 0; g_last = 0; g_path = 0; FE.value = 0;
  g_k = nd_range("watched", 0, 99); vf_w0 = g_k; g_in = nd_bool("loop"); g_has = nd_bool("part");
  g_items = g_total = nd_range("items", 0, 100000); FE.items = LIST;
  CH[0].type = NODE_TYPE_VALUE; CH[1].type = NODE_TYPE_SUBST; JK.type = NODE_TYPE_BAG;
  g_env.verbose = 0; N.flags = nd_uint("flags"); PN.child = 0; g_words = 0;
}
#ifdef VF_PROD
void p_prod(void) {
  VF_START(); rinit();
  g_words = nd_range("words", 1, 100000); PN.child = nd_bool("empty") ? (struct node*) 0 : &CH[0];
  int e = PN.child == 0;
  bool r = _run_setup_foreach(&N);
  REACH("prod");
  ENSURE("products/in-a-loop", r == (g_in != 0));
  ENSURE("products/every-item", !g_in || !g_has || e || g_items == 0);
  ENSURE("products/item-not-left-behind", FE.value == 0);
}
#elif defined(VF_ITEMS)
static struct _run_on_resolve_ctx C;
static void _run_on_resolve_do(struct node_resolve *r, struct node *n) {
  ENSURE("items/rule", r == &R && n == &N);
  if (!g_in) { ENSURE("items/once", g_done == 0); }
  else if (g_fe_cons) ENSURE("items/value-is-the-item", g_cur == 1 && FE.value == (g_rel ? &g_paths[3] : g_item) && g_rel == ((N.flags & (NODE_FLG_IN_CACHE | NODE_FLG_IN_SRC)) != 0));
  else ENSURE("items/value-is-the-item", g_cur == 1 && ITEM(FE.value) && FE.value[g_ilen] == 0);
  g_cur = 0; if (!g_in || g_fe_cons) ++g_done;
}
void p_items(void) {
  VF_START(); rinit();
  R.user_data = &C; R.n = &N; C.fe = g_in ? &FE : (struct node_foreach*) 0; C.fe_consumed = g_fe_cons = nd_bool("consumed");
  L_all = &C.consumes_foreach; C.consumes_foreach.num = nd_range("all", 0, 100000); R.resolve_outdated.num = nd_range("outdated", 0, 100000);
  RO.path = g_dep; g_w = nd_range("other", 0, 100000); g_wother = g_w < R.resolve_outdated.num && nd_bool("has-other");
  _run_on_resolve(&R);
}
#else
static struct _run_on_resolve_ctx C; static int g_acc;
struct node* node_consumes_resolve(struct node *n, struct node *nn, struct ulist *paths, void (*f)(const char*, void*), void *d) {
  ENSURE("consumed/rule", n == &N && d == &C && FE.value == 0);
  if (paths) {
    ENSURE("consumed/items-of-the-loop", nn == 0 && g_in && g_acc && g_items == 0 && g_pushed == g_total && paths->num == g_total && f == _run_on_consumed_resolved_foreach);
    g_calls |= 2;
  } else {
    ENSURE("consumed/words", g_calls == 0 && g_has && nn == PN.child && nn != 0 && f == _run_on_consumed_resolved);
    g_calls |= 1;
    if (g_in && nd_bool("uses-the-item")) { g_acc = 1; FE.access_cnt = nd_range("count", 1, 1000); }
  }
  return 0;
}
void p_consumed(void) {
  VF_START(); rinit(); g_calls = g_acc = 0;
  R.user_data = &C; R.n = &N; C.fe = g_in ? &FE : (struct node_foreach*) 0; C.fe_consumed = false; FE.access_cnt = nd_range("before", 0, 1000);
  FE.value = g_in && nd_bool("left") ? g_val : (char*) 0;
  PN.child = nd_bool("empty") ? (struct node*) 0 : &CH[0];
  _run_on_resolve_init(&R);
  REACH("consumed");
  ENSURE("consumed/exactly-when-used", C.fe_consumed == (g_acc != 0) && ((g_calls & 2) != 0) == (g_acc != 0));
  ENSURE("consumed/own-words", ((g_calls & 1) != 0) == (g_has && PN.child));
  ENSURE("consumed/rule-known", C.r == &R);
}
#endif
#elif defined(VF_FE)
static struct node FN, IN; static char g_name[2], g_dup[1], g_xs[2], *g_v; static int g_cat, g_un, g_made; static char g_text[3];
void node_fatal(int rc, struct node *n, const char *fmt, ...) { ENSURE("foreach/needs-a-name", n == &N && N.child == 0 && rc != 0); VF_END(); while (1); }
const char* node_value(struct node *n) {
  if (n == &FN) return g_name;
  ENSURE("foreach/list", n == FN.next);
  return n ? g_v : (char*) 0;
}
char* xstrdup(const char *s) { ENSURE("foreach/name", s == g_name); return g_dup; }
#define XS ((struct xstr*) g_xs)
struct xstr* xstr_create_empty(void) { g_made = 1; return XS; }
void xstr_cat(struct xstr *x, const char *s) { ENSURE("foreach/items-copied-once", x == XS && s == g_v && s[0] && !g_cat); g_cat = 1; g_text[0] = s[0]; }
void xstr_unshift(struct xstr *x, const void *b, size_t n) { ENSURE("foreach/one-value-is-a-list-of-one", x == XS && n == 1 && *(char*) b == '\1' && (!g_v || !FN.next || g_v[0] != '\1') && !g_un); g_un = 1; g_text[0] = '\1'; }
char* xstr_ptr(struct xstr *x) { return g_text; }
char* xstr_destroy_keep_ptr(struct xstr *x) { return g_text; }
#define xcalloc(a, b) vf_calloc(a, b)
static void* vf_calloc(size_t a, size_t b) { ENSURE("foreach/room", a * b >= sizeof(struct node_foreach)); FE = (struct node_foreach) { 0 }; return &FE; }
#include "node_foreach.c"
void p_fe_setup(void) {
  g_cat = g_un = g_made = 0; g_text[0] = g_text[1] = g_text[2] = 0; N.impl = 0;
  N.child = nd_bool("name") ? &FN : (struct node*) 0; FN.next = nd_bool("list") ? &IN : (struct node*) 0;
  g_v = nd_bool("value") ? malloc(2) : (char*) 0; if (g_v) g_v[1] = 0;
  _foreach_setup(&N);
  REACH("foreach");
  ENSURE("foreach/kept", N.child && N.impl == &FE && FE.name == g_dup && FE.items == g_text && FE.value == 0 && FE.access_cnt == 0);
  ENSURE("foreach/all-items", g_cat == (FN.next && g_v && g_v[0] != 0));
  ENSURE("foreach/is-a-list", g_text[0] == '\1');
}
#elif defined(VF_CALL)
static int g_cur, g_c, g_n, g_phase, g_num, g_first, g_bound, g_fresh, g_fatal, g_pushes, g_pops, g_regs, g_cloned;
static struct node C[2], NN, NEW, S[66], MN, NAME, PAR, ARG, CTXN, BODY, IDX; static struct sctx X; static char g_v[2], g_iv[2], g_key[2];
static void _call_clone_children(struct node *n, struct node *nn);
#ifndef VF_INIT
void node_fatal(int rc, struct node *n, const char *fmt, ...) { ENSURE("call/fails-only-for-a-bad-reference", g_fatal); VF_END(); while (1); }
#endif
#ifdef VF_CLONE
struct node* node_clone_and_register(struct node *n) {
  ENSURE("clone/each-child-once-in-order", g_phase == 0 && g_left > 0 && n == &CH[g_cur]);
  g_phase = 1;
  C[g_c].next = C[g_c].child = C[g_c].parent = 0;
  return &C[g_c];
}
#include "node_call.c"
static void _call_clone_children(struct node *n, struct node *nn) {
  ENSURE("clone/whole-depth", g_phase == 1 && n == &CH[g_cur] && nn == &C[g_c]);
  ENSURE("clone/linked", nn->parent == &NN && nn->next == 0 && (g_n == 0 ? NN.child == nn : C[!g_c].next == nn));
  g_phase = 0; --g_left; g_cur = !g_cur; CH[!g_cur].next = g_left > 0 ? &CH[g_cur] : (struct node*) 0;
  g_c = !g_c; ++g_n;
}
void p_clone(void) {
  VF_START();
  g_left = nd_range("children", 0, 1000000); g_cur = nd_bool("cur"); g_c = g_n = g_phase = 0; NN.child = 0;
  int t = g_num = g_left;
  N.child = g_left ? &CH[g_cur] : (struct node*) 0;
  _call_clone_children__real(&N, &NN);
  REACH("clone");
  ENSURE("clone/all", g_left == 0 && g_phase == 0 && (t == 0) == (NN.child == 0));
}
#elif defined(VF_VISIT)
static struct node *g_src, *g_parent; static int g_idx, g_rc; static struct node *g_peek;
struct node* node_clone_and_register(struct node *n) { ENSURE("visit/copy-of-the-part", n == g_src && !g_regs); g_regs = 1; NEW.next = NEW.child = NEW.parent = 0; return &NEW; }
#define utils_strtol(s, b, r) (ENSURE("visit/number", (s) == g_iv && (b) == 10), *(r) = g_rc, g_idx)
void* ulist_peek(const struct ulist *l) { g_peek = g_parent; return &g_peek; }
void ulist_push(struct ulist *l, const void *e) { ENSURE("visit/becomes-the-place-of-its-parts", *(struct node**) e == &NEW && !g_pushes); g_pushes = 1; }
void ulist_pop(struct ulist *l) { ++g_pops; }
#include "node_call.c"
static void _call_clone_children(struct node *n, struct node *nn) { ENSURE("visit/argument-with-its-parts", n == &ARG && nn == &NEW && !g_cloned); g_cloned = 1; }
void p_visit(void) {
  VF_START();
  static struct _call K; K = (struct _call) { 0 };
  g_regs = g_pushes = g_pops = g_cloned = g_fatal = 0;
  K.n = &N; K.mn = &MN; MN.child = &NAME; N.parent = &PAR; K.key = g_key; 
  int which = nd_range("which", 0, 2), lvl = nd_range("level", -1000, 1000), arg = 0, num = 0;
  struct node *n = which == 0 ? &MN : which == 1 ? &NAME : &BODY;
  BODY.value = g_v; g_v[0] = nd_char("v0"); g_v[1] = nd_char("v1"); if (g_v[0] == 0) g_v[1] = 0;
  static char z[3]; z[0] = g_v[0]; z[1] = g_v[1]; z[2] = 0; BODY.value = z; MN.value = NAME.value = g_key;
  BODY.child = nd_bool("has-child") ? &IDX : (struct node*) 0; IDX.value = g_iv;
  BODY.ctx = ARG.ctx = &X; X.nodes.num = nd_range("nodes", 0, 1000000);
  int last = K.arg_idx = nd_range("last", -1, 62), first = K.nn_idx = nd_range("first", -1, 1000000);
  int set = nd_range("set", 0, 63); K.args[set] = nd_bool("is-set") ? &ARG : (struct node*) 0;
  g_idx = nd_range("index", -1000000, 1000000); g_rc = nd_range("rc", 0, 1);
  arg = z[0] == '&' && z[1] == 0; num = arg && BODY.child;
  int idx = num ? g_idx - 1 : last + 1;
  g_src = arg ? &ARG : &BODY;
  if (arg) g_fatal = num && (g_rc || g_idx < 1 || g_idx >= 64) ? 1 : idx >= 64 ? 1 : idx != set || !K.args[set];
  /* where it goes: at the place of the call, or behind what is there */
  int place = nd_range("place", 0, 3);
  static struct node Q, T; Q.next = &T; PAR.child = &Q; T.next = 0; S[0].next = nd_bool("two") ? &S[1] : (struct node*) 0; S[1].next = 0;
  struct node *l = S[0].next ? &S[1] : &S[0];
  g_parent = place < 2 ? &PAR : &NN; K.prev = place == 0 ? &Q : (struct node*) 0; NN.child = place == 2 ? &S[0] : (struct node*) 0;
  int r = _call_macro_visit(n, lvl, &K);
  REACH("visit");
  if (which < 2) { ENSURE("visit/macro-and-its-name-are-no-parts", r == 0 && !g_regs && !g_pushes && !g_pops); return; }
  if (lvl < 0) { ENSURE("visit/leaves-the-part", r == 0 && g_pops == 1 && !g_regs && !g_pushes); return; }
  ENSURE("visit/bad-reference-is-fatal", !g_fatal);
  ENSURE("visit/one-copy", g_regs && g_pushes && !g_pops && NEW.parent == g_parent);
  ENSURE("visit/argument-in-full", g_cloned == arg);
  ENSURE("visit/index-is-no-part", r == (num ? NODE_VISIT_CHILD_SKIP : 0));
  ENSURE("visit/next-reference", K.arg_idx == (arg ? idx : last));
  ENSURE("visit/first-copy-known", K.nn_idx == (first == -1 ? X.nodes.num : first));
  if (place < 2) ENSURE("visit/at-the-place-of-the-call", K.prev == &NEW && (place == 0 ? Q.next == &NEW && NEW.next == &T && PAR.child == &Q : PAR.child == &NEW && NEW.next == &Q && Q.next == &T));
  else ENSURE("visit/behind-its-siblings", NEW.next == 0 && (place == 2 ? l->next == &NEW && NN.child == &S[0] : NN.child == &NEW));
}
#else
/* calls with any number of arguments; beyond 64 the call fails whatever follows */
static struct _call *g_call; static int g_inits, g_visited, g_args, g_macro, g_removed, g_kk; static struct node *g_prev, *g_at; static char *g_pk; static struct node *ITEM_;
void node_warn(struct node *n, const char *fmt, ...) { ENSURE("call/name-missing", n == &N && (!g_pk || !g_pk[0])); }
void node_fatal(int rc, struct node *n, const char *fmt, ...) { ENSURE("call/fails-only-for-a-reason", !g_macro || g_args > 64); VF_END(); while (1); }
const char* node_value(struct node *n) { ENSURE("call/name-first", n == &NAME); return g_pk; }
struct node* unit_env_get_node(struct unit *u, const char *key, unsigned *t) { ENSURE("call/macro-of-this-script", u == &U && key == g_pk && key[0]); return g_macro ? &MN : (struct node*) 0; }
#define xcalloc(a, b) vf_calloc(a, b)
static struct node* vf_prev(struct node *n) { ENSURE("call/place", n == &N && !g_visited); return g_prev; }
#define node_find_prev_sibling vf_prev
void ulist_init(struct ulist *l, unsigned n, unsigned s) { ENSURE("call/stack", s == sizeof(struct node*)); g_inits = 1; }
void ulist_push(struct ulist *l, const void *e) { ENSURE("call/starts-at-the-parent", *(struct node**) e == &PAR && !g_pushes && g_inits); g_pushes = 1; }
void* ulist_get(const struct ulist *l, unsigned i) { ENSURE("call/each-copy", g_visited && l == &X.nodes && i < g_num && i == g_first + g_bound && !g_fresh); g_fresh = 1; ITEM_ = &NEW; return &ITEM_; }
int node_bind(struct node *n) { ENSURE("call/copy-becomes-a-rule", g_fresh && n == &NEW); g_fresh = 0; ++g_bound; return 0; }
static void* vf_calloc(size_t, size_t);
#include "node_call.c"
static struct _call CALL;
static void* vf_calloc(size_t a, size_t b) { ENSURE("call/room", a * b == sizeof(CALL)); CALL = (struct _call) { 0 }; return &CALL; }
static void _call_clone_children(struct node *n, struct node *nn) { }
int node_visit(struct node *n, int lvl, void *d, int (*v)(struct node*, int, void*)) {
  ENSURE("call/body", n == &MN && lvl == 1 && d == &CALL && v == _call_macro_visit && !g_visited && g_pushes);
  ENSURE("call/state", CALL.key == g_pk && CALL.mn == &MN && CALL.n == &N && CALL.prev == g_prev && CALL.nn_idx == -1 && CALL.arg_idx == -1);
  ENSURE("call/argument-in-its-place", g_args <= 64 && (g_kk < g_args ? CALL.args[g_kk] == &S[g_kk] && S[g_kk].next == 0 : CALL.args[g_kk] == 0));
  ENSURE("call/call-replaced", g_prev ? g_prev->next == g_at && PAR.child == g_prev : PAR.child == g_at);
  g_visited = 1;
#ifdef VF_ARGS
  REACH("call"); VF_END();
#endif
  g_first = nd_range("first", -1, 1000000); CALL.nn_idx = g_first;
  return 0;
}
void p_call(void) {
  VF_START();
  static struct node B, T;
  g_inits = g_visited = g_pushes = g_bound = g_fresh = 0; g_key[0] = nd_char("name"); g_key[1] = 0; g_pk = nd_bool("value") ? g_key : (char*) 0;
  g_macro = nd_bool("macro"); g_kk = nd_range("watched", 0, 63);
#ifdef VF_ARGS
  g_args = nd_range("args", 0, 65);
  for (int i = 0; i < 66; ++i) S[i].next = i + 1 < g_args ? &S[i + 1] : (struct node*) 0;
#else
  g_args = 1; S[0].next = 0;
#endif
  N.child = &NAME; NAME.next = g_args ? &S[0] : (struct node*) 0; N.parent = &PAR; N.impl = 0; N.ctx = &X; X.nodes.num = g_num = nd_range("nodes", 0, 1000000);
  g_prev = nd_bool("not-first") ? &B : (struct node*) 0; g_at = nd_bool("not-last") ? &T : (struct node*) 0;
  N.next = g_at; B.next = &N; PAR.child = g_prev ? &B : &N;
  _call_init(&N);
#ifndef VF_ARGS
  REACH("bind");
#endif
  ENSURE("call/unnamed-does-nothing", g_visited || (!g_pk || !g_pk[0]));
  if (g_visited) {
    ENSURE("call/state-kept", N.impl == &CALL);
    ENSURE("call/all-copies-become-rules", g_bound == (g_first < 0 || g_first > g_num ? 0 : g_num - g_first) && !g_fresh);
  }
}
#endif
#endif
#else
#ifndef VF_LOOP
#include "vf_rule.h"
#include "nodes.h"
/* the same tree, whatever its history */
static int same(struct node *a, struct node *b) {
  for (; a && b; a = a->next, b = b->next)
    if (a->type != b->type || strcmp(a->value, b->value) || ((a->flags ^ b->flags) & NODE_FLG_NEGATE) || !same(a->child, b->child)) return 0;
  return !a && !b;
}
static void show(struct node *n, int l) { for (; n; n = n->next) { fprintf(stderr, "%*s%s:%x:%x\n", l, "", n->value, n->type, n->flags & NODE_FLG_NEGATE); show(n->child, l + 2); } }
static void expect_same(const char *a, const char *b, int fatal) {
  g_fatal_expected = fatal;
  vs("%s", a);
  if (getenv("VF_SHOW")) fprintf(stderr, "<<%s>>\n<<%s>>\n", a, b);
  struct sctx *c = vs_open();
  node_init(c->root);
  ENSURE("missing-argument-is-fatal", !fatal);
  if (unit_root()) unit_root()->n = 0;
  vs_len = 0; vs("%s", b);
  struct sctx *d = vs_open();
  node_init(d->root);
  if (getenv("VF_SHOW")) { show(c->root->child, 0); fprintf(stderr, "--\n"); show(d->root->child, 0); }
  ENSURE("call-is-its-body-with-the-arguments", same(c->root->child, d->root->child));
}
static const char *args[][4] = { { 0 }, { "a", 0 }, { "a", "b", 0 }, { "'b c'", "r { x 'y z' w{ } q }", 0 }, { "^{p !q{w} ..x{}}", "b", "c", 0 }, { "..${X y}", "a", 0 }, { "'&'", "x", 0 } };
static const char *body[] = { "w", "&{1}", "&{2}", "&", "^{ &{1} x }", "r{ &{2} 'q q' }", "r { & & }", "!k { & }", "if { !eq { &{1} a } t { u } } else { v { & } }", "if { eq { &{1} a } t { &{2} } }", "..set{ L &{1} }", "&{0}", "&{64}", "&{x}" };
static char out[4096]; static int last, missing;
static void expand(const char *b, const char **av) {
  size_t o = strlen(out);
  for (; *b && !missing; ++b) {
    if (*b != '&') { out[o++] = *b; continue; }
    int i;
    if (b[1] == '{') { i = b[2] - '1'; if (b[3] != '}' || i > 8) { missing = 1; break; } b += 3; } else i = last + 1;
    last = i;
    int n = 0; while (av[n]) ++n;
    if (i < 0 || i >= n) { missing = 1; break; }
    out[o] = 0; strcat(out, av[i]); o = strlen(out);
  }
  out[o] = 0;
}
void n_macro(void) {
  char m[4096] = "", t[300]; out[0] = 0;
  const char **av = args[nd_range("args", 0, sizeof(args) / sizeof(*args) - 1)];
  int place = nd_range("place", 0, 4), n = nd_range("items", 0, 2), k = sizeof(body) / sizeof(*body);
  last = -1; missing = 0;
  strcpy(m, "macro { M");
  char call[300] = "call { M"; for (int i = 0; av[i]; ++i) { strcat(call, " "); strcat(call, av[i]); } strcat(call, " }");
  static char exp[4096]; exp[0] = 0;
  for (int i = 0; i < n; ++i) { int b = nd_range("part", 0, k - 1); strcat(m, " "); strcat(m, body[b]); expand(body[b], av); strcat(out, " "); }
  strcat(m, " }\n");
  if (place == 3) { strcat(m, "macro { OUT pre call { M &{1} &{2} } post }\n"); }
  /* a bare word cannot stand at the top of a script, so the call is inside of a rule */
  switch (place) {
    case 0: strcat(m, "top { "); strcat(m, call); strcat(m, " }\n"); snprintf(exp, sizeof(exp), "top { %s }\n", out); break;
    case 1: strcat(m, "top { x y{} "); strcat(m, call); strcat(m, " z }\n"); snprintf(exp, sizeof(exp), "top { x y{} %s z }\n", out); break;
    case 2: strcat(m, "top { x "); strcat(m, call); strcat(m, " "); strcat(m, call); strcat(m, " z }\n"); snprintf(exp, sizeof(exp), "top { x %s %s z }\n", out, out); break;
    case 3: { /* through another macro */
      ASSUME(av == args[2] || av == args[3]);
      strcat(m, "top { x call { OUT"); for (int i = 0; av[i]; ++i) { strcat(m, " "); strcat(m, av[i]); } strcat(m, " } z }\n"); snprintf(exp, sizeof(exp), "top { x pre %s post z }\n", out); break; }
    default: strcat(m, "top { if { eq{a a} "); strcat(m, call); strcat(m, " } z }\n"); snprintf(exp, sizeof(exp), "top { if { eq{a a} %s } z }\n", out); break;
  }
  (void) t;
  expect_same(m, exp, missing);
}
/* any number of arguments and references */
void n_args(void) {
  int refs = nd_range("references", 0, 70), n = nd_range("arguments", 0, 70), num = nd_bool("numbered");
  static char a[8192], b[8192]; a[0] = b[0] = 0;
  strcpy(a, "macro { M");
  for (int i = 1; i <= refs; ++i) num ? sprintf(a + strlen(a), " &{%d}", i) : sprintf(a + strlen(a), " &");
  strcat(a, " }\ntop { call { M"); strcpy(b, "top {");
  for (int i = 1; i <= n; ++i) sprintf(a + strlen(a), " v%d", i);
  strcat(a, " } }\n");
  for (int i = 1; i <= refs; ++i) sprintf(b + strlen(b), " v%d", i);
  strcat(b, " }\n");
  expect_same(a, b, n > 64 || refs > n || (num && refs > 63));
}
#else
#include "vf_build.h"
static int vb_cmd(int argc, char **argv, const char *name, void (*out)(const char*, size_t)) { return 0; }
static const char *items[] = { "a", "b c", "a.o", "d/e.x", "", "%s", "\303\251" };
void n_loop(void) {
  static char w[4096], s[8192]; w[0] = s[0] = 0;
  int n = nd_range("items", 0, 3), form = nd_range("form", 0, 6), how = nd_range("list", 0, 4);
  const char *it[4]; int k = 0;
  for (int i = 0; i < n; ++i) it[k++] = items[nd_range("item", 0, sizeof(items) / sizeof(*items) - 1)];
  static const char *forms[] = { "exec { t ${I} }", "exec { t ^{p ${I} s} ${I} }", "exec { t %{${I}} }", "exec { t ${I} } exec { u ${K} ${I} }", "shell { t ${I} }", "exec { t ${J ${I}} set { _ 1 ${I} } }", "exec { t x }" };
  char list[1000] = "";
  for (int i = 0; i < k; ++i) { strcat(list, " '"); strcat(list, it[i]); strcat(list, "'"); }
  vb_start();
  const char *expr = "";
  char lit[1100];
  switch (how) {
    case 0: snprintf(lit, sizeof(lit), "set { _%s }", list); expr = lit; break;
    case 1: sprintf(s, "set { L%s }\n", list); expr = "${L}"; break;
    case 2: sprintf(s, "set { L0%s }\nset { L ..${L0} }\n", list); expr = "${L}"; ASSUME(k == 0 || (k == 1 && !strchr(it[0], ' ') && form < 2)); break;
    case 3: ASSUME(k == 1); snprintf(lit, sizeof(lit), "'%s'", it[0]); expr = lit; break;
    default: sprintf(s, "macro { LP foreach { I &{1} run { always %s } } }\n", forms[form]); snprintf(lit, sizeof(lit), "set { _%s }", list); expr = lit; break;
  }
  if (how == 4) sprintf(s + strlen(s), "set { I outer }\nset { K k }\ncall { LP %s }\n", expr);
  else sprintf(s + strlen(s), "set { I outer }\nset { K k }\nforeach { I %s run { always %s } }\n", expr, forms[form]);
  strcat(s, "run { always exec { last ${I} } }\n");
  for (int i = 0; i < k; ++i) {
    const char *v = it[i]; char base[64];
    if (!*v) continue; /* empty words are no list items */
    const char *sl = strrchr(v, '/'), *dot = strrchr(v, '.');
    snprintf(base, sizeof(base), "%s", v);
    if (dot && (!sl || dot > sl) && dot != v) base[dot - v] = 0;
    switch (form) {
      case 0: sprintf(w + strlen(w), "t|%s\n", v); break;
      case 1: sprintf(w + strlen(w), "t|p%ss|%s\n", v, v); break;
      case 2: sprintf(w + strlen(w), "t|%s\n", base); break;
      case 3: sprintf(w + strlen(w), "t|%s\nu|k|%s\n", v, v); break;
      case 4: sprintf(w + strlen(w), "/bin/sh|-c|t %s\n", v); break;
      case 5: sprintf(w + strlen(w), "t|%s|1|%s\n", v, v); break;
      default: sprintf(w + strlen(w), "t|x\n"); break;
    }
  }
  strcat(w, "last|outer\n");
  vb_file("Autark", VB_T0, "%s", s);
  for (int b = 0; b < 2; ++b) {
    ENSURE("loop/build", vb_build((const char*) 0) == 0);
    if (getenv("VF_SHOW")) fprintf(stderr, "<<%s>>\nwant:%s\ngot:%s\n", s, w, vb->out);
    ENSURE("loop/once-per-item-in-order", strcmp(vb->out, w) == 0);
  }
}
#endif
#endif
