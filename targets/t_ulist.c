// List (ulist): every operation against the abstract sequence of elements it holds, from any valid state.
//@ entry: h_ins props=C20 functions=ulist_insert unwind=2 bunwind=4 defs=US=8,VF_OPAQUE
//@ entry: h_push props=C20 functions=ulist_push,ulist_unshift unwind=2 bunwind=4 defs=US=8,VF_OPAQUE
//@ entry: h_push@16 props=C20 functions=ulist_push,ulist_unshift unwind=2 bunwind=4 N=2 defs=US=16,VF_OPAQUE fn=h_push
//@ entry: h_rm props=C20 functions=ulist_remove unwind=2 bunwind=4 defs=US=8,VF_OPAQUE
//@ entry: h_rm@24 thoroughonly timeout=600 fn=h_rm props=C20 functions=ulist_remove unwind=2 bunwind=4 defs=US=24,VF_OPAQUE
//@ entry: h_pop props=C20 functions=ulist_pop,ulist_shift unwind=2 bunwind=4 defs=US=8,VF_OPAQUE
//@ entry: h_pop@24 thoroughonly timeout=600 fn=h_pop props=C20 functions=ulist_pop,ulist_shift unwind=2 bunwind=4 defs=US=24,VF_OPAQUE
//@ entry: h_get props=C20 functions=ulist_get,ulist_peek,ulist_set,ulist_reset,ulist_clear unwind=2 bunwind=4 defs=US=8,VF_OPAQUE
//@ entry: h_create props=C20 functions=ulist_create,ulist_init,ulist_destroy,ulist_destroy_keep unwind=2 bunwind=4 defs=US=8,VF_OPAQUE
//@ entry: h_clone props=C20 functions=ulist_clone unwind=2 bunwind=4 defs=US=8,VF_OPAQUE
//@ entry: h_find props=C20 functions=ulist_find unwind=10 bunwind=7 defs=VF_OPAQUE,VF_LOGGED
//@ entry: h_remove_by props=C20 functions=ulist_remove_by rename=ulist.c:ulist_remove unwind=10 bunwind=7 defs=VF_OPAQUE,VF_LOGGED
//@ loop: ulist.c ulist_find 0 h_find
//@   __CPROVER_assigns(i)
//@   __CPROVER_loop_invariant(i >= list->start && i <= list->start + list->num)
//@   __CPROVER_loop_invariant(i - list->start <= g_k || g_differs)
//@ loop: ulist.c ulist_remove_by 0 h_remove_by
//@   __CPROVER_assigns(i)
//@   __CPROVER_loop_invariant(i >= list->start && i <= list->start + list->num)
//@   __CPROVER_loop_invariant(i - list->start <= g_k || g_differs)
//@ assume: malloc/realloc never fail (xmalloc/xrealloc abort instead); lists hold at most 2^20 elements
//@ assume: element sizes 8 and 16 (and 24 when thorough) stand for every element size (the code is uniform in it)
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
static unsigned g_k;
static _Bool g_differs;
#include "ulist.c"
#ifndef US
#ifdef VF_PROOF
#define US 8
#else
#define US 2
#endif
#endif
#ifdef VF_LOGGED
#define BMAX 3u
#else
#define BMAX 40u
#endif
#define MAXE VF_LIM((1u << 20), BMAX)


static struct ulist* mk(void) {
  struct ulist *l = malloc(sizeof(*l));
  l->usize = US;
  l->anum = nd_uint("anum");
  l->num = nd_uint("num");
  l->start = nd_uint("start");
  ASSUME(l->anum >= 1 && l->anum <= MAXE && l->num <= l->anum && l->start <= l->anum - l->num);
  l->array = vf_bytes((size_t) l->anum * US);
  return l;
}
#define INV(l, id) \
  ENSURE(id "/capacity", (l)->anum >= 1 && (l)->num <= (l)->anum && (l)->start <= (l)->anum - (l)->num); \
  ENSURE(id "/element-size-kept", (l)->usize == US); \
  ENSURE(id "/capacity-is-allocated", VF_ROOM((l)->array, (size_t) (l)->anum * US))
#define OFF(l, k, j) (((size_t) (l)->start + (k)) * US + (j))
#define AT(l, k, j) ((l)->array[OFF(l, k, j)])
#define PRE struct ulist *l = mk(); unsigned k = nd_uint("k"), j = nd_uint("j"); ASSUME(j < US && k <= MAXE); \
  unsigned on = l->num; size_t os = l->start; char oc = k < on ? AT(l, k, j) : 0; (void) oc; (void) os; \
  char *d = vf_bytes(US); char dc = d[j]; (void) dc; size_t oo = OFF(l, k, j); (void) oo

void h_ins(void) {
  VF_START();
  PRE;
  unsigned idx = nd_uint("idx");
  ASSUME(idx <= MAXE);
  VF_WITNESS(j, ((size_t) k - idx) * US + j, (size_t) k * US + j);
  VF_RWITNESS(oo, oo, oo);
  ulist_insert(l, idx, d);
  INV(l, "insert");
  if (idx > on) {
    ENSURE("insert/out-of-range-ignored", l->num == on && (k >= on || AT(l, k, j) == oc));
  } else {
    REACH("insert");
    ENSURE("insert/count", l->num == on + 1);
    ENSURE("insert/placed", AT(l, idx, j) == dc);
    ENSURE("insert/before-kept", !(k < idx && k < on) || AT(l, k, j) == oc);
    ENSURE("insert/after-moved", !(k >= idx && k < on) || AT(l, k + 1, j) == oc);
  }
}

void h_push(void) {
  VF_START();
  PRE;
  VF_WITNESS(j, (size_t) k * US + j, j);
  VF_RWITNESS(oo, oo, oo);
  if (nd_bool("front")) {
    ulist_unshift(l, d);
    INV(l, "unshift");
    REACH("unshift");
    ENSURE("unshift/count", l->num == on + 1);
    ENSURE("unshift/placed", AT(l, 0, j) == dc);
    ENSURE("unshift/rest-kept", k >= on || AT(l, k + 1, j) == oc);
  } else {
    ulist_push(l, d);
    INV(l, "push");
    REACH("push");
    ENSURE("push/count", l->num == on + 1);
    ENSURE("push/placed", AT(l, on, j) == dc);
    ENSURE("push/rest-kept", k >= on || AT(l, k, j) == oc);
  }
}

void h_rm(void) {
  VF_START();
  PRE;
  unsigned idx = nd_uint("idx");
  ASSUME(idx <= MAXE);
  size_t nk = k < idx ? k : (size_t) k - 1;
  VF_WITNESS(((size_t) k - idx - 1) * US + j, nk * US + j, (size_t) k * US + j);
  VF_RWITNESS(nk * US + j, (os + nk) * US + j, oo);
  ulist_remove(l, idx);
  INV(l, "remove");
  if (idx >= on) {
    ENSURE("remove/out-of-range-ignored", l->num == on && (k >= on || AT(l, k, j) == oc));
  } else {
    REACH("remove");
    ENSURE("remove/count", l->num == on - 1);
    ENSURE("remove/before-kept", !(k < idx && k < on) || AT(l, k, j) == oc);
    ENSURE("remove/after-moved", !(k > idx && k < on) || AT(l, k - 1, j) == oc);
  }
}

void h_pop(void) {
  VF_START();
  PRE;
  _Bool front = nd_bool("front");
  size_t nk = front ? (size_t) k - 1 : k;
  VF_WITNESS(nk * US + j, j, j);
  VF_RWITNESS(nk * US + j, (os + nk) * US + j, oo);
  if (front) {
    ulist_shift(l);
    INV(l, "shift");
    REACH("shift");
    ENSURE("shift/count", l->num == (on ? on - 1 : 0));
    ENSURE("shift/rest-kept", !(k > 0 && k < on) || AT(l, k - 1, j) == oc);
  } else {
    ulist_pop(l);
    INV(l, "pop");
    REACH("pop");
    ENSURE("pop/count", l->num == (on ? on - 1 : 0));
    ENSURE("pop/rest-kept", !(on && k < on - 1) || AT(l, k, j) == oc);
  }
}

void h_get(void) {
  VF_START();
  PRE;
  unsigned idx = nd_uint("idx");
  int op = nd_int("op");
  VF_WITNESS(j, j, j);
  if (op == 0) {
    char *p = ulist_get(l, idx);
    REACH("get");
    ENSURE("get/null-iff-out-of-range", (p == 0) == (idx >= on));
    ENSURE("get/element", idx >= on || p == &AT(l, idx, 0));
  } else if (op == 1) {
    char *p = ulist_peek(l);
    ENSURE("peek/last", on ? p == &AT(l, on - 1, 0) : p == 0);
  } else if (op == 2) {
    ulist_set(l, idx, d);
    INV(l, "set");
    ENSURE("set/count", l->num == on);
    ENSURE("set/placed", idx >= on || AT(l, idx, j) == dc);
    ENSURE("set/others-kept", !(k < on && k != idx) || AT(l, k, j) == oc);
  } else if (op == 3) {
    ulist_reset(l);
    INV(l, "reset");
    ENSURE("reset/empty", l->num == 0);
  } else if (op == 4) {
    ulist_clear(l);
    INV(l, "clear");
    ENSURE("clear/empty", l->num == 0);
  }
}

void h_create(void) {
  VF_START();
  unsigned n = nd_uint("n");
  ASSUME(n <= MAXE);
  if (nd_bool("heap")) {
    struct ulist *l = ulist_create(n, US);
    REACH("create");
    INV(l, "create");
    ENSURE("create/empty", l->num == 0);
    ulist_destroy(&l);
    ENSURE("destroy/nulls", l == 0);
    ulist_destroy(&l);
    ulist_destroy(0);
  } else {
    struct ulist v;
    ulist_init(&v, n, US);
    INV(&v, "init");
    ENSURE("init/empty", v.num == 0);
    ulist_destroy_keep(&v);
    ENSURE("destroy_keep/no-buffer", v.array == 0 && v.num == 0);
    ulist_destroy_keep(0);
  }
}

void h_clone(void) {
  VF_START();
  PRE;
  VF_WITNESS((size_t) k * US + j, oo, j);
  struct ulist *c = ulist_clone(l);
  INV(c, "clone");
  REACH("clone");
  ENSURE("clone/distinct", c != l && c->array != l->array);
  ENSURE("clone/count", c->num == on && l->num == on && l->start == os);
  ENSURE("clone/elements", k >= on || AT(c, k, j) == oc);
  ENSURE("clone/original-kept", k >= on || AT(l, k, j) == oc);
}

/* find: search value and elements; the list is not modified, so "element k differs" is a constant. */
static _Bool differs(struct ulist *l, unsigned k, const char *d) {
  for (unsigned i = 0; i < US; ++i) if (AT(l, k, i) != d[i]) return 1;
  return 0;
}

void h_find(void) {
  VF_START();
  PRE;
  g_k = k;
  g_differs = k < on && differs(l, k, d);
  VF_CWITNESS(j);
  int r = ulist_find(l, d);
  REACH("find");
  ENSURE("find/in-range", r >= -1 && (r < 0 || (unsigned) r < on));
  ENSURE("find/equal-element", r < 0 || AT(l, r, j) == d[j]);
  ENSURE("find/first", !(k < on && (r < 0 || k < (unsigned) r)) || g_differs);
}



static unsigned g_j;
#ifdef VF_REN_ulist_remove
void ulist_remove(struct ulist *list, unsigned idx) { /* contract of ulist_remove, proved by h_rm, at witness k, j */
  if (idx >= list->num) return;
  --list->num;
  if (g_k > idx && g_k <= list->num) AT(list, g_k - 1, g_j) = AT(list, g_k, g_j);
}
#endif
void h_remove_by(void) {
  VF_START();
  PRE;
  g_k = k; g_j = j;
  g_differs = k < on && differs(l, k, d);
  VF_CWITNESS(j);
  unsigned r0 = nd_uint("r0"); /* the element at the position reported, before the removal */
  char rc = r0 < on ? AT(l, r0, j) : 0;
  int r = ulist_remove_by(l, d);
  REACH("remove_by");
  ENSURE("remove_by/in-range", r >= -1 && (r < 0 || (unsigned) r < on));
  ENSURE("remove_by/count", l->num == on - (r >= 0));
  ENSURE("remove_by/equal-element", r != r0 || r < 0 || rc == d[j]);
  ENSURE("remove_by/first", !(k < on && (r < 0 || k < (unsigned) r)) || g_differs);
  ENSURE("remove_by/before-kept", !(k < on && (r < 0 || k < (unsigned) r)) || AT(l, k, j) == oc);
  ENSURE("remove_by/after-moved", !(k < on && r >= 0 && k > (unsigned) r) || AT(l, k - 1, j) == oc);
}
