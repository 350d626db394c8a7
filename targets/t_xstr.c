// String builder (xstr): every operation against the abstract byte sequence it holds.
//@ entry: h_cat2 defs=VF_OPAQUE props=C19 functions=xstr_cat2 unwind=2 bunwind=3 N=40
//@ entry: h_cat defs=VF_OPAQUE props=C19 functions=xstr_cat unwind=2 bunwind=3 N=40
//@ entry: h_unshift defs=VF_OPAQUE props=C19 functions=xstr_unshift unwind=2 bunwind=3 N=40
//@ entry: h_insert defs=VF_OPAQUE props=C19 functions=xstr_insert unwind=2 bunwind=3 N=40
//@ entry: h_shift defs=VF_OPAQUE props=C19 functions=xstr_shift,xstr_pop,xstr_clear unwind=2 bunwind=3 N=40
//@ entry: h_create defs=VF_OPAQUE props=C19 functions=xstr_create,xstr_create_empty,xstr_ptr,xstr_size,xstr_destroy,xstr_destroy_keep_ptr unwind=2 bunwind=3 N=40
//@ assume: malloc/realloc never fail (xmalloc/xrealloc abort instead); buffers stay below 1 GiB
//@ assume: libc memcpy/memmove/realloc behave as CBMC's library models; strlen as its contract (first NUL)
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "xstr.c"

static struct xstr* mk(void) {
  struct xstr *x = malloc(sizeof(*x));
  size_t asize = nd_size("asize"), size = nd_size("size");
  ASSUME(asize >= 1 && asize <= VF_LIM(VF_BIG, VF_N + 1) && size < asize);
  x->ptr = vf_bytes(asize);
  x->asize = asize;
  x->size = size;
  x->ptr[size] = '\0';
  return x;
}

#define INV(x, id) \
  ENSURE(id "/size<capacity", (x)->size < (x)->asize); \
  ENSURE(id "/capacity-is-allocated", VF_ROOM((x)->ptr, (x)->asize)); \
  ENSURE(id "/nul-terminated", (x)->ptr[(x)->size] == '\0')

void h_cat2(void) {
  VF_START();
  struct xstr *x = mk();
  size_t n = nd_size("n"), k = nd_size("k"), osz = x->size;
  ASSUME(n <= VF_LIM(VF_BIG, VF_N));
  char *b = vf_bytes(n);
  char oc = k < osz ? x->ptr[k] : 0, nc = k < n ? b[k] : 0;
  REACH("cat2");
  VF_WITNESS(k, k, k);
  VF_RWITNESS(k, k, k);
  xstr_cat2(x, b, n);
  INV(x, "cat2");
  ENSURE("cat2/length", x->size == osz + n);
  ENSURE("cat2/prefix-kept", !(k < osz) || x->ptr[k] == oc);
  ENSURE("cat2/appended", !(k < n) || x->ptr[osz + k] == nc);
}

void h_cat(void) {
  VF_START();
  struct xstr *x = mk();
  size_t n, k = nd_size("k"), osz = x->size;
  char *b = vf_cstr(VF_N, &n, k);
  size_t len = n;
  char oc = k < osz ? x->ptr[k] : 0, nc = k < len ? b[k] : 0;
  REACH("cat");
  VF_WITNESS(k, k, k);
  VF_RWITNESS(k, k, k);
  xstr_cat(x, b);
  INV(x, "cat");
  ENSURE("cat/length", x->size == osz + len);
  ENSURE("cat/prefix-kept", !(k < osz) || x->ptr[k] == oc);
  ENSURE("cat/appended", !(k < len) || x->ptr[osz + k] == nc);
}

void h_unshift(void) {
  VF_START();
  struct xstr *x = mk();
  size_t n = nd_size("n"), k = nd_size("k"), osz = x->size;
  ASSUME(n <= VF_LIM(VF_BIG, VF_N));
  char *b = vf_bytes(n);
  char oc = k < osz ? x->ptr[k] : 0, nc = k < n ? b[k] : 0;
  REACH("unshift");
  VF_WITNESS(k, k, k);
  VF_RWITNESS(k, k, k);
  xstr_unshift(x, b, n);
  INV(x, "unshift");
  ENSURE("unshift/length", x->size == osz + n);
  ENSURE("unshift/prepended", !(k < n) || x->ptr[k] == nc);
  ENSURE("unshift/tail-kept", !(k < osz) || x->ptr[n + k] == oc);
}

void h_insert(void) {
  VF_START();
  struct xstr *x = mk();
  size_t n, pos = nd_size("pos"), k = nd_size("k"), osz = x->size;
  char *b = vf_cstr(VF_N, &n, k);
  size_t len = n;
  char oc = k < osz ? x->ptr[k] : 0, nc = k < len ? b[k] : 0;
  REACH("insert");
  VF_WITNESS(k, k - pos, osz - pos);
  VF_RWITNESS(k, osz, k);
  xstr_insert(x, pos, b);
  INV(x, "insert");
  if (pos > osz) {
    ENSURE("insert/out-of-range-ignored", x->size == osz && (!(k < osz) || x->ptr[k] == oc));
  } else {
    REACH("insert/in-range");
    ENSURE("insert/length", x->size == osz + len);
    ENSURE("insert/head-kept", !(k < pos && k < osz) || x->ptr[k] == oc);
    ENSURE("insert/inserted", !(k < len) || x->ptr[pos + k] == nc);
    ENSURE("insert/tail-kept", !(k >= pos && k < osz) || x->ptr[k + len] == oc);
  }
}

void h_shift(void) {
  VF_START();
  struct xstr *x = mk();
  size_t n = nd_size("n"), k = nd_size("k"), osz = x->size;
  size_t m = n < osz ? n : osz;
  int op = nd_int("op");
  char oc = k < osz ? x->ptr[k] : 0;
  REACH("shift");
  VF_WITNESS(k - m, k, k);
  if (op == 0) {
    xstr_shift(x, n);
    INV(x, "shift");
    ENSURE("shift/length", x->size == osz - m);
    ENSURE("shift/rest", !(k >= m && k < osz) || x->ptr[k - m] == oc);
  } else if (op == 1) {
    xstr_pop(x, n);
    INV(x, "pop");
    ENSURE("pop/length", x->size == osz - m);
    ENSURE("pop/rest", !(k < osz - m) || x->ptr[k] == oc);
  } else {
    struct xstr *r = xstr_clear(x);
    INV(x, "clear");
    ENSURE("clear/empty", r == x && x->size == 0);
  }
}

void h_create(void) {
  VF_START();
  size_t n = nd_size("n");
  ASSUME(n <= VF_LIM(VF_BIG, VF_N));
  struct xstr *x = nd_bool("e") ? xstr_create_empty() : xstr_create(n);
  REACH("create");
  INV(x, "create");
  ENSURE("create/empty", xstr_size(x) == 0 && xstr_ptr(x) == x->ptr);
  if (nd_bool("keep")) {
    char *p = x->ptr;
    char *r = xstr_destroy_keep_ptr(x);
    ENSURE("keep/buffer-survives", r == p && r[0] == '\0');
    ENSURE("keep/null", xstr_destroy_keep_ptr(0) == 0);
  } else {
    xstr_destroy(x);
    xstr_destroy(0);
  }
}
