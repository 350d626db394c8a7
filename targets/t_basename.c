// Path-without-extension rule: the extension of the last path component is cut, nothing else.
//@ entry: p_basename props=C31 functions=_basename_value native=n_basename link=* forked unwind=2
//@ entry: n_basename mode=native forked link=* props=C31 functions=_basename_value,node_basename_setup nlimit=60 cost=9 N=4 NT=5
//@ assume: strrchr returns the last occurrence of a character of the string (C library)
//@ assume: node_value, node_find_parent_foreach, xstr_cat and xstr_cat2 are used through their contracts
#ifdef VF_CBMC
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "script.h"
#include "xstr.h"
static struct node A, B, N;
static char *g_val, *g_ext, *g_out; static size_t g_n, g_dot, g_slash, g_cut; static int g_has_dot, g_has_slash, g_fe, g_calls, g_whole, g_sfx, g_isnull;
static struct node_foreach *g_fep;
static char *vf_strrchr(const char *s, int c) {
  ENSURE("searched-in-the-value", s == g_val && (c == '.' || c == '/'));
  return c == '.' ? (g_has_dot ? g_val + g_dot : 0) : (g_has_slash ? g_val + g_slash : 0);
}
void node_fatal(int rc, struct node *n, const char *fmt, ...) {
  ENSURE("basename/fatal-only-without-a-value", g_isnull || !N.child);
  VF_END(); while (1);
}
const char* node_value(struct node *n) {
  ENSURE("basename/of-its-arguments", n == &A || n == &B);
  return n == &A ? (g_isnull ? 0 : g_val) : g_ext;
}
struct node_foreach* node_find_parent_foreach(struct node *n) { return g_fe ? (struct node_foreach*) &B : 0; }
static char g_xs[8];
struct xstr* xstr_create_empty(void) { ENSURE("one-result", g_calls++ == 0); return (struct xstr*) g_xs; }
void xstr_cat2(struct xstr *x, const void *buf, size_t n) {
  ENSURE("basename/text-before-the-extension", buf == g_val && !g_whole && !g_sfx);
  g_whole = 1; g_cut = n;
}
void xstr_cat(struct xstr *x, const char *buf) {
  if (buf == g_val) { ENSURE("basename/value-first", !g_whole && !g_sfx); g_whole = 1; g_cut = g_n; }
  else { ENSURE("basename/replacement-extension-last", buf == g_ext && g_whole && !g_sfx); g_sfx = 1; }
 
}
char* xstr_destroy_keep_ptr(struct xstr *x) { ENSURE("kept", x == (struct xstr*) g_xs); return g_out; }
#define strrchr vf_strrchr
#include "node_basename.c"
void p_basename(void) {
  VF_START();
  g_val = vf_cstr(VF_N, &g_n, 0);
  g_dot = nd_size("dot"); g_slash = nd_size("slash");
  g_has_dot = nd_bool("has-dot"); g_has_slash = nd_bool("has-slash");
  ASSUME(!g_has_dot || (g_dot < g_n && g_val[g_dot] == '.'));
  ASSUME(!g_has_slash || (g_slash < g_n && g_val[g_slash] == '/'));
  char e[2]; e[0] = 'x'; e[1] = 0;
  char *out = malloc(2), *old = malloc(2);
  ASSUME(out && old);
  g_out = out;
  int two = nd_bool("two"), one = nd_bool("one"), cached = nd_bool("cached");
  g_ext = nd_bool("ext") ? (char*) e : 0;
  g_isnull = nd_bool("null"); g_fe = nd_bool("foreach");
  g_calls = g_whole = g_sfx = 0;
  N.child = one ? &A : 0; A.next = two ? &B : 0;
  N.impl = cached ? old : 0;
  const char *r = _basename_value(&N);
  REACH("basename");
  if (cached && !g_fe) {
    ENSURE("basename/same-result-again", r == old && !g_calls);
  } else {
    ENSURE("basename/result", r == g_out && N.impl == g_out && g_calls == 1);
    /* the dot belongs to the last component only after the last separator */
    ENSURE("basename/cut-at-the-last-dot-of-the-last-component",
           g_whole && g_cut == (g_has_dot && (!g_has_slash || g_dot > g_slash) ? g_dot : g_n));
    ENSURE("basename/replacement-extension", g_sfx == (two && g_ext != 0));
  }
}
#else
#include "vf_rule.h"
void n_basename(void) {
  static const char al[] = { 'a', '.', '/' };
  char w[16]; int n = 0;
  vs_len = 0;
  int len = nd_range("len", 1, VF_N);
  for (; n < len; ++n) w[n] = al[nd_range("c", 0, 2)];
  w[n] = 0;
  int ext = nd_range("ext", 0, 3), form = nd_bool("twice");
  static const char *E[] = { "", "", ".o", "x.y" };
  /* reference, written from the documentation: the extension starts at the last dot of the last path component */
  char want[32]; strcpy(want, w);
  for (int i = n - 1; i >= 0 && w[i] != '/'; --i) if (w[i] == '.') { want[i] = 0; break; }
  strcat(want, E[ext]);
  int var = nd_bool("through-a-variable");
  if (var && w[0] == '.' && w[1] == '.') vf_end(); /* two leading dots spread a list */
  if (var) vs("set { IN '%s' }\nset { V %%{ ${IN} %s } }\n", w, ext == 1 ? "''" : E[ext]);
  else vs("set { V %%{ '%s' %s } }\n", w, ext == 1 ? "''" : E[ext]);
  struct sctx *s = vs_open();
  node_init(s->root);
  const char *v = node_env_get(s->root, "V");
  ENSURE("basename/value", v && !strcmp(v, want));
  if (form) { v = node_env_get(s->root, "V"); ENSURE("basename/value-again", v && !strcmp(v, want)); }
}
#endif
