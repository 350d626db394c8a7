// Script text: comments, words, escapes and the tree of rules built from them.
//@ entry: p_pre props=C27 functions=_preprocess_script native=n_script link=* forked unwind=2
//@ loop: script.c _preprocess_script 0 p_pre
//@   __CPROVER_assigns(p, w, comment, eol, __CPROVER_object_whole(nv))
//@   __CPROVER_loop_invariant(__CPROVER_same_object(p, g_t) && OFS(p) <= g_n && __CPROVER_same_object(w, nv) && OFS(w) <= OFS(p))
//@   __CPROVER_loop_invariant(OFS(p) != 0 || eol)
//@ loop: script.c _preprocess_script 1 p_pre
//@   __CPROVER_assigns(sp)
//@   __CPROVER_loop_invariant(__CPROVER_same_object(sp, g_t) && OFS(sp) <= g_n && OFS(sp) >= OFS(p))
//@   __CPROVER_loop_invariant(g_k < OFS(p) || g_k >= OFS(sp) || (g_t[g_k] != '\n' && SPC(g_t[g_k])))
//@ entry: b_pre mode=bounded props=C27 functions=_preprocess_script native=n_script link=* forked bunwind=10 N=8
//@ entry: b_esc mode=bounded props=C27 functions=_text_escaped native=n_script link=* forked bunwind=10 N=8
//@ entry: p_input props=C27 functions=_input native=n_long link=* forked unwind=2
//@ loop: script.c _input 0 p_input
//@   __CPROVER_assigns(cnt, g_xp.pos, __CPROVER_object_whole(g_out))
//@   __CPROVER_loop_invariant(cnt >= 0 && cnt <= max_size && g_xp.pos == g_pos0 + cnt && (size_t) g_xp.pos <= g_n)
//@   __CPROVER_loop_invariant(g_j >= cnt || g_out[g_j] == g_t[g_pos0 + g_j])
//@ entry: p_err defs=E_p_err props=C27 functions=_yyerror native=n_long link=* forked unwind=2
//@ loop: script.c _yyerror 0 p_err
//@   __CPROVER_assigns(g_yy.__pos, __CPROVER_object_whole(buf))
//@   __CPROVER_loop_invariant(g_yy.__pos >= 0 && g_yy.__pos <= g_yy.__limit && buf[1] == 0)
//@ entry: p_text defs=E_p_text props=C27 functions=_node_text,_node_text_push,_node_text_escaped_push,_push_and_register,_node_register native=n_script link=* forked rename=script.c:_text_escaped unwind=2
//@ entry: p_rule defs=E_p_rule props=C27 functions=_rule,_finish native=n_script link=* forked rename=script.c:_rule_type unwind=2
//@ loop: script.c _rule 0 p_rule
//@   __CPROVER_assigns(xp->stack.num, key->base.child, g_i.base.next, g_i.base.parent, g_i1.base.next, g_i1.base.parent, g_o.base.next, g_o.base.parent)
//@   __CPROVER_loop_invariant(s->num > g_key && s->num <= g_num && key->base.child == AT(s->num))
//@   __CPROVER_loop_invariant(g_w < s->num || g_w >= g_num || (g_i.base.next == AT(g_w + 1) && g_i.base.parent == &key->base))
//@ loop: script.c _finish 0 p_rule
//@   __CPROVER_assigns(xp->stack.num, root->base.child, g_i.base.next, g_i.base.parent, g_i1.base.next, g_i1.base.parent, g_o.base.next, g_o.base.parent)
//@   __CPROVER_loop_invariant(s->num <= g_num && root->base.child == AT(s->num))
//@   __CPROVER_loop_invariant(g_w < s->num || g_w >= g_num || (g_i.base.next == AT(g_w + 1) && g_i.base.parent == &root->base))
//@ entry: n_script mode=native forked=60 link=* props=C27 functions=script_open,_preprocess_script,_text_escaped,_rule,_finish,_node_text,_input nlimit=90 cost=16 defs=SPLIT=2 N=5 NT=6
//@ entry: n_tokens mode=native forked=60 link=* props=C27 functions=script_open,_preprocess_script,_text_escaped,_rule,_finish,_node_text nlimit=90 cost=16 defs=SPLIT=2 N=4 NT=5
//@ entry: n_long mode=native forked=60 link=* props=C27 functions=script_open,_yyerror,_input,_node_text_escaped_push nlimit=60 defs=SPLIT=1
//@ entry: n_types mode=native forked=60 link=* props=C27 functions=_rule_type,_rule nlimit=30 defs=SPLIT=1
//@ assume: the parser generated by leg from scriptx.leg follows the grammar (checked by enumeration of script texts)
//@ assume: scripts contain no NUL byte and are at most 1 MiB; ulist, pool and xstr functions are used through their contracts
#ifdef VF_CBMC
#define OFS(p) ((unsigned long) __CPROVER_POINTER_OFFSET(p))
#define SPC(c) ((c) == 32 || ((c) >= 9 && (c) <= 13))
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "script_impl.h"
#define _AMALGAMATE_ /* included above */
static char *g_t, *g_out; static size_t g_n, g_k; static int g_pos0, g_j;
static struct xparse g_xp; static yycontext g_yy; static struct xnode g_x, g_i, g_i1, g_o; static struct sctx g_ctx;
static unsigned g_key, g_num, g_w;
#define AT(j) ((j) >= g_num ? (struct node*) 0 : (j) == g_w ? &g_i.base : (j) == g_w + 1 ? &g_i1.base : &g_o.base)
static int g_stage, g_pushes; static void *g_new; static const char *g_text, *g_dup;
static char* _text_escaped(char *wp, const char *rp);
static unsigned _rule_type(const char *key, unsigned *flags);
void* xmalloc(size_t size) { void *p = malloc(size); ASSUME(p); return p; }
#include "script.c"
#if defined(E_p_text)
static char* _text_escaped(char *wp, const char *rp) {
  ENSURE("text/escapes-of-the-word", rp == g_t && VF_ROOM(wp, g_n + 1));
  g_text = wp; return wp;
}
#endif
#if defined(E_p_rule)
static unsigned _rule_type(const char *key, unsigned *flags) { ENSURE("rule/type-of-its-key", key == g_t); *flags = g_j ? NODE_FLG_NEGATE : 0; return 77; }
void* ulist_peek(const struct ulist *l) {
  static struct xnode *p;
  ENSURE("rule/own-stack", l == &g_xp.stack && l->num > 0);
  p = l->num - 1 == g_key && g_stage == 1 ? &g_x : (struct xnode*) AT(l->num - 1);
  return &p;
}
void ulist_pop(struct ulist *l) { ENSURE("rule/own-stack", l == &g_xp.stack && l->num > 0); --l->num; }
#endif
#if defined(E_p_text)
void* pool_calloc(struct pool *pool, size_t n) { ENSURE("text/one-node", g_new == 0 && n == sizeof(struct xnode)); g_new = &g_o; memset(&g_o, 0, sizeof(g_o)); return g_new; }
char* pool_strdup(struct pool *pool, const char *s) { ENSURE("text/word-kept", s == (g_stage == 2 ? g_text : g_t)); return (char*) g_dup; }
void ulist_push(struct ulist *l, const void *d) {
  ENSURE("text/pushed", *(void**) d == (void*) &g_o);
  if (g_pushes == 0) ENSURE("text/on-the-stack", l == &g_xp.stack);
  else { ENSURE("text/registered", l == &g_ctx.nodes && g_pushes == 1 && g_o.base.index == g_ctx.nodes.num); }
  ++g_pushes;
}
#endif
#if defined(E_p_err)
static char g_xs[8];
void xstr_cat(struct xstr *x, const char *s) { ENSURE("err/own-text", x == (struct xstr*) g_xs && __CPROVER_r_ok(s, 1)); }
void xstr_cat2(struct xstr *x, const void *s, size_t n) { ENSURE("err/one-char", x == (struct xstr*) g_xs && n == 1 && *(const char*) s == g_yy.__buf[g_yy.__pos - 1]); }
#endif
static int spc(char c) { return c == 32 || (c >= 9 && c <= 13); }
static void pre(void) {
  VF_START();
  g_t = vf_cstr(VF_N, &g_n, 0);
  g_k = nd_size("k"); ASSUME(g_k < g_n + 1);
  struct value v; v.buf = g_t; v.len = g_n; v.error = 0;
#ifdef VF_PROOF
  _preprocess_script(&v);
  REACH("pre");
  ENSURE("pre/within-its-text", v.len <= g_n && v.buf != 0 && v.buf != (void*) g_t && ((char*) v.buf)[v.len] == 0 && v.error == 0);
#else
  char want[VF_N + 1], copy[VF_N + 1]; size_t w = 0;
  for (size_t i = 0; i <= g_n; ++i) copy[i] = g_t[i];
  for (size_t i = 0, c = 0; i < g_n; ++i) {
    if (i == 0 || copy[i - 1] == '\n') { size_t f = i; while (copy[f] && copy[f] != '\n' && spc(copy[f])) ++f; c = copy[f] == '#'; }
    if (copy[i] == '\n' || !c) want[w++] = copy[i];
  }
  _preprocess_script(&v);
  REACH("pre");
  ENSURE("pre/length", v.len == w);
  for (size_t i = 0; i < w; ++i) ENSURE("pre/comment-lines-only", ((char*) v.buf)[i] == want[i]);
  ENSURE("pre/end", ((char*) v.buf)[w] == 0);
#endif
}
void p_pre(void) { pre(); }
void b_pre(void) { pre(); }
static void esc(void) {
  VF_START();
  g_t = vf_cstr(VF_N, &g_n, 0); ASSUME(g_n <= (1 << 20));
  g_out = malloc(g_n + 1); ASSUME(g_out);
  char *r = _text_escaped(g_out, g_t);
  REACH("esc");
  ENSURE("esc/result", r == g_out);
#ifndef VF_PROOF
  size_t w = 0;
  for (size_t i = 0; i < g_n; ++i) {
    char c = g_t[i];
    if (c == '\\') { c = g_t[++i]; if (i == g_n) break; c = c == 'n' ? '\n' : c == 'r' ? '\r' : c == 't' ? '\t' : c; }
    ENSURE("esc/decoded", g_out[w] == c);
    ++w;
  }
  ENSURE("esc/end", g_out[w] == 0);
#endif
}
void b_esc(void) { esc(); }
void p_input(void) {
  VF_START();
  g_n = nd_size("n"); ASSUME(g_n <= (1 << 20));
  g_t = vf_bytes(g_n);
  int max = nd_range("max", 1, 1 << 22);
  g_out = malloc(max); ASSUME(g_out);
  g_pos0 = nd_range("pos", 0, g_n);
  g_xp.val.buf = g_t; g_xp.val.len = g_n; g_xp.pos = g_pos0; g_x.xp = &g_xp; g_yy.x = &g_x;
  g_j = nd_range("j", 0, 1 << 22); ASSUME(g_j < max && (size_t) (g_pos0 + g_j) < g_n);
  int r = _input(&g_yy, g_out, max);
  REACH("input");
  ENSURE("input/all-that-fits", r == ((size_t) max < g_n - g_pos0 ? max : (int) (g_n - g_pos0)) && g_xp.pos == g_pos0 + r);
  ENSURE("input/bytes-unchanged", g_out[g_j] == g_t[g_pos0 + g_j]);
}
#ifdef E_p_err
void p_err(void) {
  VF_START();
  int cap = nd_range("cap", 1, 1 << 22);
  g_yy.__buf = malloc(cap); ASSUME(g_yy.__buf);
  g_yy.__limit = nd_range("limit", 0, cap); g_yy.__pos = nd_range("pos", 0, g_yy.__limit); g_yy.__buflen = cap;
  g_yy.__text = vf_cstr(VF_N, &g_n, 0);
  g_xp.xerr = (struct xstr*) g_xs; g_x.xp = &g_xp; g_yy.x = &g_x;
  _yyerror(&g_yy);
  REACH("err");
  ENSURE("err/rest-of-the-script", g_yy.__pos == g_yy.__limit);
}
#endif
#ifdef E_p_text
void p_text(void) {
  VF_START();
  g_t = vf_cstr(VF_N, &g_n, 0); ASSUME(g_n <= (1 << 20));
  char *d = malloc(2); ASSUME(d); g_dup = d; g_new = 0; g_pushes = 0; g_text = 0;
  g_x.xp = &g_xp; g_x.base.ctx = &g_ctx; g_yy.x = &g_x; g_x.lnum = nd_range("line", 0, 1 << 20);
  g_ctx.nodes.num = nd_range("nodes", 0, 1 << 20);
  g_stage = nd_range("escaped", 1, 2);
  struct xnode *x = g_stage == 2 ? _node_text_escaped_push(&g_yy, g_t) : _node_text_push(&g_yy, g_t);
  REACH("text");
  ENSURE("text/value", x == &g_o && x->base.value == g_dup && x->base.type == NODE_TYPE_VALUE && x->base.ctx == &g_ctx && x->base.child == 0 && x->base.next == 0);
  ENSURE("text/pushed-once", g_pushes == 2);
}
#endif
#ifdef E_p_rule
void p_rule(void) {
  VF_START();
  g_stage = nd_range("stage", 1, 2); g_t = malloc(1); ASSUME(g_t); g_j = nd_bool("negated");
  g_num = nd_range("num", g_stage == 1 ? 1 : 0, 1 << 20); g_xp.stack.num = g_num;
  g_key = g_stage == 1 ? nd_range("key", 0, g_num - 1) : 0;
  g_w = nd_range("w", 0, 1 << 20); ASSUME(g_stage == 2 || g_w > g_key);
  g_x.base.child = 0; g_x.base.value = g_t; g_x.base.flags = 0; g_x.xp = &g_xp;
  struct xnode root; root.xp = &g_xp;
  root.base.child = 0;
  if (g_stage == 1) {
    g_yy.x = &root;
    struct xnode *r = _rule(&g_yy, &g_x);
    REACH("rule");
    ENSURE("rule/stays-on-the-stack", r == &g_x && g_xp.stack.num == g_key + 1);
    ENSURE("rule/type", g_x.base.type == 77 && g_x.base.flags == (g_j ? NODE_FLG_NEGATE : 0));
    ENSURE("rule/first-item", g_x.base.child == AT(g_key + 1));
    if (g_w < g_num) ENSURE("rule/items-in-order", g_i.base.next == AT(g_w + 1) && g_i.base.parent == &g_x.base);
  } else {
    g_yy.x = &g_x;
    _finish(&g_yy);
    REACH("finish");
    ENSURE("finish/all-taken", g_xp.stack.num == 0 && g_x.base.child == AT(0));
    if (g_w < g_num) ENSURE("finish/items-in-order", g_i.base.next == AT(g_w + 1) && g_i.base.parent == &g_x.base);
  }
}
#endif
#else
#include "vf_rule.h"
#include <sys/wait.h>
/* ---- the script grammar of scriptx.leg, read anew ---- */
static char T[1 << 19]; static int tn, tp;
struct on { char *v; int len, rule, first, next; };
static struct on on[40000]; static int non;
static char ob[1 << 18]; static int obn;
static int sp1(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static void blank(void) { while (tp < tn && sp1(T[tp])) ++tp; }
static void comments(const char *s, int n) {
  tn = 0;
  for (int i = 0; i < n; ) {
    int e = i; while (e < n && s[e] != '\n') ++e;
    int f = i; while (f < e && (s[f] == ' ' || (s[f] >= 9 && s[f] <= 13))) ++f;
    if (!(f < e && s[f] == '#')) { memcpy(T + tn, s + i, e - i); tn += e - i; }
    if (e < n) T[tn++] = '\n';
    i = e + 1;
  }
}
static int item(int rule) { struct on *o = on + non; o->rule = rule; o->first = o->next = -1; o->v = ob + obn; o->len = 0; return non++; }
static void put(int i, char c) { ob[obn++] = c; on[i].len++; }
static int word(void) { /* -1: none */
  int s = tp, i = -1;
  while (tp < tn) {
    char c = T[tp];
    if (c == '\\') {
      if (tp + 1 >= tn || !strchr("{}\\nrt", T[tp + 1])) break;
      c = T[tp + 1];
      if (i < 0) i = item(0);
      put(i, c == 'n' ? '\n' : c == 'r' ? '\r' : c == 't' ? '\t' : c);
      tp += 2; continue;
    }
    if (c == '{' || c == '}' || sp1(c)) break;
    if (i < 0) i = item(0);
    put(i, c); ++tp;
  }
  return tp > s ? i : -1;
}
static int quoted(char q) {
  if (tp >= tn || T[tp] != q) return -1;
  int e = tp + 1; while (e < tn && T[e] != q) ++e;
  if (e >= tn) return -1;
  int i = item(0);
  for (int k = tp + 1; k < e; ++k) put(i, T[k]);
  tp = e + 1;
  return i;
}
static int value(void);
static int rule(void) {
  int s = tp, n0 = non, b0 = obn, i = word();
  if (i >= 0) {
    blank();
    if (tp < tn && T[tp] == '{') {
      ++tp; blank();
      on[i].rule = 1;
      int last = -1, v = value();
      while (v >= 0) {
        if (last < 0) on[i].first = v; else on[last].next = v;
        last = v;
        int q = tp, nn = non, bb = obn; blank();
        v = tp > q ? value() : -1;
        if (v < 0) { tp = q; non = nn; obn = bb; }
      }
      blank();
      if (tp < tn && T[tp] == '}') { ++tp; return i; }
    }
  }
  tp = s; non = n0; obn = b0;
  return -1;
}
static int value(void) {
  int i = quoted('\''); if (i >= 0) return i;
  i = quoted('"'); if (i >= 0) return i;
  i = rule(); if (i >= 0) return i;
  int s = tp, n0 = non, b0 = obn; i = word();
  if (i < 0) { tp = s; non = n0; obn = b0; }
  return i;
}
static int script(const char *s, int n, int *first) { /* 0: not a script */
  comments(s, n); tp = non = obn = 0; *first = -1;
  int last = -1;
  for (;;) {
    blank();
    int i = rule();
    if (i < 0) break;
    if (last < 0) *first = i; else on[last].next = i;
    last = i;
  }
  blank();
  return tp == tn;
}
static int same(struct node *n, int i, struct node *parent) {
  for (; n && i >= 0; n = n->next, i = on[i].next) {
    if (n->parent != parent || (int) strlen(n->value) != on[i].len || memcmp(n->value, on[i].v, on[i].len)) return 0;
    if ((n->type == NODE_TYPE_VALUE) != !on[i].rule) return 0;
    if (!same(n->child, on[i].first, n)) return 0;
  }
  return !n && i < 0;
}
static const char *shown; static int shown_n;
static void fail(const char *id) { if (getenv("VF_SHOW")) { fprintf(stderr, "<<"); fwrite(shown, 1, shown_n, stderr); fprintf(stderr, ">>\n"); } vf_violation(id); }
static void check_text(const char *s, int n) {
  shown = s; shown_n = n;
  vs_file("Autark", s, n);
  struct sctx *c = 0; int first, ok = script(s, n, &first), rc = script_open("Autark", &c);
  if ((rc == 0) != ok) fail(ok ? "a-script-is-read" : "not-a-script-is-refused");
  if (ok) { if (!same(c->root->child, first, c->root)) fail("script-text-reaches-rules-literally"); script_close(&c); }
  if (unit_root()) unit_root()->n = 0;
}
static void quiet(void) { if (!getenv("VF_SHOW") && !freopen("/dev/null", "w", stdout)) _exit(3); }
static const char alpha[] = "a \n#{}'\"\\n\r$";
static char tx[64];
static void all(int pos, int max) {
  check_text(tx, pos);
  if (memchr(tx, '#', pos)) { /* also as a quoted word */
    char q[80]; memcpy(q, "a{'", 3); memcpy(q + 3, tx, pos); memcpy(q + 3 + pos, "'}", 2);
    check_text(q, pos + 5);
  }
  if (pos < max) for (unsigned i = 0; i < sizeof(alpha) - 1; ++i) { tx[pos] = alpha[i]; all(pos + 1, max); }
}
void n_script(void) {
  for (int i = 0; i < 3; ++i) tx[i] = alpha[nd_range("char", 0, sizeof(alpha) - 2)];
  all(3, VF_N);
  if (!memcmp(tx, "aaa", 3)) { all(0, 2); }
}
static const char *tok[] = { "a", " ", "\n", "b{", "}", "'", "\"", "\\n", "\\{", "\n# c '\n", "\n \t\n\v#{\n", "x#y", "..!$ {", "\\", "é%", "\t" };
static void all_t(int pos, int k, int max) {
  check_text(tx, pos);
  if (k < max) for (unsigned i = 0; i < sizeof(tok) / sizeof(*tok); ++i) { int l = strlen(tok[i]); memcpy(tx + pos, tok[i], l); all_t(pos + l, k + 1, max); }
}
void n_tokens(void) {
  int p = 0;
  for (int i = 0; i < 2; ++i) { const char *t = tok[nd_range("token", 0, sizeof(tok) / sizeof(*tok) - 1)]; int l = strlen(t); memcpy(tx + p, t, l); p += l; }
  memcpy(tx + p, "b{", 2); 
  all_t(p, 2, VF_N);
  if (VF_N > 1) { memmove(tx + 2, tx, p); memcpy(tx, "b{", 2); all_t(p + 2, 2, VF_N); }
}
/* sizes around the parser's buffers */
void n_long(void) {
  static const int sizes[] = { 1, 126, 127, 128, 129, 510, 511, 512, 513, 1000, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 20000, 65536 };
  int kind = nd_range("kind", 0, 9), n = sizes[nd_range("size", 0, sizeof(sizes) / sizeof(*sizes) - 1)];
  char *b = malloc(5 * n + 100), *p = b;
  #define S(s) (memcpy(p, s, strlen(s)), p += strlen(s))
  for (int d = -2; d < 3; ++d) {
    int m = n + d; if (m < 1) continue;
    p = b;
    switch (kind) {
      case 0: S("a{"); for (int i = 0; i < m; ++i) *p++ = 'a' + i % 26; S("}"); break;
      case 1: S("a{'"); for (int i = 0; i < m; ++i) *p++ = i % 30 ? 'a' + i % 26 : '\n'; S("' \"b\"}"); break;
      case 2: S("a{"); for (int i = 0; i < m; ++i) S(i % 2 ? "\\n" : "\\{"); S("}"); break;
      case 3: S("a{"); for (int i = 0; i < m && i < 8000; ++i) { S("w "); } S("}"); break;
      case 4: if (m > 3000) m = 3000; for (int i = 0; i < m; ++i) { S("a{"); } for (int i = 0; i < m; ++i) { S("}"); } break;
      case 5: for (int i = 0; i < m - 1; ++i) *p++ = ' '; S("}"); break;                       /* syntax errors */
      case 6: S("a{"); for (int i = 0; i < m - 2; ++i) *p++ = i % 40 ? 'x' : '\n'; break;
      case 7: S("a{'"); for (int i = 0; i < m - 3; ++i) *p++ = 'x'; break;
      case 8: for (int i = 0; i < m && i < 8000; ++i) { S("#c\n"); } S("a{b}"); break;
      default: for (int i = 0; i < m && i < 8000; ++i) { S("a{}"); if (i % 3 == 0) S("\n"); } break;
    }
    check_text(b, p - b);
  }
}
/* every rule of the manual is known by its name, with the marks for spreading and negation */
void n_types(void) {
  static const struct { const char *k; unsigned t; } R[] = {
    { "$", NODE_TYPE_SUBST }, { "@", NODE_TYPE_SUBST }, { "@@", NODE_TYPE_SUBST }, { "^", NODE_TYPE_JOIN }, { "set", NODE_TYPE_SET }, { "env", NODE_TYPE_SET },
    { "let", NODE_TYPE_SET }, { "check", NODE_TYPE_CHECK }, { "include", NODE_TYPE_INCLUDE }, { "if", NODE_TYPE_IF }, { "run", NODE_TYPE_RUN },
    { "run-on-install", NODE_TYPE_RUN }, { "meta", NODE_TYPE_META }, { "cc", NODE_TYPE_CC }, { "cxx", NODE_TYPE_CC }, { "configure", NODE_TYPE_CONFIGURE },
    { "%", NODE_TYPE_BASENAME }, { "foreach", NODE_TYPE_FOREACH }, { "in-sources", NODE_TYPE_IN_SOURCES }, { "S", NODE_TYPE_DIR }, { "C", NODE_TYPE_DIR },
    { "SS", NODE_TYPE_DIR }, { "CC", NODE_TYPE_DIR }, { "option", NODE_TYPE_OPTION }, { "error", NODE_TYPE_ERROR }, { "echo", NODE_TYPE_ECHO },
    { "install", NODE_TYPE_INSTALL }, { "library", NODE_TYPE_FIND }, { "macro", NODE_TYPE_MACRO }, { "call", NODE_TYPE_CALL },
    { "else", NODE_TYPE_BAG }, { "exec", NODE_TYPE_BAG }, { "shell", NODE_TYPE_BAG }, { "produces", NODE_TYPE_BAG }, { "consumes", NODE_TYPE_BAG }, { "eq", NODE_TYPE_BAG },
    { "or", NODE_TYPE_BAG }, { "and", NODE_TYPE_BAG }, { "defined", NODE_TYPE_BAG }, { "prefix", NODE_TYPE_BAG }, { "contains", NODE_TYPE_BAG }, { "objects", NODE_TYPE_BAG },
    { "sets", NODE_TYPE_BAG }, { "se", NODE_TYPE_BAG }, { "SSS", NODE_TYPE_BAG }, { "s", NODE_TYPE_BAG }, { "$$", NODE_TYPE_BAG }, { "!", NODE_TYPE_BAG } };
  static const char *M[] = { "", "..", "!", "..!" };
  int k = nd_range("rule", 0, sizeof(R) / sizeof(*R) - 1), m = nd_range("marks", 0, 3), q = nd_bool("no-items"), w = nd_bool("inside");
  vs("%s%s%s {%s}%s", w ? "top { v " : "", M[m], R[k].k, q ? "" : " a b ", w ? " }" : "");
  struct sctx *c = vs_open();
  struct node *n = c->root->child;
  if (w) n = n->child->next;
  ENSURE("rule-is-known-by-its-name", n && n->type == R[k].t);
  ENSURE("negation-mark", !(n->flags & NODE_FLG_NEGATE) == !(m >= 2) || R[k].k[0] == '!');
  ENSURE("rule-keeps-its-items", q ? !n->child : n->child && !strcmp(n->child->value, "a") && n->child->next && !strcmp(n->child->next->value, "b") && !n->child->next->next);
}
#endif
