// Template configuration: what is substituted, what is copied, what happens when a file cannot be read or written.
//@ entry: p_subs props=C18 functions=_line_replace_subs defs=VF_PS native=n_lines link=* forked unwind=15
//@ loop: node_configure.c _line_replace_subs 0 p_subs
//@   __CPROVER_assigns(s, sp, g_pos, g_at, g_none, g_klen, g_ph, g_end, g_val, g_size, VAL)
//@   __CPROVER_loop_invariant(g_pos >= 0 && g_pos <= g_at && g_at < g_len && !g_none && g_ph == 0 && !g_done && s == line + g_pos && sp == line + g_at && line[g_at] == '@' && (g_w < g_pos || g_w >= g_at || line[g_w] != '@') && xstr == XS && kstr == KS && g_size >= 0 && line[g_len] == 0)
//@ loop: node_configure.c _line_replace_subs 1 p_subs
//@   __CPROVER_assigns(p, s, sp, g_pos, g_at, g_none, g_klen, g_ph, g_end, g_val, g_size, VAL)
//@   __CPROVER_loop_invariant(g_pos >= 0 && g_pos == g_at && g_at < g_len && !g_none && g_ph == 0 && !g_done && g_klen >= 0 && g_klen < g_len - g_pos && s == line + g_pos && sp == 0 && p == line + (g_pos + 1 + g_klen) && (g_w <= g_pos || g_w > g_pos + g_klen || line[g_w] != '@') && xstr == XS && kstr == KS && g_size >= 0 && line[g_pos] == '@' && line[g_len] == 0)
//@ entry: p_def props=C18 functions=_line_replace_def defs=VF_PD native=n_change link=* forked unwind=13
//@ loop: node_configure.c _line_replace_def 0 p_def
//@   __CPROVER_assigns(ep, g_ep, g_where)
//@   __CPROVER_loop_invariant(ep == line + g_ep && g_ep >= 12 && g_ep <= g_a && g_where == 0)
//@ loop: node_configure.c _line_replace_def 1 p_def
//@   __CPROVER_assigns(ep, g_ep, g_where)
//@   __CPROVER_loop_invariant(ep == line + g_ep && g_ep >= g_a && g_ep <= g_b && g_where == 1)
//@ loop: node_configure.c _line_replace_def 2 p_def
//@   __CPROVER_assigns(np, g_ep, g_where)
//@   __CPROVER_loop_invariant(np == line + g_ep && g_ep >= g_b && g_ep <= g_c && (g_where == 2 || g_b == g_len))
//@ entry: p_file props=C18 functions=_process_file defs=VF_PF rename=node_configure.c:_line_replace_def,node_configure.c:_line_replace_subs native=n_files link=* forked unwind=13
//@ loop: node_configure.c _process_file 0 p_file
//@   __CPROVER_assigns(line, line_size, g_st, g_isdef, g_new, g_fatal_ok, g_eof, g_rerr, g_lines)
//@   __CPROVER_loop_invariant(LINE_DONE && !g_eof && !g_rerr && f == FS && (g_write ? t == FT : t == 0) && (line == 0 || line == g_line) && g_lines >= 0)
//@ entry: n_lines mode=native forked=60 link=* props=C18 functions=_configure_on_resolve,_process_file,_line_replace_subs,_line_replace_def,_setup_item nlimit=60 cost=10 N=6 NT=7
//@ entry: n_files mode=native forked=60 link=* props=C18 functions=_configure_on_resolve,_process_file,_line_replace_subs,_line_replace_def,_configure_setup nlimit=60 cost=10 N=3 NT=4
//@ entry: n_change mode=native forked=60 link=* props=C18 functions=_configure_on_resolve,_process_file,_line_replace_subs,_line_replace_def nlimit=60 cost=10 N=2 NT=3
//@ assume: templates contain no NUL byte; list values are not used in definition directives, values there contain no line end
#ifdef VF_CBMC
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "script.h"
#include "env.h"
#include "pool.h"
#include "paths.h"
#include "utils.h"
#include "xstr.h"
#include "ulist.h"
#include "alloc.h"
#include "deps.h"
#include <stdio.h>
#include <errno.h>
#include <sys/stat.h>
/* only the addresses matter; small objects keep the solver fast */
static char g_nvb[2], g_dvb[2];
#define NVP ((struct node*) &g_nvb[0])
#define DVP ((struct deps*) &g_dvb[0])
static char *g_line; static int g_len;
#ifdef VF_PF
static int g_fatal_ok;
void node_fatal(int rc, struct node *n, const char *fmt, ...) { ENSURE("file/fails-only-for-a-reason", g_fatal_ok); VF_END(); while (1); }
#else
void node_fatal(int rc, struct node *n, const char *fmt, ...) { ENSURE("line/no-error", 0); VF_END(); while (1); }
#endif
#ifdef VF_PS
/* the line: g_len characters; all before g_pos is accounted for; the next '@' is at g_at (or there is none) */
static int g_pos, g_at, g_none, g_klen, g_ph, g_end, g_size, g_done, g_w, g_ncreated, g_kdestroyed;
static char VAL[4]; static char *g_val; static char g_xs[2], g_ks[2], g_kbuf[2], *g_out, g_obuf[1001];
#define XS ((struct xstr*) &g_xs[0])
#define KS ((struct xstr*) &g_ks[0])
#define VLIST (g_val != 0 && VAL[0] == '\1')
#define EMITTED ((g_ph == 2 && (g_val == 0 || VAL[0] == 0)) || (g_ph == 3 && !VLIST) || g_ph == 4)
static char *vf_strchr(const char *s, int c) {
  ENSURE("subs/searches-for-a-marker", c == '@' && (g_ph == 0 || EMITTED));
  if (g_ph) { g_pos = g_end; g_ph = 0; }
  ENSURE("subs/search-goes-on-behind-the-marker", s == g_line + g_pos);
  if (nd_bool("found")) {
    g_none = 0;
    g_at = nd_range("at", g_pos, g_len - 1);
    ASSUME(g_line[g_at] == '@' && (g_w < g_pos || g_w >= g_at || g_line[g_w] != '@'));
    return g_line + g_at;
  }
  g_none = 1;
  ASSUME(g_w < g_pos || g_line[g_w] != '@');
  return 0;
}
#define strchr vf_strchr
struct xstr* xstr_create_empty(void) { return g_ncreated++ ? KS : XS; }
struct xstr* xstr_clear(struct xstr *x) { ENSURE("subs/only-the-name-is-dropped", x == KS); g_klen = 0; return x; }
void xstr_cat2(struct xstr *x, const void *b, size_t n) {
  if (x == XS) {
    ENSURE("subs/text-copied", g_ph == 0 && !g_none && b == g_line + g_pos && n == g_at - g_pos);
    g_pos = g_at;
  } else {
    ENSURE("subs/name-collected", x == KS && g_ph == 0 && g_pos == g_at && n == 1 && b == g_line + (g_pos + 1 + g_klen));
    ++g_klen;
  }
}
char* xstr_ptr(struct xstr *x) { return x == KS ? &g_kbuf[0] : g_out; }
size_t xstr_size(struct xstr *x) { ENSURE("subs/size", x == XS); return g_size; }
const char* node_env_get(struct node *n, const char *key) {
  ENSURE("subs/variable-of-this-rule", n == NVP && key == &g_kbuf[0] && g_ph == 0 && g_pos == g_at);
  g_end = g_pos + 1 + g_klen;
  ENSURE("subs/name-ends-at-the-next-at-sign", g_end < g_len && g_line[g_end] == '@' && (g_w <= g_pos || g_w >= g_end || g_line[g_w] != '@'));
  ++g_end; g_ph = 1;
  VAL[0] = nd_char("v0"); VAL[1] = nd_char("v1"); VAL[2] = nd_char("v2"); VAL[3] = 0;
  return g_val = nd_bool("defined") ? &VAL[0] : (char*) 0;
}
int deps_add_env(struct deps *d, char flags, const char *key, const char *value) {
  ENSURE("subs/variable-tracked", d == DVP && g_ph == 1 && key == &g_kbuf[0] && (g_val ? value == g_val : *value == 0));
  g_ph = 2;
  return 0;
}
void xstr_cat(struct xstr *x, const char *v) {
  ENSURE("subs/appended-to-the-result", x == XS && !g_done);
  if (g_ph == 0) {
    ENSURE("subs/rest-copied", v == g_line + g_pos);
    /* without a closing '@' the scan has ended at the end of the text */
    if (!g_none) { int e = g_pos + 1 + g_klen; ASSUME(e >= g_len || g_line[e] != 0); ENSURE("subs/scan-ends-at-the-end", e == g_len); }
    ENSURE("subs/no-marker-left", g_none || g_w <= g_pos || g_line[g_w] != '@');
    g_done = 1;
  } else {
    ENSURE("subs/value-appended-once", g_ph == 2 && g_val && v == (VLIST ? g_val + 1 : g_val));
    g_ph = 3;
  }
}
static void vf_replace(char *b, char c, char r) { ENSURE("subs/list-items-joined-by-spaces", g_ph == 3 && VLIST && c == '\1' && r == ' ' && b == g_out + g_size); g_ph = 4; }
#define utils_chars_replace vf_replace
void xstr_destroy(struct xstr *x) { ENSURE("subs/name-destroyed", x == KS && !g_kdestroyed); g_kdestroyed = 1; }
char* xstr_destroy_keep_ptr(struct xstr *x) { ENSURE("subs/result", x == XS && g_done); return g_out; }
#include "node_configure.c"
void p_subs(void) {
  VF_START();
  g_len = nd_range("len", 0, 1 << 24);
  g_line = malloc(g_len + 1); g_line[g_len] = 0;
  g_pos = g_at = g_none = g_klen = g_ph = g_end = g_done = g_ncreated = g_kdestroyed = 0; g_val = 0;
  g_size = nd_range("size", 0, 1000); g_out = &g_obuf[0];
  g_w = nd_range("watched", 0, 1 << 24); ASSUME(g_len == 0 || g_w < g_len);
  if (g_len == 0) g_w = 0;
  char *r = _line_replace_subs(NVP, DVP, g_line);
  REACH("subs");
  ENSURE("subs/unchanged-without-marker", r != g_line || (g_none && g_pos == 0 && g_ncreated == 0));
  ENSURE("subs/result-returned", r == g_line || (r == g_out && g_done && g_kdestroyed));
}
#elif defined(VF_PD)
/* the line: "//autarkdef ", spaces up to g_a, the name up to g_b, spaces up to g_c, then the argument up to g_len */
static int g_a, g_b, g_c, g_ep, g_where, g_ph, g_made; static char VAL[4], *g_val; static char g_xs[2], *g_key; static char g_out[2];
#define XS ((struct xstr*) &g_xs[0])
static bool vf_space(const char *p) {
  int i = p - g_line;
  ENSURE("def/looks-behind-the-directive", i >= 12 && i <= g_c);
  ASSUME(i == g_len || *p != 0);
  /* g_ep: where the next round of the loop is expected to look */
  bool sp = i < g_a || (i >= g_b && i < g_c);
  g_ep = i;
  if (g_where == 0) { if (sp) ++g_ep; else g_where = 1; }
  else if (g_where == 1) { if (sp) g_where = 2; else ++g_ep; }
  else if (sp) ++g_ep;
  return sp;
}
#define utils_char_is_space(c) vf_space(&(c))
static char *vf_ncpy(char *d, const char *s, size_t n, size_t sz) {
  int e = (int) (s - g_line) + (int) n;
  ASSUME(g_ep == g_len || g_line[g_ep] != 0); ASSUME(e == g_len || g_line[e] != 0); ASSUME(g_a == g_len || g_line[g_a] != 0);
  ENSURE("def/name", g_ph == 0 && s == g_line + g_a && n == g_b - g_a && sz == 4096);
  g_ph = 1; g_key = d;
  return d;
}
#define utils_strnncpy vf_ncpy
const char* node_env_get(struct node *n, const char *key) {
  ENSURE("def/variable-of-this-rule", n == NVP && key == g_key && g_ph == 1);
  g_ph = 2;
  VAL[0] = nd_char("v0"); VAL[1] = nd_char("v1"); VAL[2] = nd_char("v2"); VAL[3] = 0;
  return g_val = nd_bool("defined") ? &VAL[0] : (char*) 0;
}
int deps_add_env(struct deps *d, char flags, const char *key, const char *value) {
  ENSURE("def/variable-tracked", d == DVP && g_ph == 2 && key == g_key && (g_val ? value == g_val : *value == 0));
  g_ph = 3;
  return 0;
}
struct xstr* xstr_create_empty(void) { return XS; }
#define ARG (g_line[g_c])
#define QUOTED (ARG == '"')
#define NUMBER (ARG >= '0' && ARG <= '9')
#define P(i, c) (fmt[i] == (c))
#define DEFINE (P(0, '#') && P(1, 'd') && P(2, 'e') && P(3, 'f') && P(4, 'i') && P(5, 'n') && P(6, 'e') && P(7, ' ') && P(8, '%') && P(9, 's'))
#define F_ZERO (DEFINE && P(10, ' ') && P(11, '0') && P(12, '\n') && P(13, 0))
#define F_QUOTED (DEFINE && P(10, ' ') && P(11, '"') && P(12, '%') && P(13, 's') && P(14, '"') && P(15, '\n') && P(16, 0))
#define F_NUMBER (DEFINE && P(10, ' ') && P(11, '%') && P(12, 's') && P(13, 0))
#define F_PLAIN (DEFINE && P(10, '\n') && P(11, 0))
static int vf_pr(struct xstr *x, const char *fmt, const char *a, const char *b) {
  ASSUME(g_c == g_len || ARG != 0);
  ENSURE("def/name-printed", x == XS && g_ph == 3 && a == g_key);
  if (!g_val) ENSURE("def/zero-for-an-undefined-number", NUMBER && F_ZERO && b == 0);
  else if (QUOTED) ENSURE("def/quoted-value", F_QUOTED && b == g_val);
  else if (NUMBER) ENSURE("def/number-text-kept", F_NUMBER && b == g_line + g_c);
  else ENSURE("def/plain", F_PLAIN && b == 0);
  g_ph = 4;
  return 0;
}
#define PICK1_(a, ...) a
#define PICK2_(a, b, ...) b
#define xstr_printf(x, fmt, ...) vf_pr(x, fmt, PICK1_(__VA_ARGS__, 0, 0), PICK2_(__VA_ARGS__, 0, 0))
char* xstr_destroy_keep_ptr(struct xstr *x) { ENSURE("def/result", x == XS && g_ph == 4); g_made = 1; return &g_out[0]; }
#include "node_configure.c"
void p_def(void) {
  VF_START();
  g_len = nd_range("len", 12, 1 << 24);
  g_line = malloc(g_len + 1); g_line[g_len] = 0;
  g_a = nd_range("name", 12, 1 << 24); g_b = nd_range("name-end", 12, 1 << 24); g_c = nd_range("arg", 12, 1 << 24);
  ASSUME(g_a <= g_b && g_b <= g_c && g_c <= g_len && (g_b > g_a || (g_a == g_len && g_c == g_len)) && (g_c > g_b || g_b == g_len || g_a == g_b));
  g_ep = 12; g_where = g_ph = g_made = 0; g_val = 0; g_key = 0;
  char *r = _line_replace_def(NVP, DVP, g_line);
  REACH("def");
  ENSURE("def/replaced-when-defined", g_made ? r == &g_out[0] : (r == g_line && g_ph == 3 && !g_val));
  ASSUME(g_c == g_len || ARG != 0);
  ENSURE("def/number-always-replaced", g_made || !NUMBER);
}
#else
/* one template: every line read is replaced by the right function and the result is written once, in order */
static int g_st, g_isdef, g_eof, g_rerr, g_lines, g_write, g_same, g_perm, g_fclosed, g_tclosed, g_renamed, g_cerr, g_stated, g_tmp, g_dirs;
static char *g_new, g_newb[2]; static char g_f[2], g_t[2], g_src[4], g_tgt[4], g_tmpn[2], g_xs[2]; static int g_mode;
static char *g_lbuf;
#define FS ((FILE*) &g_f[0])
#define FT ((FILE*) &g_t[0])
#define XS ((struct xstr*) &g_xs[0])
#define TGT (g_same ? &g_tmpn[0] : &g_tgt[0])
static int vf_strcmp(const char *a, const char *b) { ENSURE("file/names", a == g_src && b == g_tgt); return !g_same; }
#define strcmp vf_strcmp
struct xstr* xstr_create_empty(void) { return XS; }
static int vf_pr(struct xstr *x, const char *fmt, const char *a) { ENSURE("file/temporary-name", x == XS && g_same && a == g_src); g_tmp = 1; return 0; }
#define PICK1_(a, ...) a
#define xstr_printf(x, fmt, ...) vf_pr(x, fmt, PICK1_(__VA_ARGS__, 0))
char* xstr_ptr(struct xstr *x) { return &g_tmpn[0]; }
void xstr_destroy(struct xstr *x) { ENSURE("file/name-in-use", g_renamed); }
int path_mkdirs_for(const char *p) { ENSURE("file/directory", g_write && p == TGT); g_dirs = 1; return 0; }
static FILE *vf_fopen(const char *p, const char *m) {
  if (p == g_src) { ENSURE("file/template-is-only-read", m[0] == 'r' && m[1] == 0); }
  else { ENSURE("file/target", g_write && p == TGT && m[0] == 'w' && m[1] == 0); }
  if (nd_bool("cannot-open")) { g_fatal_ok = 1; return 0; }
  return p == g_src ? FS : FT;
}
#define fopen vf_fopen
/* the line has been written (or nothing is to be written) and what was allocated for it is freed */
#define LINE_DONE (g_st == 0 || g_st == 5 || (g_st == (g_write ? 4 : 3) && g_new == g_line))
static ssize_t vf_getline(char **l, size_t *n, FILE *f) {
  ENSURE("file/lines-of-the-template", f == FS && LINE_DONE && !g_eof && (*l == 0 || *l == g_line));
  g_new = 0; g_st = 0;
  if (nd_bool("end")) { g_eof = 1; g_rerr = nd_bool("read-error"); return -1; }
  *l = g_line; *n = 100; g_st = 1; if (g_lines < 1000000) ++g_lines;
  return nd_range("length", 1, 1 << 24);
}
#define getline vf_getline
static bool vf_starts(const char *s, const char *p) {
  ENSURE("file/directive-recognized", g_st == 1 && s == g_line && p[0] == '/' && p[1] == '/' && p[2] == 'a' && p[10] == 'f' && p[11] == ' ' && p[12] == 0);
  g_st = 2;
  return g_isdef = nd_bool("directive");
}
#define utils_startswith vf_starts
static char *repl(void) { g_st = 3; g_new = nd_bool("new") ? &g_newb[0] : g_line; return g_new; }
static char* _line_replace_def(struct node *n, struct deps *deps, char *line);
static char* _line_replace_subs(struct node *n, struct deps *deps, char *line);
static int vf_fputs(const char *s, FILE *t) {
  ENSURE("file/replacement-written-once", g_write && g_st == 3 && s == g_new && t == FT);
  g_st = 4;
  if (nd_bool("write-error")) { g_fatal_ok = 1; return EOF; }
  return 1;
}
#define fputs vf_fputs
static void vf_free(void *p) {
  if (p == g_line || p == 0) { ENSURE("file/line-buffer-kept-till-the-end", g_st == 0 && g_eof); return; }
  ENSURE("file/replacement-used-before-it-is-freed", p == g_new && (g_st == 4 || (!g_write && g_st == 3)));
  g_new = 0; g_st = 5;
}
static void vf_free_(void *p) { vf_free(p); }
#define free vf_free_
static int vf_ferror(FILE *f) { ENSURE("file/error-state", f == FS); return g_rerr; }
#undef ferror
#define ferror vf_ferror
static int vf_stat(const char *p, struct stat *st) {
  ENSURE("file/permissions-of-the-template", p == g_src);
  if (nd_bool("cannot-stat")) { g_fatal_ok = 1; return -1; }
  st->st_mode = g_mode; g_stated = 1;
  return 0;
}
#define stat(a, b) vf_stat(a, b)
static int vf_fchmod(int fd, mode_t m) {
  ENSURE("file/permissions-of-the-target", g_stated && fd == 77 && m == (g_mode & 07777));
  if (nd_bool("cannot-chmod")) { g_fatal_ok = 1; return -1; }
  g_perm = 1;
  return 0;
}
#define fchmod vf_fchmod
static int vf_fileno(FILE *f) { ENSURE("file/descriptor", f == FT && !g_tclosed); return 77; }
#define fileno vf_fileno
static int vf_fclose(FILE *f) {
  if (f == FS) { ENSURE("file/template-closed", !g_fclosed); g_fclosed = 1; if (g_rerr) g_fatal_ok = 1; return 0; }
  ENSURE("file/target-closed", f == FT && !g_tclosed); g_tclosed = 1;
  if (nd_bool("close-error")) { g_cerr = 1; g_fatal_ok = 1; return EOF; }
  return 0;
}
#define fclose vf_fclose
int utils_rename_file(const char *a, const char *b) {
  ENSURE("file/complete-before-it-is-put-in-place", g_same && a == &g_tmpn[0] && b == g_src && g_tclosed && !g_cerr && !g_rerr && g_perm);
  if (nd_bool("cannot-rename")) { g_fatal_ok = 1; return EIO; }
  g_renamed = 1;
  return 0;
}
#include "node_configure.c"
static char* _line_replace_def(struct node *n, struct deps *deps, char *line) { ENSURE("file/directive", n == NVP && deps == DVP && line == g_line && g_st == 2 && g_isdef); return repl(); }
static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) { ENSURE("file/text", n == NVP && deps == DVP && line == g_line && g_st == 2 && !g_isdef); return repl(); }
void p_file(void) {
  VF_START();
  g_line = malloc(2);
  g_st = g_isdef = g_eof = g_rerr = g_lines = g_perm = g_fclosed = g_tclosed = g_renamed = g_cerr = g_stated = g_tmp = g_dirs = g_fatal_ok = 0; g_new = 0;
  g_mode = nd_range("mode", 0, 0177777);
  g_write = nd_bool("outdated"); g_same = g_write && nd_bool("in-place");
  _process_file(NVP, g_src, g_write ? g_tgt : (const char*) 0, DVP);
  REACH("file");
  ENSURE("file/read-to-the-end", g_eof && !g_rerr && g_fclosed);
  ENSURE("file/written-to-the-end", !g_write || (g_tclosed && !g_cerr && g_perm && g_dirs));
  ENSURE("file/put-in-place", g_renamed == g_same);
}
#endif
#else
#include "vf_build.h"
#include <signal.h>
#include <sys/resource.h>
static int vb_cmd(int argc, char **argv, const char *name, void (*out)(const char *buf, size_t n)) { return 0; }
struct buf { char *p; size_t n, cap; };
static void put(struct buf *b, const char *s, size_t n) {
  if (b->n + n + 1 > b->cap) b->p = realloc(b->p, b->cap = 2 * (b->n + n + 64));
  memcpy(b->p + b->n, s, n); b->n += n; b->p[b->n] = 0;
}
static void puts0(struct buf *b, const char *s) { put(b, s, strlen(s)); }
/* variables of the project; a value in raw form is what a marker becomes */
static struct { const char *name, *value; int list; } V[] = {
  { "A", "v 1" }, { "xA", "" }, { "x", "p@A@q" }, { "L", "one two  three", 1 },
  { "LONG_NAME_9", "a much longer value than its name, with @ in it" }, { "N", "17" }, { "E", "" }, { "D", "dd" }, { 0, 0 },
};
#define VARS "set { A 'v 1' }\nset { xA '' }\nset { x p@A@q }\nset { L one two '' three }\nset { LONG_NAME_9 'a much longer value than its name, with @ in it' }\nset { N 17 }\n"
static const char *lookup(const char *k, size_t n, int *list) {
  for (int i = 0; V[i].name; ++i)
    if (strlen(V[i].name) == n && memcmp(V[i].name, k, n) == 0) {
      if (!V[i].value) return 0; *list = V[i].list; return V[i].value; }
  char t[64]; if (n == 0 || n > 63) return 0;
  memcpy(t, k, n); t[n] = 0; *list = 0;
  return getenv(t);
}
static void line_oracle(const char *l, size_t n, struct buf *o) {
  static const char dir[] = "//autarkdef ";
  size_t dn = sizeof(dir) - 1;
  int nl = n > 0 && l[n - 1] == '\n', list = 0;
  if (n >= dn && memcmp(l, dir, dn) == 0) {
    size_t i = dn, k, a;
    while (i < n && strchr(" \t\r\n", l[i])) ++i;
    k = i;
    while (i < n && !strchr(" \t\r\n", l[i])) ++i;
    a = i;
    while (i < n && strchr(" \t\r\n", l[i])) ++i;
    const char *v = lookup(l + k, a - k, &list);
    int quote = i < n && l[i] == '"', num = i < n && l[i] >= '0' && l[i] <= '9';
    if (!v && !num) { put(o, l, n); return; }
    puts0(o, "#define "); put(o, l + k, a - k);
    if (quote) { puts0(o, " \""); puts0(o, v); puts0(o, "\"\n"); }
    else if (num && v) { puts0(o, " "); put(o, l + i, n - i); }
    else if (num) puts0(o, " 0\n");
    else puts0(o, "\n");
    return;
  }
  for (size_t i = 0; i < n; ) {
    if (l[i] == '@') {
      size_t j = i + 1;
      while (j < n && l[j] != '@') ++j;
      if (j < n) {
        const char *v = lookup(l + i + 1, j - i - 1, &list);
        if (v) puts0(o, v);
        i = j + 1;
        continue;
      }
    }
    put(o, l + i++, 1);
  }
  (void) nl;
}
static void oracle(const struct buf *t, struct buf *o) {
  for (size_t i = 0, j; i < t->n; i = j) {
    for (j = i; j < t->n && t->p[j] != '\n'; ++j) ;
    if (j < t->n) ++j;
    line_oracle(t->p + i, j - i, o);
  }
}
static void spit(const char *path, const struct buf *b) {
  FILE *f = fopen(path, "w"); fwrite(b->p, 1, b->n, f); fclose(f);
}
static int slurp(const char *path, struct buf *b) {
  char t[65536]; size_t n; FILE *f = fopen(path, "r");
  b->n = 0;
  if (!f) return -1;
  while ((n = fread(t, 1, sizeof(t), f)) > 0) put(b, t, n);
  fclose(f);
  return 0;
}
static void check_one(const char *prod, const struct buf *t, const char *what) {
  struct buf o = { 0 }, g = { 0 };
  put(&o, "", 0); put(&g, "", 0);
  oracle(t, &o);
  if (slurp(prod, &g)) ENSURE(what, 0);
  if (g.n != o.n || memcmp(g.p, o.p, o.n)) {
    size_t i = 0; while (i < g.n && i < o.n && g.p[i] == o.p[i]) ++i;
    size_t a = i > 40 ? i - 40 : 0;
    fprintf(stderr, "%s differs at %zu: got <%.*s> expected <%.*s>\n", prod, i, (int) (g.n - a > 80 ? 80 : g.n - a), g.p + a, (int) (o.n - a > 80 ? 80 : o.n - a), o.p + a);
    ENSURE(what, 0);
  }
  free(o.p); free(g.p);
}
static const char *dirs[] = {
  "//autarkdef A", "//autarkdef U", "//autarkdef E", "//autarkdef D \"", "//autarkdef U \"", "//autarkdef E \"", "//autarkdef D \"anything\" @A@",
  "//autarkdef N 1", "//autarkdef U 1", "//autarkdef D 0x10 // @A@ note", "//autarkdef U 42 /* */", "//autarkdef   D    7", "//autarkdef\tD 1", "//autarkdef",
  "//autarkdef ", "//autarkdefD", " //autarkdef D", "x //autarkdef D 1", "//autarkdef D text", "//autarkdef U text", "//autarkdef LONG_NAME_9 9", "//autarkdef D @A@",
  "//autarkdef U @A@", "// autarkdef D", "//autarkdef D  \"",
};
static const char *ends[] = { "\n", "\r\n", "" };
/* one template with every text over a small alphabet as a line */
void n_lines(void) {
  vb_start();
  struct buf t = { 0 };
  put(&t, "", 0);
  int kind = nd_range("kind", 0, 3), end = nd_range("line-end", 0, 1);
  const char *al = kind == 0 ? "@Ax " : kind == 1 ? "@L/\"" : "@";
  if (kind < 2) {
    int k = strlen(al);
    for (int n = 0; n <= VF_N; ++n) {
      int tot = 1; for (int i = 0; i < n; ++i) tot *= k;
      for (int c = 0; c < tot; ++c) {
        char w[16]; int d = c;
        for (int i = 0; i < n; ++i, d /= k) w[i] = al[d % k];
        put(&t, w, n); puts0(&t, ends[end]);
      }
    }
  } else if (kind == 2) { /* long lines: markers and directives around buffer sizes */
    static const int at[] = { 127, 1023, 1024, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 65535 };
    for (int a = 0; a < sizeof(at) / sizeof(at[0]); ++a)
      for (int off = -14; off <= 2; ++off) {
        for (int i = 0; i < at[a] + off; ++i) put(&t, &"abcdefgh/ "[i % 10], 1);
        puts0(&t, off & 1 ? "@LONG_NAME_9@ tail @A" : "//autarkdef D @A@@A@");
        puts0(&t, ends[end]);
      }
  } else { /* every byte, next to markers */
    for (int c = 1; c < 256; ++c) {
      char b = c;
      put(&t, &b, 1); puts0(&t, "@A@"); put(&t, &b, 1); puts0(&t, "@"); put(&t, &b, 1); puts0(&t, "@ ");
      puts0(&t, "@A"); put(&t, &b, 1); puts0(&t, ends[end]);
    }
  }
  if (nd_bool("open-end")) puts0(&t, nd_bool("marker") ? "tail@A@" : "tail@A");
  spit("t.txt.in", &t);
  vb_file("Autark", VB_T0, VARS "configure { t.txt.in }\n");
  ENSURE("template/configured", vb_build("-DD=dd", "-DE=", 0) == 0);
  check_one("autark-cache/t.txt", &t, "template/only-markers-replaced");
  free(t.p);
}
/* many small templates of one rule */
void n_files(void) {
  static char list[400000];
  vb_start();
  int kind = nd_range("kind", 0, 4), n = 0;
  size_t ln = 0;
  struct buf *T = 0;
#define ADD(...) do { T = realloc(T, (n + 1) * sizeof(*T)); memset(T + n, 0, sizeof(*T)); put(T + n, "", 0); \
    __VA_ARGS__; char f_[64]; snprintf(f_, sizeof(f_), "f%d%s", n, n % 5 == 4 ? "" : ".in"); spit(f_, T + n); ln += sprintf(list + ln, " %s", f_); ++n; } while (0)
  list[0] = 0;
  mkdir("sub", 0755);
  if (kind == 0) { /* every short text as a whole file without a last line end */
    const char *al = "@Ax\n";
    for (int l = 0; l <= VF_N; ++l) {
      int tot = 1; for (int i = 0; i < l; ++i) tot *= 4;
      for (int c = 0; c < tot; ++c) {
        char w[16]; int d = c;
        for (int i = 0; i < l; ++i, d /= 4) w[i] = al[d % 4];
        ADD(put(T + n, w, l));
      }
    }
  } else if (kind == 1) { /* directives */
    for (int e = 0; e < 3; ++e)
      for (int d = 0; d < sizeof(dirs) / sizeof(dirs[0]); ++d)
        ADD(puts0(T + n, "before @N@\n"); puts0(T + n, dirs[d]); puts0(T + n, ends[e]); if (e < 2) puts0(T + n, "after @D@ @\n"));
  } else if (kind == 2) { /* permission bits */
    static const int modes[] = { 0644, 0755, 0600, 0700, 0444, 0555, 0640, 0664, 0777, 0711 };
    for (int m = 0; m < 10; ++m) {
      ADD(puts0(T + n, "#!/bin/sh\necho @A@\n"));
      char f[64]; snprintf(f, sizeof(f), "f%d%s", m, m % 5 == 4 ? "" : ".in"); chmod(f, modes[m]);
    }
    vb_file("Autark", VB_T0, VARS "configure {%s }\n", list);
    ENSURE("template/configured", vb_build("-DD=dd", "-DE=", 0) == 0);
    for (int m = 0; m < 10; ++m) {
      char f[64]; struct stat st; snprintf(f, sizeof(f), "autark-cache/f%d", m);
      ENSURE("template/permissions", stat(f, &st) == 0 && (st.st_mode & 07777) == modes[m]);
    }
  } else if (kind == 3) { /* the target cannot be written completely */
    ADD(for (int i = 0; i < 6000; ++i) puts0(T + n, "a line of the template, with @A@ in it\n"));
    vb_file("Autark", VB_T0, VARS "configure {%s }\n", list);
    struct rlimit o, l;
    getrlimit(RLIMIT_FSIZE, &o); l = o;
    l.rlim_cur = nd_range("limit", 0, 4) * 30011 + 40000;
    signal(SIGXFSZ, SIG_IGN);
    setrlimit(RLIMIT_FSIZE, &l);
    ENSURE("template/write-failure-is-reported", vb_build("-DD=dd", "-DE=", 0) != 0);
    setrlimit(RLIMIT_FSIZE, &o);
  } else { /* a list of templates in a variable, one of them in a directory, one the product of another rule */
    ADD(puts0(T + n, "one @A@\n"));
    ADD(puts0(T + n, "two @D@ @L@\n"));
    struct buf s = { 0 }, g = { 0 };
    puts0(&s, "in a directory: @A@, @L@"); spit("sub/s.h.in", &s);
    puts0(&g, "made: @@A@@, @N@\n"); spit("g.in.in", &g);
    vb_file("Autark", VB_T0, VARS "set { ALL f0.in f1.in sub/s.h.in }\nconfigure { ${ALL} }\nconfigure { CC{g.in} }\nconfigure { g.in.in }\n");
    ENSURE("template/configured", vb_build("-DD=dd", "-DE=", 0) == 0);
    check_one("autark-cache/sub/s.h", &s, "template/in-a-directory");
    check_one("autark-cache/g.in", &g, "template/first-step");
    struct buf m = { 0 };
    ENSURE("template/first-step", slurp("autark-cache/g.in", &m) == 0);
    check_one("autark-cache/g", &m, "template/second-step");
    free(s.p); free(g.p); free(m.p);
  }
  if (kind != 4) vb_file("Autark", VB_T0, VARS "configure {%s }\n", list);
  ENSURE("template/configured", vb_build("-DD=dd", "-DE=", 0) == 0);
  for (int i = 0; i < n; ++i) {
    char f[64]; snprintf(f, sizeof(f), "autark-cache/f%d", i);
    check_one(f, T + i, "template/only-markers-replaced");
    free(T[i].p);
  }
  free(T);
}
/* a variable changes between builds: the product is what a first build would make */
void n_change(void) {
  static const char *forms[] = { "[@CV@]\n", "//autarkdef CV\n", "//autarkdef CV \"\n", "//autarkdef CV 1\n", "x\n//autarkdef CV\n@CV@", "plain\n" };
  static const char *states[] = { 0, "", "1", "two words" };
  struct buf t = { 0 };
  vb_start();
  int form = nd_range("form", 0, 5), other = nd_bool("second-template");
  puts0(&t, forms[form]); spit("t.in", &t);
  if (other) vb_file("u.in", VB_T0, "other @OV@\n");
  vb_file("Autark", VB_T0, other ? "configure { u.in t.in }\n" : "configure { t.in }\n");
  for (int i = 0; i <= VF_N; ++i) {
    int st = nd_range("state", 0, 3);
    char d[64]; snprintf(d, sizeof(d), "-DCV=%s", states[st] ? states[st] : "");
    if (other && i == 1) vb_file("u.in", VB_T0 + 1000, "other changed @OV@\n");
    ENSURE("change/build", (states[st] ? vb_build("-DOV=o", d, 0) : vb_build("-DOV=o", 0)) == 0);
    V[0].name = "CV"; V[0].value = states[st];
    check_one("autark-cache/t", &t, "change/product-follows-the-variable");
  }
}
#endif
