// Fatal errors end the program with a failure status; texts shown in messages are never taken as formats.
//@ entry: p_fatal props=C28,C08 functions=_akfatal,_akfatal_va,akfatal2 native=n_fatal link=* forked defs=E_LOG rename=log.c:_event_va unwind=4 nodfcc
//@ entry: p_event props=C28 functions=_event_va native=n_fatal link=* forked defs=E_LOG,E_EVENT unwind=2
//@ entry: p_node props=C28 functions=node_fatal,node_error,node_warn,node_info native=n_fatal link=* forked defs=E_NODE unwind=4 nodfcc
//@ entry: p_error props=C28 functions=_error_setup native=n_fatal link=* forked defs=E_ERROR unwind=10
//@ loop: node_error.c _error_setup 0 p_error
//@   __CPROVER_assigns(nn, g_any, g_wk, g_sep, g_cur)
//@   __CPROVER_loop_invariant(nn == 0 || nn == &A || nn == &B)
//@   __CPROVER_loop_invariant(g_any >= 0 && g_any <= 1 && g_sep == 0)
//@ entry: n_fatal mode=native forked=60 link=* props=C28 functions=_akfatal,_event_va,node_fatal,node_info,node_warn,_error_setup,_build nlimit=90 cost=9 defs=SPLIT=2
//@ entry: n_status mode=native forked=60 link=* props=C28,C07 functions=_akfatal,_run_on_resolve,_check_on_resolve,node_fatal nlimit=90 cost=9 defs=SPLIT=1
//@ assume: _exit(2) ends the process with the low byte of its argument; stdio and xstr functions are used through their contracts
#ifdef VF_CBMC
#include "vf.h"
#include "vf_libc.h"
#include <unistd.h>
#include <stdarg.h>
static const char *g_fmt, *g_text, *g_name; static int g_events, g_puts, g_printed, g_code, g_kind, g_lvl, g_any, g_wk, g_sep, g_cur;
#if defined(E_LOG)
#include "log.h"
#include "xstr.h"
#include "alloc.h"
#include "utils.h"
static int g_flushed;
static int vf_fflush(FILE *f) { if (f == stdout || f == 0) g_flushed = 1; return 0; }
static void vf_exit(int code) {
  REACH("exit");
#ifndef E_EVENT
  ENSURE("fatal/output-so-far-is-kept", g_flushed);
#endif
  ENSURE("fatal/nonzero-status", (code & 0xff) != 0);
#ifndef E_EVENT
  ENSURE("fatal/reported", g_kind == 2 ? g_puts == (g_text != 0) : g_events == 1 && g_lvl == 4);
#endif
  VF_END();
}
static int vf_fputs(const char *s, FILE *f) { ENSURE("fatal/message", f == stderr && (g_kind == 2 || g_kind > 9) && s == g_text); ++g_puts; return 1; }
static int vf_fputc(int c, FILE *f) { return c; }
#define _exit vf_exit
#define exit(c) (vf_fflush(0), vf_exit(c))
#define fflush vf_fflush
#define fputs vf_fputs
#define fputc vf_fputc
#ifndef E_EVENT
static void _event_va(int level, const char *file, int line, int code, const char *format, va_list va);
#else
#define xstr_create_empty() ((struct xstr*) &g_cur)
#define xstr_cat(x, s) ((void) 0)
#define xstr_cat2(x, s, n) ((void) 0)
#define xstr_printf(x, ...) ((void) 0)
static void vf_pva(struct xstr *x, const char *f) { ENSURE("event/own-format", x == (struct xstr*) &g_cur && f == g_fmt); ++g_printed; }
#define xstr_printf_va(x, f, va) vf_pva(x, f)
#define xstr_ptr(x) ((char*) g_text)
#define xstr_destroy(x) ((void) 0)
#define xstrdup(x) ((char*) 0)
#define strerror(c) g_name
#define utils_chars_replace(a, b, c) ((void) 0)
#endif
#include "log.c"
#ifndef E_EVENT
static void _event_va(int level, const char *file, int line, int code, const char *format, va_list va) {
  ENSURE("fatal/own-message", format == g_fmt && code == g_code); g_lvl = level; ++g_events;
}
static void va_call(const char *file, int line, int code, const char *fmt, ...) { va_list ap; va_start(ap, fmt); _akfatal_va(file, line, code, fmt, ap); va_end(ap); }
void p_fatal(void) {
  VF_START();
  char f[2]; f[0] = 'x'; f[1] = 0; g_fmt = nd_bool("message") ? (char*) f : 0; g_text = g_fmt;
  g_code = nd_int("code"); int line = nd_int("line"); g_kind = nd_range("kind", 0, 2);
  g_events = g_puts = g_lvl = g_flushed = 0;
  if (g_kind == 0) _akfatal(f, line, g_code, g_fmt, 1);
  else if (g_kind == 1) va_call(f, line, g_code, g_fmt, 1);
  else akfatal2(g_text);
  ENSURE("fatal/never-returns", 0);
}
#else
static void ev(int level, const char *file, int line, int code, const char *format, ...) { va_list va; va_start(va, format); _event_va(level, file, line, code, format, va); va_end(va); }
void p_event(void) {
  VF_START();
  char f[2], t[2], n[2]; f[0] = t[0] = n[0] = 'x'; f[1] = t[1] = n[1] = 0; g_fmt = nd_bool("message") ? (char*) f : 0; g_text = t; g_name = n;
  g_kind = 10; g_puts = g_printed = 0;
  ev(nd_int("level"), nd_bool("file") ? (char*) n : 0, nd_int("line"), nd_int("code"), g_fmt);
  REACH("event");
  ENSURE("event/formatted-once", g_printed == (g_fmt != 0));
  ENSURE("event/printed-once", g_puts == 1);
}
#endif
#elif defined(E_NODE)
#include "vf_log.h"
#include "script_impl.h"
#define _AMALGAMATE_
static struct node N;
#define P1_(a, ...) a
#define P2_(a, b, ...) b
#define P3_(a, b, c, ...) c
#define P4_(a, b, c, d, ...) d
static int g_said, g_fatal, g_rc;
static void say(int how, int code, const char *fmt, const void *a, const void *b) {
  ENSURE("node/user-text-is-no-format", fmt == 0 || (fmt != g_name && fmt != g_text && fmt != g_fmt && fmt[0] == '%' && fmt[1] == 's'));
  if (how < 3) {
    ENSURE("node/names-the-rule", a == (const void*) g_name);
    ENSURE("node/shows-the-message", !g_fmt || b == (const void*) g_text);
  }
  ++g_said;
  if (how == 2) { ENSURE("node/fatal-code", code == g_rc); REACH("fatal"); g_fatal = 1; ENSURE("node/fatal-expected", g_kind == 2); VF_END(); }
}
#define akinfo(f, ...) say(0, 0, f, (void*) (uintptr_t) P1_(__VA_ARGS__, 0, 0), (void*) (uintptr_t) P2_(__VA_ARGS__, 0, 0))
#define akwarn(f, ...) say(1, 0, f, (void*) (uintptr_t) P1_(__VA_ARGS__, 0, 0), (void*) (uintptr_t) P2_(__VA_ARGS__, 0, 0))
#undef akfatal
#define akfatal(c, f, ...) say(2, c, f, (void*) (uintptr_t) P1_(__VA_ARGS__, 0, 0), (void*) (uintptr_t) P2_(__VA_ARGS__, 0, 0))
static int said_err(int c, const char *f, const void *a, const void *b) { ENSURE("node/error-code", c == g_rc); say(3, c, f, a, b); return c; }
#undef akerror
#define akerror(c, f, ...) said_err(c, f, (void*) (uintptr_t) P1_(__VA_ARGS__, 0, 0), (void*) (uintptr_t) P4_(__VA_ARGS__, 0, 0, 0, 0))
struct xstr* xstr_create_empty(void) { return (struct xstr*) &g_cur; }
static void vf_pva(struct xstr *x, const char *f) { ENSURE("node/own-format", x == (struct xstr*) &g_cur && f == g_fmt && g_fmt != 0); ++g_printed; }
#define xstr_printf_va(x, f, va) vf_pva(x, f)
char* xstr_ptr(struct xstr *x) { return (char*) g_text; }
void xstr_destroy(struct xstr *x) { }
#include "script.c"
void p_node(void) {
  VF_START();
  char f[2], t[2], n[2]; f[0] = t[0] = n[0] = 'x'; f[1] = t[1] = n[1] = 0; g_fmt = nd_bool("message") ? (char*) f : 0; g_text = t; g_name = n;
  N.name = g_name; N.value = g_name; N.parent = 0; N.type = NODE_TYPE_RUN; g_rc = nd_int("code");
  g_said = g_fatal = g_printed = 0; g_kind = nd_range("kind", 0, 3);
  int r = 0;
  switch (g_kind) {
    case 0: node_info(&N, g_fmt, 1); break;
    case 1: node_warn(&N, g_fmt, 1); break;
    case 2: node_fatal(g_rc, &N, g_fmt, 1); break;
    default: r = node_error(g_rc, &N, g_fmt, 1); ENSURE("node/error-returns-its-code", r == g_rc); break;
  }
  REACH("said");
  ENSURE("node/fatal-never-returns", g_kind != 2);
  ENSURE("node/said-once", g_said == 1 && g_printed == (g_fmt != 0));
}
#elif defined(E_ERROR)
#include "vf_log.h"
#include "script.h"
#include "xstr.h"
static struct node N, A, B; static int g_len;
static char g_txt[2];
static void nf(int rc, struct node *n, const char *fmt, const void *a) {
  REACH("error");
  ENSURE("error/own-rule", n == &N && rc != 0);
  ENSURE("error/user-text-is-no-format", fmt != g_text && fmt[0] == '%' && fmt[1] == 's' && fmt[2] == 0 && a == (const void*) g_text);
  VF_END();
}
#define P1_(a, ...) a
#define node_fatal(rc, n, f, ...) nf(rc, n, f, (const void*) (uintptr_t) P1_(__VA_ARGS__, 0))
const char* node_value(struct node *n) { ENSURE("error/its-items", n == &A || n == &B); return N.index & 1 ? (n == &A ? g_text : 0) : g_name; }
struct xstr* xstr_create_empty(void) { return (struct xstr*) &g_len; }
void xstr_cat(struct xstr *x, const char *s) { ENSURE("error/value-added", s != 0 && (s == g_text || s == g_name) && (g_any ? g_sep == 1 : g_sep == 0)); g_any = 1; g_sep = 0; }
void xstr_cat2(struct xstr *x, const void *s, size_t n) { ENSURE("error/one-blank-between", n == 1 && *(const char*) s == ' ' && g_sep == 0 && g_any); g_sep = 1; }
size_t xstr_size(struct xstr *x) { return g_any; }
char* xstr_ptr(struct xstr *x) { return (char*) g_text; }
void xstr_destroy(struct xstr *x) { }
#include "node_error.c"
void p_error(void) {
  VF_START();
  g_txt[0] = 'x'; g_txt[1] = 0; char nm[2]; nm[0] = 'y'; nm[1] = 0;
  g_text = g_txt; g_name = nm; N.index = nd_range("values", 0, 1);
  N.child = nd_bool("items") ? &A : 0; A.next = nd_bool("more") ? &B : 0; B.next = nd_bool("again") ? &A : 0; g_any = g_sep = g_cur = g_wk = 0;
  _error_setup(&N);
  ENSURE("error/never-returns", 0);
}
#endif
#else
#include "vf_build.h"
static int g_rc;
static int vb_cmd(int argc, char **argv, const char *name, void (*out)(const char*, size_t)) {
  if (name && strstr(name, "good")) return 0;
  return g_rc;
}
static char g_msg[1 << 16];
static int shown(const char *t) {
  FILE *f = fopen(vb_messages, "r"); size_t n = f ? fread(g_msg, 1, sizeof(g_msg) - 1, f) : 0; if (f) fclose(f);
  g_msg[n] = 0;
  return strstr(g_msg, t) != 0;
}
static const char *texts[] = { "plain", "%s", "%n%n%n", "a%d b%s%s%s", "100%", "%%", "%5$s", "%*d", "%1000000d", "\303\251%c", "%", "x%%y%s" };
void n_fatal(void) {
  int kind = nd_range("kind", 0, 17), ti = nd_range("text", 0, sizeof(texts) / sizeof(*texts) - 1), verbose = nd_bool("verbose");
  const char *t = texts[ti];
  int show = 1, fatal = 1; g_rc = 3;
  vb_start();
  char lg[5000]; snprintf(lg, sizeof(lg), "%s/messages", vb_root); vb_messages = lg;
  switch (kind) {
    case 0: vb_file("Autark", VB_T0, "error { '%s' }\n", t); break;
    case 1: vb_file("Autark", VB_T0, "set { V '%s' }\nerror { x ${V} y }\n", t); break;
    case 2: vb_file("Autark", VB_T0, "run { exec { good } produces { o } consumes { '%s' } }\n", t); break;
    case 3: vb_file("Autark", VB_T0, "run { exec { bad '%s' } produces { o } }\n", t); show = 0; break;
    case 4: vb_file("Autark", VB_T0, "include { '%s' }\n", t); break;
    case 5: vb_file("Autark", VB_T0, "check { '%s' }\n", t); break;
    case 6: vb_file("Autark", VB_T0, "echo { a }\n'%s' }\n", t); break;
    case 7: vb_file("Autark", VB_T0, "cc { '%s.c' }\n", t); break;
    case 8: vb_file("Autark", VB_T0, "configure { '%s.h' }\n", t); break;
    case 9: vb_file("Autark", VB_T0, "call { '%s' }\n", t); break;
    case 10: vb_file("Autark", VB_T0, "run { exec { good } produces { '%s' } }\nrun { exec { good } produces { '%s' } }\n", t, t); break;
    case 11: vb_file("Autark", VB_T0, "macro { '%s' call { '%s' } }\ncall { '%s' }\n", t, t, t); show = 0; break;
    case 12: vb_file("Autark", VB_T0, "run { shell { '%s' } produces { o } }\n", t); show = 0; break;
    case 13: mkdir(".autark", 0755); vb_file("Autark", VB_T0, "check { 'c%s' }\n", t); { char b[200]; snprintf(b, sizeof(b), ".autark/c%s", t); vb_file(b, VB_T0, "x"); } break;
    case 14: vb_file("Autark", VB_T0, "if { k%%s{ x } echo { a } }\n"); t = "k%s"; break;
    case 15: vb_file("Autark", VB_T0, "%%{ ^{ } }\nmacro { M echo { &{1} &{2} } }\ncall { M '%s' }\n", t); show = 0; break;
    case 16: vb_file("Autark", VB_T0, "echo { '%s' }\n", t); fatal = 0; break;
    default: vb_file("Autark", VB_T0, "set { V '%s' }\noption { X '%s' }\necho { ${V} }\nenv { VF_E '%s' }\nrun { exec { good '%s' ${V} } produces { o } }\n", t, t, t, t); fatal = 0; break;
  }
  int rc = verbose ? vb_build("-V", 0) : vb_build((const char*) 0);
  if (fatal) ENSURE("fatal-ends-with-failure-status", rc != 0 && rc != 77); else ENSURE("no-failure-without-an-error", rc == 0);
  if (show) ENSURE("message-text-is-shown-as-it-is", shown(t));
  ENSURE("fatal-is-reported", !fatal || shown("FATAL") || shown("ERROR"));
  ENSURE("no-success-message", !fatal || !shown("Build successful"));
}
/* every way and status in which a command or a check script ends */
void n_status(void) {
  int c = nd_range("status", 1, 255 + 64 + 3), kind = nd_range("kind", 0, 5);
  g_rc = c < 256 ? c : c < 256 + 64 ? 256 + (c - 255) : 1000 + (int[]) { ENOENT, EACCES, ENOMEM }[c - 256 - 64 > 2 ? 2 : c - 256 - 64];
  vb_start();
  switch (kind) {
    case 0: vb_file("Autark", VB_T0, "run { exec { bad } produces { o } }\n"); break;
    case 1: vb_file("Autark", VB_T0, "run { shell { bad } }\n"); break;
    case 2: mkdir(".autark", 0755); vb_file(".autark/c", VB_T0, "x"); vb_file("Autark", VB_T0, "check { c }\n"); break;
    case 3: vb_file("x.c", VB_T0, "x"); vb_file("Autark", VB_T0, "cc { x.c }\n"); break;
    case 4: vb_file("Autark", VB_T0, "foreach { F set { _ a b } run { always exec { bad ${F} } } }\n"); break;
    default: vb_file("Autark", VB_T0, "include { sub/Autark }\n"); mkdir("sub", 0755); vb_file("sub/Autark", VB_T0, "run { exec { good } exec { bad } produces { o } }\n"); break;
  }
  int rc = vb_build((const char*) 0);
  ENSURE("failed-command-fails-the-build", rc != 0);
}
#endif
