// Output of commands: passed on to the build's own output byte for byte, kept when the build fails afterwards.
//@ entry: p_run props=C08 functions=_run_stdout_handler,_run_stderr_handler native=n_out link=* forked defs=O_RUN unwind=4 nodfcc
//@ entry: p_subst props=C08 functions=_subst_stdout_handler,_subst_stderr_handler native=n_out link=* forked defs=O_SUBST unwind=4 nodfcc
//@ entry: p_check props=C08 functions=_check_stdout_handler,_check_stderr_handler native=n_out link=* forked defs=O_CHECK unwind=4 nodfcc
//@ entry: n_out mode=native forked=60 link=* props=C08,C28 functions=_run_stdout_handler,_subst_stdout_handler,_check_stdout_handler,akfatal2 nlimit=60 cost=6
//@ assume: fwrite(3) writes the bytes it is given; what a terminal or pipe does with them is outside
#ifdef VF_CBMC
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "env.h"
#include "script.h"
#include "spawn.h"
#include "deps.h"
#include "utils.h"
#include "xstr.h"
#include "paths.h"
#define LEN 1000000
static char g_c; static size_t g_n, g_w, g_off, g_cat; static int g_err, g_x; static FILE *g_to;
static size_t vf_fwrite(const void *p, size_t size, size_t n, FILE *f) {
  size_t k = size * n;
  ENSURE("output/right-stream", f == g_to);
  ENSURE("output/within-the-chunk", k <= g_n - g_off && p != 0);
  if (g_w >= g_off && g_w - g_off < k) ENSURE("output/bytes-unchanged", ((const char*) p)[g_w - g_off] == g_c);
  g_off += k;
  return n;
}
static int vf_fputs(const char *s, FILE *f) { ENSURE("output/bytes-unchanged", 0); return 0; }
static int vf_fputc(int c, FILE *f) { char b = (char) c; vf_fwrite(&b, 1, 1, f); return c; }
#undef putc
#undef putchar
#define fwrite vf_fwrite
#define fwrite_unlocked vf_fwrite
#define fputs vf_fputs
#define fputc vf_fputc
#define putc vf_fputc
#define fprintf(f, ...) vf_fputs("", f)
#define printf(...) vf_fputs("", stdout)
#ifdef O_SUBST
void xstr_cat2(struct xstr *x, const void *s, size_t n) {
  ENSURE("output/taken-once", (int*) x == &g_x && n == g_n && g_cat == 0 && ((const char*) s)[g_w] == g_c);
  g_cat = n;
}
void* spawn_user_data(struct spawn *s);
#endif
#ifdef O_RUN
#include "node_run.c"
#define OUT _run_stdout_handler
#define ERR _run_stderr_handler
#elif defined(O_SUBST)
#include "node_subst.c"
#define OUT _subst_stdout_handler
#define ERR _subst_stderr_handler
static struct _subst_ctx X;
void* spawn_user_data(struct spawn *s) { return &X; }
#else
#include "node_check.c"
#define OUT _check_stdout_handler
#define ERR _check_stderr_handler
#endif
static void run(void) {
  VF_START();
  g_n = nd_range("length", 1, LEN); g_w = nd_range("at", 0, LEN - 1); ASSUME(g_w < g_n);
  char *in = malloc(g_n + 1); ASSUME(in != 0);
  g_c = in[g_w];
  g_off = g_cat = 0; g_err = nd_bool("stderr"); g_to = g_err ? stderr : stdout;
  ASSUME(stdout != stderr);
#ifdef O_SUBST
  X.xstr = (struct xstr*) &g_x;
#endif
  if (g_err) ERR(in, g_n, 0); else OUT(in, g_n, 0);
  REACH("handled");
  ENSURE("output/complete", g_off == g_n);
#ifdef O_SUBST
  ENSURE("output/value-is-standard-output", g_cat == (g_err ? 0 : g_n));
#endif
}
void p_run(void) { run(); }
void p_subst(void) { run(); }
void p_check(void) { run(); }
#else
#include "vf_build.h"
static char g_data[20000], g_got[1 << 17]; static int g_len, g_chunk, g_status;
static int vb_cmd(int argc, char **argv, const char *name, void (*out)(const char*, size_t)) {
  if (name && strstr(name, "bad")) return 3;
  if (name && strstr(name, "quiet")) return 0;
  for (int i = 0; i < g_len; i += g_chunk) out(g_data + i, i + g_chunk < g_len ? g_chunk : g_len - i);
  return g_status;
}
static const int lens[] = { 1, 2, 3, 4095, 4096, 4097, 9000, 20000 };
void n_out(void) {
  int kind = nd_range("kind", 0, 5), data = nd_range("data", 0, 4), after = nd_range("after", 0, 3);
  g_len = lens[nd_range("length", 0, 7)]; g_chunk = (int[]) { 1000000, 1023, 1 }[nd_range("chunk", 0, 2)];
  for (int i = 0; i < g_len; ++i)
    g_data[i] = data == 0 ? 'A' + i % 26 : data == 1 ? (i == g_len / 2 ? 0 : 'a' + i % 26) : data == 2 ? "%s%n"[i % 4] : data == 3 ? (char) (i * 7 + (i >> 8)) : i == 0 ? 0 : "\n\r\t z"[i % 5];
  g_status = after == 3 ? 5 : 0;
  vb_start();
  char lg[5000]; snprintf(lg, sizeof(lg), "%s/messages", vb_root); vb_messages = lg; vb_messages2 = "/dev/null";
  const char *then = after == 1 ? "run { exec { bad } }\n" : after == 2 ? "run { exec { quiet } consumes { missing } }\n" : "";
  switch (kind) {
    case 0: vb_file("Autark", VB_T0, "run { exec { say } }\n%s", then); break;
    case 1: vb_file("Autark", VB_T0, "run { shell { say } produces { o } }\n%s", then); break;
    case 2: vb_file("Autark", VB_T0, "set { X @{say} }\necho { ${X} }\n%s", then); break;
    case 3: vb_file("Autark", VB_T0, "set { X @@{say} }\nrun { exec { quiet ${X} } }\n%s", then); break;
    case 4: mkdir(".autark", 0755); vb_file(".autark/c", VB_T0, "x"); vb_file("Autark", VB_T0, "check { c }\n%s", then); break;
    default: vb_file("Autark", VB_T0, "foreach { F set { _ a } run { always exec { say ${F} } } }\n%s", then); break;
  }
  int rc = vb_build((const char*) 0);
  ENSURE("output/status", after ? rc != 0 : rc == 0 || kind == 1);
  FILE *f = fopen(lg, "r"); size_t n = f ? fread(g_got, 1, sizeof(g_got), f) : 0; if (f) fclose(f);
  ENSURE("output/passed-on-byte-for-byte", memmem(g_got, n, g_data, g_len) != 0);
}
#endif
