/* Native rule-level harnesses: a script is written to the scratch directory and read by the real program code.
 * Used with forked runs only (the program's global state and working directory belong to one run). */
#ifndef VF_RULE_H
#define VF_RULE_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include <stdarg.h>
static int g_fatal_code, g_fatal_expected;
#define VF_ON_FATAL(code) do { g_fatal_code = (code); if (!g_fatal_expected) vf_violation("no-unexpected-fatal-error"); } while (0)
#include "vf.h"
#include "vf_log.h"
#include "env.h"
#include "script.h"
#include "autark.h"
#include "xstr.h"
#include "utils.h"
static char vs_buf[65536]; static size_t vs_len;
static void vs(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  vs_len += vsnprintf(vs_buf + vs_len, sizeof(vs_buf) - vs_len, fmt, ap);
  va_end(ap);
}
static void vs_file(const char *path, const char *data, size_t n) {
  FILE *f = fopen(path, "w");
  if (!f || fwrite(data, 1, n, f) != n || fclose(f)) { perror(path); _exit(3); }
}
static char vs_cwd[4096];
static struct sctx* vs_open(void) {
  if (!vs_cwd[0] && !getcwd(vs_cwd, sizeof(vs_cwd))) _exit(3);
  vs_file("Autark", vs_buf, vs_len);
  struct sctx *s = 0;
  int rc = script_open("Autark", &s);
  if (rc) { if (g_fatal_expected) vf_end(); vf_violation("script-is-read"); }
  return s;
}
#endif
