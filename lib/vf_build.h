/* Native build-level harnesses: complete builds of a small project by the real program code (autark_run), one process per
 * build, in a scratch directory. External commands are stand-ins run in the build process: the real spawn.c collects
 * arguments and environment, only spawn_do (fork/exec) is replaced; wait() hands out the stand-ins' results in any order.
 * What commands did is logged in memory shared by all builds of one run. */
#ifndef VF_BUILD_H
#define VF_BUILD_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <getopt.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <time.h>
#include "vf.h"
#include "env.h"
#include "script.h"
#include "autark.h"
#include "ulist.h"
#include "utils.h"
#include "paths.h"
#include "deps.h"
#include "log.h"
static struct vb {
  int cmds;            /* commands started in the current build */
  int status;          /* exit status of the last build (256 + signal) */
  int pids, nrun, maxrun, waits, crash_at, point; /* crash_at: end the process at this point (0: never) */
  struct { int pid, code; } run[64];
  char out[65536]; size_t len; /* one line per command: arguments separated by '|' */
  char seen[65536];
} *vb;
static char vb_root[4096];
static void vb_log(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  vb->len += vsnprintf(vb->out + vb->len, sizeof(vb->out) - vb->len, fmt, ap);
  va_end(ap);
}
/* a place where an interrupted build may stop */
static void vb_point(void) { if (vb && vb->crash_at && ++vb->point == vb->crash_at) { vb->status = -1; _exit(77); } }
/* the stand-in: exit code 0..255, 256 + signal, or 1000 + errno when it cannot be started */
static int vb_cmd(int argc, char **argv, const char *name, void (*out)(const char *buf, size_t n));
#define spawn_do spawn_do__os
#define spawn_create spawn_create__os
#include "spawn.c"
#undef spawn_do
#undef spawn_create
struct spawn* spawn_create(const char *exec, void *user_data) { return spawn_create__os(exec, user_data); }
static struct spawn *vb_cur;
static void vb_out(const char *b, size_t n) {
  char *t = malloc(n + 1); memcpy(t, b, n); t[n] = 0;
  if (vb_cur->stdout_handler) vb_cur->stdout_handler(t, n, vb_cur);
  free(t);
}
int spawn_do(struct spawn *s) {
  char *av[260]; int ac = 0;
  vb_point();
  for (int i = 0; i < s->args.num && ac < 256; ++i) av[ac++] = *(char**) ulist_get(&s->args, i);
  av[ac] = 0;
  ++vb->cmds;
  for (int i = 0; i < ac; ++i) vb_log(i ? "|%s" : "%s", av[i]);
  vb_log("\n");
  vb_cur = s;
  int c = vb_cmd(ac, av, ac ? av[0] : "", vb_out);
  vb_point();
  if (c >= 1000) return c - 1000;
  int ws = c >= 256 ? c - 256 : c << 8;
  if (s->nowait) {
    s->pid = 100000 + ++vb->pids;
    vb->run[vb->nrun].pid = s->pid; vb->run[vb->nrun].code = ws;
    if (++vb->nrun > vb->maxrun) vb->maxrun = vb->nrun;
  } else { s->pid = 100000 + ++vb->pids; s->wstatus = ws; }
  return 0;
}
static int vb_wait_order, vb_pick[16]; /* 0: first started ends first, 1: last started, 2: as chosen in vb_pick */
pid_t wait(int *st) {
  vb_point();
  if (!vb->nrun) { errno = ECHILD; return -1; }
  int k = vb_wait_order == 0 ? 0 : vb_wait_order == 1 ? vb->nrun - 1 : vb_pick[vb->waits & 15] % vb->nrun;
  int pid = vb->run[k].pid;
  *st = vb->run[k].code;
  memmove(&vb->run[k], &vb->run[k + 1], sizeof(vb->run[0]) * (vb->nrun - k - 1));
  --vb->nrun; ++vb->waits;
  return pid;
}
/* the file operations a build does between its commands are the other places where it may be interrupted */
#ifdef VF_CRASH
#include <dlfcn.h>
int rename(const char *a, const char *b) { vb_point(); int r = syscall(SYS_rename, a, b); vb_point(); return r; }
int unlink(const char *a) { vb_point(); int r = syscall(SYS_unlink, a); vb_point(); return r; }
int fclose(FILE *f) {
  static int (*os)(FILE*); if (!os) os = dlsym(RTLD_NEXT, "fclose");
  vb_point(); int r = os(f); vb_point(); return r;
}
#endif
static void vb_start(void) {
  if (!vb) vb = mmap(0, sizeof(*vb), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(vb, 0, sizeof(*vb));
  vb_wait_order = 0;
  if (!vb_root[0]) {
    char d[4096];
    if (!getcwd(d, sizeof(d)) || !realpath(d, vb_root)) _exit(3);
    strcat(vb_root, "/prj");
  }
  char c[9000]; snprintf(c, sizeof(c), "rm -rf '%s'", vb_root);
  if (strstr(vb_root, "/.build/") || strncmp(vb_root, "/tmp/", 5) == 0) { if (access(vb_root, F_OK) == 0 && system(c)) _exit(3); }
  else { fprintf(stderr, "not a scratch directory: %s\n", vb_root); _exit(3); }
  if (mkdir(vb_root, 0755) || chdir(vb_root)) _exit(3);
  unsetenv("CC"); unsetenv("CFLAGS"); unsetenv("AUTARK_VERBOSE");
  setenv("HOME", vb_root, 1); setenv("AUTARK_HOME", vb_root, 1);
}
static void vb_time(const char *p, long ms) {
  struct timespec ts[2] = { { ms / 1000, (ms % 1000) * 1000000L }, { ms / 1000, (ms % 1000) * 1000000L } };
  if (utimensat(AT_FDCWD, p, ts, 0)) { perror(p); _exit(3); }
}
#define VB_T0 1400000000000L
static void vb_file(const char *p, long ms, const char *fmt, ...) {
  char b[65536]; va_list ap; va_start(ap, fmt);
  int n = vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
  FILE *f = fopen(p, "w");
  if (!f || fwrite(b, 1, n, f) != n || fclose(f)) { perror(p); _exit(3); }
  if (ms) vb_time(p, ms);
}
static int vb_read(const char *p, char *b, size_t n) {
  int fd = open(p, O_RDONLY); if (fd < 0) return -1;
  int r = read(fd, b, n - 1); close(fd);
  if (r < 0) return -1;
  b[r] = 0; return r;
}
static const char *vb_av[64];
static const char *vb_messages, *vb_messages2; /* files for what the build prints; the second one, when given, for standard error */
static int vb_build_args(int argc) {
  vb->cmds = 0; vb->len = 0; vb->out[0] = 0; vb->status = 0; vb->nrun = vb->maxrun = vb->waits = vb->point = 0; vb->seen[0] = 0;
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = vb_messages ? open(vb_messages, O_WRONLY | O_CREAT | O_TRUNC, 0644) : open(getenv("VF_SHOW") ? "/dev/stderr" : "/dev/null", O_WRONLY);
    dup2(fd, 1); dup2(vb_messages2 ? open(vb_messages2, O_WRONLY) : fd, 2);
    if (chdir(vb_root)) _exit(3);
    optind = 1;
    vb_av[argc] = 0;
    autark_run(argc, vb_av);
    fflush(0);
    _exit(0);
  }
  int ws;
  while (waitpid(pid, &ws, 0) < 0);
  ENSURE("build/ends-by-exit", WIFEXITED(ws));
  ENSURE("build/memory-safety", WEXITSTATUS(ws) != 11);
  return vb->status = WEXITSTATUS(ws);
}
/* vb_build("-DX=1", ..., 0): runs a build of the scratch project and returns its exit status */
static int vb_build(const char *a, ...) {
  int n = 0;
  vb_av[n++] = "autark";
  va_list ap; va_start(ap, a);
  for (; a; a = va_arg(ap, const char*)) vb_av[n++] = a;
  va_end(ap);
  return vb_build_args(n);
}
/* what a check script does: the program's own commands, run with the environment the build gives it */
static int vb_self(const char *c, const char *arg) {
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    memset(&g_env, 0, sizeof(g_env));
    optind = 1;
    const char *av[] = { "autark", c, arg, 0 };
    autark_run(3, av);
    fflush(0);
    _exit(0);
  }
  int ws;
  while (waitpid(pid, &ws, 0) < 0);
  return WIFEXITED(ws) ? WEXITSTATUS(ws) : 99;
}
#endif
