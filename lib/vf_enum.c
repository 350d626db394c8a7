/* Native bounded enumeration: runs the harness for every combination of its choices (depth-first, re-executing).
 * usage: enum <seconds> [workers]. Workers share the work by a hash of the first choices.
 * VF_FORKED: one child process per run (global state, working directory and exit calls stay in the child). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#define MAXC 512
#ifndef SPLIT /* choices before the work is divided: fewer than every run makes */
#define SPLIT 4
#endif
static struct { const char *name; long long lo, hi, cur; } c[MAXC];
static int nc, pos, nworkers = 1, me;
static jmp_buf jb;
static long runs, full;
extern void VF_ENTRY(void);
extern void __sanitizer_set_death_callback(void (*)(void));
static void dump(void) {
  for (int i = 0; i < pos; ++i) printf("CHOICE %s %lld\n", c[i].name, c[i].cur);
  fflush(stdout);
}
#ifdef VF_FORKED
static struct shared { int nc, pos, st; char msg[256]; __typeof__(c) c; } *sh;
static void outcome(int st, const char *msg) {
  sh->nc = nc; sh->pos = pos; memcpy(sh->c, c, sizeof(c));
  snprintf(sh->msg, sizeof(sh->msg), "%s", msg);
  sh->st = st;
}
static pid_t runner;
static void violated(const char *msg) { if (sh->st == 0) outcome(2, msg); _exit(0); }
static void f_exit(void) { if (sh->st == 0 && getpid() == runner) outcome(2, "process-ended-inside-the-run"); }
#else
static void violated(const char *msg) { printf("ENUM-VIOLATED %s\n", msg); dump(); _exit(10); }
#endif
static void death(void) {
#ifdef VF_FORKED
  if (sh->st == 0) outcome(2, "memory-safety (sanitizer)");
#else
  printf("ENUM-VIOLATED memory-safety (sanitizer)\n"); dump();
#endif
}
static void on_sig(int s) { violated(s == SIGALRM ? "hang" : "crash"); }
long long vf_range(const char *name, long long lo, long long hi) {
  if (hi < lo) longjmp(jb, 2);
  if (nworkers > 1 && pos == SPLIT) {
    unsigned h = 7;
    for (int i = 0; i < SPLIT; ++i) h = h * 1000003u + (unsigned) c[i].cur * 2654435761u + (h >> 15);
    if ((h >> 8) % nworkers != me) longjmp(jb, 4);
  }
  if (pos == nc) {
    if (nc >= MAXC) { printf("ENUM-ERROR too many choices\n"); fflush(stdout); _exit(3); }
    c[nc].name = name; c[nc].lo = lo; c[nc].hi = hi; c[nc].cur = lo; ++nc;
  }
  return c[pos++].cur;
}
long long vf_next(const char *name) { printf("ENUM-ERROR unbounded choice %s\n", name); fflush(stdout); _exit(3); }
void vf_violation(const char *id) { violated(id); }
void vf_assume_failed(const char *what) { longjmp(jb, 2); }
void vf_end(void) { longjmp(jb, 3); }

/* one run; result: 1 complete, 2 violated (already reported), 3 outside the assumptions, 4 another worker's */
static int one(void) {
#ifdef VF_FORKED
  int ws;
  sh->st = sh->pos = sh->nc = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    runner = getpid();
    setpgid(0, 0);
    __sanitizer_set_death_callback(death);
    signal(SIGALRM, on_sig); signal(SIGABRT, on_sig); signal(SIGSEGV, on_sig);
    alarm(VF_FORKED > 1 ? VF_FORKED : 20);
    pos = 0;
    atexit(f_exit);
    int r = setjmp(jb);
    if (r == 0) { VF_ENTRY(); outcome(1, ""); }
    else outcome(r == 2 ? 3 : r == 4 ? 4 : 1, "");
    _exit(0);
  }
  while (waitpid(pid, &ws, 0) < 0);
  kill(-pid, SIGKILL);
  if (sh->st == 0) { snprintf(sh->msg, sizeof(sh->msg), "run-died (status %d)", ws); sh->st = 2; }
  if (sh->pos) { memcpy(c, sh->c, sizeof(c)); nc = sh->nc; pos = sh->pos; } else pos = 0;
  if (sh->st == 2) { printf("ENUM-VIOLATED %s\n", sh->msg); dump(); }
  return sh->st;
#else
  pos = 0;
  if ((runs & 255) == 0) alarm(20);
  int r = setjmp(jb);
  if (r == 0) { VF_ENTRY(); return 1; }
  return r == 2 ? 3 : r == 4 ? 4 : 1;
#endif
}
static int worker(long lim) {
  time_t t0 = time(0);
#ifdef VF_FORKED
  sh = mmap(0, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#else
  __sanitizer_set_death_callback(death);
  signal(SIGALRM, on_sig); signal(SIGABRT, on_sig);
#endif
  for (;;) {
    int st = one();
    if (st == 2) return 10;
    if (st != 4) ++runs;
    if (st == 1) ++full;
    int i = pos - 1; /* choices beyond pos belong to an abandoned path */
    nc = pos;
    while (i >= 0 && c[i].cur >= c[i].hi) --i;
    if (i < 0) { printf("ENUM-OK runs=%ld complete=%ld exhaustive=1\n", runs, full); return 0; }
    ++c[i].cur;
    nc = i + 1;
#ifndef VF_FORKED
    if ((runs & 255) == 0)
#endif
    if (time(0) - t0 > lim) { printf("ENUM-OK runs=%ld complete=%ld exhaustive=0\n", runs, full); return 0; }
  }
}
int main(int argc, char **argv) {
  long lim = argc > 1 ? atol(argv[1]) : 60;
  nworkers = argc > 2 ? atoi(argv[2]) : 1;
  if (nworkers <= 1) return worker(lim);
  pid_t p[64];
  for (int i = 0; i < nworkers; ++i) {
    if ((p[i] = fork()) == 0) {
      char d[32], o[32];
      snprintf(d, sizeof(d), "w%d", i); snprintf(o, sizeof(o), "w%d.out", i);
      if (!freopen(o, "w", stdout) || mkdir(d, 0755) || chdir(d)) _exit(3);
      me = i;
      int rc = worker(lim);
      fflush(stdout);
      _exit(rc);
    }
  }
  int bad = -1, rc = 0, ex = 1;
  for (int k = 0; k < nworkers; ++k) {
    int ws;
    pid_t q = waitpid(-1, &ws, 0);
    int i = 0;
    while (i < nworkers && p[i] != q) ++i;
    if (!WIFEXITED(ws) || WEXITSTATUS(ws)) {
      if (bad < 0) { bad = i; rc = WIFEXITED(ws) ? WEXITSTATUS(ws) : 12; for (int j = 0; j < nworkers; ++j) if (p[j] != q) kill(p[j], SIGKILL); }
    }
  }
  char line[4096], o[32];
  for (int i = 0; i < nworkers; ++i) {
    if (bad >= 0 && i != bad) continue;
    snprintf(o, sizeof(o), "w%d.out", i);
    FILE *f = fopen(o, "r");
    while (f && fgets(line, sizeof(line), f)) {
      long a, b; int e;
      if (sscanf(line, "ENUM-OK runs=%ld complete=%ld exhaustive=%d", &a, &b, &e) == 3) { runs += a; full += b; ex &= e; }
      else fputs(line, stdout);
    }
  }
  if (bad < 0) printf("ENUM-OK runs=%ld complete=%ld exhaustive=%d\n", runs, full, ex);
  return rc;
}
