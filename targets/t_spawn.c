// External commands: their arguments and environment, capture of their output, and their status.
//@ entry: p_do props=C07,C08,C09 functions=spawn_do native=n_io link=* forked rename=spawn.c:_env_create,spawn.c:_args_create,spawn.c:_file_resolve_in_path unwind=13 fpr=spawn_do.function_pointer_call.1/h_in,spawn_do.function_pointer_call.2/h_out,spawn_do.function_pointer_call.3/h_err
//@ loop: spawn.c spawn_do 0 p_do
//@   __CPROVER_assigns(a)
//@   __CPROVER_loop_invariant(__CPROVER_same_object(a, args) && OFS(a) % sizeof(char*) == 0 && OFS(a) <= g_n * sizeof(char*))
//@ loop: spawn.c spawn_do 1 p_do
//@   __CPROVER_assigns(tow, len, __CPROVER_object_whole(buf), g_errno, g_in_left, g_in_n, g_in_werr)
//@   __CPROVER_loop_invariant(g_in_left == 0 || g_in_werr)
//@ loop: spawn.c spawn_do 2 p_do
//@   __CPROVER_assigns(wp, tow, len, g_errno, g_in_left, g_in_werr)
//@   __CPROVER_loop_invariant(tow >= 0 && tow == g_in_left && tow <= g_in_n && wp == buf + (g_in_n - tow) && g_in_n <= sizeof(buf) && !g_in_werr)
//@ loop: spawn.c spawn_do 3 p_do
//@   __CPROVER_assigns(c, rc, __CPROVER_object_whole(fds), __CPROVER_object_whole(buf), g_errno, g_left0, g_left1, g_pend, g_pend_fd, g_closed, g_pollerr)
//@   __CPROVER_loop_invariant(INV && !g_pend && rc == 0 && c == (fds[0].fd != -1) + (fds[1].fd != -1))
//@ loop: spawn.c spawn_do 4 p_do
//@   __CPROVER_assigns(i, c, __CPROVER_object_whole(fds), __CPROVER_object_whole(buf), g_errno, g_left0, g_left1, g_pend, g_pend_fd, g_closed)
//@   __CPROVER_loop_invariant(i >= 0 && i <= 2 && INV && !g_pend && c == (fds[0].fd != -1) + (fds[1].fd != -1))
//@   __CPROVER_loop_invariant((!(fds[0].revents & HUPS) || (fds[0].revents & POLLIN) || !g_left0) && (!(fds[1].revents & HUPS) || (fds[1].revents & POLLIN) || !g_left1))
//@ loop: spawn.c spawn_do 5 p_do
//@   __CPROVER_assigns(i, g_closed)
//@   __CPROVER_loop_invariant(i >= 0 && i <= 2 && (fds[0].fd == -1 || fds[0].fd == 10) && (fds[1].fd == -1 || fds[1].fd == 12))
//@   __CPROVER_loop_invariant(CL(fds[0].fd == -1 || i > 0, fds[1].fd == -1 || i > 1))
//@ loop: spawn.c spawn_do 6 p_do
//@   __CPROVER_assigns(s->wstatus, g_errno, g_waited, g_fails)
//@   __CPROVER_loop_invariant(!g_waited && g_fails == __CPROVER_loop_entry(g_fails))
//@ entry: p_args props=C09 functions=_args_create native=n_exec link=* forked unwind=6
//@ loop: spawn.c _args_create 0 p_args
//@   __CPROVER_assigns(i, __CPROVER_object_whole(args), g_at, g_slot)
//@   __CPROVER_loop_invariant(i >= 0 && i <= s->args.num && (g_k >= i || args[g_k] == g_item))
//@ entry: p_env props=C09 functions=_env_create native=n_exec link=* forked rename=spawn.c:_env_find unwind=13
//@ loop: spawn.c _env_create 0 p_env
//@   __CPROVER_assigns(ep, c)
//@   __CPROVER_loop_invariant(c >= 0 && c <= g_n && ep == environ + c)
//@ loop: spawn.c _env_create 1 p_env
//@   __CPROVER_assigns(i, it, __CPROVER_object_whole(nenv), g_want, g_removed, g_cnt, g_namelen, s->env.num)
//@   __CPROVER_loop_invariant(i >= 0 && i <= g_n && i <= c && it == environ + i && g_cnt == i && g_removed >= 0 && g_removed <= i && g_removed <= g_num0 && s->env.num == g_num0 - g_removed && (g_k >= i || nenv[g_k] == g_want))
//@ loop: spawn.c _env_create 2 p_env
//@   __CPROVER_assigns(c, i, __CPROVER_object_whole(nenv), g_ent)
//@   __CPROVER_loop_invariant(c >= 0 && c <= s->env.num && i == __CPROVER_loop_entry(i) + c && __CPROVER_loop_entry(i) >= 0 && __CPROVER_loop_entry(i) <= g_n && s->env.num <= g_num0 && (g_k >= __CPROVER_loop_entry(i) || nenv[g_k] == g_want) && (g_m >= c || nenv[__CPROVER_loop_entry(i) + g_m] == g_item))
//@ entry: p_find props=C09 functions=_env_find native=n_exec link=* forked unwind=6
//@ loop: spawn.c _env_find 0 p_find
//@   __CPROVER_assigns(i, g_at, g_eq, g_slot)
//@   __CPROVER_loop_invariant(i >= 0 && i <= s->env.num && !g_removed)
//@ entry: p_exit props=C07 functions=spawn_exit_code,spawn_set_wstatus native=n_io link=* forked unwind=2
//@ entry: n_io mode=native forked=10 link=* props=C07,C08 functions=spawn_do,spawn_exit_code nlimit=80 cost=9
//@ entry: n_exec mode=native forked link=* props=C09 functions=spawn_create,spawn_arg_add,spawn_env_set,spawn_env_path_prepend,_env_create,_args_create,_env_find,spawn_do nlimit=60 cost=9 N=2 NT=3
//@ assume: poll reports POLLIN together with a hangup while a pipe still holds data; read from a pipe fails only with EINTR/EAGAIN; writes to the command's input fail only when it no longer reads
//@ assume: fork, pipe, dup2, execve, waitpid behave as POSIX says; one added environment entry per name (spawn_env_set is not called twice with one name)
#include <errno.h>
#include <poll.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#ifdef VF_CBMC
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "spawn.h"
#include "ulist.h"
#include "pool.h"
#include "xstr.h"
#include "env.h"
#include "utils.h"
#define OFS(p) ((long) __CPROVER_POINTER_OFFSET(p))
struct env g_env;
static long g_namelen, g_n, g_k, g_m, g_num0, g_removed, g_cnt, g_at, g_eq; static char *g_ent, *g_slot, *g_two, *g_want, *g_item, *g_my, *g_dup;
static int g_errno;
#undef errno
#define errno g_errno
void* pool_alloc(struct pool *p, size_t n) { char *r = malloc(n); ASSUME(r); return r; }
static char g_x[1];
struct xstr* xstr_create_empty(void) { return (struct xstr*) g_x; }
void xstr_cat(struct xstr *x, const char *s) { }
char* xstr_ptr(struct xstr *x) { return g_x; }
void xstr_destroy(struct xstr *x) { }
int vf_puts(const char *s) { return 0; }
#define puts(s) vf_puts(s)
#define perror(s) ((void) 0)
#ifdef VF_REN__args_create
/* descriptors: 10/11 output pipe, 12/13 error pipe, 14/15 input pipe */
static long g_left0, g_left1, g_pend, g_pend_fd, g_in_left, g_in_n; static int g_in_werr, g_pollerr, g_waited, g_forked, g_execd, g_status, g_pipes, g_fails, g_dupd;
static unsigned g_closed; /* bit per descriptor */
static int g_nowait, g_has_in;
static char **g_args, **g_envp; static char *g_rfile;
#define FD(n) (1u << (n))
#define HUPS (POLLERR | POLLHUP | POLLNVAL)
#define CL(c0, c1) (g_closed == ((c0 ? FD(10) : 0) | (c1 ? FD(12) : 0) | FD(11) | FD(13) | (g_has_in ? FD(14) | FD(15) : 0)))
#define INV ((fds[0].fd == -1 || fds[0].fd == 10) && (fds[1].fd == -1 || fds[1].fd == 12) && fds[0].events == POLLIN && fds[1].events == POLLIN && \
  g_left0 >= 0 && g_left1 >= 0 && (fds[0].fd == 10 || !g_left0) && (fds[1].fd == 12 || !g_left1) && CL(fds[0].fd == -1, fds[1].fd == -1))
static char **_env_create(struct spawn *s) { return g_envp; }
static char **_args_create(struct spawn *s) { return g_args; }
static char *_file_resolve_in_path(struct spawn *s, const char *file, char *pathbuf) { return g_rfile; }
static int vf_pipe(int *p) {
  if (nd_bool("pipe-fails")) { g_errno = EMFILE; g_fails = 1; return -1; }
  int k = g_nowait ? 2 : g_pipes;
  ++g_pipes;
  p[0] = 10 + 2 * k; p[1] = 11 + 2 * k;
  return 0;
}
static int vf_fork(void) {
  ENSURE("spawn/pipes-before-fork", g_pipes == (g_nowait ? 0 : 2) + g_has_in);
  int r = nd_range("fork", -1, 1);
  if (r == -1) { g_errno = EAGAIN; g_fails = 1; } else g_forked = r == 0 ? 2 : 1;
  return r == 1 ? 77 : r;
}
static int vf_dup2(int a, int b) {
  if (nd_bool("dup-fails")) return -1;
  ENSURE("child/descriptors", (b == 0 && a == 14) || (b == 1 && a == 11) || (b == 2 && a == 13));
  g_dupd |= 1 << b;
  return b;
}
static int vf_close(int fd) {
  ENSURE("close/own-descriptor-once", fd >= 10 && fd <= 15 && !(g_closed & FD(fd)));
  g_closed |= FD(fd);
  return 0;
}
static int vf_execve(const char *f, char **a, char **e) {
  ENSURE("child/command-arguments-environment", a == g_args && e == g_envp && (f == g_args[0] || f == g_rfile) && g_forked == 2);
  ENSURE("child/output-connected", g_dupd == ((g_nowait ? 0 : 6) | (g_has_in ? 1 : 0)));
  g_execd = 1;
  return -1;
}
static void vf_exit(int c) { ENSURE("child/failed-start-is-reported", c != 0); VF_END(); while (1); }
static int vf_poll(struct pollfd *f, unsigned long n, int t) {
  ENSURE("poll/arguments", n == 2 && t == -1);
  if (nd_bool("poll-fails")) { g_errno = nd_bool("intr") ? EINTR : ENOMEM; if (g_errno != EINTR) g_pollerr = 1; return -1; }
  short a = nd_int("ev0"), b = nd_int("ev1");
  ASSUME(!(a & ~(POLLIN | POLLHUP)) && !(b & ~(POLLIN | POLLHUP)));
  ASSUME(f[0].fd != -1 || a == 0); ASSUME(f[1].fd != -1 || b == 0);
  ASSUME(!(a & POLLHUP) || (a & POLLIN) || !g_left0); ASSUME(!(b & POLLHUP) || (b & POLLIN) || !g_left1);
  f[0].revents = a; f[1].revents = b;
  return 1;
}
static ssize_t vf_read(int fd, void *b, size_t n) {
  ENSURE("read/from-open-pipe", (fd == 10 || fd == 12) && !(g_closed & FD(fd)) && !g_pend);
  ENSURE("read/room", n > 0 && __CPROVER_w_ok(b, n));
  if (nd_bool("read-fails")) { g_errno = nd_bool("intr") ? EINTR : EAGAIN; return -1; }
  long left = fd == 10 ? g_left0 : g_left1;
  if (left == 0) return 0;
  long r = nd_range("read", 1, left < n ? left : n);
  __CPROVER_havoc_object(b);
  if (fd == 10) g_left0 -= r; else g_left1 -= r;
  g_pend = r; g_pend_fd = fd;
  return r;
}
static void take(int fd, char *buf, size_t n) {
  ENSURE("output/delivered-exactly-as-read", g_pend_fd == fd && g_pend == n && buf[n] == 0);
  g_pend = 0;
}
static void h_out(char *buf, size_t n, struct spawn *s) { take(10, buf, n); }
static void h_err(char *buf, size_t n, struct spawn *s) { take(12, buf, n); }
static size_t h_in(char *buf, size_t n, struct spawn *s) {
  ENSURE("input/previous-piece-written", g_in_left == 0 || g_in_werr);
  __CPROVER_havoc_object(buf);
  g_in_n = nd_range("in", 0, n); g_in_left = g_in_n; g_in_werr = 0;
  return g_in_n;
}
static ssize_t vf_write(int fd, const void *b, size_t n) {
  ENSURE("input/written-from-where-the-last-write-stopped", fd == 15 && n == g_in_left && OFS(b) == g_in_n - g_in_left);
  if (nd_bool("write-fails")) { int k = nd_range("werr", 0, 2); g_errno = k == 0 ? EINTR : k == 1 ? EAGAIN : EPIPE; if (k == 2) g_in_werr = 1; return -1; }
  long r = nd_range("write", 1, n);
  g_in_left -= r;
  return r;
}
static int vf_waitpid(int pid, int *st, int o) {
  ENSURE("wait/own-child", pid == 77 && o == 0 && g_forked == 1 && !g_waited);
  if (nd_bool("wait-fails")) { g_errno = nd_bool("intr") ? EINTR : ECHILD; if (g_errno != EINTR) g_fails = 1; return -1; }
  g_waited = 1; *st = g_status;
  return pid;
}
#define pipe(p) vf_pipe(p)
#define fork() vf_fork()
#define dup2(a, b) vf_dup2(a, b)
#define close(f) vf_close(f)
#define execve(a, b, c) vf_execve(a, b, c)
#define _exit(c) vf_exit(c)
#define poll(a, b, c) vf_poll(a, b, c)
#define read(a, b, c) vf_read(a, b, c)
#define write(a, b, c) vf_write(a, b, c)
#define waitpid(a, b, c) vf_waitpid(a, b, c)
#define strchr(s, c) (g_rfile ? (char*) 0 : (char*) (s))
#endif
#ifdef VF_REN__env_find
static char *_env_find(struct spawn *s, const char *key, size_t keylen);
char* pool_strdup(struct pool *p, const char *s);
#endif
void* ulist_get(const struct ulist *l, unsigned i);
void ulist_remove(struct ulist *l, unsigned i);
#ifndef VF_REN__args_create
static int vf_strncmp(const char *a, const char *b, size_t n);
static char *vf_strchr(const char *a, int c);
#define strncmp vf_strncmp
#define strchr(a, c) vf_strchr(a, c)
#endif
#include "spawn.c"
#ifdef VF_REN__args_create
void p_do(void) {
  VF_START();
  struct spawn s = { 0 };
  g_n = nd_range("args", 1, 1000000);
  g_args = malloc((g_n + 1) * sizeof(char*));
  ASSUME(g_args);
  g_args[g_n] = 0;
  ASSUME(g_args[0] != 0);
  g_envp = 0;
  static char rf[2];
  int inpath = nd_bool("search-path");
  g_rfile = inpath && nd_bool("found") ? (char*) rf : 0;
  g_nowait = nd_bool("nowait"); g_has_in = nd_bool("input");
  g_left0 = nd_range("out", 0, 1000000000); g_left1 = nd_range("err", 0, 1000000000);
  g_pend = g_in_left = g_in_n = g_in_werr = g_pollerr = g_waited = g_forked = g_execd = g_pipes = g_fails = g_dupd = 0; g_closed = 0;
  g_status = nd_int("status");
  s.nowait = g_nowait; s.pid = -1;
  s.stdin_provider = g_has_in ? h_in : 0;
  s.stdout_handler = h_out; s.stderr_handler = h_err;
  int rc = spawn_do(&s);
  REACH("do");
  ENSURE("spawn/child-never-returns", g_forked != 2);
  ENSURE("spawn/failure-to-start-is-an-error", rc != 0 || (g_forked == 1 && s.pid == 77));
  ENSURE("spawn/failure-is-an-error", !g_fails || rc != 0);
  if (rc == 0 && !g_nowait) {
    ENSURE("spawn/status-is-the-child's", g_waited && s.wstatus == g_status);
    ENSURE("output/complete", g_left0 == 0 && g_left1 == 0 && !g_pend);
  }
  if (g_forked == 1) {
    ENSURE("spawn/no-descriptor-left-open", g_closed == ((g_nowait ? 0 : FD(10) | FD(11) | FD(12) | FD(13)) | (g_has_in ? FD(14) | FD(15) : 0)));
    ENSURE("spawn/succeeds-when-nothing-fails", rc == 0 || g_fails || g_pollerr);
    ENSURE("input/complete", !g_has_in || g_in_left == 0 || g_in_werr);
  }
}
#else
void p_exit(void) {
  VF_START();
  struct spawn s;
  int w = nd_int("status");
  spawn_set_wstatus(&s, w);
  int c = spawn_exit_code(&s);
  REACH("exit");
  /* wait(2): low seven bits zero for a normal exit, the exit status in the next byte */
  ENSURE("exit/zero-only-for-a-normal-exit-with-status-zero", (c == 0) == ((w & 0x7f) == 0 && ((w >> 8) & 0xff) == 0));
  ENSURE("exit/status", (w & 0x7f) != 0 || c == ((w >> 8) & 0xff));
}
void p_args(void) {
  VF_START();
  struct spawn s;
  s.args.num = nd_range("num", 0, 1000000);
  g_k = nd_range("k", 0, 1000000);
  ASSUME(g_k < s.args.num);
  char it[1]; g_item = it;
  char **a = _args_create(&s);
  REACH("args");
  ENSURE("args/every-argument-in-its-place", a[g_k] == g_item);
  ENSURE("args/terminated", a[s.args.num] == 0);
}
#ifndef VF_REN__env_find
void* ulist_get(const struct ulist *l, unsigned i) {
  ENSURE("list/index", i < l->num);
  g_at = i;
  static char other[1];
  g_slot = i == g_k || g_at < 0 ? g_item : g_dup;
  return &g_slot;
}
void ulist_remove(struct ulist *l, unsigned i) { ENSURE("find/removes-the-match", i == g_at && g_eq); g_removed = 1; }
static int vf_strncmp(const char *a, const char *b, size_t n) { g_eq = nd_bool("eq"); return !g_eq; }
static char *vf_strchr(const char *a, int c) { return 0; }
void p_find(void) {
  VF_START();
  struct spawn s;
  s.env.num = nd_range("num", 0, 1000000);
  size_t n = nd_range("keylen", 0, 1000);
  char e[1001], f[1001], key[1];
  g_item = e; g_dup = f; g_k = nd_range("k", 0, 1000000); g_removed = 0; g_eq = 0;
  char *r = _env_find(&s, key, n);
  REACH("find");
  ENSURE("find/empty-name", n > 0 || r == 0);
  ENSURE("find/match", r == 0 || (g_removed && g_eq && r[n] == '=' && r == g_slot));
  ENSURE("find/kept-otherwise", r != 0 || !g_removed);
}
#else
void* ulist_get(const struct ulist *l, unsigned i) {
  ENSURE("list/index", i < l->num);
  g_ent = i == g_m ? g_item : g_dup;
  return &g_ent;
}
static int vf_strncmp(const char *a, const char *b, size_t n) { return 0; }
static char *vf_strchr(const char *a, int c) { ENSURE("env/name", c == '='); if (g_cnt++ == g_k) g_want = g_dup; g_namelen = nd_range("name", 0, 100); return nd_bool("has-name") ? (char*) a + g_namelen : 0; }
/* witness bookkeeping: the entry under test is environ[g_k] */
static char *_env_find(struct spawn *s, const char *key, size_t keylen) {
  int f = s->env.num > 0 && nd_bool("found");
  ENSURE("env/searched-by-the-entry's-name", (key == g_two) == (g_cnt == g_k + 1) && keylen == g_namelen);
  if (g_cnt == g_k + 1 && f) g_want = g_my;
  if (f) { ++g_removed; --s->env.num; }
  return f ? g_my : 0;
}
char* pool_strdup(struct pool *p, const char *e) {
  ENSURE("env/entry-copied-in-its-place", (e == g_two) == (g_cnt == g_k + 1));
  return g_dup;
}
char **environ;
void p_env(void) {
  VF_START();
  struct spawn s;
  s.path_overriden = 0;
  g_n = nd_range("env", 0, 1000000);
  environ = malloc((g_n + 1) * sizeof(char*));
  ASSUME(environ);
  char one[128], two[128], my[1], dup[1], it[1]; g_my = my; g_dup = dup; g_item = it; g_two = two;
  g_k = nd_range("k", 0, 1000000); g_m = nd_range("m", 0, 1000000);
  ASSUME(g_k < g_n);
  __CPROVER_array_set(environ, (char*) one);
  environ[g_k] = two;
  environ[g_n] = 0;
  s.env.num = g_num0 = nd_range("num", 0, 1000000);
  g_want = 0; g_removed = g_cnt = 0;
  char **e = _env_create(&s);
  REACH("env");
  ENSURE("env/all-inherited-entries-taken", g_cnt == g_n);
  ENSURE("env/every-inherited-entry-once", g_k >= g_cnt || e[g_k] == g_want);
  long rest = g_num0 - g_removed;
  ENSURE("env/additions-follow", g_m >= rest || e[g_cnt + g_m] == g_item);
  ENSURE("env/terminated", e[g_cnt + rest] == 0);
}
#endif
#endif
#else
#include <stdarg.h>
#include <sys/syscall.h>
static int g_fatal_code;
#define VF_ON_FATAL(code) (g_fatal_code = (code))
#include "vf.h"
#include "vf_log.h"
#include "env.h"
#include "spawn.h"
#include "utils.h"
static int g_faulty, g_cnt[4], g_at[4], g_err[4], g_wait_first, g_short, g_real;
static pid_t g_child;
enum { POLL, READ, WAIT, WRITE };
static int inject(int k) {
  if (!g_real && g_at[k] >= 0 && g_cnt[k]++ == g_at[k]) { errno = g_err[k]; return 1; }
  return 0;
}
/* the real calls, interrupted or split where the operating system may do so */
int poll(struct pollfd *f, nfds_t n, int t) {
  if (inject(POLL)) return -1;
  if (g_wait_first) { siginfo_t si; syscall(SYS_waitid, P_PID, g_child, &si, WEXITED | WNOWAIT, 0); }
  return syscall(SYS_poll, f, n, t);
}
ssize_t read(int fd, void *b, size_t n) {
  if (fd > 2 && inject(READ)) return -1;
  return syscall(SYS_read, fd, b, fd > 2 && g_short && n > 100 ? 100 : n);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (fd > 2 && inject(WRITE)) return -1;
  return syscall(SYS_write, fd, b, fd > 2 && g_short && n > 100 ? 100 : n);
}
pid_t waitpid(pid_t p, int *st, int o) {
  if (inject(WAIT)) return -1;
  return syscall(SYS_wait4, p, st, o, 0);
}
static char **g_xargs, **g_xenv; static const char *g_xfile; static int g_nofork;
int execve(const char *f, char *const *a, char *const *e) {
  if (g_nofork) { g_xargs = (char**) a; g_xenv = (char**) e; g_xfile = f; extern void checked(void); checked(); vf_end(); }
  return syscall(SYS_execve, f, a, e);
}
pid_t fork(void) {
  if (g_nofork) return 0;
  return g_child = syscall(SYS_fork);
}
static char G[2][8192], W[2][8192], I[4096]; static size_t gn[2], wn[2], in, ip;
static void get(int k, char *b, size_t n) {
  ENSURE("output/amount", gn[k] + n <= wn[k]);
  memcpy(G[k] + gn[k], b, n); gn[k] += n;
}
static void h_out(char *b, size_t n, struct spawn *s) { get(0, b, n); }
static void h_err(char *b, size_t n, struct spawn *s) { get(1, b, n); }
static size_t h_in(char *b, size_t n, struct spawn *s) { size_t m = in - ip < n ? in - ip : n; memcpy(b, I + ip, m); ip += m; return m; }
void n_io(void) {
  static const int SZ[] = { 0, 5, 1023, 1024, 3000, 7000 }, E[] = { EINTR, EAGAIN };
  g_real = 1;
  if (!freopen("/dev/null", "w", stdout)) _exit(3);
  int ending = nd_range("ending", 0, 4); /* 0: success, 1: failure, 2: signal, 3: program missing, 4: not executable */
  int input = ending == 0 && nd_bool("input");
  wn[0] = SZ[nd_range("out", 0, 5)]; wn[1] = input ? 0 : SZ[nd_range("err", 0, 2) * 2];
  for (int k = 0; k < 2; ++k) for (size_t i = 0; i < wn[k]; ++i) W[k][i] = 33 + (i * 7 + i / 90 + k) % 90;
  int fault = nd_range("fault", 0, 4), ri = fault == 2 && nd_bool("second");
  for (int i = 0; i < 4; ++i) g_at[i] = -1;
  if (fault) { g_at[fault - 1] = ri; g_err[fault - 1] = fault == 2 ? E[nd_bool("again")] : EINTR; }
  if (fault == 4 && !input) vf_end();
  g_short = nd_bool("short");
  g_wait_first = !input && nd_bool("late-reader");
  struct spawn *s;
  if (ending == 3) s = spawn_create("no-such-program-anywhere", 0);
  else if (ending == 4) { FILE *f = fopen("prog", "w"); fclose(f); s = spawn_create("./prog", 0); }
  else if (input) { s = spawn_create("/bin/cat", 0); in = wn[0] > 4000 ? 4000 : wn[0]; wn[0] = in; memcpy(I, W[0], in); spawn_set_stdin_provider(s, h_in); }
  else {
    s = spawn_create("/bin/sh", 0);
    spawn_arg_add(s, "-c");
    spawn_arg_add(s, ending == 1 ? "printf %s \"$0\"; printf %s \"$1\" >&2; exit $2" : ending == 2 ? "printf %s \"$0\"; printf %s \"$1\" >&2; kill -$2 $$" :
                     "printf %s \"$0\"; printf %s \"$1\" >&2");
    spawn_arg_add(s, wn[0] ? W[0] : "''"); spawn_arg_add(s, wn[1] ? W[1] : "''");
    if (!wn[0]) { memcpy(W[0], "''", 2); wn[0] = 2; }
    if (!wn[1]) { memcpy(W[1], "''", 2); wn[1] = 2; }
    spawn_arg_add(s, ending == 1 ? (nd_bool("status") ? "1" : "255") : nd_bool("signal") ? "9" : "15");
  }
  spawn_set_stdout_handler(s, h_out); spawn_set_stderr_handler(s, h_err);
  if (ending > 2) wn[0] = wn[1] = ending == 4 ? 100 : 0;
  g_real = 0;
  int rc = spawn_do(s);
  g_real = 1;
  if (ending > 2) { ENSURE("status/failure-to-start-is-not-success", rc != 0 || spawn_exit_code(s) != 0); return; }
  ENSURE("status/interruptions-are-not-failures", rc == 0);
  ENSURE("status/success-only-for-a-normal-exit-with-status-zero", (spawn_exit_code(s) == 0) == (ending == 0));
  ENSURE("output/complete-and-in-order", gn[0] == wn[0] && !memcmp(G[0], W[0], wn[0]));
  ENSURE("error-output/complete-and-in-order", gn[1] == wn[1] && !memcmp(G[1], W[1], wn[1]));
  spawn_destroy(s);
}
/* arguments and environment of the started program */
static char wa[32][32]; static int nwa, over_used; static char path0[64], pathw[128];
static char *envv[8]; static int nenv;
static struct { const char *k, *v; } ov[4]; static int nov;
static int namelen(const char *e) { const char *p = strchr(e, '='); return p ? (int) (p - e) : -1; }
void checked(void) {
  int i = 0;
  for (; g_xargs[i]; ++i) ENSURE("args/each-unchanged-in-order", i < nwa && !strcmp(g_xargs[i], wa[i]));
  ENSURE("args/none-missing", i == nwa);
  int used[64] = { 0 }, ne = 0;
  while (g_xenv[ne]) ++ne;
  for (int j = 0; j < nenv; ++j) {
    int l = namelen(envv[j]), o = -1;
    for (int k = 0; k < nov; ++k) if (l > 0 && !strncmp(ov[k].k, envv[j], l) && !ov[k].k[l]) o = k;
    if (o >= 0) continue;
    if (l == 4 && !strncmp(envv[j], "PATH", 4) && pathw[0]) continue;
    int f = 0;
    for (int k = 0; k < ne && !f; ++k) if (!used[k] && !strcmp(g_xenv[k], envv[j])) used[k] = f = 1;
    ENSURE("environment/inherited-variable-kept", f);
  }
  for (int k = 0; k < nov + (pathw[0] != 0); ++k) {
    char w[256]; int f = 0;
    if (k < nov) snprintf(w, sizeof(w), "%s=%s", ov[k].k, ov[k].v); else snprintf(w, sizeof(w), "PATH=%s", pathw);
    for (int j = 0; j < ne && !f; ++j) if (!used[j] && !strcmp(g_xenv[j], w)) used[j] = f = 1;
    ENSURE("environment/addition-present", f);
  }
  for (int j = 0; j < ne; ++j) ENSURE("environment/nothing-else", used[j]);
}
extern char **environ;
void n_exec(void) {
  static char *EV[] = { "A=1", "AB=2=3", "NOEQ", "=x", "B=", "PATH=/p:/q" };
  static const char *OK[] = { "A", "AB", "NOEQ", "P" }, *OV[] = { "n", "", "x=y" };
  static const char *AR[] = { "x", "", "a b", "\1l1\1l 2", "\1", "-c" };
  g_real = 1;
  if (!freopen("/dev/null", "w", stdout)) _exit(3);
  int what = nd_bool("environment"), havepath = 0;
  if (what) {
    int m = nd_range("inherited", 0, 63), first = nd_range("rotate", 0, 1) * 3;
    for (int i = 0; i < 6; ++i) { int j = (i + first) % 6; if (m >> j & 1) { envv[nenv++] = EV[j]; if (j == 5) havepath = 1; } }
    int om = nd_range("overrides", 0, 15), ro = nd_bool("reverse");
    for (int i = 0; i < 4; ++i) { int j = ro ? 3 - i : i; if (om >> j & 1) { ov[nov].k = OK[j]; ov[nov].v = OV[nd_range("value", 0, i == 0 ? 2 : 0)]; ++nov; } }
  }
  envv[nenv] = 0; environ = envv;
  memset(&g_env, 0, sizeof(g_env));
  int cd = what && nd_bool("cache-dir"), pp = what ? nd_range("prepended", 0, 2) : 0;
  if (cd) g_env.project.cache_dir = "/cache";
  strcpy(pathw, "");
  struct spawn *s = spawn_create("/bin/prog", 0);
  strcpy(wa[nwa++], "/bin/prog");
  if (cd) strcpy(pathw, havepath ? "/cache:/p:/q" : "/cache");
  for (int i = 0; i < pp; ++i) {
    char d[8], t[128]; snprintf(d, 8, "/d%d", i); spawn_env_path_prepend(s, d);
    if (pathw[0] || havepath) snprintf(t, 128, "%s:%s", d, pathw[0] ? pathw : "/p:/q"); else strcpy(t, d);
    strcpy(pathw, t);
  }
  for (int i = 0; i < nov; ++i) spawn_env_set(s, ov[i].k, ov[i].v);
  int na = what ? 0 : nd_range("args", 0, VF_N + 2);
  for (int i = 0; i < na; ++i) {
    int a = nd_range("arg", 0, 5);
    char tmp[16]; strcpy(tmp, AR[a]);
    spawn_arg_add(s, tmp);
    memset(tmp, '#', 15); /* the caller's buffer may go away */
    if (a == 0) strcpy(wa[nwa++], "x"); else if (a == 2) strcpy(wa[nwa++], "a b"); else if (a == 5) strcpy(wa[nwa++], "-c");
    else if (a == 3) { strcpy(wa[nwa++], "l1"); strcpy(wa[nwa++], "l 2"); }
  }
  ENSURE("args/search-exact", spawn_arg_exists(s, "l1") == (({ int f = 0; for (int i = 0; i < nwa; ++i) f |= !strcmp(wa[i], "l1"); f; })));
  ENSURE("args/search-prefix", spawn_arg_starts_with(s, "-") == (({ int f = 0; for (int i = 0; i < nwa; ++i) f |= wa[i][0] == '-'; f; })));
  spawn_set_nowait(s, 1);
  g_nofork = 1;
  spawn_do(s);
  ENSURE("program-started", 0);
}
#endif
