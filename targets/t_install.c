// Installation: which files are installed where, byte by byte, and what happens when a system call fails.
//@ entry: p_file props=C24 functions=_install_file defs=VF_IF native=n_install link=* forked unwind=13 solver=cvc5
//@ loop: node_install.c _install_file 0 p_file
//@   __CPROVER_assigns(r, __CPROVER_object_whole(buf), g_errno, g_rpos, g_wpos, g_wk, g_fault, g_eof)
//@   __CPROVER_loop_invariant(g_rpos <= g_len && g_wpos == g_rpos && !g_fault && !g_eof && g_in == 1 && g_out == 1 && g_dst == D_OPEN)
//@   __CPROVER_loop_invariant(g_k >= g_wpos || g_wk == g_data[g_k])
//@ loop: node_install.c _install_file 1 p_file
//@   __CPROVER_assigns(w, tow, g_errno, g_wpos, g_wk, g_fault)
//@   __CPROVER_loop_invariant(tow >= 0 && tow <= r && g_wpos + (size_t) tow == g_rpos && !g_fault && (g_k >= g_wpos || g_wk == g_data[g_k]))
//@ entry: p_link props=C24 functions=_install_symlink defs=VF_IL native=n_install link=* forked unwind=13
//@ entry: p_do props=C24 functions=_install_do,_install_dep_add defs=VF_ID rename=node_install.c:_install_file,node_install.c:_install_symlink native=n_install link=* forked unwind=13
//@ entry: p_resolve props=C24 functions=_install_on_resolve defs=VF_IR rename=node_install.c:_install_do,node_install.c:_install_dep_add native=n_install link=* forked unwind=15
//@ loop: node_install.c _install_on_resolve 0 p_resolve
//@   __CPROVER_assigns(i, slist, rlist.num, g_rl, g_at, g_ph, g_rn, g_rw, g_full, g_seen_w, U.flags, U.path)
//@   __CPROVER_loop_invariant(i >= 0 && i <= r->resolve_outdated.num && g_rn == i && rlist.num == i && (g_rl == 0 || g_rl == &rlist) && g_ph == 0 && !g_full && (i == 0 ? slist == CL : slist == g_rl && g_rl != 0 && g_rl != CL) && (g_seen_w == (g_wo < i)) && g_rw == g_seen_w && (!g_seen_w || g_wflag == 's'))
//@ loop: node_install.c _install_on_resolve 1 p_resolve
//@   __CPROVER_assigns(i, g_at, g_ph, g_cp, g_icnt, g_idone)
//@   __CPROVER_loop_invariant(i >= 0 && g_ph == 0 && g_icnt == i && i <= slist->num && (g_idone == (slist == CL ? g_wc < i : g_wo < i)))
//@ loop: node_install.c _install_on_resolve 2 p_resolve
//@   __CPROVER_assigns(i, g_at, g_ph, NV, g_gotval, g_ntrack)
//@   __CPROVER_loop_invariant(i >= 0 && i <= r->node_val_deps.num && g_ph == 0 && g_ntrack == i)
//@ loop: node_install.c _install_on_resolve 3 p_resolve
//@   __CPROVER_assigns(i, g_at, g_ph, g_cp, g_nrec)
//@   __CPROVER_loop_invariant(i >= 0 && i <= CL->num && g_ph == 0 && g_nrec == i)
//@ entry: p_collect props=C24 functions=_install_on_consumed_resolved defs=VF_IC native=n_install link=* forked unwind=13
//@ loop: node_install.c _install_on_consumed_resolved 0 p_collect
//@   __CPROVER_assigns(i, g_at, g_ph, g_cp, g_cl, g_samepath, g_samename, g_fault)
//@   __CPROVER_loop_invariant(i >= 0 && i <= ctx->consumes.num && g_ph == 0 && !g_fault && g_cl == (g_w < i))
//@ entry: p_setup props=C24 functions=node_install_setup defs=VF_IS native=n_install link=* forked unwind=13
//@ entry: n_install mode=native forked=60 link=* props=C24 functions=_install_on_resolve,_install_do,_install_file,_install_symlink,_install_dep_add,_install_post_build,node_install_setup,_install_on_consumed_resolved nlimit=90 cost=10
//@ entry: n_change mode=native forked=60 link=* props=C24,C03 functions=_install_on_resolve,_install_dep_add,_install_post_build,node_resolve nlimit=90 cost=10 N=2 NT=3
//@ assume: read(2) returns 0 for a regular file only at its end; the files are not changed by others during the installation
#ifdef VF_CBMC
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "script.h"
#include "env.h"
#include "pool.h"
#include "paths.h"
#include "utils.h"
#include "ulist.h"
#include "alloc.h"
#include "deps.h"
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <limits.h>
#include <stdio.h>
#include <sys/stat.h>
static char g_nb[2]; static int g_errno, g_fault;
#define NP ((struct node*) &g_nb[0])
#undef errno
#define errno g_errno
void node_info(struct node *n, const char *fmt, ...) { }
void node_fatal(int rc, struct node *n, const char *fmt, ...) {
  ENSURE("install/fails-only-for-a-reason", g_fault && n == NP);
  VF_END(); while (1);
}
#if defined(VF_IF)
/* the destination: nothing, a regular file, a link, or the source file itself; opened for writing: D_OPEN */
enum { D_NONE, D_FILE, D_LINK, D_SAME, D_OPEN, D_CLOSED };
static char *g_data, g_wk, g_src[2], g_dstp[2]; static size_t g_len, g_rpos, g_wpos, g_k; static int g_in, g_out, g_dst, g_dst0, g_eof, g_moded, g_kept;
static mode_t g_mode; static struct stat ST;
static int vf_lstat(const char *p, struct stat *s) {
  ENSURE("file/destination-is-looked-at", p == g_dstp && g_out == 0);
  if (g_dst == D_NONE) { g_errno = ENOENT; return -1; }
  s->st_mode = g_dst == D_LINK ? S_IFLNK | 0777 : S_IFREG | (nd_uint("dmode") & 07777);
  s->st_dev = nd_ll("ddev"); s->st_ino = nd_ll("dino");
  if (g_dst == D_SAME) { s->st_dev = ST.st_dev; s->st_ino = ST.st_ino; }
  else ASSUME(s->st_dev != ST.st_dev || s->st_ino != ST.st_ino);
  return 0;
}
#define lstat(p, s) vf_lstat(p, s)
static int vf_unlink(const char *p) {
  ENSURE("file/only-the-destination-is-removed", p == g_dstp && g_dst != D_SAME && g_out == 0);
  if (nd_bool("unlink-fails")) { g_fault = 1; g_errno = EACCES; return -1; }
  g_dst = D_NONE; return 0;
}
static int vf_open(const char *p, int fl, unsigned mode) {
  if (p == g_src) {
    ENSURE("file/source-for-reading", (fl & (O_ACCMODE | O_TRUNC)) == O_RDONLY && !g_in);
    if (nd_bool("in-fails")) { g_fault = 1; g_errno = EACCES; return -1; }
    g_in = 1; return 5;
  }
  ENSURE("file/destination-for-writing", p == g_dstp && (fl & O_ACCMODE) != O_RDONLY && (fl & O_CREAT) && !g_out);
  ENSURE("file/not-through-a-link", g_dst != D_LINK || (fl & (O_NOFOLLOW | O_EXCL)));
  ENSURE("file/source-not-wiped", g_dst != D_SAME);
  if (nd_bool("out-fails") || g_dst == D_LINK) { g_fault = 1; g_errno = EACCES; return -1; }
  ENSURE("file/earlier-content-dropped", g_dst == D_NONE || (fl & O_TRUNC));
  g_mode = g_dst == D_NONE ? mode & ~nd_uint("umask") & 07777 : nd_uint("oldmode");
  g_out = 1; g_dst = D_OPEN; return 6;
}
#define open(p, f, ...) vf_open(p, f, 0 __VA_OPT__(+ (__VA_ARGS__)))
#define unlink vf_unlink
static int injected(void) {
  if (!nd_bool("fault")) return 0;
  g_errno = nd_bool("again") ? EAGAIN : nd_bool("intr") ? EINTR : EIO;
  if (g_errno != EAGAIN) g_fault = 1;
  return 1;
}
static ssize_t vf_read(int fd, void *b, size_t n) {
  ENSURE("file/reads-the-source", fd == 5 && g_in == 1);
  if (injected()) return -1;
  size_t m = g_len - g_rpos < n ? g_len - g_rpos : n;
  if (m == 0) { g_eof = 1; return 0; }
  ssize_t r = (ssize_t) nd_range("read", 1, (long long) m);
  ENSURE("file/buffer-valid", __CPROVER_w_ok(b, n));
  __CPROVER_havoc_object(b);
  if (g_k >= g_rpos && g_k < g_rpos + (size_t) r) ASSUME(((char*) b)[g_k - g_rpos] == g_data[g_k]);
  g_rpos += r;
  return r;
}
static ssize_t vf_write(int fd, const void *b, size_t n) {
  ENSURE("file/writes-the-destination", fd == 6 && g_out == 1);
  if (injected()) return -1;
  ssize_t r = n ? (ssize_t) nd_range("write", 1, (long long) n) : 0;
  ENSURE("file/written-bytes-valid", r == 0 || __CPROVER_r_ok(b, r));
  if (g_k >= g_wpos && g_k < g_wpos + (size_t) r) g_wk = ((const char*) b)[g_k - g_wpos];
  g_wpos += r;
  return r;
}
static int vf_fchmod(int fd, mode_t m) {
  ENSURE("file/mode-of-the-destination", fd == 6 && g_out == 1);
  if (nd_bool("fchmod-fails")) { g_fault = 1; g_errno = EPERM; return -1; }
  g_mode = m & 07777; return 0;
}
static int vf_futimens(int fd, const struct timespec *t) { ENSURE("file/times-of-the-destination", fd == 6 && g_out == 1); return nd_bool("futimens-fails") ? -1 : 0; }
static int vf_close(int fd) {
  if (fd == 5) { ENSURE("file/closed-once", g_in == 1); g_in = 2; return nd_bool("close-in") ? -1 : 0; }
  ENSURE("file/destination-closed-once", fd == 6 && g_out == 1);
  g_out = 2;
  if (nd_bool("close-fails")) { g_fault = 1; g_errno = EIO; return -1; }
  return 0;
}
#define read vf_read
#define write vf_write
#define fchmod vf_fchmod
#define futimens vf_futimens
#define close vf_close
#include "node_install.c"
void p_file(void) {
  VF_START();
  static struct _install_on_resolve_ctx C;
  g_len = nd_size("len"); ASSUME(g_len <= VF_BIG);
  g_data = vf_bytes(g_len + 1);
  g_k = nd_size("k"); ASSUME(g_k < g_len || g_len == 0);
  g_rpos = g_wpos = 0; g_in = g_out = g_eof = g_fault = g_errno = 0; g_wk = 0;
  g_dst = g_dst0 = nd_range("dst", D_NONE, D_SAME);
  ST.st_mode = S_IFREG | (nd_uint("mode") & 07777); ST.st_dev = nd_ll("dev"); ST.st_ino = nd_ll("ino");
  C.n = NP;
  _install_file(&C, g_src, g_dstp, &ST);
  REACH("file");
  ENSURE("file/no-error-goes-unnoticed", !g_fault);
  ENSURE("file/source-as-it-is-or-copied", g_dst0 == D_SAME ? !g_out && g_dst == D_SAME : g_out == 2);
  ENSURE("file/complete", !g_out || (g_eof && g_rpos == g_len && g_wpos == g_len));
  ENSURE("file/same-bytes", !g_out || g_k >= g_len || g_wk == g_data[g_k]);
  ENSURE("file/same-permissions", !g_out || g_mode == (ST.st_mode & 07777));
  ENSURE("file/descriptors-closed", g_in != 1 && g_out != 1);
}
#elif defined(VF_IL)
/* a link: its text has g_len characters; the destination: nothing, something that can be removed, something that cannot */
static char g_src[2], g_dstp[2], g_wk, g_ck; static int g_len, g_dst, g_k, g_read, g_removable;
static ssize_t vf_readlink(const char *p, char *b, size_t n) {
  ENSURE("link/reads-the-source", p == g_src && !g_read && __CPROVER_w_ok(b, n) && n >= PATH_MAX - 1);
  if (nd_bool("readlink-fails")) { g_fault = 1; g_errno = EACCES; return -1; }
  g_read = 1;
  __CPROVER_havoc_object(b);
  ASSUME(b[g_k] == g_ck);
  return g_len;
}
static int vf_symlink(const char *t, const char *p) {
  ENSURE("link/at-the-destination", p == g_dstp && g_read && g_dst != 2);
  ENSURE("link/same-target", __CPROVER_r_ok(t, g_len + 1) && t[g_k] == g_ck && t[g_len] == 0);
  if (g_dst == 1) { g_errno = EEXIST; if (!g_removable) g_fault = 1; return -1; }
  if (nd_bool("symlink-fails")) { g_errno = EACCES; g_fault = 1; return -1; }
  g_dst = 2; return 0;
}
static int vf_unlink(const char *p) {
  ENSURE("link/only-the-destination-is-removed", p == g_dstp && g_dst != 2);
  if (!g_removable) { g_errno = EISDIR; return -1; }
  g_dst = 0; return 0;
}
static int vf_utimensat(int d, const char *p, const struct timespec *t, int fl) { ENSURE("link/times-of-the-link", p == g_dstp && (fl & AT_SYMLINK_NOFOLLOW)); return nd_bool("ut") ? -1 : 0; }
#define readlink vf_readlink
#define symlink vf_symlink
#define unlink vf_unlink
#define utimensat vf_utimensat
#include "node_install.c"
void p_link(void) {
  VF_START();
  static struct _install_on_resolve_ctx C; static struct stat ST;
  g_len = nd_range("len", 1, PATH_MAX - 1); g_k = nd_range("k", 0, PATH_MAX - 2); ASSUME(g_k < g_len);
  g_ck = nd_char("c"); ASSUME(g_ck != 0);
  g_fault = g_errno = g_read = 0; g_dst = nd_range("dst", 0, 1); g_removable = nd_bool("removable");
  C.n = NP;
  _install_symlink(&C, g_src, g_dstp, &ST);
  REACH("link");
  ENSURE("link/made-or-failed", g_dst == 2);
}
#elif defined(VF_ID)
static char g_src[2], g_target[2], *g_cp, *g_base, *g_dst; static int g_n, g_made, g_alias, g_dep; static mode_t g_mode; static struct _install_on_resolve_ctx C;
static struct node_resolve R; static struct stat *g_st; static int g_made_name;
void _install_file(struct _install_on_resolve_ctx *c, const char *s, const char *d, struct stat *st);
void _install_symlink(struct _install_on_resolve_ctx *c, const char *s, const char *d, struct stat *st);
static void made(struct _install_on_resolve_ctx *c, const char *s, const char *d, struct stat *st) {
  ENSURE("do/source", c == &C && s == g_src && st == g_st && !g_fault);
  ENSURE("do/destination", d == g_dst && g_made_name && !g_made);
  ++g_made;
}
static char* vf_basename(char *p) { ENSURE("do/name-of-the-source", p == g_cp); return g_base = p + nd_range("base", 0, PATH_MAX - 1); }
#define path_basename vf_basename
static void vf_strncpy(char *d, const char *s, size_t n) { ENSURE("do/copy-of-the-name", s == g_src && __CPROVER_w_ok(d, n) && n >= PATH_MAX); g_cp = d; }
#define utils_strncpy vf_strncpy
static int vf_snprintf(char *d, size_t n, const char *fmt, const char *a, const char *b) {
  ENSURE("do/name-in-the-target-directory", fmt[0] == '%' && fmt[1] == 's' && fmt[2] == '/' && fmt[3] == '%' && fmt[4] == 's' && fmt[5] == 0 && a == g_target && g_cp && b == g_base && __CPROVER_w_ok(d, n));
  g_dst = d; g_made_name = 1;
  int l = nd_range("len", 1, 10000);
  if (l >= n) g_fault = 1;
  return l;
}
#undef snprintf
#define snprintf(d, n, ...) vf_snprintf(d, n, __VA_ARGS__)
static int vf_lstat(const char *p, struct stat *s) {
  ENSURE("do/the-source-itself", p == g_src);
  if (nd_bool("lstat-fails")) { g_fault = 1; g_errno = ENOENT; return -1; }
  s->st_mode = g_mode; g_st = s;
  if (!S_ISREG(g_mode) && !S_ISLNK(g_mode)) g_fault = 1;
  return 0;
}
#define lstat(p, s) vf_lstat(p, s)
static char g_db[2];
int deps_add(struct deps *d, char type, char flags, const char *res, int64_t serial) {
  ENSURE("record/source", d == (struct deps*) &g_db[0] && type == DEPS_TYPE_FILE && flags == 's' && res == g_src && !g_dep); g_dep = 1; return 0;
}
int deps_add_alias(struct deps *d, char flags, const char *res, const char *alias) {
  ENSURE("record/installed-file", d == (struct deps*) &g_db[0] && flags == 's' && res == g_src && alias == g_dst && g_made_name && !g_alias); g_alias = 1; return 0;
}
#include "node_install.c"
void _install_file(struct _install_on_resolve_ctx *c, const char *s, const char *d, struct stat *st) { ENSURE("do/file-as-file", S_ISREG(g_mode)); made(c, s, d, st); }
void _install_symlink(struct _install_on_resolve_ctx *c, const char *s, const char *d, struct stat *st) { ENSURE("do/link-as-link", S_ISLNK(g_mode)); made(c, s, d, st); }
void p_do(void) {
  VF_START();
  g_cp = g_base = g_dst = 0; g_made = g_alias = g_dep = g_fault = g_errno = g_made_name = 0; g_st = 0;
  g_mode = nd_uint("mode");
  C.n = NP; R.user_data = &C;
  if (nd_bool("record")) {
    _install_dep_add((struct deps*) &g_db[0], g_src, g_target);
    REACH("record");
    ENSURE("record/source-and-installed-file", g_dep && g_alias);
  } else {
    _install_do(&R, g_src, g_target);
    REACH("do");
    ENSURE("do/no-error-goes-unnoticed", !g_fault);
    ENSURE("do/installed", g_made == 1);
  }
}
#elif defined(VF_IR)
static struct node_resolve R; static struct resolve_outdated U; static struct node *NV;
static struct ulist *g_clp;
#define CL g_clp
static int g_at, g_ph, g_rn, g_rw, g_full, g_seen_w, g_wo, g_wc, g_icnt, g_idone, g_gotval, g_ntrack, g_nrec, g_opened, g_closed, g_unit, g_env_rec, g_mkdir, g_abs, g_norm, g_exists, g_isdir; static char g_wflag;
static struct ulist *g_rl; static char g_path[2], g_copy[2], g_tv[2], g_tabs[2], g_tnorm[2], g_prefix[2], g_val[2], g_tmp[2], g_pb[2], g_gpb[2], g_nvb[2], *g_cp; static const char *g_target;
#define NT ((struct node*) &g_pb[1])
#define NVN ((struct node*) &g_nvb[0])
void _install_do(struct node_resolve *r, const char *s, const char *t);
void _install_dep_add(struct deps *d, const char *s, const char *t);
const char* node_value(struct node *n) {
  if (n == NT) return g_tv;
  ENSURE("resolve/tracked-value", n == NVN && g_ph == 5);
  g_gotval = nd_bool("value"); g_ph = g_gotval ? 6 : 0; if (!g_gotval) ++g_ntrack;
  return g_gotval ? g_val : (char*) 0;
}
static char* vf_printf(struct pool *p, const char *fmt, const char *a, const char *b);
#define pool_printf(p, ...) vf_printf(p, __VA_ARGS__)
#include "node_install.c"
static struct _install_on_resolve_ctx C;
bool path_is_absolute(const char *p) { ENSURE("resolve/target", p == g_tv); return g_abs; }
static char* vf_printf(struct pool *p, const char *fmt, const char *a, const char *b) {
  ENSURE("resolve/below-the-prefix", !g_abs && a == g_prefix && b == g_tv && fmt[0] == '%' && fmt[1] == 's' && fmt[2] == '/' && fmt[3] == '%' && fmt[4] == 's' && fmt[5] == 0);
  return g_tabs;
}
char* path_normalize_pool(const char *p, struct pool *pool) { ENSURE("resolve/normalized", p == g_tabs); g_target = g_tnorm; return g_tnorm; }
bool path_is_exist(const char *p) { ENSURE("resolve/target-known", p == g_target); return g_exists; }
bool path_is_dir(const char *p) { ENSURE("resolve/target-known", p == g_target); if (g_exists && !g_isdir) g_fault = 1; return g_exists && g_isdir; }
int path_mkdirs(const char *p) { ENSURE("resolve/target-created", p == g_target && !g_fault && !g_mkdir); if (nd_bool("mkdir-fails")) { g_fault = 1; return 7; } g_mkdir = 1; return 0; }
void* ulist_get(const struct ulist *l, unsigned i) {
  ENSURE("resolve/each-entry", g_ph == 0 && i < l->num);
  g_at = i;
  if (l == &R.resolve_outdated) {
    ENSURE("resolve/outdated-first", g_icnt == 0 && !g_opened && !g_full);
    U.flags = nd_char("flags"); U.path = g_path;
    if (i == g_wo) { U.flags = g_wflag; g_seen_w = 1; }
    if (U.flags == 's') g_ph = 1; else g_full = 1;
    return &U;
  }
  if (l == &R.node_val_deps) { ENSURE("resolve/record-open", g_opened && !g_closed); g_ph = 5; NV = NVN; return &NV; }
  if (l == CL) { g_ph = g_opened ? 4 : 3; g_cp = g_path; return &g_cp; }
  ENSURE("resolve/list-of-changed-files", l == g_rl && g_rl && !g_opened && !g_full);
  g_ph = 3; g_cp = g_copy; return &g_cp;
}
char* pool_strdup(struct pool *p, const char *s) { ENSURE("resolve/changed-file", g_ph == 1 && s == g_path); g_ph = 2; return g_copy; }
void ulist_push(struct ulist *l, const void *d) {
  ENSURE("resolve/changed-file-listed", g_ph == 2 && *(char**) d == g_copy && l != CL && (g_rn == 0 || l == g_rl));
  g_rl = l; ++g_rn; l->num = g_rn; if (g_at == g_wo) g_rw = 1; g_ph = 0;
}
void ulist_destroy_keep(struct ulist *l) { }
int deps_open(const char *p, int mode, struct deps *d) {
  ENSURE("resolve/recorded-after-installing", p == g_tmp && !g_opened && mode == 0);
  ENSURE("resolve/all-installed-before-recording", R.resolve_outdated.num == 0 || g_full ? g_icnt == CL->num && (g_idone || g_wc >= CL->num) : g_icnt == R.resolve_outdated.num && g_idone);
  if (nd_bool("open-fails")) { g_fault = 1; return 5; }
  g_opened = 1; return 0;
}
void deps_close(struct deps *d) { ENSURE("resolve/complete-record", g_opened && !g_closed && g_unit && g_env_rec && g_ntrack == R.node_val_deps.num && g_nrec == CL->num); g_closed = 1; }
void node_add_unit_deps(struct node *n, struct deps *d) { ENSURE("resolve/script-recorded", n == NP && g_opened && !g_closed); g_unit = 1; }
int deps_add_env(struct deps *d, char flags, const char *k, const char *v) { ENSURE("resolve/prefix-recorded", g_opened && !g_closed && v == g_prefix && k[0] == 'I' && k[8] == 'P' && k[14] == 0); g_env_rec = 1; return 0; }
int deps_add(struct deps *d, char type, char flags, const char *res, int64_t serial) {
  ENSURE("resolve/value-recorded", g_ph == 6 && g_opened && type == DEPS_TYPE_NODE_VALUE && res == g_val && serial == g_at); ++g_ntrack; g_ph = 0; return 0;
}
void _install_do(struct node_resolve *r, const char *s, const char *t) {
  ENSURE("resolve/installs-into-the-target", r == &R && g_ph == 3 && t == g_target && g_mkdir && !g_fault && !g_opened);
  ENSURE("resolve/installs-the-file", s == g_cp);
  if (g_at == (g_cp == g_copy ? g_wo : g_wc)) g_idone = 1;
  ++g_icnt; g_ph = 0;
}
void _install_dep_add(struct deps *d, const char *s, const char *t) {
  ENSURE("resolve/file-recorded", g_ph == 4 && s == g_path && t == g_target && g_opened && !g_closed); ++g_nrec; g_ph = 0;
}
void p_resolve(void) {
  VF_START();
  g_at = g_ph = g_rn = g_rw = g_full = g_seen_w = g_icnt = g_idone = g_gotval = g_ntrack = g_nrec = g_opened = g_closed = g_unit = g_env_rec = g_mkdir = g_norm = g_fault = g_errno = 0;
  g_clp = &C.consumes; g_rl = 0; g_cp = 0; g_abs = nd_bool("abs"); g_exists = nd_bool("exists"); g_isdir = nd_bool("isdir");
  g_target = g_abs ? g_tv : g_tnorm;
  g_env.install.prefix_dir = g_prefix;
  R.n = NP; R.user_data = &C; R.deps_path_tmp = g_tmp; R.pool = (struct pool*) &g_gpb[0]; g_env.pool = (struct pool*) &g_gpb[1];
  R.resolve_outdated.num = nd_range("noutdated", 0, 1 << 20); R.node_val_deps.num = nd_range("nvals", 0, 1 << 20); C.consumes.num = nd_range("nfiles", 0, 1 << 20);
  C.r = &R; C.n = NP; C.n_target = NT;
  g_wo = nd_range("wo", 0, 1 << 20); ASSUME(R.resolve_outdated.num == 0 || g_wo < R.resolve_outdated.num);
  g_wc = nd_range("wc", 0, 1 << 20); ASSUME(C.consumes.num == 0 || g_wc < C.consumes.num);
  g_wflag = nd_char("wflag");
  _install_on_resolve(&R);
  REACH("resolve");
  ENSURE("resolve/recorded", g_closed && !g_fault);
  ENSURE("resolve/everything-when-not-only-files-changed", R.resolve_outdated.num == 0 || g_wflag == 's' || g_full);
}
#elif defined(VF_IC)
static struct node_resolve R; static int g_at, g_ph, g_pushed, g_isdir, g_cl, g_w, g_samepath, g_samename; static char g_new[2], g_copy[2], g_old[2], *g_cp; static char g_gpb[2];
static int vf_strcmp(const char *a, const char *b);
static char* vf_strrchr(const char *s, int c);
#define strcmp vf_strcmp
#define strrchr vf_strrchr
#include "node_install.c"
#undef strcmp
#undef strrchr
static struct _install_on_resolve_ctx C;
bool path_is_dir(const char *p) { ENSURE("collect/the-file", p == g_new); if (g_isdir) g_fault = 1; return g_isdir; }
char* pool_strdup(struct pool *p, const char *s) { ENSURE("collect/copy", s == g_new && p == R.pool); return g_copy; }
void* ulist_get(const struct ulist *l, unsigned i) { ENSURE("collect/each-entry", l == &C.consumes && i < l->num && !g_pushed); g_at = i; g_ph = 1; g_cp = g_old; return &g_cp; }
void ulist_push(struct ulist *l, const void *d) { ENSURE("collect/listed-once", l == &C.consumes && !g_pushed && *(char**) d == g_copy && !g_fault && (g_cl || C.consumes.num == 0)); g_pushed = 1; }
/* the other file: is it another path, has it the same name; names are compared through pointers behind the last '/' */
static int vf_strcmp(const char *a, const char *b) {
  if ((a == g_old || a == g_new) && (b == g_old || b == g_new) && a != b && g_ph == 1) { g_samepath = nd_bool("samepath"); g_ph = g_samepath ? 0 : 2; if (g_samepath && g_at == g_w) g_cl = 1; return !g_samepath; }
  ENSURE("collect/names-compared", g_ph == 2 && (a == &g_old[1] || a == &g_new[1]) && (b == &g_old[1] || b == &g_new[1]) && a != b);
  g_samename = nd_bool("samename"); if (g_samename) g_fault = 1; g_ph = 0; if (g_at == g_w) g_cl = 1;
  return !g_samename;
}
static char* vf_strrchr(const char *s, int c) { ENSURE("collect/name", c == '/' && (s == g_old || s == g_new)); return (char*) s; }
void p_collect(void) {
  VF_START();
  g_at = g_ph = g_pushed = g_samepath = g_samename = g_cl = g_fault = g_errno = 0; g_isdir = nd_bool("isdir"); g_cp = 0;
  C.r = &R; C.n = NP; R.n = NP; R.pool = (struct pool*) &g_gpb[0]; C.consumes.num = nd_range("n", 0, 1 << 20);
  g_w = nd_range("w", 0, 1 << 20); ASSUME(C.consumes.num == 0 || g_w < C.consumes.num);
  _install_on_consumed_resolved(g_new, &C);
  REACH("collect");
  ENSURE("collect/listed", g_pushed && !g_fault);
}
#else
#include "node_install.c"
void p_setup(void) {
  VF_START();
  static struct node N; static char pf[2];
  unsigned f0 = N.flags = nd_uint("flags");
  N.post_build = 0;
  g_env.install.enabled = nd_bool("enabled"); g_env.install.prefix_dir = nd_bool("prefix") ? &pf[0] : (char*) 0;
  int rc = node_install_setup(&N);
  REACH("setup");
  ENSURE("setup/no-error", rc == 0);
  ENSURE("setup/installs-when-asked-to", (g_env.install.enabled && g_env.install.prefix_dir) == (N.post_build == _install_post_build));
  ENSURE("setup/otherwise-nothing", N.post_build == _install_post_build || (N.post_build == 0 && N.flags == f0));
}
#endif
#else
#include "vf_build.h"
static int vb_cmd(int argc, char **argv, const char *name, void (*out)(const char *buf, size_t n)) {
  if (!strcmp(name, "gen")) { char b[100]; if (vb_read("../in", b, sizeof(b)) < 0) return 1; vb_file("prod", 0, "P%s", b); }
  return 0;
}
/* faults of the system calls on the file "f", source or destination */
static int g_fault;
static int on_f(int fd) {
  char l[60], b[4200]; sprintf(l, "/proc/self/fd/%d", fd);
  ssize_t n = g_fault ? readlink(l, b, sizeof(b) - 1) : 0;
  return n > 2 && !memcmp(b + n - 2, "/f", 2);
}
static int fails(int k, int fd, int e) { if (g_fault != k || !on_f(fd)) return 0; errno = e; return 1; }
ssize_t write(int fd, const void *b, size_t n) { if (fails(2, fd, ENOSPC)) return -1; return syscall(SYS_write, fd, b, g_fault == 1 && n > 300 && on_f(fd) ? 300 : n); }
ssize_t read(int fd, void *b, size_t n) { if (fails(5, fd, EIO)) return -1; return syscall(SYS_read, fd, b, g_fault == 1 && n > 700 && on_f(fd) ? 700 : n); }
int fchmod(int fd, mode_t m) { if (fails(3, fd, EPERM)) return -1; return syscall(SYS_fchmod, fd, m); }
int close(int fd) { int f = g_fault == 4 && (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY && on_f(fd); syscall(SYS_close, fd); if (f) errno = EIO; return f ? -1 : 0; }
static const long modes[] = { 0644, 0755, 0400, 04755, 0666 };
static char *content(int v, char *b) { /* empty, short, larger than any buffer in use */
  int n = v % 3 == 0 ? 0 : v % 3 == 1 ? 5 : 20000;
  for (int i = 0; i < n; ++i) b[i] = 'a' + (i * 7 + i / 251 + v) % 26;
  b[n] = 0; return b;
}
static char cb[65536], db[65536];
static void is_installed(const char *dst, const char *data, long mode) {
  struct stat st;
  ENSURE("install/file-there", lstat(dst, &st) == 0 && S_ISREG(st.st_mode));
  int n = vb_read(dst, db, sizeof(db));
  ENSURE("install/content", n == strlen(data) && !memcmp(db, data, n));
  ENSURE("install/permissions", mode < 0 || (st.st_mode & 07777) == mode);
}
static void is_link(const char *dst, const char *to) {
  char b[300]; ssize_t n = readlink(dst, b, sizeof(b));
  ENSURE("install/link", n == strlen(to) && !strncmp(b, to, n));
}
/* one installation: kind of source, target directory and prefix as given, what was at the destination before */
void n_install(void) {
  int v = nd_range("content", 0, 2), m = nd_range("mode", 0, 4), pf = nd_range("prefix", 0, 2), tg = nd_range("target", 0, 3), before = nd_range("before", 0, 8), how = nd_range("how", 0, 2), fault = before == 0 ? nd_range("fault", 0, 5) : 0;
  vb_start();
  mkdir("sub", 0755); mkdir("v", 0755);
  vb_file("sub/f", VB_T0, "%s", content(v, cb)); chmod("sub/f", modes[m]);
  vb_file("lt", VB_T0, "link target"); vb_file("in", VB_T0, "x"); vb_file("v/victim", VB_T0, "victim");
  if (symlink("../lt", "sub/l")) _exit(3);
  static const char *tgs[] = { "bin", "${INSTALL_DATA_DIR}", "a/./b/../c", 0 }, *tgd[] = { "bin", "share", "a/c", 0 };
  char t[5000], d[5000], p[6000], o[6000];
  snprintf(p, sizeof(p), "%s/%s", vb_root, pf == 2 ? "x/../pfx" : "pfx");
  if (tgs[tg]) { snprintf(t, sizeof(t), "%s", tgs[tg]); snprintf(d, sizeof(d), "pfx/%s", tgd[tg]); }
  else { snprintf(t, sizeof(t), "%s/elsewhere", vb_root); snprintf(d, sizeof(d), "elsewhere"); }
  vb_file("Autark", VB_T0, how == 2 ? "run { exec { gen } produces { prod } consumes { in } }\nset { L sub/f sub/l }\ninstall {\n  %s\n  ${L}\n prod\n}\n" :
    "run { exec { gen } produces { prod } consumes { in } }\ninstall {\n  %s\n  sub/f\n  sub/l prod\n}\n", t);
  char q[6000]; snprintf(q, sizeof(q), "mkdir -p '%s'", d); if (system(q)) _exit(3);
  char df[6000], dl[6000], dp[6000]; snprintf(df, sizeof(df), "%s/f", d); snprintf(dl, sizeof(dl), "%s/l", d); snprintf(dp, sizeof(dp), "%s/prod", d);
  int bad = 0; char victim[6000]; snprintf(victim, sizeof(victim), "%s/v/victim", vb_root);
  if (before == 1) { memset(cb, 'z', 30000); cb[30000] = 0; vb_file(df, VB_T0, "%s", cb); chmod(df, 0777); vb_file(dl, VB_T0, "old"); }
  if (before == 2) { if (symlink(victim, df) || symlink("nowhere", dl)) _exit(3); }
  if (before == 3) { bad = 1; mkdir(df, 0755); }
  if (before == 4) { bad = 1; mkdir(dl, 0755); }
  if (before == 5) { bad = 1; rmdir(d); vb_file(d, VB_T0, "not a directory"); }
  if (before == 6) { if (link("sub/f", df)) _exit(3); }
  if (before == 7) { bad = 1; unlink("sub/l"); mkdir("sub/l", 0755); }
  if (before == 8) { bad = 1; vb_file("v/f", VB_T0, "other"); FILE *f = fopen("Autark", "a"); fprintf(f, "install {\n  %s\n  sub/f v/f\n}\n", t); fclose(f); vb_time("Autark", VB_T0); }
  snprintf(o, sizeof(o), pf == 1 ? "--prefix=%s" : "-R%s", p);
  if (fault > 1) bad = 1;
  if (fault == 2 && v == 0) bad = 0; /* nothing to write */
  g_fault = fault;
  int rc = how == 1 ? vb_build("-I", o, 0) : vb_build(o, 0);
  g_fault = 0;
  ENSURE("install/build-fails-exactly-when-something-is-not-installed", (rc != 0) == bad);
  char vt[100]; ENSURE("install/other-files-untouched", vb_read("v/victim", vt, sizeof(vt)) == 6 && !strcmp(vt, "victim"));
  content(v, cb);
  int n = vb_read("sub/f", db, sizeof(db)); ENSURE("install/source-untouched", n == strlen(cb) && !memcmp(db, cb, n));
  if (bad) return;
  is_installed(df, cb, modes[m]);
  is_link(dl, "../lt");
  is_installed(dp, "Px", -1);
}
/* a sequence of builds: after each the installed files are current */
void n_change(void) {
  char dst[3][6000]; int k = nd_range("steps", 1, VF_N), st[4], nm = 0;
  for (int i = 0; i < k; ++i) st[i] = nd_range("step", 0, 9);
  vb_start();
  char v[3] = { 1, 1, 1 }, all = 1; int pfx = 0, L = 0; long ms = VB_T0;
  vb_file("f", ms, "f1"); vb_file("g", ms, "g1"); vb_file("h", ms, "h1"); vb_file("in", ms, "i1"); vb_file("lt", ms, "t"); vb_file("lt2", ms, "t");
  if (symlink("lt", "l")) _exit(3);
  vb_file("Autark", ms, "run { exec { gen } produces { prod } consumes { in } }\ninstall {\n  ${D}\n  f\n l\n  prod\n ${X}\n}\n");
  int vi = 1, lt = 1, x = 0, D = 0; const char *xs[] = { "-DX=g", "-DX=h" }, *ds[] = { "-DD=d1", "-DD=d2/e" }, *dn[] = { "d1", "d2/e" };
  char o[2][6000]; for (int i = 0; i < 2; ++i) snprintf(o[i], sizeof(o[i]), "-R%s/p%d", vb_root, i);
  char d[6000], q[7000], b[100];
  for (int i = -1; i < k; ++i) {
    if (i >= 0) {
      ms += 5000;
      snprintf(d, sizeof(d), "p%d/%s", pfx, dn[D]);
      switch (st[i]) {
        case 0: ++v[0]; vb_file("f", ms, "f%d", v[0]); break;
        case 1: ++vi; vb_file("in", ms, "i%d", vi); break;
        case 2: x = !x; break;
        case 3: D = !D; break;
        case 4: pfx = !pfx; break;
        case 5: snprintf(q, sizeof(q), "%s/f", d); unlink(q); break;
        case 6: snprintf(q, sizeof(q), "%s/l", d); unlink(q); break;
        case 7: lt = 3 - lt; vb_file(lt == 1 ? "lt" : "lt2", ms, "t"); unlink("l"); if (symlink(lt == 1 ? "lt" : "lt2", "l")) _exit(3); break;
        case 8: ++v[1]; vb_file("g", ms, "g%d", v[1]); ++v[2]; vb_file("h", ms, "h%d", v[2]); break;
        case 9: snprintf(q, sizeof(q), "%s/prod", d); vb_file(q, 0, "damaged"); vb_time(q, 0x7fffffff000L); break;
      }
    }
    ENSURE("change/build-succeeds", vb_build(o[pfx], xs[x], ds[D], 0) == 0);
    snprintf(d, sizeof(d), "p%d/%s", pfx, dn[D]);
    snprintf(q, sizeof(q), "%s/f", d); sprintf(b, "f%d", v[0]); is_installed(q, b, -1);
    snprintf(q, sizeof(q), "%s/prod", d); sprintf(b, "Pi%d", vi); is_installed(q, b, -1);
    snprintf(q, sizeof(q), "%s/%c", d, "gh"[x]); sprintf(b, "%c%d", "gh"[x], v[x + 1]); is_installed(q, b, -1);
    snprintf(q, sizeof(q), "%s/l", d); is_link(q, lt == 1 ? "lt" : "lt2");
  }
}
#endif
