// Cleaning the build cache: what is removed, what is kept, which cache locations are refused.
//@ entry: p_rmdir props=C13 functions=_rm_dir_recursive defs=VF_PR rename=paths.c:_rm_dir_recursive native=n_clean link=* forked unwind=5
//@ loop: paths.c _rm_dir_recursive 0 p_rmdir
//@   __CPROVER_assigns(g_st, g_dot, g_keep, g_asked, ENT, g_at, g_ended, __CPROVER_object_whole(child))
//@   __CPROVER_loop_invariant((g_st == 0 || g_st == 3 || (g_st == 1 && g_dot)) && !g_ended && !g_closed && !g_removed)
//@ entry: p_rmcache props=C13 functions=path_rm_cache defs=VF_PC rename=paths.c:_rm_dir_recursive,paths.c:path_is_exist,utils.h:utils_endswith native=n_clean link=* forked unwind=5
//@ loop: paths.c path_rm_cache 0 p_rmcache
//@   __CPROVER_assigns(g_st, g_dot, g_keep, g_asked, ENT, g_at, g_ended, __CPROVER_object_whole(child))
//@   __CPROVER_loop_invariant((g_st == 0 || g_st == 3 || (g_st == 1 && g_dot) || (g_st == 2 && g_asked && g_keep)) && !g_ended && !g_closed)
//@ entry: p_prepare props=C13 functions=autark_build_prepare defs=VF_PP rename=autark_core.c:autark_init,autark_core.c:unit_create,autark_core.c:unit_push native=n_where link=* forked unwind=2
//@ entry: n_clean mode=native forked=60 link=* props=C13 functions=path_rm_cache,_rm_dir_recursive,_is_autark_dist_root nlimit=60 cost=20 N=2 NT=3
//@ entry: n_where mode=native forked=60 link=* props=C13 functions=autark_build_prepare,autark_run,path_is_prefix_for nlimit=60 cost=10
//@ assume: path names of cache entries fit PATH_MAX (longer ones are truncated by the code: such entries stay); the tree is not changed by others while it is removed; an entry found to be a directory by lstat(2) is still one when it is opened
#ifdef VF_CBMC
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "basedefs.h"
#include <limits.h>
#include <errno.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#if defined(VF_PR) || defined(VF_PC)
#include "utils.h"
static struct dirent ENT;
static int g_st, g_dot, g_dir, g_seen, g_closed, g_ended, g_removed, g_keep, g_asked, g_exists, g_real;
static const char *g_at, *g_res; static char g_path[4];
static int vf_strcmp(const char *a, const char *b) { /* the names "." and ".." */
  ENSURE("clean/names-compared", a == ENT.d_name && g_st == 1);
  if (a[0] != b[0]) return 1;
  if (a[0] == 0) return 0;
  if (a[1] != b[1]) return 1;
  if (a[1] == 0) return 0;
  if (a[2] != b[2]) return 1;
  ENSURE("clean/names-compared-with-dots", a[2] == 0);
  return 0;
}
static int vf_lstat(const char *p, struct stat *st) {
  ENSURE("clean/the-entry-itself", p == g_path && !g_seen);
  if (nd_bool("gone")) return -1;
  g_seen = 1; g_dir = nd_bool("is-directory");
  st->st_mode = g_dir ? S_IFDIR | 0755 : (nd_bool("link") ? S_IFLNK : S_IFREG) | 0644;
  return 0;
}
static int vf_unlink(const char *p) { ENSURE("clean/unlink-only-this-non-directory", p == g_path && g_seen && !g_dir && !g_removed); g_removed = 1; return nd_bool("unlink") ? -1 : 0; }
static DIR* vf_opendir(const char *p) {
#ifdef VF_PR
  ENSURE("clean/no-link-is-followed", p == g_path && g_seen && g_dir);
#else
  ENSURE("clean/opens-the-cache", p == g_path || (g_real && p == g_res));
#endif
  if (nd_bool("unreadable")) return 0;
  return (DIR*) &ENT;
}
static struct dirent* vf_readdir(DIR *d) {
  ENSURE("clean/every-entry-handled", g_st == 0 || g_st == 3 || (g_st == 1 && g_dot) || (g_st == 2 && g_asked && g_keep));
  g_asked = 0; g_keep = 0; g_st = 0; g_at = 0;
  if (nd_bool("end")) { g_ended = 1; return 0; }
  struct dirent e;
  ENT = e;
  int k = nd_range("name", 0, 2);
  if (k < 2) { ENT.d_name[0] = '.'; ENT.d_name[1] = k ? '.' : 0; ENT.d_name[2] = 0; }
  else ASSUME(ENT.d_name[0] != 0 && !(ENT.d_name[0] == '.' && (ENT.d_name[1] == 0 || (ENT.d_name[1] == '.' && ENT.d_name[2] == 0))));
  g_dot = k < 2; g_st = 1;
  return &ENT;
}
static int vf_closedir(DIR *d) { ENSURE("clean/closed-once", !g_closed && g_ended); g_closed = 1; return 0; }
static int vf_rmdir(const char *p) { ENSURE("clean/rmdir-only-this-emptied-directory", p == g_path && g_seen && g_dir && g_ended && !g_removed); g_removed = 1; return nd_bool("rmdir") ? -1 : 0; }
static char* vf_realpath(const char *p, char *o) { ENSURE("clean/cache-itself", p == g_path); if (nd_bool("unresolved")) { errno = 2; return 0; } g_real = 1; g_res = o; o[0] = '/'; o[1] = 0; return o; }
static int vf_join(char *o, size_t n, const char *f, const char *a, const char *b) {
  ENSURE("clean/entries-of-this-directory", g_st == 1 && (a == g_path || (g_real && a == g_res)) && b == ENT.d_name && f[0] == '%' && f[1] == 's' && f[2] == '/' && f[3] == '%' && f[4] == 's' && f[5] == 0 && n >= PATH_MAX);
  g_at = o; g_st = 2; o[0] = nd_char("c"); o[1] = 0;
  return 1;
}
#undef errno
static int g_errno;
#define errno g_errno
#define strcmp vf_strcmp
#define lstat(a, b) vf_lstat(a, b)
#define stat(a, b) vf_stat_follows_links(a, b)
#define unlink vf_unlink
#define opendir vf_opendir
#define readdir vf_readdir
#define closedir vf_closedir
#define rmdir vf_rmdir
#define realpath vf_realpath
#define snprintf vf_join
#define perror(x) ((void) 0)
static void _rm_dir_recursive(const char *path);
static void _rm_dir_recursive__real(const char *path);
#ifdef VF_PC
bool path_is_exist(const char *p);
static bool utils_endswith(const char *s, const char *e);
#endif
#undef stat
static int vf_stat_follows_links(const char *p, void *st) { return nd_int("stat"); }
#include "paths.c"
#undef strcmp
static void _rm_dir_recursive(const char *p) {
  ENSURE("clean/only-entries-below", p == g_at && p != 0 && g_st == 2 && !g_dot && !g_closed);
#ifdef VF_PC
  ENSURE("clean/kept-directory-stays", g_asked && !g_keep);
#endif
  g_st = 3;
}
#ifdef VF_PR
void p_rmdir(void) {
  VF_START();
  g_st = g_dot = g_dir = g_seen = g_closed = g_ended = g_removed = g_keep = g_asked = g_exists = g_real = 0; g_at = g_res = 0;
  _rm_dir_recursive__real(g_path);
  ENSURE("clean/removed-after-its-content", !g_removed || !g_dir || (g_ended && g_closed));
  ENSURE("clean/seen-entry-is-removed", !g_seen || g_removed || g_dir);
  REACH("p_rmdir/dir"); if (g_removed && !g_dir) REACH("p_rmdir/link");
}
#else
bool path_is_exist(const char *p) { ENSURE("clean/cache", p == g_path); g_exists = nd_bool("exists"); return g_exists; }
static bool utils_endswith(const char *s, const char *e) {
  ENSURE("clean/kept-name", s == g_at && g_st == 2 && e[0] == '/' && e[1] == '.' && e[2] == 'a' && e[3] == 'u' && e[8] == '-' && e[12] == 't' && e[13] == 0);
  g_asked = 1; g_keep = nd_bool("kept");
  return g_keep;
}
void p_rmcache(void) {
  VF_START();
  g_st = g_dot = g_dir = g_seen = g_closed = g_ended = g_removed = g_keep = g_asked = g_exists = g_real = 0; g_at = g_res = 0;
  int rc = path_rm_cache(g_path);
  ENSURE("clean/complete-or-reported", rc != 0 || !g_exists || (g_ended && g_closed) || g_errno == 0);
  REACH("p_rmcache");
}
#endif
#endif
#ifdef VF_PP
#include "env.h"
#include "script.h"
#include "utils.h"
#include "paths.h"
/* the directories are known by one letter: c/r cache and root as normalized, C/R as resolved */
static int g_same, g_same_real, g_pre, g_pre_real, g_creal, g_rreal, g_removed, g_why;
static char g_c[4], g_r[4];
static int KIND(const char *p) { return p[0]; }
static int vf_strcmp(const char *a, const char *b) {
  if ((a[0] == 'c' && b[0] == 'r') || (a[0] == 'r' && b[0] == 'c')) return g_same ? 0 : 1;
  if (!g_creal || !g_rreal) return 1;
  ENSURE("prepare/compares-cache-and-root", (a[0] == 'C' && b[0] == 'R') || (a[0] == 'R' && b[0] == 'C'));
  return g_same_real ? 0 : 1;
}
static int vf_chdir(const char *p) { ENSURE("prepare/enters-the-root", p[0] == 'r'); if (nd_bool("chdir")) { g_why = 1; return -1; } return 0; }
char* path_real(const char *p, char *o) {
  ENSURE("prepare/resolves", p[0] == 'c' || p[0] == 'r');
  if (nd_bool("unresolved")) { if (p[0] == 'c') g_creal = 0; else g_rreal = 0; return 0; }
  o[0] = p[0] == 'c' ? 'C' : 'R'; o[1] = 0;
  return o;
}
const char* path_is_prefix_for(const char *pre, const char *path, const char *cwd) {
  if (pre[0] == 'c' && path[0] == 'r') return g_pre ? path : (char*) 0;
  if (!g_creal || !g_rreal) return 0;
  ENSURE("prepare/cache-against-root", pre[0] == 'C' && path[0] == 'R');
  return g_pre_real ? path : (char*) 0;
}
bool path_is_dir(const char *p) { return nd_bool("dir"); }
bool path_is_accesible_read(const char *p) { return nd_bool("readable"); }
static int vf_setenv(const char *n, const char *v, int o) { return 0; }
static struct unit U;
int path_rm_cache(const char *p) {
  ENSURE("prepare/only-the-cache-is-cleaned", p == g_env.project.cache_dir && (p[0] == 'c') && g_env.project.cleanup);
  ENSURE("prepare/root-or-its-parent-is-refused", !g_same && !g_pre && (!g_creal || !g_rreal || (!g_same_real && !g_pre_real)));
  ++g_removed;
  return nd_range("rc", 0, 3);
}
char* pool_strdup(struct pool *p, const char *s) { return (char*) s; }
char* path_dirname(char *p) { return p; }
char* path_basename(char *p) { return p; }
char* path_normalize_pool(const char *p, struct pool *pool) {
  if (p == g_env.project.cache_dir) return nd_bool("bad") ? (char*) 0 : &g_c[0];
  return nd_bool("badroot") ? (char*) 0 : &g_r[0];
}
#define chdir vf_chdir
#define setenv vf_setenv
#define strcmp vf_strcmp
char* utils_strncpy(char *dst, const char *src, size_t n);
#define utils_strncpy(d, s, n) ((d)[0] = (s)[0], (d)[1] = 0, (d))
void autark_init(void);
struct unit* unit_create(const char *p, unsigned fl, struct pool *pool);
void unit_push(struct unit *u, struct node *n);
#include "autark_core.c"
#undef strcmp
void autark_init(void) { }
struct unit* unit_create(const char *p, unsigned fl, struct pool *pool) { ENSURE("prepare/refused-before-the-cache-is-used", !g_same && !g_pre && (!g_creal || !g_rreal || (!g_same_real && !g_pre_real))); return &U; }
void unit_push(struct unit *u, struct node *n) { }
void p_prepare(void) {
  VF_START();
  g_c[0] = 'c'; g_c[1] = 0; g_r[0] = 'r'; g_r[1] = 0;
  g_removed = g_why = 0; g_creal = g_rreal = 1;
  g_same = nd_bool("same"); g_same_real = nd_bool("same-real"); g_pre = nd_bool("parent"); g_pre_real = nd_bool("parent-real");
  g_env.project.prepared = false; g_env.project.cleanup = nd_bool("clean");
  g_env.project.root_dir = nd_bool("root-given") ? "x" : (char*) 0;
  g_env.project.cache_dir = nd_bool("cache-given") ? "y" : (char*) 0;
  g_env.cwd = "w"; g_env.verbose = 0; g_env.pool = 0;
  autark_build_prepare(nd_bool("script") ? "s" : "t");
  ENSURE("prepare/refused", !g_same && !g_pre);
  ENSURE("prepare/cleaned-on-request-only", g_removed <= 1 && (!g_removed || g_env.project.cleanup));
  REACH("p_prepare"); if (g_removed) REACH("p_prepare/removed");
}
#endif
#else
#include "vf.h"
#include "env.h"
#include "autark.h"
#include <unistd.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <errno.h>
#include <limits.h>
#include <getopt.h>
#include <dirent.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include "paths.h"
#include "pool.h"
/* removals are only carried out inside the scratch directory; anything else is recorded as a violation */
static char top[PATH_MAX]; static int g_armed;
static char allow[PATH_MAX];
static int inside(const char *p) {
  char b[2 * PATH_MAX], r[PATH_MAX];
  if (p[0] == '/') snprintf(b, sizeof(b), "%s", p); else { char c[PATH_MAX]; if (!getcwd(c, sizeof(c))) return 0; snprintf(b, sizeof(b), "%s/%s", c, p); }
  char *s = strrchr(b, '/'); const char *last = s + 1;
  if (!*last || !strcmp(last, ".") || !strcmp(last, "..")) return 0;
  *s = 0;
  if (!realpath(*b ? b : "/", r)) return 0;
  size_t n = strlen(allow);
  return strncmp(r, allow, n) == 0 && (r[n] == 0 || r[n] == '/');
}
static void guard(const char *p) { if (g_armed && !inside(p)) { g_armed = 0; vf_violation("clean/nothing-outside-the-cache-is-removed"); } }
int unlink(const char *p) { guard(p); return syscall(SYS_unlink, p); }
int rmdir(const char *p) { guard(p); return syscall(SYS_rmdir, p); }
static int at(int fd, const char *p, int fl) {
  char b[3 * PATH_MAX];
  if (g_armed && p[0] != '/' && fd != AT_FDCWD) {
    char l[64], d[PATH_MAX]; snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
    int n = readlink(l, d, sizeof(d) - 1); if (n < 0) n = 0; d[n] = 0;
    snprintf(b, sizeof(b), "%s/%s", d, p); guard(b);
  } else guard(p);
  return syscall(SYS_unlinkat, fd, p, fl);
}
int unlinkat(int fd, const char *p, int fl) { return at(fd, p, fl); }
int remove(const char *p) { guard(p); struct stat st; if (lstat(p, &st)) return -1; return S_ISDIR(st.st_mode) ? syscall(SYS_rmdir, p) : syscall(SYS_unlink, p); }
int rename(const char *a, const char *b) { guard(a); guard(b); return syscall(SYS_rename, a, b); }
int system(const char *c) { vf_violation("clean/runs-no-commands"); }

static void vs_file(const char *path, const char *data, size_t n) {
  FILE *f = fopen(path, "w");
  if (!f || fwrite(data, 1, n, f) != n || fclose(f)) { perror(path); _exit(3); }
}
static void mk(const char *p) { vs_file(p, "data", 4); }
static void ln(const char *to, const char *p) { if (symlink(to, p)) { perror(p); _exit(3); } }
static void dir(const char *p) { if (mkdir(p, 0755)) { perror(p); _exit(3); } }
static void in(const char *d) { if (chdir(d)) { perror(d); _exit(3); } }
static int there(const char *p) { struct stat st; return lstat(p, &st) == 0; }
static void wipe(void) { /* own removal of the scratch content of an earlier run, never following links */
  char c[2 * PATH_MAX];
  if (!realpath(".", top) || (!strstr(top, "/.build/") && strncmp(top, "/tmp/", 5))) _exit(3);
  pid_t p = fork();
  if (!p) { strcat(top, "/w"); execl("/bin/rm", "rm", "-rf", "--one-file-system", top, (char*) 0); _exit(3); }
  int st; waitpid(p, &st, 0);
  strcat(top, "/w");
  dir(top); in(top);
}
/* the outside of the cache, always the same */
static void outside(void) {
  dir("prj"); mk("prj/Autark"); mk("prj/src.c"); dir("prj/sub"); mk("prj/sub/x");
  dir("ext"); mk("ext/f"); dir("ext/d"); mk("ext/d/g"); ln("f", "ext/l");
}
static int outside_ok(void) {
  const char *fs[] = { "prj/Autark", "prj/src.c", "prj/sub/x", "ext/f", "ext/d/g", 0 };
  in(top);
  for (int i = 0; fs[i]; ++i) {
    char b[8]; FILE *f = fopen(fs[i], "r"); if (!f) return 0;
    int n = fread(b, 1, 8, f); fclose(f);
    if (n != 4 || memcmp(b, "data", 4)) return 0;
  }
  return there("ext/l") && there("prj") && there("ext/d");
}
/* adds entry `nm` of kind k to the current directory; returns 1 for a directory */
static void entry(int k, const char *nm, int depth, const char *ext) {
  char p[PATH_MAX];
  switch (k) {
    case 0: mk(nm); break;
    case 1: ln(ext, nm); break;                                            /* to a directory outside */
    case 2: snprintf(p, sizeof(p), "%s/f", ext); ln(p, nm); break;         /* to a file outside */
    case 3: ln("nowhere", nm); break;
    case 4: ln("..", nm); break;
    case 5: if (mkfifo(nm, 0644)) _exit(3); break;
    case 6: ln("/", nm); break;
    default: {
      dir(nm); in(nm);
      int n = nd_range("entries", 0, depth ? VF_N : 0);
      static const char *names[] = { "a", "..x", ".autark-dist" };
      for (int i = 0; i < n; ++i) {
        int kk = nd_range("kind", 0, depth ? 7 : 6);
        entry(kk, names[i], depth - 1, ext);
      }
      in("..");
    }
  }
}
void n_clean(void) {
  wipe(); outside();
  char ext[PATH_MAX + 8]; snprintf(ext, sizeof(ext), "%s/ext", top);
  int viaLink = nd_bool("cache-is-a-link");
  static const char *caches[] = { "prj/autark-cache", "prj/.autark-dist" };
  const char *cache = caches[nd_range("cache-name", 0, 1)];
  const char *real = viaLink ? "store" : cache;
  dir(real);
  if (viaLink) { char t[PATH_MAX]; snprintf(t, sizeof(t), "%s/store", top); ln(t, cache); }
  in(real);
  int keep = nd_range("kept", 0, 3);
  if (keep == 1) { dir(".autark-dist"); mk(".autark-dist/bin"); }
  if (keep == 2) ln(ext, ".autark-dist");
  if (keep == 3) { dir("x.autark-dist"); mk("x.autark-dist/bin"); }
  int k = nd_range("kind0", 0, 8), deep = 1;
  if (k == 8) { dir("...") ; mk(".../f"); } else entry(k, "e", deep, ext);
  in(top);
  char full[2 * PATH_MAX]; snprintf(full, sizeof(full), "%s/%s", top, cache);
  snprintf(allow, sizeof(allow), "%s/%s", top, real);
  g_armed = 1;
  int rc = path_rm_cache(full);
  g_armed = 0;
  ENSURE("clean/nothing-outside-is-touched", outside_ok());
  ENSURE("clean/succeeds", rc == 0);
  in(real);
  if (keep == 1) ENSURE("clean/kept-directory-stays", there(".autark-dist/bin"));
  DIR *d = opendir("."); int left = 0;
  for (struct dirent *e; (e = readdir(d)); ) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && strcmp(e->d_name, ".autark-dist")) ++left;
  closedir(d);
  ENSURE("clean/everything-else-is-removed", left == 0);
}
/* which cache locations are accepted */
void n_where(void) {
  wipe(); outside();
  in("prj");
  vs_file("Autark", "set { A 1 }\n", 12);
  in(top);
  ln("prj", "plink"); ln(top, "prj/up"); ln("prj", "prj2");
  dir("prj/out"); mk("prj/out/old");
  dir("prjx"); mk("prjx/old");
  char s[PATH_MAX], a1[PATH_MAX + 16], a2[PATH_MAX + 16], a3[PATH_MAX + 16];
  ln("../prj/sub/..", "ext/dots");
  snprintf(a1, sizeof(a1), "%s/prj", top); snprintf(a2, sizeof(a2), "%s/plink", top); snprintf(a3, sizeof(a3), "%s/ext/dots", top);
  char b1[PATH_MAX + 16], b2[PATH_MAX + 16]; snprintf(b1, sizeof(b1), "%s/prjx", top); snprintf(b2, sizeof(b2), "%s/plink/out", top);
  struct { const char *loc; int refused; const char *cleans; } L[] = {
    { ".", 1 }, { "..", 1 }, { "", 1 }, { "sub/..", 1 }, { "./", 1 }, { a1, 1 }, { top, 1 }, { a2, 1 }, { a3, 1 }, { "up", 1 }, { "/", 1 }, { "../prj2", 1 }, { "../plink/.", 1 }, { "../..", 1 },
    { "out", 0, "out" }, { "./out/", 0, "out" }, { "../prjx", 0, "../prjx" }, { b1, 0, "../prjx" }, { b2, 0, "out" }, { "up/prjx", 0, "../prjx" }, { 0, 0, 0 } };
  int i = nd_range("where", 0, sizeof(L) / sizeof(L[0]) - 1);
  int how = nd_range("root-given-as", 0, 3); /* cwd, relative, absolute, through a link */
  int clean = nd_bool("clean");
  char c[PATH_MAX + 64];
  if (how == 0) in("prj"); else if (how == 3) in("ext");
  snprintf(c, sizeof(c), "%s/plink", top);
  const char *root = how == 0 ? 0 : how == 1 ? "prj" : how == 2 ? a1 : c;
  const char *av[8]; int n = 0;
  av[n++] = "autark"; if (clean) av[n++] = "-c";
  if (L[i].loc) { av[n++] = "-H"; av[n++] = L[i].loc; }
  if (root) av[n++] = root;
  av[n] = 0;
  if (L[i].cleans) snprintf(allow, sizeof(allow), "%s/prj/%s", top, L[i].cleans); else snprintf(allow, sizeof(allow), "%s/prj/autark-cache", top);
  char r[PATH_MAX]; if (realpath(allow, r)) strcpy(allow, r);
  if (L[i].refused) strcpy(allow, "/nowhere");
  setenv("HOME", top, 1); setenv("AUTARK_HOME", top, 1); unsetenv("AUTARK_VERBOSE");
  pid_t p = fork();
  if (!p) {
    int fd = open(getenv("VF_SHOW") ? "/dev/stderr" : "/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
    g_armed = 1; optind = 1; fflush(0); autark_run(n, av); _exit(0); }
  int st; while (waitpid(p, &st, 0) < 0);
  ENSURE("where/ends", WIFEXITED(st));
  int x = WEXITSTATUS(st);
  ENSURE("where/no-memory-error", x != 11);
  ENSURE("where/refused-exactly-when-it-is-the-root-or-a-parent", (x != 0) == L[i].refused);
  in(top);
  ENSURE("where/outside-untouched", there("prj/Autark") && there("prj/src.c") && there("prj/sub/x") && there("ext/f") && there("ext/d/g"));
  ENSURE("where/old-content", there("prj/out/old") == !(clean && L[i].cleans && !strcmp(L[i].cleans, "out")) && there("prjx/old") == !(clean && L[i].cleans && L[i].cleans[0] == '.'));
  if (L[i].refused) ENSURE("where/refused-location-is-not-used", !there("prj/env") && !there("env"));
}
#endif
