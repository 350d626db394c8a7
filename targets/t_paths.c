// Path algebra: normalization, relativization, prefixes, base names.
//@ entry: n_normalize mode=native props=C10 functions=path_normalize_cwd N=6 NT=8 nlimit=60
//@ entry: n_normalize_long mode=native props=C10 functions=path_normalize_cwd nlimit=30
//@ entry: n_relativize mode=native props=C11 functions=path_relativize_cwd,_path_num_segments nlimit=60 N=3 NT=4
//@ entry: n_relativize_deep mode=native props=C11 functions=path_relativize_cwd,_path_num_segments nlimit=60
//@ entry: n_prefix mode=native props=C12 functions=path_is_prefix_for,utils_startswith N=5 NT=6 nlimit=60
//@ entry: n_parts mode=native props=C12 functions=path_basename,path_dirname N=6 NT=8 nlimit=60
//@ entry: p_prefix props=C12 functions=path_is_prefix_for,path_is_absolute native=n_prefix unwind=3 rename=utils.h:utils_startswith
//@ entry: p_startswith props=C12 functions=utils_startswith native=n_prefix unwind=3
//@ entry: p_basename props=C12 functions=path_basename native=n_parts unwind=3
//@ loop: paths.c path_is_prefix_for 0 p_prefix
//@   __CPROVER_assigns(p)
//@   __CPROVER_loop_invariant(__CPROVER_same_object(p, path) && OFS(p) >= OFS(path) + (size_t) len && OFS(p) <= OFS(path) + g_n)
//@   __CPROVER_loop_invariant(g_k < (size_t) len || OFS(path) + g_k >= OFS(p) || path[g_k] == '/')
//@ loop: paths.c path_basename 0 p_basename
//@   __CPROVER_assigns(i, __CPROVER_object_whole(path))
//@   __CPROVER_loop_invariant(i < g_n && (g_k > i || path[g_k] == g_c) && (g_k <= i || g_k >= g_n || (path[g_k] == 0 && g_c == '/')) && path[g_n] == 0)
//@ loop: paths.c path_basename 1 p_basename
//@   __CPROVER_assigns(i)
//@   __CPROVER_loop_invariant(i < g_n && i <= __CPROVER_loop_entry(i) && (g_k < i || g_k > __CPROVER_loop_entry(i) || g_k == __CPROVER_loop_entry(i) || path[g_k] != '/'))
//@ assume: paths below 1 GiB; getcwd yields an absolute path
#define OFS(p) ((unsigned long) __CPROVER_POINTER_OFFSET(p))
static unsigned long g_k, g_n; static char g_c;
#define VF_ON_FATAL(code) ENSURE("fatal/only-if-too-long", g_may_fatal)
static int g_may_fatal;
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#ifdef VF_REN_utils_startswith
#include <stdbool.h>
static bool utils_startswith(const char *s, const char *prefix);
#endif
#ifndef VF_CBMC
#include "xstr.c"
#include "pool.c"
#endif
#include "paths.c"

#ifndef VF_CBMC
/* Oracle: component list of `cwd` + path */
static int comps(const char *s, char out[][64], int n) {
  while (*s) {
    while (*s == '/') ++s;
    const char *e = s;
    while (*e && *e != '/') ++e;
    if (e == s) break;
    int l = e - s;
    if (l == 1 && s[0] == '.') ;
    else if (l == 2 && s[0] == '.' && s[1] == '.') { if (n > 0) --n; }
    else { memcpy(out[n], s, l); out[n][l] = 0; ++n; }
    s = e;
  }
  return n;
}
static void render(char out[][64], int n, char *buf) {
  *buf = 0;
  if (!n) strcpy(buf, "/");
  for (int i = 0; i < n; ++i) { strcat(buf, "/"); strcat(buf, out[i]); }
}
static void word(const char *alphabet, int max, char *out) {
  int n = nd_range("len", 0, max), m = strlen(alphabet);
  for (int i = 0; i < n; ++i) out[i] = alphabet[nd_range("ch", 0, m - 1)];
  out[n] = 0;
}

void n_normalize(void) {
  static const char *cwds[] = { "/", "/x", "/x/.y/z", "/a/../b//" };
  g_may_fatal = 0;
  char p[32], c[16][64], want[256], buf[PATH_MAX], buf2[PATH_MAX];
  const char *cwd = cwds[nd_range("cwd", 0, 3)];
  word("/.ab", VF_N, p);
  int n = p[0] == '/' ? 0 : comps(cwd, c, 0);
  n = comps(p, c, n);
  render(c, n, want);
  char *r = path_normalize_cwd(p, cwd, buf);
  ENSURE("normalize/canonical-form", r == buf && strcmp(buf, want) == 0);
  path_normalize_cwd(buf, cwd, buf2);
  ENSURE("normalize/idempotent", strcmp(buf, buf2) == 0);
  if (nd_bool("pool")) {
    struct pool *pl = pool_create_empty();
    ENSURE("normalize/pool", strcmp(path_normalize_cwd_pool(p, cwd, pl), want) == 0);
    pool_destroy(pl);
  }
}

void n_normalize_long(void) { /* around the length limit: whole result or an error */
  int total = PATH_MAX - 4 + (int) nd_range("around", 0, 8), cl = (int) nd_range("cwdlen", 0, 2), abs_ = nd_bool("abs");
  int comp = (int) nd_range("complen", 1, 2);
  static const int cls[] = { 1, 100, 4000 };
  char *cwd = malloc(8192), *p = malloc(9000), buf[PATH_MAX];
  memset(cwd, 'c', cls[cl]); cwd[0] = '/'; cwd[cls[cl]] = 0;
  int pl = abs_ ? total : total - cls[cl] - 1;
  if (pl < 1) return;
  for (int i = 0; i < pl; ++i) p[i] = (abs_ ? i : i + 1) % (comp == 1 ? 2 : 200) == 0 ? '/' : 'p';
  p[pl] = 0;
  if (p[pl - 1] == '/') p[pl - 1] = 'q';
  g_may_fatal = total >= PATH_MAX;
  path_normalize_cwd(p, cwd, buf);
  ENSURE("normalize/whole-or-error", total < PATH_MAX);
  size_t bl = strlen(buf);
  ENSURE("normalize/not-cut", bl == total - (cl == 0 && !abs_) && buf[bl - 1] == p[pl - 1]);
  free(cwd); free(p);
}

static void canon(const char *nm, char *out) {
  static const char *seg[] = { "a", "b", "ab", "..." };
  int n = nd_range(nm, 0, VF_N);
  *out = 0;
  for (int i = 0; i < n; ++i) { strcat(out, "/"); strcat(out, seg[nd_range("seg", 0, 3)]); }
  if (!n) strcpy(out, "/");
}
/* long paths: any number of common components, climbs and descents, names which differ in their last byte or are prefixes of each other */
void n_relativize_deep(void) {
  static const int nums[] = { 0, 1, 2, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300 };
  int c = nums[nd_range("common", 0, 20)], u = nums[nd_range("climbs", 0, 20)], d = nums[nd_range("descents", 0, 20)], shape = nd_range("shape", 0, 3);
  static char a[8192], b[8192], want[8192]; char *p = a, *q = b, *w = want;
  g_may_fatal = 0;
  for (int i = 0; i < c; ++i) { int n = sprintf(p, "/c%d", i % 10); memcpy(q, p, n + 1); p += n; q += n; }
  for (int i = 0; i < u; ++i) { p += sprintf(p, "%s", i == 0 ? (shape == 0 ? "/u" : shape == 1 ? "/d" : shape == 2 ? "/dd" : "/..u") : "/u"); }
  for (int i = 0; i < d; ++i) { q += sprintf(q, "%s", i == 0 ? (shape == 1 ? "/dd" : shape == 3 ? "/...." : "/d") : "/dx"); }
  if (p == a) return; /* the root itself: n_relativize */
  if (q == b) strcpy(b, "/");
  for (int i = 0; i < u; ++i) w += sprintf(w, "../");
  *w = 0;
  if (d) { char *t = b; for (int i = 0; i < c; ++i) t = strchr(t + 1, '/'); strcpy(w, t + 1); }
  char *r = path_relativize_cwd(a, b, "/cw");
  ENSURE("relativize/up-and-down-the-tree", strcmp(r, want) == 0);
  free(r);
}
void n_relativize(void) {
  char a[64], b[64], buf[PATH_MAX], joined[PATH_MAX];
  g_may_fatal = 0;
  canon("na", a);
  canon("nb", b);
  int form = nd_range("form", 0, 2);
  char *r = form == 0 ? path_relativize_cwd(a, b, "/cw") : form == 1 ? path_relativize_cwd(0, b, a) :
            path_relativize_cwd(a, b + 1, "/");
  ENSURE("relativize/relative", r[0] != '/');
  snprintf(joined, sizeof(joined), "%s/%s", a, r);
  path_normalize_cwd(joined, "/", buf);
  ENSURE("relativize/leads-back", strcmp(buf, b) == 0);
  size_t l = strlen(a);
  if (l > 1) {
    /* number of climbs = components of a below the deepest common directory */
    char ca[8][64], cb[8][64];
    int na = comps(a, ca, 0), nb = comps(b, cb, 0), k = 0, ups = 0;
    while (k < na && k < nb && strcmp(ca[k], cb[k]) == 0) ++k;
    for (const char *q = r; strncmp(q, "../", 3) == 0; q += 3) ++ups;
    ENSURE("relativize/climbs-no-further-than-needed", ups == na - k);
  }
  free(r);
}

void n_prefix(void) {
  char p[32], q[32], want[64];
  g_may_fatal = 0;
  p[0] = q[0] = '/';
  word("/ab", VF_N - 1, p + 1);
  word("/ab", VF_N, q + 1);
  size_t n = strlen(p);
  for (char *z = p; *z; ++z) if (z[0] == '/' && z[1] == '/') return;
  if (strstr(q, "//") || (q[1] && q[strlen(q) - 1] == '/')) return; /* canonical path */
  const char *r = path_is_prefix_for(p, q, 0);
  char d[32];
  strcpy(d, p);
  if (n > 1 && d[n - 1] == '/') d[n - 1] = 0;
  size_t m = strlen(d);
  int inside = m == 1 ? q[1] != 0 : strncmp(q, d, m) == 0 && q[m] == '/';
  if (m == 1 && !q[1]) return; /* the root and itself */
  ENSURE("prefix/component-boundary", (r != 0) == inside);
  ENSURE("prefix/rest", !inside || r == q + (m == 1 ? 1 : m + 1));
  /* the same, given relative to a directory */
  const char *r2 = path_is_prefix_for(p, q + 1, "/");
  ENSURE("prefix/relative-path", (r2 != 0) == inside);
}

void n_parts(void) {
  char p[32], b[32], d[32], want[32];
  g_may_fatal = 0;
  word("/.a", VF_N, p);
  if (p[0] == '/' && p[1] == '/') return; /* implementation-defined for dirname(3) */
  strcpy(b, p); strcpy(d, p);
  int e = strlen(p);
  while (e > 1 && p[e - 1] == '/') --e;
  int s = e;
  while (s > 0 && p[s - 1] != '/') --s;
  memcpy(want, p + s, e - s); want[e - s] = 0;
  if (!*p) strcpy(want, ".");
  if (p[0] == '/' && e == 1) strcpy(want, "/");
  ENSURE("basename/last-component", strcmp(path_basename(b), want) == 0);
  const char *dn = path_dirname(d);
  int k = s;
  while (k > 1 && p[k - 1] == '/') --k;
  memcpy(want, p, k); want[k] = 0;
  if (!k) strcpy(want, ".");
  if (p[0] == '/' && e == 1) strcpy(want, "/");
  ENSURE("dirname/rest", strcmp(dn, want) == 0);
}
#else
static _Bool g_starts;
#ifdef VF_REN_utils_startswith
static bool utils_startswith(const char *s, const char *prefix) { /* contract, proved by p_startswith */
  if (!s || !prefix) return 0;
  bool r = nondet_bool();
  if (r) ASSUME(strlen(prefix) <= strlen(s) && (g_k >= strlen(prefix) || s[g_k] == prefix[g_k]));
  g_starts = r;
  return r;
}
#endif
int strncmp(const char *a, const char *b, size_t n) { /* contract: 0 iff the first n bytes agree up to a common NUL */
  int r = nondet_int();
  __CPROVER_assert(n == 0 || (__CPROVER_r_ok(a, 1) && __CPROVER_r_ok(b, 1)), "strncmp: arguments readable");
  if (r == 0) ASSUME(g_k >= n || g_k > strlen(a) || a[g_k] == b[g_k]);
  else { size_t i = nondet_size(); ASSUME(i < n && i <= strlen(a) && i <= strlen(b) && a[i] != b[i]); }
  return r;
}
void p_startswith(void) {
  VF_START();
  size_t n, m, k = nd_size("k");
  g_k = k;
  char *s = vf_cstr(4, &n, k), *p = vf_cstr(4, &m, k);
  bool r = utils_startswith(s, p);
  REACH("startswith");
  ENSURE("startswith/prefix", !r || (m <= n && (k >= m || s[k] == p[k])));
  /* a mismatch exists when the answer is no: stated through the contract of strncmp */
  ENSURE("startswith/equal-strings", !(p == s) || r);
  ENSURE("startswith/empty-prefix", m != 0 || r);
  ENSURE("startswith/null", !utils_startswith(0, p) && !utils_startswith(s, 0));
}
void p_prefix(void) {
  VF_START();
  g_may_fatal = 0;
  size_t n, m, k = nd_size("k");
  g_k = k;
  g_starts = 0;
  char *prefix = vf_cstr(4, &m, k), *path = vf_cstr(4, &n, k);
  ASSUME(prefix[0] == '/' && path[0] == '/' && m >= 1 && n >= 1 && k < n);
  g_n = n;
  const char *r = path_is_prefix_for(prefix, path, 0);
  REACH("prefix");
  ENSURE("prefix/only-if-it-starts-with-it", !r || g_starts);
  ENSURE("prefix/boundary", (r != 0) == (g_starts && (path[m] == '/' || prefix[m - 1] == '/')));
  ENSURE("prefix/rest-inside-path", !r || (__CPROVER_same_object(r, path) && r >= path + m && r <= path + n));
  ENSURE("prefix/rest-after-slashes", !r || path[m] != '/' || *r != '/');
  ENSURE("prefix/only-slashes-skipped", !r || k < m || path + k >= r || path[k] == '/');
}
void p_basename(void) {
  VF_START();
  size_t n, k = nd_size("k");
  char *p = vf_cstr(4, &n, k);
  ASSUME(k < n && p[0] != 0);
  g_k = k; g_n = n; g_c = p[k];
  char *r = path_basename(p);
  REACH("basename");
  ENSURE("basename/inside", __CPROVER_same_object(r, p) && r >= p && r < p + n);
  ENSURE("basename/starts-a-component", r == p || r[-1] == '/');
  ENSURE("basename/tail-is-slashes-only", p[k] == g_c || (g_c == '/' && p[k] == 0));
  ENSURE("basename/no-slash-inside", !(p + k > r && p + k < p + n && p[k] == '/'));
}
#endif
