// Resolution of a rule: when its action runs, in which order records are replaced, and how recorded values reach the build.
//@ entry: p_resolve props=C03,C04 functions=node_resolve native=n_hist link=* forked rename=script.c:node_value unwind=13 fpr=node_resolve.function_pointer_call.1/h_init,node_resolve.function_pointer_call.2/h_act,node_resolve.function_pointer_call.3/h_env
//@ loop: script.c node_resolve 0 p_resolve
//@   __CPROVER_assigns(prev_outdated, deps.type, deps.flags, deps.serial, deps.resource, r->num_deps, r->resolve_outdated.num, g_any, g_recs, g_truth, g_vdiff, g_vnull, g_hit_type, g_hit_flags)
//@   __CPROVER_loop_invariant(g_recs >= 0 && g_recs <= 1000000 && r->num_deps == g_recs && r->resolve_outdated.num <= g_recs && (r->resolve_outdated.num > 0) == g_any && (prev_outdated == 0 || g_any))
//@ entry: p_envval props=C29 functions=node_resolve native=n_values link=* forked rename=script.c:node_value unwind=13 timeout=420 defs=VF_VALUES fpr=node_resolve.function_pointer_call.1/h_none,node_resolve.function_pointer_call.2/h_none,node_resolve.function_pointer_call.3/h_value
//@ loop: script.c node_resolve 1 p_envval
//@   __CPROVER_assigns(len, buf, bufsz, __CPROVER_object_whole(g_line), g_expect, g_len, g_eq, g_k, g_m, g_ok, g_om, g_eof, g_repl, g_read_err)
//@   __CPROVER_loop_invariant(!g_expect && ((buf == 0 && bufsz == 0) || buf == g_line) && !g_eof)
//@ loop: script.c node_resolve 2 p_envval
//@   __CPROVER_assigns(vlen, __CPROVER_object_whole(g_line))
//@   __CPROVER_loop_invariant(vlen >= 0 && vlen <= VL && g_line[g_eq] == 0 && (vlen == VL || g_line[g_eq + 1 + vlen] == 0))
//@   __CPROVER_loop_invariant(KEPT(g_k, g_ok) && KEPT(g_m, g_om))
//@ entry: n_hist mode=native forked=60 link=* props=C03,C04 functions=node_resolve,node_run_setup,node_check_setup,node_subst_setup,node_configure_setup,node_add_unit_deps,node_consumes_resolve nlimit=120 cost=9 N=2 NT=3
//@ entry: n_crash mode=native forked=60 link=* props=C04 functions=node_resolve,utils_rename_file,deps_close nlimit=120 cost=9 defs=VF_CRASH N=1 NT=2
//@ entry: n_stale mode=native forked=60 link=* props=C04,C29 functions=node_resolve,node_check_setup,autark_run,node_env_set nlimit=60 cost=9
//@ entry: n_values mode=native forked=60 link=* props=C29 functions=node_resolve,node_check_setup,autark_run,node_env_set nlimit=60 cost=9 N=1 NT=2
//@ assume: p_resolve and p_envval use deps.c, ulist.c, pool.c and the callbacks of a rule through their contracts (C01, C02, C20, C22); a value line holds no NUL byte
//@ assume: native histories: external commands are stand-ins run inside the build process (lib/vf_build.h); modification times have millisecond resolution
#ifdef VF_CBMC
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "env.h"
#include "script.h"
#include "utils.h"
#include "paths.h"
#include <errno.h>
struct env g_env;
static int g_errno;
#undef errno
#define errno g_errno
static char n_deps[1], n_env[1], n_dtmp[1], n_etmp[1], g_dup[1];
/* events */
static int g_opened, g_closed, g_acted, g_inited, g_dtmp, g_etmp, g_undtmp, g_unetmp, g_envdone, g_depsdone, g_stale, g_env_gone, g_force, g_has_rec, g_closes, g_envs;
/* records */
static int g_any, g_recs, g_truth, g_vdiff, g_vnull, g_nvals;
static char g_hit_type, g_hit_flags;
static struct node NV, *g_nvp; static char g_val[1], g_res[1]; static struct unit U;
struct pool* pool_create_empty(void) { return (struct pool*) g_dup; }
void pool_destroy(struct pool *p) { }
char* pool_strdup(struct pool *p, const char *s) { return g_dup; }
struct unit* unit_peek(void) { return &U; }
static char* path_of(const char *fmt, const char *a, const char *b) {
  static const char f0[] = "%s/%s.deps", f1[] = "%s/%s.env";
  ENSURE("resolve/record-in-the-cache-directory", a == U.cache_dir);
  int tmp = 0, env = fmt[6] == 'e';
  ENSURE("resolve/record-name", fmt[0] == '%' && fmt[1] == 's' && fmt[2] == '/' && fmt[3] == '%' && fmt[4] == 's' && fmt[5] == '.' && (fmt[6] == 'd' || fmt[6] == 'e'));
  tmp = env ? fmt[9] == '.' : fmt[10] == '.';
  return env ? (tmp ? n_etmp : n_env) : (tmp ? n_dtmp : n_deps);
}
#define PICK(_1, _2, _3, _4, _5, NAME, ...) NAME
#define pp5(p, f, a, b, c) g_dup
#define pp4(p, f, a, b) path_of(f, a, b)
#define pp3(p, f, a) g_dup
#define pool_printf(...) PICK(__VA_ARGS__, pp5, pp4, pp3, pp2, pp1)(__VA_ARGS__)
#ifdef VF_VALUES
static int g_values_there;
#endif
static int vf_unlink(const char *p) {
  if (p == n_dtmp) { g_undtmp = 1; g_dtmp = 0; }
  if (p == n_etmp) { g_unetmp = 1; g_etmp = 0; }
  ENSURE("resolve/record-kept", p != n_deps);
  if (p == n_env) { ENSURE("resolve/values-dropped-only-when-none-set", g_acted && !g_etmp && !g_depsdone); g_env_gone = 1; }
  return 0;
}
static int vf_access(const char *p, int m) {
#ifdef VF_VALUES
  if (p == n_env) return g_values_there ? 0 : -1;
#endif
  int ok = p == n_dtmp ? g_dtmp : p == n_etmp ? g_etmp : nd_bool("there");
  if (!ok) g_errno = ENOENT;
  return ok ? 0 : -1;
}
int utils_rename_file(const char *a, const char *b) {
  ENSURE("resolve/only-after-the-action", g_acted == 1);
  if (a == n_etmp) { ENSURE("resolve/values-renamed", b == n_env && g_etmp && !g_depsdone); g_envdone = 1; g_etmp = 0; }
  else { ENSURE("resolve/record-renamed-last", a == n_dtmp && b == n_deps && g_dtmp && !g_etmp_pending()); g_depsdone = 1; g_dtmp = 0; }
  if (nd_bool("rename-fails")) return EIO;
  return 0;
}
#define unlink vf_unlink
#define access vf_access
int deps_open(const char *path, int omode, struct deps *d) {
  ENSURE("resolve/record-read", path == n_deps && omode == DEPS_OPEN_READONLY && !g_force && !g_opened);
  ENSURE("resolve/after-init", g_inited);
  d->file = 0;
  if (!g_has_rec) return ENOENT;
  g_opened = 1;
  d->file = (FILE*) g_res;
  return 0;
}
void deps_close(struct deps *d) { ++g_closes; d->file = 0; }
bool deps_cur_next(struct deps *d) {
  if (!nd_bool("more") || g_recs >= 1000000) return false;
  ++g_recs;
  d->type = nd_char("type"); d->flags = nd_char("flags"); d->serial = nd_ll("serial"); d->resource = g_res;
  g_truth = nd_bool("outdated"); g_vdiff = nd_bool("differs"); g_vnull = nd_bool("null");
  if (d->type == DEPS_TYPE_NODE_VALUE) g_truth = d->serial < 0 || d->serial >= g_nvals || g_vnull || g_vdiff;
  if (g_truth) g_any = 1;
  g_hit_type = d->type; g_hit_flags = d->flags;
  return true;
}
bool deps_cur_is_outdated(struct node *n, struct deps *d) { ENSURE("resolve/judged-for-this-rule", n == &NV && d->type != DEPS_TYPE_NODE_VALUE); return g_truth; }
const char* node_value(struct node *n);
static int vf_strcmp(const char *a, const char *b) {
  if (a == g_val || b == g_val) { ENSURE("resolve/value-compared-with-its-record", a == g_res || b == g_res); return g_vdiff ? 1 : 0; }
  return nd_bool("same-text") ? 0 : 1;
}
#define strcmp vf_strcmp
#include "ulist.h"
#define LST(l) ((struct ulist*) (l))
static struct node_resolve R;
void ulist_init(struct ulist *l, unsigned n, unsigned u) { l->num = 0; l->usize = u; }
void ulist_push(struct ulist *l, const void *e) {
  const struct resolve_outdated *o = e;
  ENSURE("resolve/outdated-list", l == &R.resolve_outdated && o->type == g_hit_type && o->flags == g_hit_flags && o->path == g_dup && g_truth);
  ++l->num;
}
void* ulist_get(const struct ulist *l, unsigned i) {
  ENSURE("resolve/tracked-value-in-range", l == &R.node_val_deps && i < g_nvals);
  return &g_nvp;
}
void ulist_destroy_keep(struct ulist *l) { l->num = 0; }
#ifndef VF_VALUES
static FILE* vf_fopen(void) { ENSURE("resolve/no-values-read", 0); return 0; }
#define fopen(p, m) vf_fopen()
#else
/* the value file: lines of any length; the value part of the current line is watched at two arbitrary places g_k < g_m */
static char *g_line; static int g_cap, g_len, g_eq, g_k, g_m; static char g_ok, g_om; static int g_expect, g_eof, g_repl, g_values_there, g_read_err, g_fopened, g_fclosed;
#define VL (g_len - g_eq - 1)
#define NL(c) ((c) == '\n' || (c) == '\r')
#define KEPT(k, o) (k < 0 || k >= VL || (k < vlen ? g_line[g_eq + 1 + k] == o : g_line[g_eq + 1 + k] == 0 && NL(o)))
static FILE* vf_fopen(const char *p, const char *m) {
  ENSURE("values/file", p == n_env && m[0] == 'r' && m[1] == 0 && !g_fopened);
  if (nd_bool("cannot-open")) { g_errno = EACCES; return 0; }
  g_fopened = 1;
  return (FILE*) g_res;
}
#define fopen(p, m) vf_fopen(p, m)
#define ferror(f) g_read_err
#define fclose(f) (++g_fclosed, 0)
static ssize_t vf_getline(char **b, size_t *n, FILE *f) {
  ENSURE("values/every-line-delivered", !g_expect);
  ENSURE("values/buffer", (*b == 0 && *n == 0) || *b == g_line);
  if (!nd_bool("line")) { g_eof = 1; g_read_err = nd_bool("read-error"); return -1; }
  *b = g_line; *n = g_cap; /* arbitrary content: the loop contract has just havocked the object */
  g_len = nd_range("len", 1, g_cap - 1);
  g_line[g_len] = 0;
  g_eq = nd_range("eq", -1, g_len - 1);
  g_expect = g_eq >= 0;
  g_repl = 0;
  if (g_expect) {
    g_line[g_eq] = '=';
    g_m = nd_range("m", -1, VL - 1); g_k = nd_range("k", -1, g_m);
    if (g_m >= 0) { g_om = g_line[g_eq + 1 + g_m]; ASSUME(g_om != 0); }
    if (g_k >= 0) { g_ok = g_line[g_eq + 1 + g_k]; ASSUME(g_ok != 0); }
  }
  return g_len;
}
#define getline vf_getline
static char *vf_strchr(const char *s, int c) { ENSURE("values/name-ends-at-the-first-equals-sign", s == g_line && c == '='); return g_eq < 0 ? 0 : g_line + g_eq; }
#define strchr vf_strchr
static size_t vf_strlen(const char *s) { ENSURE("values/length-of-the-value", s == g_line + g_eq + 1); return VL; }
#define strlen vf_strlen
void utils_chars_replace(char *s, char c, char r) {
  ENSURE("values/line-ends-restored", s == g_line + g_eq + 1 && c == '\2' && r == '\n' && !g_repl);
  g_repl = 1;
}
void h_none(struct node_resolve *r) { ENSURE("values/no-action", 0); }
static void h_value(struct node_resolve *r, const char *k, const char *v) {
  ENSURE("values/only-defined-ones", r == &R && g_expect && g_fopened && !g_fclosed);
  ENSURE("values/name", k == g_line && g_line[g_eq] == 0);
  ENSURE("values/value-starts-after-the-equals-sign", v == g_line + g_eq + 1 && g_repl);
  ENSURE("values/text", g_k < 0 || v[g_k] == g_ok || (v[g_k] == 0 && NL(g_ok)));
  ENSURE("values/cut-only-at-the-end", g_k < 0 || v[g_k] != 0 || NL(g_om));
  ENSURE("values/line-end-cut", g_m != VL - 1 || g_m < 0 || !NL(g_om) || v[g_m] == 0);
  g_expect = 0;
}
#endif
static int g_etmp_pending(void) { return g_etmp && R.on_env_value != 0; }
static void h_init(struct node_resolve *r) { ENSURE("resolve/init-first", r == &R && !g_opened && !g_acted && !g_inited); g_inited = 1; }
static void h_act(struct node_resolve *r) {
  ENSURE("resolve/acts-once", r == &R && !g_acted);
  ENSURE("resolve/leftovers-removed-before-the-action", g_undtmp && g_unetmp);
  ENSURE("resolve/record-read-before-the-action", g_closes == g_opened && (g_force || g_inited));
  ENSURE("resolve/acts-only-when-needed", g_force || !g_has_rec || g_recs == 0 || g_any);
  ENSURE("resolve/action-sees-what-changed", (r->resolve_outdated.num > 0) == g_any && r->num_deps == g_recs);
  ENSURE("resolve/action-sees-temporary-names", r->deps_path_tmp == n_dtmp && r->env_path_tmp == n_etmp);
  g_acted = 1;
  g_dtmp = nd_bool("writes-record"); g_etmp = nd_bool("sets-values");
}
static void h_env(struct node_resolve *r, const char *k, const char *v) { ++g_envs; }
#include "script.c"
const char* node_value(struct node *n) { ENSURE("resolve/tracked-value", n == &NV); return g_vnull ? (const char*) 0 : g_val; }
#ifdef VF_VALUES
void p_envval(void) {
  VF_START();
  g_errno = 0;
  g_undtmp = g_unetmp = g_acted = g_expect = g_eof = g_repl = g_read_err = g_fopened = g_fclosed = 0;
  g_env.check.log = 0;
  U.cache_dir = g_res;
  R.n = &NV; R.path = g_res; R.mode = NODE_RESOLVE_ENV_ALWAYS;
  R.on_init = nd_bool("init") ? h_none : 0; R.on_resolve = 0; R.on_env_value = h_value; ASSUME(R.on_init == 0);
  R.force_outdated = true;
  g_cap = nd_range("cap", 2, 1 << 20);
  g_line = malloc(g_cap);
  g_values_there = nd_bool("values");
  node_resolve(&R);
  REACH("values");
  ENSURE("values/read-to-the-end", g_fopened == g_values_there && (!g_fopened || (g_eof && !g_read_err && g_fclosed == 1)));
  ENSURE("values/all-delivered", !g_expect);
}
#else
void p_resolve(void) {
  VF_START();
  g_errno = 0;
  g_opened = g_acted = g_dtmp = g_etmp = g_undtmp = g_unetmp = g_envdone = g_depsdone = g_env_gone = g_closes = g_envs = 0;
  g_any = g_recs = g_truth = 0;
  g_nvp = &NV;
  g_env.check.log = 0;
  U.cache_dir = g_res;
  R.n = &NV; R.path = g_res; R.mode = 0;
  R.on_init = nd_bool("init") ? h_init : 0;
  g_inited = R.on_init == 0;
  R.on_resolve = nd_bool("action") ? h_act : 0;
  R.on_env_value = nd_bool("values") ? h_env : 0;
  R.force_outdated = g_force = nd_bool("force");
  g_has_rec = nd_bool("record");
  g_nvals = nd_range("nvals", 0, 1000000);
  R.node_val_deps.num = g_nvals;
  g_dtmp = nd_bool("leftover1"); g_etmp = nd_bool("leftover2");
  node_resolve(&R);
  REACH("resolve");
  ENSURE("resolve/acts-when-needed", R.on_resolve == 0 || g_acted == (g_force || !g_has_rec || g_recs == 0 || g_any));
  ENSURE("resolve/record-replaced-after-success", !g_dtmp);
  ENSURE("resolve/values-replaced-after-success", !g_acted || R.on_env_value == 0 || (!g_etmp && (g_envdone || g_env_gone)));
  ENSURE("resolve/record-closed", g_closes == g_opened);
}
#endif
#else
#include "vf_build.h"
/* A small project with one rule of each kind whose result depends on the file a.txt, the option VX and (the check) on the
 * system variable VF_S. What the rule produced is seen either in a product file or by the command "show". */
static int g_kind, g_va, g_vx, g_vs, g_fail, g_acts;
static int values_cmd(const char *base, int argc, char **argv);
#define CFG (g_kind == 5 || g_kind >= 9) /* configure rules */
#define TPL (g_kind == 10 ? "one.in" : "a.txt.in")
static int vb_cmd(int argc, char **argv, const char *name, void (*out)(const char *buf, size_t n)) {
  char b[256], t[512];
  const char *base = strrchr(name, '/') ? strrchr(name, '/') + 1 : name;
  if (strcmp(base, "sh") == 0) base = "gen"; /* shell -c "gen VX" */
  if (g_kind == 99) return values_cmd(base, argc, argv);
  if (strcmp(base, "show") == 0) {
    snprintf(vb->seen, sizeof(vb->seen), "%s", argc > 1 ? argv[1] : "");
    return 0;
  }
  ++vb->maxrun; /* number of actions run */
  if (g_fail == 2) _exit(77);
  if (vb_read("a.txt", b, 200) < 0) { snprintf(t, sizeof(t), "%s/a.txt", vb_root); if (vb_read(t, b, 200) < 0) strcpy(b, "?"); }
  const char *arg = argc > 1 ? argv[argc - 1] : "";
  if (strncmp(arg, "gen ", 4) == 0) arg += 4;
  if (g_kind == 6) arg = name;
  if (strcmp(base, "c.sh") == 0) {
    snprintf(t, sizeof(t), "%s/a.txt", vb_root);
    if (vb_self("dep", t) || vb_self("env", "VF_S")) return 9;
    snprintf(t, sizeof(t), "R=%s:%s:%s", arg, b, getenv("VF_S") ? getenv("VF_S") : "");
    if (vb_self("set", t)) return 9;
  } else if (g_kind == 2) {
    snprintf(t, sizeof(t), "%s:", arg);
    out(t, strlen(t));
  } else {
    snprintf(t, sizeof(t), "%s:%s", arg, b);
    vb_file("out.txt", 0, "%s", t);
  }
  if (g_fail == 1) return 1;
  if (g_fail == 3) _exit(77);
  return 0;
}
static void project(void) {
  vb_start();
  g_va = g_vx = g_vs = 0; g_fail = 0;
  unsetenv("VF_S");
  vb_file("a.txt", VB_T0, "a0"); vb_file("b.txt", VB_T0, "b0");
  switch (g_kind) {
    case 0: vb_file("Autark", VB_T0, "run {\n exec { gen ${VX} }\n consumes { a.txt }\n produces { out.txt }\n}\n"); break;
    case 1: vb_file("Autark", VB_T0, "run {\n shell { gen ${VX} }\n consumes { a.txt }\n produces { out.txt }\n}\n"); break;
    case 2: vb_file("Autark", VB_T0, "run {\n always\n exec { show @@{ gen ${VX} } }\n}\n"); break;
    case 3: mkdir(".autark", 0755); vb_file(".autark/c.sh", VB_T0, "#!/bin/sh\n"); chmod(".autark/c.sh", 0755);
      vb_file("Autark", VB_T0, "check {\n c.sh { ${VX} }\n}\nrun {\n always\n exec { show ${R} }\n}\n"); break;
    case 4: vb_file("Autark", VB_T0, "foreach {\n F\n a.txt\n run {\n exec { gen ${VX} }\n consumes { ${F} }\n produces { out.txt }\n}\n}\n"); break;
    case 6: vb_file("Autark", VB_T0, "run {\n exec { ${VX} gen }\n consumes { a.txt }\n produces { out.txt }\n}\n"); break;
    case 7: vb_file("Autark", VB_T0, "run {\n shell { ${VX} }\n consumes { a.txt }\n produces { out.txt }\n}\n"); break;
    case 8: vb_file("Autark", VB_T0, "foreach {\n F\n ${VX}\n run {\n exec { gen ^{${F} '/' ${VX}} }\n consumes { a.txt }\n produces { out.txt }\n}\n}\n"); break;
    case 9: vb_file("a.txt.in", VB_T0, "a0"); vb_file("b.in", VB_T0, "@VX@:"); vb_file("Autark", VB_T0, "configure { a.txt.in b.in }\n"); break;
    case 10: vb_file("one.in", VB_T0, "@VX@:a0"); vb_file("two.in", VB_T0, "@VX@:a0"); vb_file("o.in", VB_T0, "@VX@:a0");
      vb_file("Autark", VB_T0, "configure { ^{${VX} '.in'} }\n"); break;
    case 5: vb_file("a.txt", VB_T0, "a0 @VX@"); vb_file("a.txt.in", VB_T0, "@VX@:a0"); vb_file("Autark", VB_T0, "configure { a.txt.in }\n"); break;
  }
}
static const char *vxs[] = { "-DVX=one", "-DVX=two", "-DVX=o" };
static void expect(char *t, size_t n) {
  const char *x = vxs[g_vx] + 5;
  if (g_kind == 2) snprintf(t, n, "%s:", x);
  else if (g_kind == 3) snprintf(t, n, "%s:a%d:%s", x, g_va, g_vs ? "s1" : "");
  else if (g_kind == 8) snprintf(t, n, "%s/%s:a%d", x, x, g_va);
  else snprintf(t, n, "%s:a%d", x, g_va);
}
static int up_to_date(void) {
  char t[512], b[512];
  expect(t, sizeof(t));
  if (g_kind == 2 || g_kind == 3) return strcmp(t, vb->seen) == 0;
  if (g_kind == 9) {
    if (vb_read("autark-cache/b", b, sizeof(b)) < 0) return 0;
    int l = strlen(b);
    if (vb_read("autark-cache/a.txt", b + l, sizeof(b) - l) < 0) return 0;
    return strcmp(t, b) == 0;
  }
  char c[64]; snprintf(c, sizeof(c), "autark-cache/%s", vxs[g_vx] + 5);
  if (vb_read(g_kind == 10 ? c : CFG ? "autark-cache/a.txt" : "autark-cache/out.txt", b, sizeof(b)) < 0) return 0;
  return strcmp(t, b) == 0;
}
static ino_t stamp(long *ms) { struct stat st; if (stat(g_kind == 10 ? "autark-cache/one" : "autark-cache/a.txt", &st)) return 0; *ms = st.st_mtim.tv_sec * 1000 + st.st_mtim.tv_nsec / 1000000; return st.st_ino; }
static void newer_a(int i) {
  ++g_va;
  if (g_kind == 10) {
    for (int k = 0; k < 3; ++k) { char f[64]; snprintf(f, sizeof(f), "%s.in", vxs[k] + 5); vb_file(f, VB_T0 + i + 1, "@VX@:a%d", g_va); }
  } else if (g_kind == 9) vb_file("a.txt.in", VB_T0 + i + 1, "a%d", g_va);
  else if (CFG) vb_file("a.txt.in", VB_T0 + i + 1, "@VX@:a%d", g_va);
  else vb_file("a.txt", VB_T0 + i + 1, "a%d", g_va);
}
void n_hist(void) {
  g_kind = nd_range("rule", 0, 10);
  project();
  ENSURE("history/first-build", vb_build(vxs[g_vx], 0) == 0);
  ENSURE("history/acts-without-record", CFG || vb->maxrun == 1);
  ENSURE("history/first-result", up_to_date());
  int dirty = 0; /* changed since the last successful build */
  int rec_vx = g_vx, rec_vs = g_vs, since = 0;
  for (int i = 0; i < VF_N; ++i) {
    int op = nd_range("change", 0, 7);
    ASSUME(op != 4 || g_kind == 3 || g_kind == 0);
    switch (op) {
      case 0: break;
      case 1: ASSUME(g_kind != 2); newer_a(i); since = 1; break;
      case 2: g_vx = (g_vx + 1) % 3; break;
      case 3: vb_time("Autark", VB_T0 + i + 1); since = 1; break;
      case 4: if (g_kind == 3) { g_vs = !g_vs; if (g_vs) setenv("VF_S", "s1", 1); else unsetenv("VF_S"); } else setenv("VF_S", "zz", 1); break;
      case 5: vb_file("b.txt", VB_T0 + i + 1, "b%d", i + 1); break;
      case 6: ASSUME(!since); vb_time(CFG ? TPL : "a.txt", VB_T0 - 500); break;
      case 7: if (g_kind == 3) { vb_time(".autark/c.sh", VB_T0 + i + 1); since = 1; } else ASSUME(0); break;
    }
    int changed = since || g_vx != rec_vx || g_vs != rec_vs;
    g_fail = CFG ? 0 : nd_range("action", 0, 3); /* 0 succeeds, 1 fails, 2 is cut off before, 3 after its work */
    ASSUME(changed || dirty || g_fail == 0);
    long m0 = 0, m1 = 0;
    ino_t n0 = stamp(&m0);
    int rc = vb_build(vxs[g_vx], 0);
    if (g_fail == 0) {
      ENSURE("history/build-succeeds", rc == 0);
      if (changed && !CFG) ENSURE("history/acts-when-something-changed", vb->maxrun >= 1);
      ENSURE("history/result-up-to-date", up_to_date());
      if (!changed && !dirty) {
        ENSURE("history/skipped-when-nothing-changed", vb->maxrun == 0);
        if (CFG) ENSURE("history/configure-skipped", stamp(&m1) == n0 && m0 == m1);
      } else if (!CFG) ENSURE("history/acts-once", vb->maxrun <= 1);
      dirty = 0; since = 0; rec_vx = g_vx; rec_vs = g_vs;
    } else {
      if (changed) ENSURE("history/failure-is-reported", rc != 0);
      if (rc == 0) { ENSURE("history/not-run", vb->maxrun == 0); }
      else dirty = 1;
      if (since) continue;
    }
  }
  g_fail = 0;
  ENSURE("history/last-build", vb_build(vxs[g_vx], 0) == 0);
  ENSURE("history/last-result", up_to_date());
  ENSURE("history/then-nothing-to-do", vb_build(vxs[g_vx], 0) == 0 && vb->maxrun == 0 && up_to_date());
}
/* a build ended at any file operation or command start, then one that is not */
void n_crash(void) {
  g_kind = nd_range("rule", 0, 10);
  project();
  int first = nd_bool("first-build-completes");
  if (first) {
    ENSURE("crash/first-build", vb_build(vxs[g_vx], 0) == 0 && up_to_date());
    if (g_kind != 2) newer_a(0);
    if (nd_bool("option-too")) g_vx = 1;
    if (g_kind == 2) g_vx = 1;
  }
  for (int i = 0; i < VF_N; ++i) {
    vb->crash_at = nd_range("ends-at", 1, 60);
    int rc = vb_build(vxs[g_vx], 0);
    ASSUME(vb->point >= vb->crash_at || rc != 0); /* otherwise the build was over before */
    vb->crash_at = 0;
    ENSURE("crash/interrupted", rc != 0);
    if (i + 1 < VF_N && nd_bool("change-again")) { if (g_kind == 2) g_vx = 2; else newer_a(1 + i); }
  }
  ENSURE("crash/next-build-succeeds", vb_build(vxs[g_vx], 0) == 0);
  ENSURE("crash/next-build-is-up-to-date", up_to_date());
  ENSURE("crash/then-nothing-to-do", vb_build(vxs[g_vx], 0) == 0 && up_to_date() && vb->maxrun == 0);
}
/* values a check sets */
static char g_long[9000], g_rv[2][9100]; static int g_set[2], g_nset, g_eqname, g_cfail;
static const char *texts[] = { "v", "", "x=y=z", "two\nlines\n\nmore", "end\n", "cr\r\nin", "end\r\n\r\n", " sp  ace ", "%s%n", "\xc3\xa9\t\"q' \\ $X", g_long, "=", "\nfirst", "cr\r\r" };
static int values_cmd(const char *base, int argc, char **argv) {
  if (strcmp(base, "c.sh") == 0) {
    vb->maxrun++;
    for (int i = 0; i < g_nset; ++i) {
      char t[9200];
      snprintf(t, sizeof(t), "K%d=%s", i, texts[g_set[i]]);
      if (vb_self("set", t)) return 9;
    }
    int rc = vb_self("env", "VF_S");
    return rc ? rc : g_cfail == 1 ? 1 : g_cfail == 2 ? 256 + 9 : 0;
  }
  int i = strcmp(base, "show0") ? 1 : 0;
  ENSURE("values/one-argument", argc <= 2);
  /* what arrived is kept in the shared block */
  snprintf(vb->seen + i * 20000, 20000, "%s", argc > 1 ? argv[1] : "");
  return 0;
}
static void values_seen(int n, int *set, const char *when) {
  for (int i = 0; i < 2; ++i) {
    char t[9100];
    snprintf(t, sizeof(t), "%s", i < n ? texts[set[i]] : "");
    for (int k = strlen(t); k > 0 && t[k - 1] == '\r'; --k) t[k - 1] = 0;
    ENSURE("values/arrive-unchanged", strcmp(vb->seen + i * 20000, t) == 0);
  }
}
void n_values(void) {
  g_kind = 99;
  vb_start();
  for (int i = 0; i < sizeof(g_long) - 1; ++i) g_long[i] = "abcdefghijklmnop\n"[i % 17];
  g_long[sizeof(g_long) - 2] = 'z';
  mkdir(".autark", 0755); vb_file(".autark/c.sh", VB_T0, "#!/bin/sh\n"); chmod(".autark/c.sh", 0755);
  vb_file("Autark", VB_T0, "check { c.sh }\nrun {\n always\n exec { show0 ${K0} }\n exec { show1 ${K1} }\n}\n");
  setenv("VF_S", "1", 1);
  int nt = sizeof(texts) / sizeof(texts[0]) - 1;
  for (int i = 0; i < VF_N; ++i) {
    g_nset = nd_range("number", 0, 2);
    for (int k = 0; k < g_nset; ++k) g_set[k] = nd_range("text", 0, nt);
    char e[8]; snprintf(e, sizeof(e), "%d", i); setenv("VF_S", e, 1);
    ENSURE("values/build", vb_build("-J", "1", 0) == 0 && vb->maxrun == 1);
    values_seen(g_nset, g_set, "first");
    ENSURE("values/build-again", vb_build("-J", "1", 0) == 0);
    ENSURE("values/check-skipped", vb->maxrun == 0);
    values_seen(g_nset, g_set, "skipped");
  }
}
/* what a failed run of a check has set is forgotten */
void n_stale(void) {
  g_kind = 99;
  vb_start();
  mkdir(".autark", 0755); vb_file(".autark/c.sh", VB_T0, "#!/bin/sh\n"); chmod(".autark/c.sh", 0755);
  vb_file("Autark", VB_T0, "check { c.sh }\nrun {\n always\n exec { show0 ${K0} }\n exec { show1 ${K1} }\n}\n");
  setenv("VF_S", "1", 1);
  g_cfail = nd_bool("succeeds-first") ? 0 : nd_range("fails", 1, 2);
  for (int i = 0; i < 3; ++i) {
    g_nset = nd_range("number", 0, 2);
    for (int k = 0; k < g_nset; ++k) g_set[k] = nd_range("text", 0, 1);
    char e[8]; snprintf(e, sizeof(e), "%d", i); setenv("VF_S", e, 1);
    int rc = vb_build("-J", "1", 0);
    if (g_cfail) ENSURE("stale/failure-reported", rc != 0);
    else { ENSURE("stale/build", rc == 0 && vb->maxrun == 1); values_seen(g_nset, g_set, "first"); }
    g_cfail = i == 0 && !g_cfail ? nd_range("fails", 1, 2) : 0;
  }
  ENSURE("stale/build-again", vb_build("-J", "1", 0) == 0 && vb->maxrun == 0);
  values_seen(g_nset, g_set, "skipped");
}
#endif
