// Command line options: what each one sets, how they combine, what is refused.
//@ entry: p_parse props=C26 functions=_options_parse defs=VF_OP rename=autark_core.c:_usage native=n_options link=* forked unwind=45
//@ loop: autark_core.c _options_parse 0 p_parse
//@   __CPROVER_assigns(ch, optarg, g_dup, g_arg, g_jobs_arg, g_fatal_ok, g_d, g_jobs, g_ver, g_dir, g_clean, g_verbose, g_list, g_ins, g_pfx, g_cache, g_bin, g_lib, g_inc, g_pkg, g_man, g_data, *version, *cdir, g_env.project.cache_dir, g_env.project.cleanup, g_env.project.options, g_env.verbose, g_env.install.enabled, g_env.install.prefix_dir, g_env.install.bin_dir, g_env.install.lib_dir, g_env.install.data_dir, g_env.install.include_dir, g_env.install.pkgconf_dir, g_env.install.man_dir, g_env.max_parallel_jobs, g_nd, options->num)
//@   __CPROVER_loop_invariant(!g_fatal_ok && g_d == 0 && OPTS_OK && *version == g_ver && *cdir == g_dir && g_opts->num == g_nd)
//@ entry: p_run props=C26 functions=autark_run,_is_command defs=VF_OR rename=autark_core.c:_usage,autark_core.c:_options_parse,autark_core.c:_build,autark_core.c:_options,autark_core.c:autark_build_prepare,autark_core.c:autark_init,autark_core.c:_on_command_set,autark_core.c:_on_command_dep,autark_core.c:_on_command_dep_env,autark_core.c:_on_command_glob native=n_options link=* forked unwind=66
//@ entry: p_defs props=C26 functions=_build defs=VF_OB rename=autark_core.c:unit_env_set_val,autark_core.c:unit_root native=n_options link=* forked unwind=13 cost=70
//@ loop: autark_core.c _build 0 p_defs
//@   __CPROVER_assigns(i, g_at, g_ph, g_n, g_eq, g_ck, g_cm, g_cn, g_set, g_optp, __CPROVER_object_whole(g_opt))
//@   __CPROVER_loop_invariant(i >= 0 && i <= g_opts->num && options == g_opts && g_set == i && g_ph == 0 && g_opened == 1 && g_built == 0)
//@ loop: autark_core.c _build 1 p_defs
//@   __CPROVER_assigns(vlen, __CPROVER_object_whole(g_opt))
//@   __CPROVER_loop_invariant(vlen >= 0 && vlen <= g_n - g_eq - 1 && val == g_opt + g_eq + 1 && val[vlen] == 0 && g_opt[g_n] == 0 && g_opt[g_eq] == 0 && (g_kn >= g_eq || g_opt[g_kn] == g_cn))
//@   __CPROVER_loop_invariant(g_k >= VL || (g_k < vlen ? val[g_k] == g_ck : NL(g_ck) && val[g_k] == 0))
//@   __CPROVER_loop_invariant(g_m >= VL || (g_m < vlen ? val[g_m] == g_cm : NL(g_cm) && val[g_m] == 0))
//@ entry: n_options mode=native defs=SPLIT=3 forked=60 link=* props=C26 functions=autark_run,_options_parse,_build,_options,utils_strtol nlimit=100 cost=12 N=2 NT=3
//@ entry: n_jobs mode=native defs=SPLIT=1 forked=60 link=* props=C26,C06 functions=autark_run,_options_parse,_cc_on_resolve nlimit=60 cost=5
//@ assume: getopt_long returns the value of the table entry of the long option given, or the short option, as its documentation says
#ifdef VF_CBMC
#include "vf.h"
static int g_fatal_ok;
#define VF_ON_FATAL(code) ENSURE("options/fatal-only-for-a-reason", g_fatal_ok)
#include "vf_libc.h"
#include "vf_log.h"
#include "script.h"
#include "env.h"
#include "pool.h"
#include "paths.h"
#include "utils.h"
#include "ulist.h"
#include "xstr.h"
#include "alloc.h"
#include "map.h"
#include "deps.h"
#include <stdio.h>
#include <getopt.h>
#include <unistd.h>
#include <errno.h>
#undef AK_DESTRUCTOR
#define AK_DESTRUCTOR
/* documented meaning of a job count: used when in range, the maximum when above, the default when not positive */
#define JOBS(m) ((m) <= 0 ? 4 : (m) > 16 ? 16 : (m))
#ifdef VF_OP
static struct ulist *g_opts; static char g_args[256], g_dups[256], *g_arg, *g_dup, *g_cache, *g_pfx, *g_bin, *g_lib, *g_inc, *g_pkg, *g_man, *g_data; static const char *g_dir, *g_cdir; static bool g_version;
static int g_d, g_nd, g_clean, g_verbose, g_list, g_ins; static bool g_ver; static long g_jobs, g_jobs_arg; static char g_xb[2], g_cwd[2], g_pb[2];
#define OPTS_OK (g_env.project.cache_dir == g_cache && g_env.project.cleanup == g_clean && (g_env.project.options != 0) == g_list && g_env.verbose == g_verbose && g_env.install.enabled == g_ins && g_env.install.prefix_dir == g_pfx && \
  g_env.install.bin_dir == g_bin && g_env.install.lib_dir == g_lib && g_env.install.include_dir == g_inc && g_env.install.pkgconf_dir == g_pkg && g_env.install.man_dir == g_man && g_env.install.data_dir == g_data && JOBS(g_env.max_parallel_jobs) == JOBS(g_jobs))
#define NM(a, b, c, d) (c0 == a && c1 == b && c2 == c && c3 == d)
#define OPTION(k_, sh_, a, b, c, d, arg_, set_) if (k == k_) { if (sh_ == 0 || nd_bool("long")) { ASSUME(NM(a, b, c, d)); ENSURE("parse/table-argument", !has == !arg_); ret = val; } else ret = sh_; if (arg_) optarg = g_arg; set_; }
static int vf_getopt(int argc, void *argv, const char *so, const struct option *lo, int *idx) {
  ENSURE("parse/definition-stored", g_d == 0);
  int k = nd_range("option", 0, 17), e = nd_range("entry", 0, 15), ret = '?';
  const char *nm = lo[e].name; char c0 = nm[0], c1 = nm[1], c2 = nm[2], c3 = nm[3]; int has = lo[e].has_arg, val = lo[e].val;
  optarg = 0;
  if (k == 0) return -1;
  g_arg = &g_args[nd_range("arg", 0, 255)]; g_dup = &g_dups[nd_range("dup", 0, 255)];
  OPTION(1, 'H', 'c', 'a', 'c', 'h', 1, g_cache = g_dup)
  OPTION(2, 'c', 'c', 'l', 'e', 'a', 0, g_clean = 1)
  OPTION(3, 'h', 'h', 'e', 'l', 'p', 0, g_fatal_ok = 1)
  OPTION(4, 'V', 'v', 'e', 'r', 'b', 0, g_verbose = 1)
  OPTION(5, 'v', 'v', 'e', 'r', 's', 0, g_ver = 1)
  OPTION(6, 'l', 'o', 'p', 't', 'i', 0, g_list = 1)
  OPTION(7, 'I', 'i', 'n', 's', 't', 0, g_ins = 1)
  OPTION(8, 'R', 'p', 'r', 'e', 'f', 1, g_pfx = g_dup; g_ins = 1)
  OPTION(9, 'C', 'd', 'i', 'r', 0, 1, g_dir = g_dup)
  OPTION(10, 'J', 'j', 'o', 'b', 's', 1, g_jobs = g_jobs_arg = nd_ll("jobs"))
  OPTION(11, 0, 'b', 'i', 'n', 'd', 1, g_bin = g_dup)
  OPTION(12, 0, 'l', 'i', 'b', 'd', 1, g_lib = g_dup)
  OPTION(13, 0, 'i', 'n', 'c', 'l', 1, g_inc = g_dup)
  OPTION(14, 0, 'p', 'k', 'g', 'c', 1, g_pkg = g_dup)
  OPTION(15, 0, 'm', 'a', 'n', 'd', 1, g_man = g_dup)
  OPTION(16, 0, 'd', 'a', 't', 'a', 1, g_data = g_dup)
  if (k == 17) { if (nd_bool("unknown")) g_fatal_ok = 1; else { ret = 'D'; optarg = g_arg; g_d = 1; } }
  ENSURE("parse/option-is-not-the-end", ret != -1);
  return ret;
}
#define getopt_long(c, v, s, l, i) vf_getopt(c, v, s, l, i)
char* pool_strdup(struct pool *p, const char *s) { ENSURE("parse/argument-of-the-option", s == g_arg && optarg == g_arg); return g_dup; }
char* path_normalize_cwd_pool(const char *p, const char *cwd, struct pool *pool) { ENSURE("parse/prefix-seen-from-the-start-directory", p == g_arg && cwd == g_cwd); return g_dup; }
struct xstr* xstr_create_empty(void) { return (struct xstr*) &g_xb[0]; }
long int utils_strtol(const char *v, int base, int *rcp) {
  ENSURE("parse/job-count", v == g_arg && base == 10);
  if (nd_bool("not-a-number")) { *rcp = 1; g_fatal_ok = 1; return 0; }
  *rcp = 0; return g_jobs_arg;
}
void ulist_push(struct ulist *l, const void *d) { ENSURE("parse/definition-kept", l == g_opts && g_d == 1 && *(char**) d == g_dup); g_d = 0; ASSUME(g_nd < 1 << 30); ++g_nd; l->num = g_nd; }
__attribute__((noreturn)) static void vf_usage(void) { ENSURE("parse/refused-only-when-unknown", g_fatal_ok); VF_END(); while (1); }
__attribute__((noreturn)) static void _usage(const char *err, ...);
#define static /* the constant table of options keeps its content (static objects start with any content here) */
#include "autark_core.c"
#undef static
__attribute__((noreturn)) static void _usage(const char *err, ...) { vf_usage(); }
void p_parse(void) {
  VF_START();
  static struct ulist L;
  g_opts = &L; L.num = 0; g_cache = g_pfx = g_bin = g_lib = g_inc = g_pkg = g_man = g_data = 0; g_dir = g_cdir = 0; g_version = 0;
  g_d = g_nd = g_clean = g_verbose = g_list = g_ins = g_fatal_ok = 0; g_ver = 0; g_jobs = g_jobs_arg = 0; g_env.cwd = g_cwd;
  g_env.project.cache_dir = 0; g_env.project.cleanup = 0; g_env.project.options = 0; g_env.verbose = 0; g_env.max_parallel_jobs = 0; g_env.pool = (struct pool*) &g_pb[0];
  g_env.install.enabled = 0; g_env.install.prefix_dir = g_env.install.bin_dir = g_env.install.lib_dir = g_env.install.data_dir = g_env.install.include_dir = g_env.install.pkgconf_dir = g_env.install.man_dir = 0;
  static const char *AV[2];
  _options_parse(1, AV, &L, &g_cdir, &g_version);
  REACH("parse");
  ENSURE("parse/each-option-has-its-effect", OPTS_OK && g_version == g_ver && g_cdir == g_dir);
  ENSURE("parse/every-definition-kept", L.num == g_nd && !g_d);
  ENSURE("parse/unknown-refused", !g_fatal_ok);
}
#elif defined(VF_OR)
static char g_word[2], g_home[2], g_norm[2], g_ev[2], g_def[2], g_pb[2]; static int g_class, g_parsed, g_rooted, g_want, g_prep, g_done, g_m, g_list, g_argc; static bool g_ver; static struct ulist *g_opts; static const char *AV[64]; static char g_given[8][2], g_xb[2];
static int vf_strcmp(const char *a, const char *b) {
  ENSURE("run/word-looked-at", a == g_word);
  int c = b[0] == 's' && b[1] == 'e' ? 1 : b[0] == 'd' ? 2 : b[0] == 'e' ? 3 : b[0] == 'g' ? 4 : 9;
  return c != g_class;
}
static char* vf_getenv(const char *n) { return nd_bool("set") ? g_ev : (char*) 0; }
#define getenv vf_getenv
__attribute__((noreturn)) static void vf_exit(int rc) { ENSURE("run/ends-early-only-after-the-version", rc == 0 && g_ver); VF_END(); while (1); }
#define _exit vf_exit
#undef printf
#define printf(...) 0
#undef puts
#define puts(s) 0
#define fflush(f) 0
#define utils_strncpy(d, s, n) ((void) 0)
char* path_dirname(char *p) { return g_home; }
char* path_normalize_pool(const char *p, struct pool *pool) { return g_norm; }
static char* vf_printf(struct pool *p, const char *fmt, const char *a) { ENSURE("run/default-prefix-below-home", a == g_ev && fmt[0] == '%' && fmt[1] == 's' && fmt[2] == '/' && fmt[3] == '.' && fmt[4] == 'l'); return g_def; }
#define pool_printf(p, fmt, a, ...) vf_printf(p, fmt, a)
char* pool_strdup(struct pool *p, const char *s) { ENSURE("run/root-directory", s == g_word && g_class == 0 && !g_rooted && g_parsed == 1); g_rooted = 1; return g_word; }
void ulist_destroy_keep(struct ulist *l) { ENSURE("run/options-kept", l == g_opts && g_done); }
__attribute__((noreturn)) static void _usage(const char *err, ...);
static void _options_parse(int argc, const char **argv, struct ulist *options, const char **cdir, bool *version);
static void _build(struct ulist *options);
static void _options(void);
static void _on_command_set(int argc, const char **argv);
static void _on_command_dep(int argc, const char **argv);
static void _on_command_dep_env(int argc, const char **argv);
static void _on_command_glob(int argc, const char **argv, const char *cdir);
#define strcmp vf_strcmp
#include "autark_core.c"
#undef strcmp
void autark_init(void) { }
__attribute__((noreturn)) static void _usage(const char *err, ...) { ENSURE("run/refuses-only-a-second-root", g_rooted && optind < g_argc); VF_END(); while (1); }
static void _options_parse(int argc, const char **argv, struct ulist *options, const char **cdir, bool *version) {
  ENSURE("run/options-before-and-behind-the-root", argc == g_argc && argv == AV && (g_parsed == 0 || g_rooted) && g_parsed < 2);
  ENSURE("run/all-options-of-one-build", g_opts == 0 || g_opts == options);
  g_opts = options; ++g_parsed;
  int o = nd_range("optind", 1, 63); ASSUME(o >= optind && o <= argc); optind = o;
  g_ver = nd_bool("version"); ASSUME(g_ver || !*version); *version = g_ver;
  g_env.max_parallel_jobs = g_m = nd_int("jobs");
  g_list = nd_bool("list"); g_env.project.options = g_list ? (struct xstr*) &g_xb[0] : (struct xstr*) 0;
  g_env.install.bin_dir = nd_bool("bin") ? &g_given[0][0] : (char*) 0; g_env.install.lib_dir = nd_bool("lib") ? &g_given[1][0] : (char*) 0; g_env.install.data_dir = nd_bool("data") ? &g_given[2][0] : (char*) 0;
  g_env.install.include_dir = nd_bool("inc") ? &g_given[3][0] : (char*) 0; g_env.install.pkgconf_dir = nd_bool("pkg") ? &g_given[4][0] : (char*) 0; g_env.install.man_dir = nd_bool("man") ? &g_given[5][0] : (char*) 0;
  g_env.install.prefix_dir = nd_bool("pfx") ? &g_given[6][0] : (char*) 0;
  g_want = (g_env.install.bin_dir != 0) | (g_env.install.lib_dir != 0) << 1 | (g_env.install.data_dir != 0) << 2 | (g_env.install.include_dir != 0) << 3 | (g_env.install.pkgconf_dir != 0) << 4 | (g_env.install.man_dir != 0) << 5 | (g_env.install.prefix_dir != 0) << 6;
}
static void command(int c, int argc, const char **argv) { ENSURE("run/command-asked-for", g_class == c && argc == g_argc && argv == AV && !g_done && !g_ver && AV[optind - 1] == g_word && !g_rooted && g_parsed == 1); g_done = 1; }
static void _on_command_set(int argc, const char **argv) { command(1, argc, argv); }
static void _on_command_dep(int argc, const char **argv) { command(2, argc, argv); }
static void _on_command_dep_env(int argc, const char **argv) { command(3, argc, argv); }
static void _on_command_glob(int argc, const char **argv, const char *cdir) { command(4, argc, argv); }
#define DIR(i, f, a, b, c) (g_want >> i & 1 ? g_env.install.f == &g_given[i][0] : g_env.install.f[0] == a && g_env.install.f[1] == b && g_env.install.f[2] == c)
static void settled(void) {
  ENSURE("run/job-count", g_env.max_parallel_jobs == JOBS(g_m));
  ENSURE("run/install-directories", DIR(0, bin_dir, 'b', 'i', 'n') && DIR(1, lib_dir, 'l', 'i', 'b') && DIR(2, data_dir, 's', 'h', 'a') && DIR(3, include_dir, 'i', 'n', 'c') && DIR(4, pkgconf_dir, 'l', 'i', 'b') && DIR(5, man_dir, 's', 'h', 'a'));
  ENSURE("run/install-prefix", g_want >> 6 & 1 ? g_env.install.prefix_dir == &g_given[6][0] : g_env.install.prefix_dir != 0);
  ENSURE("run/whole-command-line-read", optind >= g_argc && !g_ver && (g_parsed == 1 || g_rooted));
}
void autark_build_prepare(const char *s) { settled(); ENSURE("run/prepared-once", !g_prep && !g_done); g_prep = 1; }
static void _build(struct ulist *options) { settled(); ENSURE("run/builds-with-the-options", g_prep && !g_done && !g_list && options == g_opts); g_done = 1; }
static void _options(void) { settled(); ENSURE("run/lists-the-options", g_prep && !g_done && g_list); g_done = 1; }
void p_run(void) {
  VF_START();
  g_class = nd_range("class", 0, 4); g_argc = nd_range("argc", 1, 63);
  g_parsed = g_rooted = g_want = g_prep = g_done = g_m = g_list = g_fatal_ok = 0; g_ver = 0; g_opts = 0; g_ev[0] = nd_char("ev");
  g_env.verbose = nd_bool("verbose"); g_env.pool = (struct pool*) &g_pb[0]; g_env.project.root_dir = 0; g_env.project.options = 0; g_env.max_parallel_jobs = 0;
  optind = 1;
  for (int i = 0; i < 64; ++i) AV[i] = g_word;
  autark_run(g_argc, AV);
  REACH("run");
  ENSURE("run/something-is-done", g_done);
}
#else
static struct ulist *g_opts; static char *g_opt, *g_optp, g_ck, g_cm, g_cn, g_sb[2], g_ub[2], g_gp[2]; static int g_at, g_ph, g_n, g_eq, g_k, g_m, g_kn, g_max, g_cut, g_set, g_opened, g_built;
#define SX ((struct sctx*) &g_sb[0])
#define UR ((struct unit*) &g_ub[0])
int script_open(const char *f, struct sctx **x) { if (nd_bool("open-fails")) { g_fatal_ok = 1; return 3; } g_opened = 1; *x = SX; return 0; }
struct unit* unit_root(void) { return UR; }
void* ulist_get(const struct ulist *l, unsigned i) {
  ENSURE("defs/each-definition", l == g_opts && i < l->num && g_ph == 0 && !g_built);
  g_at = i; g_ph = 1;
  g_n = nd_range("n", 0, 1 << 24); ASSUME(g_n < g_max);
  ASSUME(g_opt[g_n] == 0); /* any content: the loop contract havocs the text before each turn */
  g_eq = -1; g_optp = g_opt;
  return &g_optp;
}
static char* vf_strchr(const char *s, int c) {
  ENSURE("defs/split-at-the-first-equal-sign", s == g_opt && c == '=' && g_ph == 1);
  g_ph = 2;
  if (g_kn < g_n) { g_cn = g_opt[g_kn]; ASSUME(g_cn != 0); }
  if (nd_bool("no-value")) { ASSUME(g_kn >= g_n || g_cn != '='); return 0; }
  g_eq = nd_range("eq", 0, 1 << 24); ASSUME(g_eq < g_n && g_opt[g_eq] == '=' && (g_kn >= g_eq || g_cn != '='));
  if (g_k < g_n - g_eq - 1) { g_ck = g_opt[g_eq + 1 + g_k]; ASSUME(g_ck != 0); }
  if (g_m < g_n - g_eq - 1) { g_cm = g_opt[g_eq + 1 + g_m]; ASSUME(g_cm != 0); }
  return g_opt + g_eq;
}
#define strchr vf_strchr
static size_t vf_strlen(const char *s) { ENSURE("defs/length-of-the-value", g_ph == 2 && g_eq >= 0 && s == g_opt + g_eq + 1); return g_n - g_eq - 1; }
#define strlen vf_strlen
#define NL(c) ((c) == '\n' || (c) == '\r')
#define VL (g_n - g_eq - 1)
void unit_env_set_val(struct unit *u, const char *key, const char *val) {
  ENSURE("defs/set-in-the-root-script", u == UR && g_ph == 2 && g_opened && !g_built);
  ENSURE("defs/name", key == g_opt && key[g_eq < 0 ? g_n : g_eq] == 0 && (g_kn >= (g_eq < 0 ? g_n : g_eq) || key[g_kn] == g_cn));
  if (g_eq < 0) ENSURE("defs/no-value-is-the-empty-value", val[0] == 0);
  else {
    ENSURE("defs/value-behind-the-first-equal-sign", val == g_opt + g_eq + 1 && val[VL] == 0);
    ENSURE("defs/value", g_k >= VL || val[g_k] == g_ck || (NL(g_ck) && val[g_k] == 0));
    ENSURE("defs/only-line-ends-at-the-end-are-cut", g_k >= VL || g_m > g_k || g_m >= VL || val[g_m] != 0 || NL(g_ck));
  }
  g_ph = 0; ++g_set;
}
void script_build(struct sctx *x) { ENSURE("defs/all-set-before-building", x == SX && g_opened && !g_built && g_ph == 0 && g_set == g_opts->num); g_built = 1; }
void script_close(struct sctx **x) { ENSURE("defs/closed-after-building", g_built); }
#include "autark_core.c"
#undef strchr
#undef strlen
void p_defs(void) {
  VF_START();
  static struct ulist L;
  g_opts = &L; L.num = nd_range("num", 0, 1 << 20);
  g_max = nd_range("max", 1, 1 << 24); g_opt = malloc(g_max);
  g_k = nd_range("k", 0, 1 << 24); g_m = nd_range("m", 0, 1 << 24); g_kn = nd_range("kn", 0, 1 << 24);
  g_at = g_ph = g_n = g_cut = g_set = g_opened = g_built = g_fatal_ok = 0; g_eq = -1; g_ck = g_cm = g_cn = 1;
  g_env.project.root_dir = g_gp;
  _build(&L);
  REACH("defs");
  ENSURE("defs/built", g_built && !g_fatal_ok);
}
#endif
#else
#include "vf_build.h"
static int vb_cmd(int argc, char **argv, const char *name, void (*out)(const char *buf, size_t n)) {
  if (!strcmp(name, "show")) {
    char d[4096]; if (!getcwd(d, sizeof(d))) return 1;
    snprintf(vb->seen, sizeof(vb->seen), "%s\n%s\n", d, getenv("AUTARK_VERBOSE") ? getenv("AUTARK_VERBOSE") : "-");
    return 0;
  }
  for (int i = 1; i < argc - 1; ++i) if (!strcmp(argv[i], "-o")) vb_file(argv[i + 1], 0, "o");
  return 0;
}
/* the documented options and their effect, by the form in which they are given */
enum { O_D, O_CACHE, O_CLEAN, O_VERBOSE, O_DIRS, O_PREFIX, O_INSTALL, O_BAD, O_HELP, O_VERSION, O_LIST };
static const struct { const char *a, *b; int kind; const char *name, *val; } OPT[] = {
  { "-DX=v1", 0, O_D, "X", "v1" }, { "-D", "X=a=b c", O_D, "X", "a=b c" }, { "-DX", 0, O_D, "X", "" }, { "-DX=", 0, O_D, "X", "" }, { "-DX= t ", 0, O_D, "X", " t " }, { "-DX=n\nl\n", 0, O_D, "X", "n\nl" }, { "-DY=-J2", 0, O_D, "Y", "-J2" }, { "-DXX=long", 0, O_D, "XX", "long" },
  { "-Hcd", 0, O_CACHE, 0, "cd" }, { "-H", "c2", O_CACHE, 0, "c2" }, { "--cache=c3/x", 0, O_CACHE, 0, "c3/x" }, { "--cache", "c4", O_CACHE, 0, "c4" },
  { "-c", 0, O_CLEAN, 0, 0 }, { "--clean", 0, O_CLEAN, 0, 0 }, { "-V", 0, O_VERBOSE, 0, 0 }, { "--verbose", 0, O_VERBOSE, 0, 0 },
  { "--bindir=b1", 0, O_DIRS, "B", "b1" }, { "--bindir", "b2", O_DIRS, "B", "b2" }, { "--libdir=l1", 0, O_DIRS, "L", "l1" }, { "--includedir=i1", 0, O_DIRS, "I", "i1" },
  { "--pkgconfdir=p1", 0, O_DIRS, "P", "p1" }, { "--mandir=m1", 0, O_DIRS, "M", "m1" }, { "--datadir=d1", 0, O_DIRS, "A", "d1" },
  { "-Rpre", 0, O_PREFIX, 0, "pre" }, { "--prefix=pre/../p2", 0, O_PREFIX, 0, "p2" }, { "--prefix", "/abs/p", O_PREFIX, 0, "/abs/p" }, { "-I", 0, O_INSTALL, 0, 0 }, { "--install", 0, O_INSTALL, 0, 0 },
  { "-J3", 0, O_VERBOSE + 100, 0, 0 }, { "--jobs=3", 0, O_VERBOSE + 100, 0, 0 },
  { "-Jx", 0, O_BAD, 0, 0 }, { "-J3x", 0, O_BAD, 0, 0 }, { "--jobs=99999999999999999999", 0, O_BAD, 0, 0 }, { "-Z", 0, O_BAD, 0, 0 }, { "--nothing", 0, O_BAD, 0, 0 }, { "--clean=yes", 0, O_BAD, 0, 0 },
  { "-h", 0, O_HELP, 0, 0 }, { "--help", 0, O_HELP, 0, 0 }, { "-v", 0, O_VERSION, 0, 0 }, { "--version", 0, O_VERSION, 0, 0 }, { "-l", 0, O_LIST, 0, 0 }, { "--options", 0, O_LIST, 0, 0 },
};
#define NOPT ((int) (sizeof(OPT) / sizeof(OPT[0])))
static char ob[5000], xb[5000];
void n_options(void) {
  int k = nd_range("options", 0, VF_N), o[4], pos = nd_range("root", -1, k);
  for (int i = 0; i < k; ++i) o[i] = nd_range("option", 0, NOPT - 1);
  vb_start();
  mkdir("prj", 0755);
  vb_file("prj/Autark", VB_T0,
    "option { X 'the option' }\nset { XD NO }\nset { YD NO }\nset { ZD NO }\nif { defined { X } set { XD ${X} } }\nif { defined { Y } set { YD ${Y} } }\nif { defined { XX } set { ZD ${XX} } }\nset { IE 0 }\nif { defined { INSTALL_ENABLED } set { IE 1 } }\n"
    "run { exec { show ^{X= ${XD}} ^{Y= ${YD}} ^{Z= ${ZD}} ^{R= ${INSTALL_PREFIX}} ^{B= ${INSTALL_BIN_DIR}} ^{L= ${INSTALL_LIB_DIR}} ^{A= ${INSTALL_DATA_DIR}} ^{I= ${INSTALL_INCLUDE_DIR}} ^{P= ${INSTALL_PKGCONFIG_DIR}} ^{M= ${INSTALL_MAN_DIR}} ^{E= ${IE}} } always }\n");
  mkdir("prj/autark-cache", 0755); vb_file("prj/autark-cache/junk", VB_T0, "j"); vb_file("prj/autark-cache/.autark", 0, "");
  const char *x = "NO", *y = "NO", *z = "NO", *cache = "autark-cache", *pf = 0; int clean = 0, verb = 0, bad = 0, ver = 0, list = 0, ins = 0;
  struct { const char *n, *v; } D[] = { { "B", "bin" }, { "L", 0 }, { "A", "share" }, { "I", "include" }, { "P", "lib/pkgconfig" }, { "M", "share/man" } };
  int n = 0; vb_av[n++] = "autark";
  char root[5000]; snprintf(root, sizeof(root), "%s/prj", vb_root);
  for (int i = 0; i <= k; ++i) {
    if (i == pos) vb_av[n++] = "prj";
    if (i == k) break;
    vb_av[n++] = OPT[o[i]].a; if (OPT[o[i]].b) vb_av[n++] = OPT[o[i]].b;
    if (bad) continue;
    const char *v = OPT[o[i]].val;
    switch (OPT[o[i]].kind) {
      case O_D: if (!strcmp(OPT[o[i]].name, "X")) x = v; else if (!strcmp(OPT[o[i]].name, "Y")) y = v; else z = v; break;
      case O_CACHE: cache = v; break;
      case O_CLEAN: clean = 1; break;
      case O_VERBOSE: verb = 1; break;
      case O_DIRS: for (int j = 0; j < 6; ++j) if (!strcmp(D[j].n, OPT[o[i]].name)) D[j].v = v; break;
      case O_PREFIX: pf = v; ins = 1; break;
      case O_INSTALL: ins = 1; break;
      case O_BAD: case O_HELP: bad = 1; break;
      case O_VERSION: ver = 1; break;
      case O_LIST: list = 1; break;
    }
  }
  char home[5000]; snprintf(home, sizeof(home), "%s/prj", vb_root);
  if (pos < 0) { if (chdir("prj")) _exit(3); strcat(vb_root, "/prj"); }
  int rc = vb_build_args(n);
  if (pos < 0) vb_root[strlen(vb_root) - 4] = 0;
  if (chdir(vb_root)) _exit(3);
  ENSURE("options/refused-exactly-when-unknown", (rc != 0) == bad);
  ENSURE("options/nothing-is-run-when-refused-or-asked-for-information", vb->cmds == (bad || ver || list ? 0 : 1));
  if (bad || ver || list) return;
  if (pf && pf[0] != '/') snprintf(xb, sizeof(xb), "%s%s/%s", vb_root, pos < 0 ? "/prj" : "", pf);
  else snprintf(xb, sizeof(xb), "%s", pf ? pf : "");
  if (!pf) snprintf(xb, sizeof(xb), "%s/.local", getenv("HOME"));
  char *lib = strstr(vb->out, "|L="); char *e = lib ? strchr(lib + 1, '|') : 0;
  ENSURE("options/variables-shown", lib && e);
  char lb[200]; snprintf(lb, sizeof(lb), "%.*s", (int) (e - lib - 3), lib + 3);
  ENSURE("options/library-directory", D[1].v ? !strcmp(lb, D[1].v) : !strncmp(lb, "lib", 3));
  int m = snprintf(ob, sizeof(ob), "show|X=%s|Y=%s|Z=%s|R=%s|B=%s|L=%s|A=%s|I=%s|P=%s|M=%s|E=%d\n", x, y, z, xb, D[0].v, lb, D[2].v, D[3].v, D[4].v, D[5].v, ins);
  ENSURE("options/each-sets-exactly-its-value", m > 0 && !strcmp(ob, vb->out));
  snprintf(ob, sizeof(ob), "%s/%s\n%s\n", root, cache, verb ? "1" : "-");
  ENSURE("options/cache-directory-and-verbosity", !strcmp(ob, vb->seen));
  struct stat st;
  ENSURE("options/clean-removes-only-the-cache-in-use", (lstat("prj/autark-cache/junk", &st) != 0) == (clean && !strcmp(cache, "autark-cache")));
  ENSURE("options/project-untouched", lstat("prj/Autark", &st) == 0);
}
void n_jobs(void) {
  static const struct { const char *a, *b; int jobs; } J[] = { { 0, 0, 4 }, { "-J1", 0, 1 }, { "-J", "2", 2 }, { "--jobs=5", 0, 5 }, { "--jobs", "16", 16 }, { "-J17", 0, 16 }, { "-J15", 0, 15 }, { "-J1000000", 0, 16 },
    { "-J4294967298", 0, 16 }, { "-J4294967297", 0, 16 }, { "-J2147483648", 0, 16 }, { "-J9223372036854775807", 0, 16 }, { "-J0", 0, 4 }, { "-J-1", 0, 4 }, { "-J-4294967293", 0, 4 }, { "-J007", 0, 7 } };
  int a = nd_range("first", 0, 15), b = nd_range("second", 0, 15), n = 0, jobs = 4;
  vb_start();
  char s[400] = ""; for (int i = 0; i < 20; ++i) { char f[10]; sprintf(f, "%c.c", 'a' + i); vb_file(f, VB_T0, "s"); sprintf(s + strlen(s), " %s", f); }
  vb_file("Autark", VB_T0, "set { SRCS%s }\ncc {\n ${SRCS}\n}\n", s);
  vb_av[n++] = "autark";
  if (J[a].a) { vb_av[n++] = J[a].a; if (J[a].b) vb_av[n++] = J[a].b; jobs = J[a].jobs; }
  if (J[b].a) { vb_av[n++] = J[b].a; if (J[b].b) vb_av[n++] = J[b].b; jobs = J[b].jobs; }
  ENSURE("jobs/build-succeeds", vb_build_args(n) == 0);
  ENSURE("jobs/all-compiled", vb->cmds == 20);
  ENSURE("jobs/as-many-at-a-time-as-asked-for", vb->maxrun == jobs);
}
#endif
