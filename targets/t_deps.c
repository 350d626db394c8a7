// Dependency records: what is written for a registration (deps_add*), what is read back (deps_cur_next), when a record is outdated.
//@ entry: p_add props=C01 functions=_deps_add,deps_add,deps_add_alias,deps_add_env,deps_add_sys_env native=n_roundtrip unwind=10 link=*
//@ entry: p_open props=C01 functions=deps_open,deps_close native=n_roundtrip unwind=2 link=*
//@ entry: p_outdated props=C02 functions=deps_cur_is_outdated native=n_outdated unwind=2 link=*
//@ entry: n_roundtrip mode=native props=C01 functions=deps_open,deps_add,deps_add_alias,deps_add_env,deps_add_sys_env,deps_cur_next,deps_close N=2 NT=3 nlimit=45 link=* cost=9
//@ entry: n_outdated mode=native props=C02 functions=deps_cur_is_outdated,deps_add,deps_add_alias,deps_add_env,deps_add_sys_env,deps_cur_next,path_stat nlimit=30 link=*
//@ assume: path_normalize gives the canonical absolute path (C10); path_stat returns the modification time in milliseconds
//@ assume: fprintf writes the whole record or returns a negative value; record lines are shorter than the 256 KiB line buffer
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "env.h"
#include "utils.h"
#include "paths.h"
#include "deps.h"
#ifdef VF_CBMC
#define OFS(p) ((unsigned long) __CPROVER_POINTER_OFFSET(p))
static int g_errno;
#undef errno
#define errno g_errno
/* path_normalize: result in buf stands for the argument */
static const char *g_norm_of[2]; static char *g_norm_in[2];
static const char *g_cp_src; static char *g_cp_dst; static int g_enc;
static uint64_t g_mtime; static int g_exists, g_statrc; static const char *g_stat_arg;
static char *vf_normalize(const char *p, char *buf) {
  ENSURE("normalize/room", __CPROVER_w_ok(buf, PATH_MAX) && __CPROVER_r_ok(p, 1));
  int i = g_norm_in[0] ? 1 : 0;
  g_norm_of[i] = p; g_norm_in[i] = buf;
  return buf;
}
static int vf_stat(const char *p, struct akpath_stat *st) {
  g_stat_arg = p;
  g_statrc = nd_bool("stat-fails");
  g_exists = nd_bool("exists");
  if (g_statrc) return EIO;
  g_mtime = nd_size("mtime");
  st->mtime = g_mtime;
  st->ftype = g_exists ? (nd_bool("dir") ? AKPATH_TYPE_DIR : AKPATH_TYPE_FILE) : AKPATH_NOT_EXISTS;
  return 0;
}
static char *vf_strncpy(char *dst, const char *src, size_t n) {
  ENSURE("copy/room", __CPROVER_w_ok(dst, n) && __CPROVER_r_ok(src, 1));
  g_cp_src = src; g_cp_dst = dst; g_enc = 0;
  return dst;
}
static int g_dec;
static void vf_replace(char *b, char c, char r) {
  if (b == g_cp_dst && c == '\n' && r == '\2') g_enc = 1;
  if (c == '\2' && r == '\n') g_dec = 1;
}
/* the record file */
static int g_atend, g_lines, g_wfail, g_seekback, g_ftell_fails; static long g_pos;
static char w_type, w_flags; static const char *w_first, *w_second; static int64_t w_serial;
static long vf_ftell(FILE *f) { if (g_ftell_fails) { g_errno = EIO; return -1; } return g_pos; }
static int vf_fseek(FILE *f, long o, int wh) {
  g_atend = wh == SEEK_END && o == 0;
  g_seekback = wh == SEEK_SET && o == g_pos;
  return 0;
}
static int out(const char *fmt, int shape, char t, char fl, const char *a, const char *b, int64_t s) {
  static const char f1[] = "%c%c%s\1%ld\n", f2[] = "%c%c%s\1%s\1%ld\n";
  ENSURE("add/record-format", shape == 1 ? fmt[0] == '%' && fmt[1] == 'c' && fmt[2] == '%' && fmt[3] == 'c' && fmt[4] == '%' && fmt[5] == 's' && fmt[6] == '\1' &&
         fmt[7] == '%' && fmt[8] == 'l' && fmt[9] == 'd' && fmt[10] == '\n' && fmt[11] == 0 :
         fmt[4] == '%' && fmt[5] == 's' && fmt[6] == '\1' && fmt[7] == '%' && fmt[8] == 's' && fmt[9] == '\1' && fmt[10] == '%' && fmt[11] == 'l' &&
         fmt[12] == 'd' && fmt[13] == '\n' && fmt[14] == 0);
  ENSURE("add/at-end-of-record-file", g_atend);
  if (g_wfail) { g_errno = ENOSPC; return -1; }
  ++g_lines;
  w_type = t; w_flags = fl; w_first = a; w_second = b; w_serial = s;
  return 10;
}
#define out4(f, fmt, t, fl, a, s) out(fmt, 1, t, fl, a, 0, s)
#define out5(f, fmt, t, fl, a, b, s) out(fmt, 2, t, fl, a, b, s)
#define PICK(_1, _2, _3, _4, _5, _6, _7, NAME, ...) NAME
#define fprintf(...) PICK(__VA_ARGS__, out5, out4, x5, x4, x3, x2)(__VA_ARGS__)
#define ftell vf_ftell
#define fseek vf_fseek
#define path_normalize vf_normalize
#define path_stat vf_stat
#define utils_strncpy vf_strncpy
#define utils_chars_replace vf_replace
/* values looked up when a record is judged */
static const char *g_val, *g_look; static int g_eq, g_env_kind; static const char *g_cmp_a, *g_cmp_b;
const char* unit_env_get(struct node *n, const char *key) { g_look = key; g_env_kind = 1; return g_val; }
static char *vf_getenv(const char *key) { g_look = key; g_env_kind = 2; return (char*) g_val; }
static int vf_strcmp(const char *a, const char *b) { g_cmp_a = a; g_cmp_b = b; return g_eq ? 0 : nd_bool("lt") ? -1 : 1; }
#define getenv vf_getenv
#define strcmp vf_strcmp
/* reader */
static const char *g_num; static long long g_numv; static int g_numrc;
long long utils_strtoll(const char *v, int base, int *rcp) { g_num = v; *rcp = g_numrc; return g_numv; }
static FILE *g_fopen_ret; static const char *g_mode; static int g_closed;
#define fopen(p, m) (g_mode = (m), g_errno = ENOENT, g_fopen_ret)
#define fclose(f) (++g_closed, 0)
#include "deps.c"
#undef fprintf
static void start(void) {
  VF_START();
  g_errno = 0; g_norm_of[0] = g_norm_of[1] = 0; g_norm_in[0] = g_norm_in[1] = 0; g_cp_src = 0; g_cp_dst = 0; g_enc = g_dec = 0;
  g_stat_arg = 0; g_exists = g_statrc = 0; g_atend = g_lines = g_seekback = 0; w_first = w_second = 0;
  g_wfail = nd_bool("write-fails"); g_ftell_fails = nd_bool("ftell-fails"); g_pos = nd_range("pos", 0, 1000000);
  g_closed = 0;
}
static int stands_for(const char *s, const char *txt) { /* s is the normalized path of txt */
  return (s == g_norm_in[0] && txt == g_norm_of[0]) || (s == g_norm_in[1] && txt == g_norm_of[1]);
}
void p_add(void) {
  start();
  struct deps *d = malloc(sizeof(*d));
  d->num_registered = nd_int("registered");
  ASSUME(d->num_registered >= 0 && d->num_registered < 1000000);
  int was = d->num_registered;
  size_t n, m;
  char *res = vf_cstr(4, &n, 0), *key = vf_cstr(4, &m, 0);
  char fl = nd_char("flags");
  int64_t ser = nd_ll("serial");
  int how = nd_range("how", 0, 3), rc;
  char ty = nd_char("type");
  ASSUME(ty == DEPS_TYPE_FILE || ty == DEPS_TYPE_FILE_OUTDATED || ty == DEPS_TYPE_NODE_VALUE || ty == DEPS_TYPE_OUTDATED);
  if (how == 0) rc = deps_add(d, ty, fl, res, ser);
  else if (how == 1) { ty = DEPS_TYPE_ALIAS; rc = deps_add_alias(d, fl, res, key); }
  else if (how == 2) { ty = DEPS_TYPE_ENV; rc = deps_add_env(d, fl, key, res); }
  else { ty = DEPS_TYPE_SYS_ENV; rc = deps_add_sys_env(d, fl, key, res); }
  REACH("add");
  ENSURE("add/recorded-once-or-error", rc ? g_lines == 0 && (g_wfail || g_ftell_fails) : g_lines == 1 && d->num_registered == was + 1);
  ENSURE("add/read-position-kept", g_ftell_fails || g_seekback);
  if (rc) return;
  ENSURE("add/kind", w_type == (ty == DEPS_TYPE_FILE_OUTDATED ? DEPS_TYPE_FILE : ty));
  ENSURE("add/flags", w_flags == (fl ? fl : ' '));
  if (ty == DEPS_TYPE_FILE || ty == DEPS_TYPE_FILE_OUTDATED) {
    ENSURE("add/file-path", stands_for(w_first, res) && !w_second);
    if (ty == DEPS_TYPE_FILE) {
      ENSURE("add/stat-of-the-file", g_stat_arg == w_first);
      ENSURE("add/file-time", w_serial == (!g_statrc && g_exists ? (int64_t) g_mtime : ser));
    } else
      ENSURE("add/outdated-file-time", w_serial == 0);
  } else if (ty == DEPS_TYPE_ALIAS) {
    ENSURE("add/alias-paths", stands_for(w_second, res) && stands_for(w_first, key) && w_first != w_second);
    ENSURE("add/alias-stat-of-the-alias", g_stat_arg == w_first);
    ENSURE("add/alias-time", w_serial == (!g_statrc && g_exists ? (int64_t) g_mtime : 0));
  } else if (ty == DEPS_TYPE_OUTDATED) {
    ENSURE("add/plain-text", w_first == res && w_serial == ser);
  } else {
    const char *v = ty == DEPS_TYPE_NODE_VALUE ? w_first : w_second;
    ENSURE("add/value-encoded", v == g_cp_dst && g_cp_src == res && g_enc);
    ENSURE("add/value-key", ty == DEPS_TYPE_NODE_VALUE || w_first == key);
    ENSURE("add/value-serial", ty != DEPS_TYPE_NODE_VALUE || w_serial == ser);
  }
}
void p_open(void) {
  start();
  struct deps *d = malloc(sizeof(*d));
  g_fopen_ret = nd_bool("opens") ? (FILE*) d : 0;
  int mode = nd_range("mode", 0, 2);
  int rc = deps_open("r", mode, d);
  REACH("open");
  ENSURE("open/reports-missing", (rc == 0) == (g_fopen_ret != 0) && d->file == g_fopen_ret);
  ENSURE("open/mode", mode == DEPS_OPEN_TRUNCATE ? g_mode[0] == 'w' : mode == DEPS_OPEN_READONLY ? g_mode[0] == 'r' && g_mode[1] == 0 : g_mode[0] == 'a');
  ENSURE("open/fresh", d->num_registered == 0 && d->type == 0 && d->resource == 0 && d->alias == 0);
  deps_close(d);
  ENSURE("close/closed-once", d->file == 0 && g_closed == (g_fopen_ret != 0));
}
void p_outdated(void) {
  start();
  struct deps *d = malloc(sizeof(*d));
  char ty = d->type = nd_char("type");
  size_t n, m, k;
  char *res = vf_cstr(4, &n, 0), *al = vf_cstr(4, &m, 0), *val = vf_cstr(4, &k, 0);
  d->resource = res; d->alias = al;
  d->serial = nd_ll("serial");
  ASSUME(d->serial >= 0);
  g_val = nd_bool("set") ? val : 0;
  char fl = d->flags = nd_char("flags");
  int appeared = ty == DEPS_TYPE_ENV && ((fl == 'u' && g_val) || (fl == 'd' && !g_val)); /* recorded as undefined or as defined */
  g_eq = nd_bool("equal"); g_cmp_a = g_cmp_b = 0; g_look = 0; g_env_kind = 0;
  int64_t ser = d->serial;
  bool r = deps_cur_is_outdated(0, d);
  REACH("outdated");
  if (ty == DEPS_TYPE_FILE || ty == DEPS_TYPE_ALIAS) {
    ENSURE("outdated/judged-by-the-file", g_stat_arg == (ty == DEPS_TYPE_FILE ? res : al));
    ENSURE("outdated/file-newer-or-gone", r == (g_statrc || !g_exists || g_mtime > (uint64_t) ser));
  } else if (ty == DEPS_TYPE_ENV || ty == DEPS_TYPE_SYS_ENV) {
    ENSURE("outdated/variable-looked-up", g_look == al && g_env_kind == (ty == DEPS_TYPE_ENV ? 1 : 2));
    if (appeared) { ENSURE("outdated/defined-or-not", r); return; }
    const char *cur = g_cmp_a == res ? g_cmp_b : g_cmp_a;
    ENSURE("outdated/compared-with-record", (g_cmp_a == res || g_cmp_b == res) && (g_val ? cur == g_val : cur[0] == 0));
    ENSURE("outdated/value-differs", r == !g_eq);
  } else
    ENSURE("outdated/other-kinds", r == (ty == DEPS_TYPE_OUTDATED));
}
#else
static const char *env_val;
const char* unit_env_get(struct node *n, const char *key) { return strcmp(key, "KEY") == 0 ? env_val : 0; }
#include "deps.c"
static void touch(const char *f, long ms) {
  int fd = open(f, O_CREAT | O_WRONLY, 0644);
  close(fd);
  struct timespec ts[2] = { { ms / 1000, (ms % 1000) * 1000000L }, { ms / 1000, (ms % 1000) * 1000000L } };
  utimensat(AT_FDCWD, f, ts, 0);
}
static char longtxt[9000];
static const char *txt(int i) {
  static const char *t[] = { "", "a", "two\nlines\n", "\1item\1x y", "tail\1", " lead %s", longtxt };
  if (!longtxt[0]) for (int j = 0; j < sizeof(longtxt) - 1; ++j) longtxt[j] = j % 97 ? 'a' + j % 26 : '\n';
  return t[i];
}
#define NTXT 7
struct rec { char type, flags; int ti; const char *name; const char *alias; int64_t serial; };
static const char *fname[] = { "f1", "./d/../f 2", "gone" };
static char cwd[PATH_MAX];
static const char *full(int i, char *b) { snprintf(b, PATH_MAX, "%s/%s", cwd, i == 0 ? "f1" : i == 1 ? "f 2" : "gone"); return b; }
void n_roundtrip(void) {
  struct { int kind, a, b; char fl; int64_t ser; } r[4];
  if (!cwd[0]) { getcwd(cwd, sizeof(cwd)); mkdir("d", 0755); }
  touch("f1", 1234567890123L); touch("f 2", 999000L); unlink("gone");
  int n = nd_range("n", 1, VF_N), split = nd_range("session", 0, n);
  static struct deps d;
  unlink("rec");
  if (deps_open("rec", DEPS_OPEN_TRUNCATE, &d)) ENSURE("roundtrip/open", 0);
  for (int i = 0; i < n; ++i) {
    if (i == split) { deps_close(&d); if (deps_open("rec", 0, &d)) ENSURE("roundtrip/reopen", 0); }
    r[i].kind = nd_range("kind", 0, 6);
    r[i].fl = nd_bool("fl") ? 's' : 0;
    r[i].ser = 0; r[i].a = r[i].b = 0;
    switch (r[i].kind) {
      case 0: case 1: r[i].a = nd_range("file", 0, 2);
        r[i].ser = nd_bool("ser") ? 77 : 0;
        deps_add(&d, r[i].kind ? DEPS_TYPE_FILE_OUTDATED : DEPS_TYPE_FILE, r[i].fl, fname[r[i].a], r[i].ser); break;
      case 2: r[i].a = nd_range("file", 0, 2); r[i].b = nd_range("alias", 0, 2);
        deps_add_alias(&d, r[i].fl, fname[r[i].a], fname[r[i].b]); break;
      case 3: r[i].a = nd_range("txt", 0, NTXT - 1); deps_add_env(&d, r[i].fl, "K 1", txt(r[i].a)); break;
      case 4: r[i].a = nd_range("txt", 0, NTXT - 1); deps_add_sys_env(&d, r[i].fl, "K", txt(r[i].a)); break;
      case 5: r[i].a = nd_range("txt", 0, NTXT - 1); r[i].ser = nd_range("idx", 0, 1);
        deps_add(&d, DEPS_TYPE_NODE_VALUE, r[i].fl, txt(r[i].a), r[i].ser); break;
      case 6: deps_add(&d, DEPS_TYPE_OUTDATED, r[i].fl, "-", 0); break;
    }
  }
  ENSURE("roundtrip/counted", d.num_registered == (split < n ? n - split : n));
  deps_close(&d);
  ENSURE("roundtrip/readable", deps_open("rec", DEPS_OPEN_READONLY, &d) == 0);
  for (int i = 0; i < n; ++i) {
    char b[PATH_MAX], b2[PATH_MAX];
    static const char ty[] = { 'f', 'f', 'a', 'e', 's', 'v', 'x' };
    static const int64_t mt[] = { 1234567890123L, 999000L, -1 };
    ENSURE("roundtrip/record-present", deps_cur_next(&d));
    ENSURE("roundtrip/kind", d.type == ty[r[i].kind]);
    ENSURE("roundtrip/flags", d.flags == (r[i].fl ? r[i].fl : ' '));
    switch (r[i].kind) {
      case 0: ENSURE("roundtrip/file", strcmp(d.resource, full(r[i].a, b)) == 0 && d.serial == (r[i].a == 2 ? r[i].ser : mt[r[i].a])); break;
      case 1: ENSURE("roundtrip/outdated-file", strcmp(d.resource, full(r[i].a, b)) == 0 && d.serial == 0); break;
      case 2: ENSURE("roundtrip/alias", strcmp(d.resource, full(r[i].a, b)) == 0 && strcmp(d.alias, full(r[i].b, b2)) == 0 && d.serial == (r[i].b == 2 ? 0 : mt[r[i].b])); break;
      case 3: ENSURE("roundtrip/env", strcmp(d.alias, "K 1") == 0 && strcmp(d.resource, txt(r[i].a)) == 0); break;
      case 4: ENSURE("roundtrip/sysenv", strcmp(d.alias, "K") == 0 && strcmp(d.resource, txt(r[i].a)) == 0); break;
      case 5: ENSURE("roundtrip/value", strcmp(d.resource, txt(r[i].a)) == 0 && d.serial == r[i].ser); break;
      case 6: ENSURE("roundtrip/outdated", strcmp(d.resource, "-") == 0); break;
    }
  }
  ENSURE("roundtrip/nothing-invented", !deps_cur_next(&d));
  deps_close(&d);
}
void n_outdated(void) {
  if (!cwd[0]) { getcwd(cwd, sizeof(cwd)); mkdir("d", 0755); }
  static struct deps d;
  int kind = nd_range("kind", 0, 6);
  long t0[] = { 0, 1, 1500000000000L, 1500000000999L };
  static const char *vals[] = { 0, "", "a", "a ", "b\n", "\1x" };
  long t = t0[nd_range("t0", 0, 3)];
  unlink("other"); unlink("subj"); unlink("rec");
  touch("other", 5);
  int missing = 0, vi = 0, after = 0, known = 0;
  if (kind <= 2) {
    missing = nd_bool("missing-at-registration");
    if (!missing) touch("subj", t);
    else ASSUME(t == 0);
  } else ASSUME(t == 0);
  deps_open("rec", DEPS_OPEN_TRUNCATE, &d);
  switch (kind) {
    case 0: deps_add(&d, DEPS_TYPE_FILE, 0, "subj", 0); break;
    case 1: deps_add(&d, DEPS_TYPE_FILE_OUTDATED, 0, "subj", 0); break;
    case 2: deps_add_alias(&d, 0, "other", "subj"); break;
    case 3: case 4:
      vi = nd_range("value", 0, 5);
      known = kind == 3 && nd_bool("definedness-recorded");
      if (kind == 3) deps_add_env(&d, !known ? 0 : vals[vi] ? 'd' : 'u', "KEY", vals[vi] ? vals[vi] : ""); else deps_add_sys_env(&d, 0, "VF_KEY", vals[vi] ? vals[vi] : "");
      break;
    case 5: deps_add(&d, DEPS_TYPE_OUTDATED, 0, "subj", 0); break;
    case 6: deps_add(&d, DEPS_TYPE_NODE_VALUE, 0, "subj", 0); break;
  }
  deps_close(&d);
  /* what happens to the subject afterwards */
  long now = t; int gone = missing;
  if (kind <= 2) switch (nd_range("then", 0, 4)) {
    case 0: break;
    case 1: unlink("subj"); gone = 1; break;
    case 2: now = t + 1; touch("subj", now); gone = 0; break;
    case 3: now = t > 0 ? t - 1 : 0; touch("subj", now); gone = 0; break;
    case 4: touch("other", 2000000000000L); break;
  }
  else if (kind <= 4) after = nd_range("then", 0, 5);
  env_val = kind == 3 ? vals[after] : 0;
  if (kind == 4 && vals[after]) setenv("VF_KEY", vals[after], 1); else unsetenv("VF_KEY");
  deps_open("rec", DEPS_OPEN_READONLY, &d);
  ENSURE("outdated/record-present", deps_cur_next(&d));
  bool o = deps_cur_is_outdated(0, &d);
  deps_close(&d);
  long rec = kind == 1 || missing ? 0 : t;
  if (kind <= 2) ENSURE("outdated/file", o == (gone || now > rec));
  else if (kind <= 4) ENSURE("outdated/variable", o == (strcmp(vals[vi] ? vals[vi] : "", vals[after] ? vals[after] : "") != 0 || (known && !vals[vi] != !vals[after])));
  else ENSURE("outdated/others", o == (kind == 5));
}
#endif
