// Compile rules: which sources are compiled, how many compilers run at a time, and what is recorded about each source.
//@ entry: n_hist mode=native forked=60 link=* props=C05 functions=_cc_on_resolve,_cc_build,_cc_setup,_cc_on_build_source,_cc_deps_MMD_add,node_resolve nlimit=60 cost=9 N=1 NT=2
//@ entry: n_jobs mode=native forked=60 link=* props=C05,C06 functions=_cc_on_resolve,_cc_on_build_source nlimit=60 cost=9 N=4 NT=5
#ifdef VF_CBMC
#else
#include "vf_build.h"
/* the compiler: reads the source and the files it includes ("#name" lines), writes the object file and the list of what it read */
static int g_nsrc, g_fail[8], g_how, g_seen[8], g_cc, g_fl, g_ver[16], g_live;
static const char *hdrs[] = { "h", "sub/im pl.c", "x#$y" };
static int g_inc[8][3];
static int vb_cmd(int argc, char **argv, const char *name, void (*out)(const char *buf, size_t n)) {
  const char *src = 0, *obj = 0, *fl = "";
  for (int i = 1; i < argc; ++i) {
    if (strcmp(argv[i], "-c") == 0) src = argv[++i];
    else if (strcmp(argv[i], "-o") == 0) obj = argv[++i];
    else if (argv[i][0] == '-' && argv[i][1] == 'D') fl = argv[i];
  }
  ENSURE("compile/source-and-object", src && obj && strcmp(src + strlen(src) - 2, ".c") == 0 && strlen(src) > 4);
  int k = src[strlen(src) - 3] - 'a';
  ENSURE("compile/source-of-the-rule", k >= 0 && k < g_nsrc);
  ENSURE("compile/object-of-the-source", strlen(obj) >= 3 && obj[strlen(obj) - 3] == 'a' + k && strcmp(obj + strlen(obj) - 2, ".o") == 0);
  vb->seen[k]++;
  char b[200], t[2000], d[2000]; size_t n = 0, m = 0;
  if (g_fail[k]) return g_how == 0 ? 1 : g_how == 1 ? 256 + 9 : 1000 + ENOENT;
  if (vb_read(src, b, sizeof(b)) < 0) return 1;
  n += sprintf(t + n, "%s %s %s", name, fl, b);
  m += sprintf(d + m, "%s: %s", obj, src);
  for (int h = 0; h < 3; ++h) if (g_inc[k][h]) {
    char p[300]; snprintf(p, sizeof(p), "../%s", hdrs[h]);
    if (vb_read(p, b, sizeof(b)) < 0) return 1;
    n += sprintf(t + n, " %s", b);
    m += sprintf(d + m, h == 1 ? " \\\n  " : " ");
    for (char *c = p; *c; ++c) { if (*c == ' ' || *c == '#') d[m++] = '\\'; if (*c == '$') d[m++] = '$'; d[m++] = *c; }
  }
  m += sprintf(d + m, "\n");
  vb_file(obj, 0, "%s", t);
  char dp[300]; snprintf(dp, sizeof(dp), "%.*s.d", (int) strlen(obj) - 2, obj);
  vb_file(dp, 0, "%.*s", (int) m, d);
  return 0;
}
static const char *ccs[] = { "-DCC=cc1", "-DCC=cc2" }, *fls[] = { "-DFL=-Da", "-DFL=-Db", "-DFL=-Da -O2" };
static void src_file(int k, long ms) { char p[8]; sprintf(p, "%c.c", 'a' + k); vb_file(p, ms, "%c%d", 'a' + k, g_ver[k]); }
static void hdr_file(int h, long ms) { vb_file(hdrs[h], ms, "h%d.%d", h, g_ver[8 + h]); }
static void object_is_current(int k) {
  char p[40], b[2000], t[2000]; size_t n = 0;
  sprintf(p, "autark-cache/%c.o", 'a' + k);
  ENSURE("compile/object-there", vb_read(p, b, sizeof(b)) >= 0);
  n += sprintf(t + n, "%s %s %c%d", ccs[g_cc] + 5, g_fl == 1 ? "-Db" : "-Da", 'a' + k, g_ver[k]);
  for (int h = 0; h < 3; ++h) if (g_inc[k][h]) n += sprintf(t + n, " h%d.%d", h, g_ver[8 + h]);
  ENSURE("compile/object-is-current", strcmp(b, t) == 0);
}
static void setup(int n, int form) {
  vb_start();
  g_nsrc = n; memset(g_fail, 0, sizeof(g_fail)); memset(g_ver, 0, sizeof(g_ver)); memset(g_inc, 0, sizeof(g_inc)); g_cc = g_fl = g_how = 0;
  g_inc[0][0] = g_inc[1][0] = g_inc[1][1] = g_inc[1][2] = 1;
  mkdir("sub", 0755);
  for (int i = 0; i < n; ++i) src_file(i, VB_T0);
  for (int i = 0; i < 3; ++i) hdr_file(i, VB_T0);
  char s[100] = ""; for (int i = 0; i < n; ++i) sprintf(s + strlen(s), " %c.c", 'a' + i);
  if (form == 0) vb_file("Autark", VB_T0, "set { SRCS%s }\ncc {\n ${SRCS}\n ${FL}\n}\n", s);
  else if (form == 1) vb_file("Autark", VB_T0, "set { SRCS%s }\ncc {\n ${SRCS}\n ${FL}\n ${CC}\n}\n", s);
  else vb_file("Autark", VB_T0, "set { SRCS%s }\ncxx {\n ${SRCS}\n ${FL}\n ${CC}\n objects { OB }\n}\n", s);
}
static void build_and_check(int *need, int jobs) {
  char j[16]; sprintf(j, "%d", jobs);
  int fails = 0, cnt = 0;
  memset(vb->seen, 0, 64);
  int rc = vb_build(ccs[g_cc], fls[g_fl], "-J", j, 0);
  for (int i = 0; i < g_nsrc; ++i) {
    ENSURE("compile/exactly-what-is-needed", vb->seen[i] == (need[i] ? 1 : 0));
    cnt += need[i] != 0;
    if (need[i] && g_fail[i]) fails++; else { need[i] = 0; object_is_current(i); }
  }
  ENSURE("compile/failure-fails-the-build", (rc != 0) == (fails > 0));
  ENSURE("jobs/limit", vb->maxrun <= jobs);
  ENSURE("jobs/used", cnt == 0 || (fails && g_how == 2) || vb->maxrun == (cnt < jobs ? cnt : jobs));
  ENSURE("jobs/all-waited-for", vb->nrun == 0 && vb->waits == (g_how == 2 ? cnt - fails : cnt));
}
void n_hist(void) {
  int need[8], n = 3;
  int form = nd_range("form", 0, 2);
  setup(n, form);
  int jobs = nd_range("jobs", 1, 3);
  vb_wait_order = nd_range("order", 0, 1);
  ASSUME(form == 0 || jobs == 2);
  for (int i = 0; i < n; ++i) need[i] = 1;
  g_how = nd_range("how", 0, 2);
  ASSUME(form == 0 || g_how == 0);
  int fails = nd_range("fails-first", 0, n);
  if (fails < n) g_fail[fails] = 1;
  build_and_check(need, jobs);
  for (int s = 0; s < VF_N; ++s) {
    int op = nd_range("change", 0, 10);
    long ms = VB_T0 + 1 + s;
    switch (op) {
      case 0: break;
      case 1: case 2: case 3: ++g_ver[op - 1]; src_file(op - 1, ms); need[op - 1] = 1; break;
      case 4: case 5: case 6: ++g_ver[8 + op - 4]; hdr_file(op - 4, ms); for (int i = 0; i < n; ++i) if (g_inc[i][op - 4]) need[i] = 1; break;
      case 7: g_fl = (g_fl + 1) % 3; for (int i = 0; i < n; ++i) need[i] = 1; break;
      case 8: g_cc = !g_cc; for (int i = 0; i < n; ++i) need[i] = 1; break;
      case 9: vb_time("Autark", ms); for (int i = 0; i < n; ++i) need[i] = 1; break;
      case 10: if (g_inc[2][0]) ASSUME(0); g_inc[2][0] = 1; ++g_ver[2]; src_file(2, ms); need[2] = 1; break; /* now includes a file */
    }
    int f = nd_range("fails", 0, 4); /* 0: none, 1..3: that one, 4: as before */
    if (f < 4) { memset(g_fail, 0, sizeof(g_fail)); if (f) { ASSUME(need[f - 1]); g_fail[f - 1] = 1; } }
    else { int any = 0; for (int i = 0; i < n; ++i) any |= g_fail[i]; ASSUME(any); }
    build_and_check(need, jobs);
  }
  memset(g_fail, 0, sizeof(g_fail));
  build_and_check(need, jobs);
  build_and_check(need, jobs);
}
/* every order in which compilers end, every set of failures, every limit */
void n_jobs(void) {
  int need[8], n = VF_N;
  setup(n, 0);
  int jobs = nd_range("jobs", 1, n + 1);
  vb_wait_order = 2;
  for (int i = 0, left = n; i < n - 1; ++i, --left) vb_pick[i] = jobs > 1 ? nd_range("ends", 0, (left < jobs ? left : jobs) - 1) : 0;
  g_how = nd_range("how", 0, 2);
  for (int i = 0; i < n; ++i) { g_fail[i] = nd_bool("fails"); need[i] = 1; }
  build_and_check(need, jobs);
  vb_wait_order = 0;
  build_and_check(need, jobs);
  memset(g_fail, 0, sizeof(g_fail));
  build_and_check(need, jobs);
  build_and_check(need, jobs);
}
#endif
