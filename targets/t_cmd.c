// Rules that run external commands (run, @{...}, check): what is started, when it counts as successful, and what is recorded.
//@ entry: p_exec props=C07,C09 functions=_run_on_resolve_exec native=n_cmds link=* forked defs=VF_RUN link=* unwind=13
//@ loop: node_run.c _run_on_resolve_exec 0 p_exec
//@   __CPROVER_assigns(nn, LAZY, g_args, g_last)
//@   __CPROVER_loop_invariant(LINV(nn) && g_args >= 0 && g_last == 0)
//@ entry: p_shell props=C07,C09 functions=_run_on_resolve_shell native=n_cmds link=* forked defs=VF_RUN,VF_SHELL unwind=13
//@ loop: node_run.c _run_on_resolve_shell 0 p_shell
//@   __CPROVER_assigns(nn, LAZY, g_sep, g_any, g_due, g_items, g_item, g_val[0], g_begun)
//@   __CPROVER_loop_invariant((nn == &CMD ? !g_begun && g_sep && LINVN(CMD.next) : g_begun && LINVN(nn)) && g_due == 0 && g_item == 0 && (g_any || g_sep))
//@ loop: node_run.c _run_on_resolve_shell 1 p_shell
//@   __CPROVER_assigns(iter.item, iter.len, g_sep, g_any, g_items, g_item)
//@   __CPROVER_loop_invariant(g_items >= 0 && g_item == 0 && (g_any || g_sep))
//@ entry: p_do_all props=C07 functions=_run_on_resolve_do native=n_cmds link=* forked defs=VF_RUN,VF_ALL rename=node_run.c:_run_on_resolve_exec,node_run.c:_run_on_resolve_shell unwind=13
//@ loop: node_run.c _run_on_resolve_do 0 p_do_all
//@   __CPROVER_assigns(nn, LAZY, g_kind)
//@   __CPROVER_loop_invariant(LINVN(nn) && g_kind == 0)
//@ entry: p_track props=C03 functions=_run_build native=n_cmds link=* forked defs=VF_RUN,VF_TRACK unwind=13
//@ loop: node_run.c _run_build 0 p_track
//@   __CPROVER_assigns(nn, LAZY, ILAZY, CH[0].child, CH[1].child, g_kind, g_fresh, g_pushed, r.node_val_deps.num)
//@   __CPROVER_loop_invariant(LINVN(nn) && g_fresh == 0 && g_ileft == 0 && g_pushed >= 0 && g_pushed <= 1000000000 && r.node_val_deps.num == g_pushed)
//@ loop: node_run.c _run_build 1 p_track
//@   __CPROVER_assigns(cn, ILAZY, g_fresh, g_pushed, r.node_val_deps.num)
//@   __CPROVER_loop_invariant(ILINV(cn) && g_fresh == 0 && g_pushed >= 0 && g_pushed <= 1000000000 && r.node_val_deps.num == g_pushed)
//@ entry: p_record props=C03,C04 functions=_run_on_resolve native=n_cmds link=* forked defs=VF_RUN,VF_REC rename=node_run.c:_run_on_resolve_do unwind=13
//@ loop: node_run.c _run_on_resolve 3 p_record
//@   __CPROVER_assigns(i, g_fresh, g_at, g_gotval)
//@   __CPROVER_loop_invariant(i >= 0 && i <= r->node_val_deps.num && g_fresh == 0)
//@ loop: node_run.c _run_on_resolve 4 p_record
//@   __CPROVER_assigns(i, g_fresh, g_at, g_cp)
//@   __CPROVER_loop_invariant(i >= 0 && i <= ctx->consumes.num && g_fresh == 0)
//@ loop: node_run.c _run_on_resolve 5 p_record
//@   __CPROVER_assigns(i, g_fresh, g_at, g_cp)
//@   __CPROVER_loop_invariant(i >= 0 && i <= ctx->consumes_foreach.num && g_fresh == 0)
//@ entry: p_proc props=C07,C08 functions=_subst_value_proc native=n_cmds link=* forked defs=VF_SUBST unwind=13
//@ loop: node_subst.c _subst_value_proc 0 p_proc
//@   __CPROVER_assigns(nn, LAZY, g_args, g_last)
//@   __CPROVER_loop_invariant(LINV(nn) && g_args >= 1 && g_last == 0)
//@ loop: node_subst.c _subst_value_proc 1 p_proc
//@   __CPROVER_assigns(i, __CPROVER_object_whole(val))
//@   __CPROVER_loop_invariant(i >= -1 && i < g_vlen && (i == g_vlen - 1 || val[i + 1] == 0) && val[g_vlen] == 0)
//@   __CPROVER_loop_invariant(CUT(g_k, g_ok) && CUT(g_m, g_om))
//@ entry: p_reset props=C30 functions=_subst_proc_foreach_reset native=n_cmds link=* forked defs=VF_SUBST,VF_RESET unwind=13
//@ loop: node_subst.c _subst_proc_foreach_reset 0 p_reset
//@   __CPROVER_assigns(nn, LAZY, FE.access_cnt, g_read)
//@   __CPROVER_loop_invariant(LINV(nn) && !g_freed && FE.access_cnt >= cnt && FE.access_cnt <= 1001001 && (g_read ? FE.access_cnt != cnt : FE.access_cnt == cnt) && N.impl == &g_old[0])
//@ entry: p_cached props=C03,C04 functions=_subst_value_proc_cache_on_resolve native=n_cmds link=* forked defs=VF_SUBST,VF_REC rename=node_subst.c:_subst_value_proc unwind=13
//@ loop: node_subst.c _subst_value_proc_cache_on_resolve 0 p_cached
//@   __CPROVER_assigns(i, g_fresh, g_at, g_gotval)
//@   __CPROVER_loop_invariant(i >= 0 && i <= r->node_val_deps.num && g_fresh == 0)
//@ entry: p_check props=C03,C04,C07 functions=_check_on_resolve native=n_cmds link=* forked defs=VF_CHECK,VF_REC unwind=13
//@ loop: node_check.c _check_on_resolve 0 p_check
//@   __CPROVER_assigns(nn, LAZY, g_args, g_last)
//@   __CPROVER_loop_invariant(LINV(nn) && g_args >= 0 && g_last == 0)
//@ loop: node_check.c _check_on_resolve 1 p_check
//@   __CPROVER_assigns(i, g_fresh, g_at, g_gotval)
//@   __CPROVER_loop_invariant(i >= 0 && i <= r->node_val_deps.num && g_fresh == 0)
//@ entry: n_cmds mode=native forked=60 link=* props=C07,C08,C09 functions=_run_on_resolve_exec,_run_on_resolve_shell,_subst_value_proc,_subst_value_proc_cache,_check_on_resolve,_spawn_arg_add nlimit=60 cost=9 N=2 NT=3
//@ assume: p_*: the program's own functions outside the rule file are used through their contracts (spawn.c: C07-C09, script.c: C03, deps.c: C01)
#ifdef VF_CBMC
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "env.h"
#include "script.h"
#include "spawn.h"
#include "deps.h"
#include "utils.h"
#include "xstr.h"
#include "pool.h"
#include "paths.h"
struct env g_env;
static struct unit U; static struct node N; static struct node_resolve R;
/* a list of values of arbitrary length: two nodes in turns, something which is no value between them or not */
static struct node CH[2], JK;
static int g_left, g_cur;
#define LAZY g_left, g_cur, CH[0].next, CH[1].next, JK.next
#define AT(p) ((p) == &CH[g_cur] || ((p) == &JK && JK.next == &CH[g_cur]))
#define LINV(p) (g_left >= 0 && (g_cur == 0 || g_cur == 1) && ((p) == 0 ? g_left == 0 : g_left > 0 && AT(p)))
#define LINVN(p) (g_left >= 0 && (g_cur == 0 || g_cur == 1) && ((p) == 0 ? g_left == 0 : g_left > 0 && (p) == &CH[g_cur]))
static struct node *list_first(int junk) {
  if (g_left == 0) return 0;
  if (!junk) return &CH[g_cur];
  JK.next = &CH[g_cur]; return &JK;
}
static void list_next(int junk) {
  --g_left; g_cur = !g_cur;
  CH[!g_cur].next = list_first(junk);
}
static void list_init(void) {
  g_left = nd_range("left", 0, 1000000); g_cur = nd_bool("cur");
  JK.type = NODE_TYPE_BAG; CH[0].type = NODE_TYPE_VALUE; CH[1].type = NODE_TYPE_SUBST;
}
static int g_args, g_did, g_code, g_rc, g_pp, g_destroyed, g_hout, g_herr, g_fresh, g_at, g_gotval, g_kind, g_opened, g_closed, g_unitdeps, g_self;
static char g_val[4], g_cmd[2], g_path[1], g_tmp[1], g_text0[1];
#ifdef VF_SHELL
static int g_sep, g_any, g_due, g_items, g_item, g_begun;
#endif
static const char *g_last; static struct node *NV = &N;
struct unit* unit_peek(void) { return &U; }
#define SP ((struct spawn*) g_text0)
static void *g_ud; static const char *g_exec;
struct spawn* spawn_create(const char *exec, void *ud) {
  ENSURE("command/started-once", !g_did && g_args == 0);
  g_exec = exec; g_ud = ud; g_args = 1; return SP;
}
void* spawn_user_data(struct spawn *s) { return g_ud; }
void spawn_env_path_prepend(struct spawn *s, const char *p) {
  ENSURE("command/search-path", s == SP && !g_did && (g_pp == 0 ? p == U.dir : p == U.cache_dir));
  ++g_pp;
}
void spawn_set_stdout_handler(struct spawn *s, void (*h)(char*, size_t, struct spawn*)) { ENSURE("command/output-taken-from-the-start", s == SP && !g_did); g_hout = h != 0; }
void spawn_set_stderr_handler(struct spawn *s, void (*h)(char*, size_t, struct spawn*)) { g_herr = h != 0; }
const char* spawn_arg_add(struct spawn *s, const char *a) {
  ENSURE("command/argument-before-start", s == SP && !g_did);
#ifdef VF_SHELL
  if (g_args == 2) ENSURE("shell/whole-text", g_left == 0 && g_due == 0);
  ENSURE("command/shell-takes-one-text", g_args == 1 ? a[0] == '-' && a[1] == 'c' && a[2] == 0 : g_args == 2 && a == g_text0);
#else
  ENSURE("command/each-value-is-passed", a == g_last && g_last != 0);
  g_last = 0;
#endif
  if (g_args < 1000000000) ++g_args;
  return a;
}
int spawn_do(struct spawn *s) {
  ENSURE("command/run-once", s == SP && !g_did && g_last == 0);
  g_did = 1; g_rc = nd_range("rc", 0, 200); g_code = nd_range("code", -1, 255);
  return g_rc;
}
int spawn_exit_code(struct spawn *s) { ENSURE("command/status-of-the-run", s == SP && g_did && !g_destroyed); return g_code; }
void spawn_destroy(struct spawn *s) { ENSURE("command/released-once", s == SP && g_did && !g_destroyed); g_destroyed = 1; }
static int g_allowed_fatal;
__attribute__((noreturn)) void node_fatal(int rc, struct node *n, const char *fmt, ...) {
  ENSURE("command/fatal-only-for-a-reason", rc != 0 && (g_allowed_fatal || (g_did && (g_rc != 0 || g_code != 0))));
  VF_END(); while (1);
}
#define SUCCESS (g_did == 1 && g_rc == 0 && g_code == 0 && g_destroyed && g_hout && g_herr)
static void cmd_init(void) {
  g_args = g_did = g_code = g_rc = g_pp = g_destroyed = g_hout = g_herr = g_fresh = g_kind = g_opened = g_closed = g_unitdeps = g_allowed_fatal = g_self = 0;
  g_last = 0; NV = &N;
  g_env.check.log = 0; g_env.verbose = 0;
  U.dir = g_path; U.cache_dir = g_tmp;
  R.n = &N; R.deps_path_tmp = g_tmp;
}
/* the record written after success */
static int g_ntrack, g_ncons, g_nfe, g_in_do;
#ifdef VF_CHECK
#define REC_AFTER SUCCESS
#else
#define REC_AFTER g_in_do
#endif
#ifdef VF_REC
static struct ulist *L_cons, *L_fe; static char *g_cp;
int deps_open(const char *p, int mode, struct deps *d) {
  ENSURE("record/only-after-success", p == g_tmp && mode == 0 && !g_opened && REC_AFTER);
  if (nd_bool("open-fails")) { g_allowed_fatal = 1; return 5; }
  g_opened = 1; return 0;
}
void deps_close(struct deps *d) { ENSURE("record/closed-when-complete", g_opened && !g_closed && g_unitdeps && g_fresh == 0); g_closed = 1; }
void node_add_unit_deps(struct node *n, struct deps *d) { ENSURE("record/unit", n == &N && g_opened && !g_closed); ++g_unitdeps; }
void* ulist_get(const struct ulist *l, unsigned i) {
  ENSURE("record/each-entry", g_fresh == 0 && i < l->num);
  g_at = i;
  if (l == &R.node_val_deps) { g_fresh = 1; return &NV; }
  ENSURE("record/lists", l == L_cons || l == L_fe);
  g_fresh = l == L_cons ? 2 : 3; g_cp = g_path;
  return &g_cp;
}
int deps_add(struct deps *d, char type, char flags, const char *res, int64_t serial) {
  ENSURE("record/open", g_opened && !g_closed);
  if (g_fresh == 4) ENSURE("record/value-with-its-number", type == DEPS_TYPE_NODE_VALUE && res == g_val && serial == g_at);
  else if (g_fresh == 2) ENSURE("record/consumed-file", type == DEPS_TYPE_FILE && flags == 0 && res == g_path);
  else if (g_fresh == 3) ENSURE("record/list-file", type == DEPS_TYPE_FILE && flags == 'f' && res == g_path);
  else { ENSURE("record/own-file", type == DEPS_TYPE_FILE && res == g_path && !g_self); g_self = 1; }
  g_fresh = 0;
  return 0;
}
#endif
static const char *rec_value(struct node *n) {
  ENSURE("record/tracked-value", g_fresh == 1 && n == &N);
  g_gotval = nd_bool("value");
  g_fresh = g_gotval ? 4 : 0;
  return g_gotval ? g_val : (char*) 0;
}

static struct node CMD;
static const char* arg_value(struct node *n) {
  if (n == &CMD) { ENSURE("command/name-first", !g_did && g_args == 0); if (nd_bool("none")) { g_allowed_fatal = 1; return 0; } g_cmd[0] = nd_char("cmd"); if (g_cmd[0] == 0) g_allowed_fatal = 1; return g_cmd; }
  ENSURE("command/values-in-order", g_left > 0 && n == &CH[g_cur] && g_last == 0 && !g_did);
  list_next(nd_bool("junk"));
  g_last = g_val;
  return g_val;
}
#if defined(VF_RUN)
#if defined(VF_ALL) || defined(VF_TRACK)
#ifdef VF_TRACK
static struct node IC[2]; static int g_ileft, g_icur, g_pushed; static struct node *g_icn;
#define ILAZY g_ileft, g_icur, g_icn, IC[0].next, IC[1].next
#define ILINV(p) (g_ileft >= 0 && (g_icur == 0 || g_icur == 1) && ((p) == 0 ? g_ileft == 0 : g_ileft > 0 && (p) == &IC[g_icur]))
#endif
static int vf_strcmp(const char *a, const char *b) {
  ENSURE("rule/parts-by-name", a == g_val);
#ifdef VF_TRACK
  if (b[0] == 'e') {
    ENSURE("track/each-part-completely", g_ileft == 0 && g_fresh == 0);
    g_kind = nd_range("part", 0, 2);
    g_ileft = g_kind ? nd_range("words", 0, 1000000) : 0; g_icur = 0;
    CH[g_cur].child = g_ileft > 0 ? &IC[0] : (struct node*) 0;
    list_next(0);
  }
#else
  if (b[0] == 'e') { ENSURE("rule/each-part", g_kind == 0); g_kind = nd_range("part", 0, 2); }
  if (b[0] == 's' && g_kind == 0) list_next(0);
#endif
  return b[0] == 'e' ? g_kind != 1 : g_kind != 2;
}
#define strcmp vf_strcmp
#endif
#ifdef VF_SHELL
struct xstr* xstr_create_empty(void) { return (struct xstr*) g_cmd; }
size_t xstr_size(struct xstr *x) { return g_any; }
void xstr_cat2(struct xstr *x, const char *s, size_t n) {
  if (g_item) { /* an item is due: a separator or the item itself */
    if (s == g_val + 1) { ENSURE("shell/item-separated", n == 1 && (g_sep || !g_any)); g_item = 0; g_sep = 0; g_any = 1; return; }
  }
  ENSURE("shell/separator", n == 1 && s[0] == ' ' && (g_due != 1));
  g_sep = 1; g_any = 1;
}
void xstr_cat(struct xstr *x, const char *s) { ENSURE("shell/value-once-and-separated", s == g_val && g_due == 1 && g_sep); g_due = 0; if (nd_bool("nonempty")) { g_any = 1; g_sep = 0; } }
char* xstr_ptr(struct xstr *x) { return g_text0; }
void xstr_destroy(struct xstr *x) { }
void vlist_iter_init(const char *v, struct vlist_iter *it) { ENSURE("shell/list", v == g_val && g_due == 2); g_items = nd_range("items", 0, 1000000); it->item = v; it->len = 0; g_due = 0; }
bool vlist_iter_next(struct vlist_iter *it) {
  ENSURE("shell/each-item", g_item == 0);
  if (g_items == 0) return false;
  --g_items; it->item = g_val + 1; it->len = 1; g_item = 1;
  return true;
}
const char* node_value(struct node *n) {
  ENSURE("shell/values-in-order", g_due == 0 && g_item == 0 && !g_did && g_args == 0);
  if (g_begun) { ENSURE("shell/values-in-order", g_left > 0 && n == &CH[g_cur]); list_next(0); }
  else ENSURE("shell/first-value-first", n == &CMD);
  g_val[0] = nd_char("v");
  g_due = is_vlist(g_val) ? 2 : 1;
  g_begun = 1;
  return g_val;
}
#elif defined(VF_REC)
const char* node_value(struct node *n) { return rec_value(n); }
#elif !defined(VF_ALL) && !defined(VF_TRACK)
const char* node_value(struct node *n) { return arg_value(n); }
#endif
#ifdef VF_ALL
static void _run_on_resolve_exec(struct node_resolve *r, struct node *ncmd);
static void _run_on_resolve_shell(struct node_resolve *r, struct node *ncmd);
#endif
#ifdef VF_REC
static void _run_on_resolve_do(struct node_resolve *r, struct node *n);
#endif
#ifdef VF_TRACK
static int g_always, g_resolved; static struct node_foreach FE; static int g_fe, g_seen_items; static struct node FEN, FV, FL;
struct node* node_find_parent_of_type(struct node *n, int type) { ENSURE("track/loop", g_fe && type == NODE_TYPE_FOREACH && n == &N); return &FEN; }
bool node_is_value_may_be_dep_saved(struct node *n) {
  if (n == &FL) {
    ENSURE("track/items-once", g_fe && !g_seen_items && g_fresh == 0);
    g_seen_items = 1; g_icn = n; g_fresh = nd_bool("items-tracked");
    return g_fresh;
  }
  ENSURE("track/each-word", g_ileft > 0 && n == &IC[g_icur] && g_fresh == 0);
  g_icn = n; --g_ileft; g_icur = !g_icur;
  IC[!g_icur].next = g_ileft > 0 ? &IC[g_icur] : (struct node*) 0;
  g_fresh = nd_bool("tracked");
  return g_fresh;
}
void ulist_push(struct ulist *l, const void *e) {
  ENSURE("track/word-kept", g_fresh == 1 && *(struct node**) e == g_icn);
  ASSUME(g_pushed < 1000000000);
  g_fresh = 0; ++g_pushed; ++l->num;
}
struct node_foreach* node_find_parent_foreach(struct node *n) { return g_fe ? &FE : (struct node_foreach*) 0; }
struct node* node_find_direct_child(struct node *n, int type, const char *v) { return g_always ? &CH[0] : (struct node*) 0; }
void ulist_destroy_keep(struct ulist *l) { }
void node_resolve(struct node_resolve *r);
#endif
#include "node_run.c"
#ifdef VF_TRACK
void node_resolve(struct node_resolve *r) {
  ENSURE("track/all-words", g_left == 0 && g_ileft == 0 && g_fresh == 0 && r->node_val_deps.num == g_pushed && !g_resolved);
  ENSURE("track/items-of-the-loop", !g_fe || g_seen_items);
  ENSURE("track/rule", r->n == &N && r->path == g_path && r->on_init != 0 && r->on_resolve != 0 && ((struct _run_on_resolve_ctx*) r->user_data)->fe == (g_fe ? &FE : (struct node_foreach*) 0));
  ENSURE("track/always", r->force_outdated == (N.post_build != 0 || g_always));
  g_resolved = 1;
}
static void pb(struct node *n) { }
void p_track(void) {
  VF_START();
  cmd_init(); list_init();
  g_ileft = g_icur = g_pushed = g_resolved = g_seen_items = 0;
  FEN.child = &FV; FV.next = &FL; FL.next = &N; FEN.impl = &FE;
  g_always = nd_bool("always"); g_fe = nd_bool("foreach");
  N.post_build = nd_bool("install") ? pb : 0;
  N.vfile = g_path; CH[0].value = CH[1].value = g_val;
  N.child = list_first(0);
  _run_build(&N);
  REACH("track");
  ENSURE("track/resolved", g_resolved);
}
#elif defined(VF_ALL)
static void run_part(struct node_resolve *r, struct node *c, int kind) {
  ENSURE("rule/each-command", r == &R && g_kind == kind && c == &JK && g_left > 0);
  g_kind = 0;
  list_next(0);
}
static void _run_on_resolve_exec(struct node_resolve *r, struct node *ncmd) { run_part(r, ncmd, 1); }
static void _run_on_resolve_shell(struct node_resolve *r, struct node *ncmd) { run_part(r, ncmd, 2); }
void p_do_all(void) {
  VF_START();
  cmd_init(); list_init();
  CH[0].value = CH[1].value = g_val; CH[0].child = CH[1].child = &JK;
  N.child = list_first(0);
  _run_on_resolve_do(&R, &N);
  REACH("all");
  ENSURE("rule/all-commands", g_left == 0 && g_kind == 0);
}
#elif defined(VF_REC)
static struct _run_on_resolve_ctx C;
static void _run_on_resolve_do(struct node_resolve *r, struct node *n) { ENSURE("record/commands-run-once", r == &R && n == &N && !g_in_do && !g_opened); g_in_do = 1; }
void p_record(void) {
  VF_START();
  cmd_init(); g_in_do = 0;
  R.user_data = &C; C.fe = 0; L_cons = &C.consumes; L_fe = &C.consumes_foreach;
  R.node_val_deps.num = nd_range("tracked", 0, 1000000); C.consumes.num = nd_range("consumed", 0, 1000000); C.consumes_foreach.num = nd_range("listed", 0, 1000000);
  _run_on_resolve(&R);
  REACH("record");
  ENSURE("record/complete", g_in_do && g_opened && g_closed && g_fresh == 0 && g_unitdeps == 1);
}
#elif defined(VF_SHELL)
void p_shell(void) {
  VF_START();
  cmd_init(); list_init();
  g_any = g_due = g_items = g_item = g_begun = 0; g_sep = 1;
  CMD.next = list_first(0);
  _run_on_resolve_shell(&R, &CMD);
  REACH("shell");
  ENSURE("command/success", SUCCESS && g_args == 3 && g_pp == 2 && g_left == 0);
}
#else
void p_exec(void) {
  VF_START();
  cmd_init(); list_init();
  CMD.next = list_first(nd_bool("junk"));
  _run_on_resolve_exec(&R, &CMD);
  REACH("exec");
  ENSURE("command/success", SUCCESS && g_exec == g_cmd && g_pp == 2 && g_left == 0 && g_last == 0);
}
#endif
#elif defined(VF_SUBST)
#ifdef VF_REC
#define strlen(s) 3
static const char* _subst_value_proc(struct node *n);
const char* node_value(struct node *n) { return rec_value(n); }
char* xstrdup(const char *s) { ENSURE("cached/empty", s[0] == 0); return g_val; }
static int g_wrote;
#define PICK(_1, _2, _3, _4, NAME, ...) NAME
#define pool_printf(p, f, a, b) (ENSURE("cached/place", (a) == U.cache_dir && (b) == g_cmd), g_path)
int utils_file_write_buf(const char *path, const char *buf, size_t len, bool append) {
  ENSURE("cached/output-kept-before-the-record", path == g_path && !append);  ENSURE("cached/output-kept-before-the-record", (buf == g_val || (N.impl == buf && buf[0] == 0)) && len == 3 && g_in_do && !g_opened);
  if (nd_bool("write-fails")) { g_allowed_fatal = 1; return 5; }
  g_wrote = 1; return 0;
}
#include "node_subst.c"
static const char* _subst_value_proc(struct node *n) { ENSURE("cached/run-once", n == &N && !g_in_do); g_in_do = 1; n->impl = nd_bool("output") ? g_val : (char*) 0; return n->impl; }
void p_cached(void) {
  VF_START();
  cmd_init(); g_in_do = g_wrote = 0; L_cons = L_fe = 0;
  R.node_val_deps.num = nd_range("tracked", 0, 1000000); R.path = g_cmd;
  _subst_value_proc_cache_on_resolve(&R);
  REACH("cached");
  ENSURE("cached/complete", g_in_do && g_wrote && g_opened && g_closed && g_fresh == 0 && g_self && g_unitdeps == 1);
}
#else
static char *g_out; static int g_vlen, g_k, g_m; static char g_ok, g_om;
#define CUT(k, o) (k >= g_vlen || (k <= i ? val[k] == o : val[k] == 0 && SPC(o)))
#define SPC(c) ((c) == 32 || (c) == '\t' || (c) == '\n' || (c) == '\v' || (c) == '\f' || (c) == '\r')
static struct node_foreach FE; static int g_fe;
#ifdef VF_RESET
static int g_read, g_freed; static char g_old[2];
const char* node_value(struct node *n) {
  ENSURE("reset/word", !g_freed);
  if (nd_bool("reads-the-item") && FE.access_cnt < 1000000) { ++FE.access_cnt; g_read = 1; }
  if (n != &JK) list_next(nd_bool("junk"));
  return g_val;
}
static void vf_free(void *p) { ENSURE("reset/only-the-kept-output", p == &g_old[0] && g_read && !g_freed && N.impl == &g_old[0]); g_freed = 1; }
#define free vf_free
#else
const char* node_value(struct node *n) { return arg_value(n); }
#endif
struct node_foreach* node_find_parent_foreach(struct node *n) { ENSURE("proc/own-loop", n == &N); return g_fe ? &FE : (struct node_foreach*) 0; }
struct xstr* xstr_create_empty(void) { return (struct xstr*) g_cmd; }
static int g_taken;
char* xstr_destroy_keep_ptr(struct xstr *x) { ENSURE("proc/output-after-the-run", g_did && g_rc == 0 && g_code == 0 && !g_taken); g_taken = 1; return g_out; }
static size_t vf_strlen(const char *s) { ENSURE("proc/length", s == g_out && g_taken); return g_vlen; }
#define strlen vf_strlen
#include "node_subst.c"
#ifdef VF_RESET
void p_reset(void) {
  VF_START();
  cmd_init(); list_init(); g_taken = g_read = g_freed = 0;
  g_fe = nd_bool("in-a-loop"); FE.access_cnt = nd_range("count", 0, 1000);
  N.impl = nd_bool("known") ? &g_old[0] : (char*) 0; int known = N.impl != 0;
  N.child = list_first(nd_bool("junk"));
  _subst_proc_foreach_reset(&N);
  REACH("reset");
  ENSURE("reset/every-word-looked-at", !g_fe || !known || g_left == 0);
  ENSURE("reset/dropped-when-it-uses-the-item", known ? (g_fe && g_read ? g_freed && N.impl == 0 : !g_freed && N.impl == &g_old[0]) : !g_freed && N.impl == 0);
}
#endif
void p_proc(void) {
  VF_START();
  g_fe = 0;
  cmd_init(); list_init(); g_taken = 0;
  int cap = nd_range("cap", 1, 1 << 30);
  g_vlen = nd_range("len", 0, cap - 1);
  g_out = malloc(cap); g_out[g_vlen] = 0;
  g_m = nd_range("m", 0, g_vlen); g_k = nd_range("k", 0, g_m);
  g_ok = g_out[g_k]; g_om = g_out[g_m];
  ASSUME(g_k == g_vlen || g_ok != 0); ASSUME(g_m == g_vlen || g_om != 0);
  CMD.next = list_first(nd_bool("junk"));
  N.child = &CMD;
  char c0[2] = "x";
  N.impl = nd_bool("known") ? &c0[0] : (char*) 0; int known = N.impl != 0;
  const char *v = _subst_value_proc(&N);
  REACH("proc");
  if (known) { ENSURE("proc/once", v == c0 && !g_did && g_args == 0); return; }
  if (g_args == 0) { ENSURE("proc/no-command", v[0] == 0 && g_allowed_fatal); return; }
  ENSURE("command/success", SUCCESS && g_exec == g_cmd && g_left == 0 && g_last == 0 && g_taken);
  ENSURE("proc/value-is-the-output", v == g_out && N.impl == g_out);
  ENSURE("proc/text", g_out[g_k] == g_ok || (g_out[g_k] == 0 && SPC(g_ok)));
  ENSURE("proc/only-trailing-space-cut", g_out[g_k] == g_ok || g_m == g_vlen || SPC(g_om));
}
#endif
#elif defined(VF_CHECK)
const char* node_value(struct node *n) { return g_did ? rec_value(n) : arg_value(n); }
#include "node_check.c"
void p_check(void) {
  VF_START();
  cmd_init(); list_init(); L_cons = L_fe = 0;
  R.node_val_deps.num = nd_range("tracked", 0, 1000000);
  R.user_data = &U; U.n = &N; U.impl = g_path; N.child = list_first(nd_bool("junk"));
  _check_on_resolve(&R);
  REACH("check");
  ENSURE("command/success", SUCCESS && g_exec == g_path && g_left == 0 && g_last == 0);
  ENSURE("record/complete", g_opened && g_closed && g_fresh == 0 && g_self && g_unitdeps == 1);
}
#endif
#else
#include "vf_build.h"
/* every kind of rule that runs a command, every way the command may end, arguments of every form */
static int g_kind, g_code, g_na, g_a[3], g_which;
static const struct { const char *text, *args[3]; } forms[] = {
  { "a", { "a" } }, { "'b  c'", { "b  c" } }, { "${L}", { "x", "y" } }, { "${U}", { 0 } }, { "''", { 0 } }, { "${E}", { "v w" } },
  { "^{p ${E}}", { "pv w" } },
};
#define NF 7
static int vb_cmd(int argc, char **argv, const char *name, void (*out)(const char *buf, size_t n)) {
  const char *b = strrchr(name, '/') ? strrchr(name, '/') + 1 : name;
  if (strcmp(b, "show") == 0) { snprintf(vb->seen + 1000, 1000, "%s", argc > 1 ? argv[1] : ""); return 0; }
  int second = g_kind <= 1 && vb->cmds == 2;
  if (!second) {
    size_t n = 0;
    for (int i = g_kind == 1 ? 2 : 1; i < argc; ++i) n += snprintf(vb->seen + n, 900 - n, "[%s]", argv[i]);
    if (g_kind == 1) ENSURE("command/shell", strcmp(name, "/bin/sh") == 0 && argc == 3 && strcmp(argv[1], "-c") == 0);
  } else vb->seen[2000] = 1;
  if (g_kind == 2 || g_kind == 3) out(" o u\tt \n\n", 9);
  return second == g_which ? g_code : 0;
}
static void squeeze(char *s) { char *d = s; for (; *s; ++s) if (!(*s == ' ' && (s[1] == ' ' || s[1] == ']' || d[-1] == '['))) *d++ = *s; *d = 0; }
void n_cmds(void) {
  char t[4096] = "", want[1000] = ""; size_t n = 0, w = 0;
  vb_start();
  g_kind = nd_range("rule", 0, 4);
  static const int codes[] = { 0, 1, 255, 256 + 9, 256 + 11, 1000 + ENOENT, 1000 + EAGAIN };
  g_code = codes[nd_range("ends", 0, 6)];
  g_which = g_kind <= 1 ? nd_bool("second-command") : 0;
  g_na = nd_range("arguments", 0, g_code ? 1 : VF_N);
  n += sprintf(t + n, "set { L x y }\n");
  n += sprintf(t + n, g_kind == 0 ? "run {\n exec { gen " : g_kind == 1 ? "run {\n shell { gen " : g_kind == 2 ? "run {\n always\n exec { show @{ gen " :
    g_kind == 3 ? "run {\n always\n exec { show @@{ gen " : "check {\n c.sh { ");
  if (g_kind == 1) w += sprintf(want + w, "[gen");
  for (int i = 0; i < g_na; ++i) {
    int f = g_a[i] = nd_range("form", 0, NF - 1);
    ASSUME(g_kind != 4 || f != 2); /* set is evaluated after checks */
    n += sprintf(t + n, "%s ", forms[f].text);
    for (int k = 0; k < 3 && forms[f].args[k]; ++k) w += sprintf(want + w, g_kind == 1 ? " %s" : "[%s]", forms[f].args[k]);
  }
  if (g_kind == 1) w += sprintf(want + w, "]");
  n += sprintf(t + n, g_kind == 0 ? "}\n exec { gen2 }\n}\n" : g_kind == 1 ? "}\n shell { gen2 }\n}\n" : g_kind == 4 ? "}\n}\n" : "} }\n}\n");
  mkdir(".autark", 0755); vb_file(".autark/c.sh", VB_T0, "#!/bin/sh\n"); chmod(".autark/c.sh", 0755);
  vb_file("Autark", VB_T0, "%s", t);
  int rc = vb_build("-DE=v w", 0);
  if (g_kind == 1) { squeeze(vb->seen); squeeze(want); }
  ENSURE("command/arguments", strcmp(vb->seen, want) == 0);
  ENSURE("command/failure-ends-the-build", (rc == 0) == (g_code == 0));
  if (g_kind <= 1) ENSURE("command/next-only-after-success", vb->seen[2000] == (g_code == 0 || g_which == 1));
  if ((g_kind == 2 || g_kind == 3) && g_code == 0) ENSURE("command/output-is-the-value", strcmp(vb->seen + 1000, " o u\tt") == 0);
  int c0 = vb->cmds;
  rc = vb_build("-DE=v w", 0);
  if (g_code) ENSURE("command/run-again-after-failure", rc != 0 && vb->cmds > 0 && (g_kind > 1 || vb->cmds == c0));
  else ENSURE("command/skipped-after-success", rc == 0 && vb->cmds == (g_kind == 2 ? 2 : g_kind == 3 ? 1 : 0));
  if (g_kind == 3 && !g_code) ENSURE("command/cached-output-is-the-value", strcmp(vb->seen + 1000, " o u\tt") == 0);
}
#endif
